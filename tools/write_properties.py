#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
US="UnicodeData/UnicodeSet.py"
p("C01","Set algebra of UnicodeSet equals mathematical set algebra",
  "For any two UnicodeSets A and B, union, intersection, difference and symmetric difference - as named methods, as the operators | & - ^, as the in-place operators |= &= -= ^= and as addAll/retainAll/removeAll/complementAll - and the complement of a set contain exactly the code points the corresponding mathematical operation on the two sets of code points contains, also when A and B are the same object. The named non-mutating methods and the binary operators leave both operands unchanged, the mutating ones change only the receiver and return it, and no two sets ever share storage afterwards.",
  ["inputs","histories"],"every pair of sets over U+0000..U+10FFFF, including empty, full, adjacent, overlapping, nested, aliased operands",
  "tests/test_unicodeSet.py tries a few dozen hand-picked range pairs; the merge loops have 12 branches whose correctness depends on how the boundaries of the two operands interleave, which is unbounded.",
  [US],[("three-way merge of inversion lists","UnicodeSet._addList/_retainList/_exclusiveOrList"),("operator and named methods","UnicodeSet.union .. __ixor__, complement()")],
  ["UnicodeSet.union/intersection/difference/symmetric_difference","UnicodeSet.__or__ ...","UnicodeSet.contains","UnicodeSet.getRanges"],
  [dict(name="list",meaning="inversion list: alternating start / limit, terminated by 0x110000",where=US)])
p("C02","UnicodeSet is always in canonical form; equality is set equality",
  "After construction and after any sequence of operations a UnicodeSet consists of ascending, disjoint, non-empty, non-adjacent ranges inside U+0000..U+10FFFF. Consequently two sets compare equal exactly when they contain the same code points, however each was built, and the text form of equal sets is the same.",
  ["histories","inputs"],"every history of constructor, add/remove/retain/complement (single, range, set), clear and algebra operations with arbitrary integer arguments",
  "The tests compare lists after one or two operations on a few values; canonicity has to survive every history, and a non-canonical list often still answers the membership tests that are checked.",
  [US],[("boundary handling of the terminator 0x110000 and of adjacent ranges","UnicodeSet.add, addRange, _addList, __init__, complement")],
  ["UnicodeSet.__eq__","UnicodeSet.getRanges","UnicodeSet.__str__"],
  [dict(name="list",meaning="strictly increasing, first element >= 0, last element == 0x110000, no other element >= 0x110000",where=US)])
p("C03","Mutators of UnicodeSet change exactly the addressed code points",
  "Constructing from a code point or range, add, addRange, remove, removeRange, retain, retainRange, complement(cp), complement(range), complementRange and clear change membership of exactly the code points they address and of no other; arguments outside the code space are pinned to its nearest end, an empty range adds, removes and complements nothing and retains nothing. Each of them returns the receiver, so that calls can be chained.",
  ["inputs","histories"],"every set and every integer (or pair of integers) argument, including negative, U+10FFFF and beyond, and inverted ranges",
  "The tests call each mutator on a handful of mid-range values; single-code-point ranges, the top code point, adjacency and values outside the code space decide the outcome.",
  [US],[("pinning","_pinCodePoint"),("in-place insert/merge","UnicodeSet.add"),("fast path","UnicodeSet.addRange")],
  ["return value","UnicodeSet.contains","UnicodeSet.getRanges"])
p("C04","All UnicodeSet queries describe the same set",
  "contains and the in operator (code point and range), size, getRangeCount/getRangeStart/getRangeEnd, getRanges, iteration, indexOf and charAt all describe one and the same set: iteration yields each member once in ascending order, size is their number, charAt(i) is the i-th member and indexOf its inverse, and both give None - contains gives False - for anything that is not a member or not a valid index. No query changes the set.",
  ["inputs"],"every set, every integer code point and index",
  "The tests sample a few code points of a few sets; the binary search and the running offsets depend on list length, parity and position.",
  [US],[("binary search","UnicodeSet._findCodePoint"),("offset scan","UnicodeSet.indexOf, charAt")],
  ["UnicodeSet.contains","size","indexOf","charAt","__iter__","getRanges"])
p("C05","UTrie2 lookup returns the stored value for every code point",
  "For every well-formed UTrie2 and every integer c >= 0, get(c) is the value the ICU trie format assigns to c: the two-stage BMP index with the separate block for lead surrogate code points, the three-stage index for supplementary code points below highStart, the high value from highStart to U+10FFFF inclusive, and the error value above U+10FFFF. It never reads outside the trie arrays and does not modify the trie.",
  ["inputs","configurations"],"every well-formed trie and every code point",
  "Tests look up about a hundred characters in four shipped tries; the branch taken depends on code point ranges (surrogates, highStart, the last code point) rarely sampled, and no other trie is tried.",
  ["UnicodeData/Utrie2.py"],[("index arithmetic","UTrie2.indexRaw/indexFromSupp/indexFromCodePoint/get")],["UTrie2.get","every CharProps/BidiProps/CaseProps accessor"])
p("C06","UTrie2 enumeration partitions the range and agrees with lookup",
  "For every well-formed UTrie2, any 0 <= start <= limit <= 0x110000 and any value function f, enumerator(start, limit, f) yields non-empty consecutive ranges that cover exactly start..limit-1, adjacent ranges carry different values, and every code point c in a yielded range has value f(get(c)). It terminates.",
  ["inputs","configurations"],"every well-formed trie, every start/limit pair, every value function",
  "The enumerator tests walk the shipped tries once from 0 and only compare a few ranges; block skipping, null blocks, surrogates and unaligned starts depend on trie layout.",
  ["UnicodeData/Utrie2.py"],[("block walk with previous-block shortcuts","UTrie2.enumerator")],["UTrie2.enumerator","UTrie2.get"])
p("C07","CPTrie decoding and lookup return the stored value for every code point",
  "For every well-formed serialized code point trie (fast or small type, 8, 16 or 32 bit values, 16 or 18 bit data indexes), createFromData recovers exactly its header fields, index and data arrays, and get(c) for every integer c >= 0 is the value the ICU UCPTrie format assigns to c, including the high value range up to U+10FFFF and the error value above it.",
  ["inputs","configurations"],"every well-formed serialized trie and every code point",
  "No runnable test decodes a serialized trie, and the 18-bit index path, the small type and 8/32 bit values do not occur in the shipped table at all.",
  ["UnicodeData/CPTrie.py"],[("header decoding","CPTrie.createFromData"),("multi-stage index","CPTrie.fastIndex/internalSmallIndex/smallIndex/cpIndex/get")],["CPTrie.get","CPTrie.createFromData","Normalizer2","LayoutProps"])
p("C08","CPTrie enumeration partitions the range and agrees with lookup",
  "For every well-formed code point trie and any 0 <= start <= limit <= 0x110000, enumerator(start, limit) yields non-empty consecutive ranges that cover exactly start..limit-1, adjacent ranges carry different values, and every code point c in a yielded range has value get(c). It terminates.",
  ["inputs","configurations"],"every well-formed trie (both types, with or without null blocks, 18-bit indexes) and every start/limit pair",
  "The only tests of it cannot run without the ICU data file, and the layout of one trie exercises only a few of the skip paths.",
  ["UnicodeData/CPTrie.py"],[("block walk","CPTrie.enumerator")],["CPTrie.enumerator","CPTrie.get"])
CP="UnicodeData/CharProps.py"
p("C09","Every character property accessor decodes its own field",
  "For every code point, general category, age, block, script, East Asian width, line/sentence/word/grapheme-cluster break, decomposition type and each binary property (emoji flags included) returned by the public accessors equal the value of that property's own bit field in the packed property words stored for the code point, and depend on no other field. Script codes stored indirectly (with Common, Inherited or other extensions) resolve to the script itself, values above U+10FFFF give the invalid script code, and a property column that does not exist gives 0.",
  ["inputs","configurations"],"every packed property word (all 2^32 values) and every code point",
  "The tests check a few characters per property; a wrong mask or shift is visible only for values that set the neighbouring bits.",
  [CP,"UnicodeData/uprops_h.py"],[("mask and shift","ageFromProps, scriptFromVecIndex, blockFromVecIndex, ... binaryPropFromVecIndex")],["CharProps.get*","CharProps.is*"])
p("C10","Numeric type and value decoding is exact for every encoded value",
  "For every encoded numeric type-value, the numeric type (none, decimal, digit, numeric) and numeric value reported are the ones the ICU encoding defines - decimal digits, other digits, small integers, fractions, powers of ten, base-60 integers, twentieths and thirty-seconds - and None for no value or reserved encodings; digitValue is the decimal digit value and -1 for everything else. Over the shipped data this is the Numeric_Type and Numeric_Value of Unicode 13.0 for every code point.",
  ["inputs"],"all 1024 encodings and every code point",
  "Tests check about twenty characters; most encodings (large integers with each exponent, base 60, both fraction families) appear on a handful of characters.",
  [CP],[("range-coded decoding","numericValueFromProps, numericTypeFromProps, digitValue")],["getNumericType","getNumericValue","digitValue"])
p("C11","Shipped property tables give the Unicode 13.0 value for every code point",
  "For every code point U+0000..U+10FFFF the general category, age, block, script, East Asian width, decomposition type, line/word/sentence/grapheme break, and binary properties reported from the shipped tables are those of Unicode 13.0.0, the version the package declares. Unassigned, surrogate, private-use, noncharacter and last code points included.",
  ["inputs"],"all 1,114,112 code points",
  "The exhaustive test needs network and the ICU data file; the runnable tests check a few hundred code points.",
  [CP,"UnicodeData/CharPropsData.py"],[("tables and tries","CharPropsData.py, propsTrie, propsVectorTrie")],["CharProps.get*","CharProps.is*"])
p("C12","Character class predicates equal their defining category sets",
  "For every code point, isLower, isUpper, isTitle, isDigit, isalpha, isalnum, isDefined, isbase, iscntrl, isISOControl, isspace, isJavaSpaceChar, isWhiteSpace, isBlank, isUWhiteSpace, isAlphabetic, isPrint, isgraph, ispunct, isHexDigit, isIDStart, isIDPart, isIDIgnorable, isJavaIDStart, isJavaIDPart and the POSIX variants are true exactly for the general categories and special code points that the ICU functions of the same meaning define.",
  ["inputs","configurations"],"every code point and every general category assignment",
  "The tests probe one or two characters per predicate; each predicate is a union of up to eight categories plus special code points.",
  [CP,"UnicodeData/GeneralCategories.py"],[("category masks","gcMask and GC_*_MASK, is* functions")],["CharProps.is*"])
CA="UnicodeData/CaseProps.py"
p("C13","Simple case mappings follow the case data and Unicode 13.0 for every code point",
  "For every code point c, toLower(c), toUpper(c) and toTitle(c) are the simple case mappings that the packed case data (inline delta, or exception slots, single or double width, signed delta) encodes, which for the shipped data are those of Unicode 13.0 (except U+0130, whose simple lowercase is given as defined by the Unicode data); every result is a code point and characters without a mapping map to themselves.",
  ["inputs","configurations"],"every packed case word, exception layout and code point",
  "Tests check around thirty characters; double-width slots, negative deltas and missing title slots occur on few characters.",
  [CA,"UnicodeData/CasePropsData.py"],[("delta and exception slots","toLower/toUpper/toTitle, getSlotValue, slotOffset")],["CaseProps.toLower","toUpper","toTitle"])
p("C14","Full case mappings return the complete special-casing string",
  "For every code point c, toFullLower(c), toFullUpper(c) and toFullTitle(c) are the unconditional full case mappings (SpecialCasing and simple mappings combined) the case data encodes, which for the shipped data are those of Unicode 13.0: all code units of the stored mapping, in order, of the requested case and no other. Code points without a full mapping give the one-character string of the simple mapping.",
  ["inputs","configurations"],"every code point and every layout of the four packed mapping lengths",
  "Tests check a few ligatures and sharp s; the string offset is the sum of up to three preceding lengths and slot widths.",
  [CA,"UnicodeData/CasePropsData.py"],[("length-packed strings","toFullLower, toUpperOrTitle")],["CaseProps.toFullLower","toFullUpper","toFullTitle"])
p("C15","Bidi, mirroring, bracket and joining properties are correct everywhere",
  "For every code point the bidi class, mirrored flag, bidi-control and join-control flags, joining type, joining group, paired bracket type, paired bracket and mirror glyph decode the packed bidi data and equal those of Unicode 13.0. Mirroring and bracket pairing are involutions: the mirror of the mirror of c is c, a bracket's pair has c as its pair and the opposite bracket type, and code points without mirror or bracket map to themselves.",
  ["inputs","configurations"],"every code point, every packed word, every sorted mirror table",
  "Tests sample a few dozen code points; the escape value in the mirror delta leads to a table search whose result depends on table order and position.",
  ["UnicodeData/BidiProps.py","UnicodeData/BidiPropsData.py"],[("signed delta and mirror table","getMirrorFromProps, getMirrorDeltaFromProps"),("two joining group arrays","getJoiningGroup")],["BidiProps.get*","BidiProps.is*"])
p("C16","Decompositions are the canonical decompositions of Unicode",
  "For every code point, getDecomposition is the full canonical decomposition and getRawDecomposition the one-step canonical decomposition of Unicode (None when there is none), including the arithmetic Hangul syllable decompositions, whose composition gives back the syllable. Inert, lead-surrogate, unassigned and combining code points have none.",
  ["inputs","configurations"],"every code point, for the canonical (NFC) data; every Hangul syllable",
  "The normalizer tests cannot run without the ICU data file and would compare only samples.",
  ["UnicodeData/Normalizer2.py","UnicodeData/Norm2NFCData.py"],[("norm16 thresholds","Normalizer2.getDecomposition/getRawDecomposition"),("Hangul arithmetic","hangulDecomposition/rawHangulDecomposition")],["Normalizer2.getDecomposition","Normalizer2.getRawDecomposition"])
p("C17","Normalization data access decodes every kind of norm16 entry",
  "For any normalization data in the ICU format, getDecomposition and getRawDecomposition decode every kind of entry as ICU does: no decomposition, algorithmic one-way delta mappings (followed by a lookup of the target), Hangul, and stored mappings with or without a combining-class word and with or without a separate raw mapping; stored UTF-16 mappings come out as the string of code points they encode, surrogate pairs joined, and a mapping to nothing as the empty string from getDecomposition and as None from getRawDecomposition. Data loaded from a data file and from the built-in tables behave the same.",
  ["configurations","inputs"],"every well-formed index/extra-data layout, mapping text and code point",
  "No runnable test exercises Normalizer2; the compatibility data is not even available offline, so raw-mapping and delta entries are never executed.",
  ["UnicodeData/Normalizer2.py"],[("extra data decoding","stringFromData, getDecomposition, getRawDecomposition, mapAlgorithmic"),("file layout","createFromFileData")],["Normalizer2.getDecomposition","Normalizer2.getRawDecomposition","Normalizer2.createFromFileData"])
p("C18","Surrogate and bit utilities are exact over their whole domain",
  "For every supplementary code point, surrogatesFromChar gives its UTF-16 lead and trail surrogates and charFromSurrogates is the exact inverse; the surrogate, lead, trail and noncharacter classifiers are true exactly on their defined ranges. arithmeticShift returns the signed value of the top bits of a word, highBit the position of the highest set bit of any value up to 64 bits (None for 0), and listOfCodes the comma-separated hexadecimal list.",
  ["inputs"],"all code points, all surrogate pairs, all values up to 64 bits and all field widths",
  "Tests sample a few values of each; the functions are total over large integer domains.",
  ["UnicodeData/Utilities.py"],[("bit arithmetic","charFromSurrogates, surrogatesFromChar, arithmeticShift, highBit, isUnicodeNoncharacter")],["Utilities functions"])
CN="UnicodeData/CharNames.py"
p("C19","Compressed character names expand exactly",
  "For any name data in the ICU unames format, the 32 nibble-coded lengths of each group expand to the lengths and running offsets the format defines, whatever mix of one- and two-nibble codes and byte alignment, and each name expands to the text its tokens denote: literal bytes, single-byte tokens, double-byte tokens, ending at the field separator. The name of each field choice is the corresponding field of the entry and the empty string when absent.",
  ["inputs","configurations"],"every sequence of 32 lengths 0..75 and its encoding, every token table and token string",
  "The name tests cannot run without the ICU data file, and the shipped file would exercise only one token table.",
  [CN],[("nibble lengths","Group.expandGroupLengths"),("token expansion","Tokens.expandString, Group.expandName")],["Group.expandGroupLengths","Tokens.expandString","Group.expandName"])
p("C20","Algorithmic names are exact and unique in their range",
  "For every algorithmic range and every code point in it, the generated name is the range's prefix followed by the code point in hexadecimal with at least the range's number of digits, or, for factorized ranges, by the elements selected by the mixed-radix digits of the offset, most significant factor first; distinct code points of a Hangul-like range get distinct names, and only the Unicode and extended name choices produce algorithmic names.",
  ["inputs","configurations"],"every range, factor list, element table and code point",
  "No runnable test; sampled names cannot show that every digit combination selects the right element.",
  [CN],[("mixed radix","AlgorithmicRange.factorSuffix"),("hex names","AlgorithmicRange.getName")],["AlgorithmicRange.getName","AlgorithmicRange.factorSuffix"])
p("C21","Name lookup, iteration and reverse lookup agree",
  "For any name data with at least one group, and for the Unicode name and alias choices, getCharName(c) is the name stored for c (algorithmic ranges first, empty string if none), nameIterator yields exactly the code points with a non-empty name, once each, with that name, and charFromName inverts it, giving 0xFFFFFFFF for a name no character has. The binary search for the group of a code point finds it whenever it exists. The extended name is the algorithmic name where there is one and otherwise the synthetic category name, with the right category for noncharacters and surrogates.",
  ["inputs","configurations"],"every sorted group table, set of algorithmic ranges, code point and name",
  "No runnable test; the search and iteration depend on which groups exist.",
  [CN],[("binary search","CharNames.getGroup"),("iteration","CharNames.nameIterator"),("reverse lookup","CharNames.charFromName"),("extended category","CharNames.getCharCat")],["CharNames.getCharName","CharNames.nameIterator","CharNames.charFromName"])
p("C22","ICU data file access finds every item",
  "For any well-formed ICU data file, every item listed in its table of contents is found under its name without the package prefix, at its offset relative to the end of the file header, and its own header is decoded field by field; strings are read up to their terminating null and data slices are exactly the requested bytes. Layout property lookups return the values of the trie stored for that property.",
  ["configurations","inputs"],"every data file layout: header length, number of items, names, offsets, contents",
  "No runnable test reads an ICU data file.",
  ["UnicodeData/ICUDataFile.py","UnicodeData/LayoutProps.py"],[("table of contents","ICUData._populateData, getName, getString, getDataOffsetAndHeader"),("trie slicing","LayoutProps module code")],["ICUData.getDataOffset","ICUData.getDataOffsetAndHeader","ICUData.getString","LayoutProps.getInPC/getInSC/getVO"])
p("C23","UCD XML records inherit from their group and decode exactly",
  "For any UCD XML char element and its group, every property of the resulting record is the char element's attribute when it has one, else the group's, else empty; boolean properties are true exactly for Y, code point sequences become the string of those characters, and # or nothing stands for the character itself where the UCD says so. Every field of the record holds the value of its own attribute, with numbers, mirrored glyphs, paired brackets, names containing # and decompositions converted accordingly. The numeric attributes the UCD always gives (ccc, nv, bpb) are present on the char or the group.",
  ["inputs"],"every combination of attributes present on char and group, every attribute value",
  "The XML classes are only used by an exhaustive test that needs the network.",
  ["UnicodeData/UCDProperties.py","UnicodeData/CharacterData.py","UnicodeData/CaseProperties.py","UnicodeData/DecompProperties.py","UnicodeData/BidiProperties.py","UnicodeData/BinaryProperties.py","UnicodeData/IndicProperties.py"],[("inheritance","UCDProperties.getCharProperty"),("code point decoding","UCDProperties.getCodePointsProperty, DecompProperties.dmToString")],["CharacterData and its sub-records"])
p("C24","Property value names and codes correspond one to one",
  "For every property with a name dictionary (bidi class, block, category, script, breaks, joining types and groups, East Asian width, decomposition type, numeric type, Indic and vertical orientation types), each code the package can report has the name Unicode assigns to that value and every category mask constant is the union of exactly its categories; so naming the reported code of any code point gives the Unicode 13.0 property value name (names compared loosely, ignoring case, spaces, hyphens and underscores).",
  ["inputs"],"every property value code and every code point",
  "Tests use only the names of the sampled characters.",
  ["UnicodeData/UCDTypeDictionaries.py","UnicodeData/uchar_h.py","UnicodeData/uscript_h.py","UnicodeData/GeneralCategories.py","UnicodeData/Boundaries.py","UnicodeData/Blocks.py","UnicodeData/Scripts.py","UnicodeData/CharDirection.py","UnicodeData/JoiningTypesAndGroups.py","UnicodeData/EastAsianWidth.py","UnicodeData/DecompositionType.py","UnicodeData/LayoutTypes.py"],[("dictionaries and constants","UCDTypeDictionaries, *_h modules, GC_*_MASK")],["*Names dictionaries","constants"])
p("C25","The module builder translates ICU sources faithfully",
  "Every scalar, array, trie header field, #define and enum constant that the module builder extracts from an ICU source file appears in the generated Python module with the same name and value, in the same order, and nothing else is generated; value-name dictionaries contain exactly the value lines of the property file with the mapped constant names.",
  ["programs"],"every ICU header, data and property file the builder is run on",
  "There are no tests for the builder and the ICU sources are not available.",
  ["module_builder/HeaderToPtyhon.py","module_builder/ModuleBuilder.py","module_builder/UCDReader.py"],[("regular-expression translation","HeaderFile.translate, ModuleBuilder.arrayToPython, UCDReader.generateDictionaries")],["generated module text"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
