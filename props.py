"""Which contracts, lemmas, concrete evaluations and ground checks decide which property."""

GUARD_NOTE = ("Python int as mathematical integer; the translation of Python statements to obligations by pydv (tested by "
              "mutating the real functions, tools/mutate.py), z3 and cvc5 are trusted")

PROPS = {}


def prop(pid, technique, level, level_note, contracts=(), lemmas=(), ground=(), rule="", assumptions=(), finite=False):
    PROPS[pid] = dict(finite=finite, technique=technique, level=level, level_note=level_note, contracts=list(contracts), lemmas=list(lemmas),
                      ground=list(ground), rule=rule, assumptions=list(assumptions))


T = "contracts on the real functions, obligations generated from the current source (pydv), discharged by z3 and cvc5; refutations replayed on the real code"

C = "the property's statement evaluated on the real code against independent definitions and the frozen Unicode 13.0 data (contracts on the functions pending)"

LIBS = ["the decoding of struct.unpack, struct.calcsize, sstruct and bytes.split is a trusted contract (compared with the libraries on generated data in setup, tools/externs_test.py)"]

prop("C05", T, "proof",
     "UTrie2.get proved equal to the format's lookup for every well-formed trie and every c >= 0, and the constructor to store the arrays and header fields it is given. Assumes the well-formedness predicate, which is evaluated on the four shipped tries on every run.",
     [("utrie2", "UTrie2.get"), ("utrie2", "@C05")], ground=["utrie2"],
     rule="get() compared with the value map a synthetic trie was built from, and with a direct reading of the shipped arrays for all 0x110000 code points; distinct = tries")
prop("C06", T, "proof",
     "UTrie2.enumerator proved to yield the maximal runs of f(get(c)) for every well-formed trie, start, limit, value function and keyword arguments of it (every call of it passes exactly those).",
     [("utrie2", "UTrie2.enumerator")], ground=["utrie2"],
     rule="ranges yielded compared with the maximal runs of the value map; distinct = enumerations with more than one run")
prop("C07", T, "proof",
     "CPTrie.get proved equal to the format's lookup for every well-formed trie of either type; createFromData proved to recover the header fields and both arrays, byte for byte, for every serialized trie.",
     [("cptrie", "CPTrie.get"), ("cptrie", "@C07")], ground=["cptrie"], assumptions=LIBS,
     rule="synthetic serialized tries decoded and looked up; the shipped NFC trie read directly for all code points; distinct = tries")
prop("C08", T, "proof",
     "CPTrie.enumerator proved to yield the maximal runs of get(c) for every well-formed trie of either type, start and limit up to 0x110000.",
     [("cptrie", "CPTrie.enumerator")], ground=["cptrie"],
     rule="ranges yielded compared with the maximal runs of the value map; distinct = enumerations with more than one run")
prop("C18", T, "proof",
     "All functions proved over their whole domain (listOfCodes for lists of any length).",
     [("utilities", "")],
     rule="functions compared with independent definitions; code point domains enumerated completely")

prop("C01", T, "proof", "Every operation of the property, in all its spellings, proved for sets of any size and for an operand that is the receiver itself: membership of an arbitrary code point, canonical form, "
     "receiver returned, operands unchanged, no shared storage. The concrete evaluation enumerates operand pairs built from boundary atoms.",
     [("unicodeset", "@C01")], rule="distinct = operand pairs")
prop("C02", T, "proof", "Canonical form is a postcondition of the constructor and of every mutator for any canonical receiver and arbitrary integer arguments, hence of every history; equality proved to be equality of members "
     "(two canonical lists with the same members are the same list). The text form proved to be the numbers of the list in order, bracketed.",
     [("unicodeset", "@C02")], rule="distinct = states", assumptions=["attributes are not assigned from outside the class"])
prop("C03", T, "proof", "Membership of an arbitrary code point after each mutator, for any canonical set and all integer arguments.",
     [("unicodeset", "@C03")], rule="distinct = set and argument pairs")
prop("C04", T, "proof", "Every query proved against membership in the inversion list; size, indexOf and charAt against the number of members below a code point, defined by counting one by one. "
     "contains(range) for non-empty ranges that start inside the code space, with step 1.",
     [("unicodeset", "@C04")], rule="distinct = sets")
prop("C09", T, "proof",
     "Every accessor proved to return its own bit field for arbitrary well-formed tries and property words; getBinaryProp for all 32 bits of all columns. Assumes the preconditions on the tables, evaluated for every code point of the shipped tables on every run.",
     [("charprops", "@C09"), ("utrie2", "UTrie2.get")], ground=["utrie2", "charprops"], rule="accessors on words that set every bit alone, every field value, and random words; distinct = words")
prop("C10", T, "proof",
     "Numeric type and value decoding proved for every encoded value with floats as exact reals; the rounding of float arithmetic and the shipped data are decided by complete enumeration (all 1024 encodings, all code points).",
     [("charprops", "@C10")], ground=["utrie2"], rule="all 1024 encodings, all code points; distinct = encodings", finite=True,
     assumptions=["in the contracts floats are real numbers (the concrete evaluation compares the floats themselves)"])
prop("C11", T + "; the shipped tables compared with the frozen Unicode 13.0 data for every code point", "proof",
     "The accessors are proved to read the fields (as C09); that the fields of the shipped tables hold the Unicode 13.0 values is a closed statement, decided by evaluating it for all 1114112 code points on every run.",
     [("charprops", "@C09"), ("utrie2", "UTrie2.get")], ground=["utrie2", "charprops"], rule="all code points against the frozen Unicode 13.0 data; distinct = code point and property pairs", finite=True)
prop("C12", T, "proof",
     "Every predicate proved equivalent to its category set and special code points, for every category assignment and every c below 2**31.",
     [("charprops", "@C12"), ("charprops", "eneralCategory")], ground=["utrie2"], rule="all code points of the shipped data and other category assignments; distinct = predicates")
prop("C13", T + "; the shipped tables compared with the frozen Unicode 13.0 data for every code point", "proof",
     "toLower, toUpper and toTitle proved to be the mapping the case data encodes, for every well-formed trie and exceptions array. The preconditions on the tables (records inside the array, results are code points) and that the shipped tables hold the Unicode 13.0 mappings are decided by evaluating all code points.",
     [("cases", "@C13"), ("utilities", "arithmeticShift"), ("utrie2", "UTrie2.get")], ground=["utrie2", "cases"], rule="all code points of the shipped data; synthetic case data; distinct = case records")
prop("C14", T + "; the shipped tables compared with the frozen Unicode 13.0 data for every code point", "proof",
     "toFullLower, toFullUpper and toFullTitle proved to be the mapping the case data encodes, for every well-formed trie and exceptions array. The preconditions on the tables (records inside the array, results are code points) and that the shipped tables hold the Unicode 13.0 mappings are decided by evaluating all code points.",
     [("cases", "@C14"), ("utilities", "arithmeticShift"), ("utrie2", "UTrie2.get")], ground=["utrie2", "cases"], rule="all code points of the shipped data; synthetic case data; distinct = case records")
prop("C15", T + "; the shipped tables compared with the frozen Unicode 13.0 data for every code point", "proof",
     "Every accessor proved to decode its field, the mirror search and joining group lookup proved for every sorted mirror table and arrays. That the shipped tables hold the Unicode 13.0 values and that mirroring is an involution on them is decided by evaluating all code points.",
     [("bidi", ""), ("utilities", "arithmeticShift"), ("utrie2", "UTrie2.get")], ground=["utrie2", "bidi"], rule="all code points of the shipped data; synthetic words and mirror tables; distinct = words")
prop("C16", T + "; the shipped tables compared with the frozen Unicode 13.0 data for every code point", "proof",
     "getDecomposition and getRawDecomposition proved to be the mapping the normalization data encodes, for every trie, threshold and extra data (as C17). That the shipped NFC data meet the preconditions and hold the Unicode 13.0 mappings is a closed statement, decided by evaluating all code points.",
     [("normalizer", "@C16"), ("utilities", "isLead"), ("utilities", "charFromSurrogates"), ("cptrie", "CPTrie.get")], ground=["cptrie", "normalizer"], rule="all code points of the shipped NFC data against the frozen Unicode 13.0 data; distinct = code points with a decomposition")
prop("C17", T, "proof",
     "getDecomposition and getRawDecomposition proved, for every kind of entry, to be the mapping the normalization data encodes: arbitrary trie values, thresholds and extra data that keep their mappings inside the array and their surrogates paired. createFromFileData proved to recover the trie, thresholds and extra data from the bytes of the file, for every file of the format.",
     [("normalizer", "@C17"), ("utilities", "isLead"), ("utilities", "charFromSurrogates"), ("cptrie", "CPTrie.get")], ground=["normalizer"], assumptions=LIBS, rule="synthetic normalization data of every entry kind, hard coded and from a file; distinct = entries")
prop("C19", T, "proof",
     "expandGroupLengths proved to give the lengths and offsets of the nibble code for every alignment and mix of codes; expandString and expandName proved to give the text of the tokens and of each field, for every token table, group string, line and name choice; "
     "Group and Tokens proved to hold what the bytes of the file say. Strings appear as the sequence of texts joined, and the end of a name as the separator or the end of the string.",
     [("charnames", "@C19")], rule="distinct = names and length lists", assumptions=LIBS)
prop("C20", T, "proof",
     "getName proved to be the prefix and the hexadecimal number, or the prefix and the elements the mixed-radix digits of the offset select, for every prefix, factors, elements and code point; the digits proved to determine the offset, "
     "so that names are unique where the elements of a factor can be told apart (which the concrete evaluation checks on generated ranges). The decoding of a range from the data file is proved as well: header fields, factors, and the elements as the null-terminated strings of the file.",
     [("charnames", "@C20"), ("icudata", "@C20")], lemmas=["digits_determine"], rule="distinct = ranges", assumptions=LIBS)
prop("C21", T, "proof",
     "Group search, getCharName, the extended categories, the three iterators and charFromName proved for arbitrary sorted groups and disjoint algorithmic ranges. The text of a stored or generated name is here a function of its record, code and choice; C19 and C20 say which. "
     "CharNames.populateData, which fills the lists at import, is proved to read every group and range record of the file, in order.",
     [("charnames", "@C21"), ("utilities", "isUnicodeNoncharacter"), ("utilities", "isLead")], rule="distinct = names",
     assumptions=["a name is determined by its record, the code point and the name choice (expandName and getName have no side effects)"] + LIBS)
prop("C22", T, "proof",
     "getString, getName, getDataOffset, getData, getDataOffsetAndHeader and _populateData proved for every file: each item of the table of contents under its name without the prefix at its own offset, each header field from its own bytes, strings up to the null byte. "
     "The module code of LayoutProps proved to slice and decode the trie of each property, and the three lookups to return that trie's values. The four byte dataFormat is passed through undecoded and not interpreted.",
     [("icudata", "@C22"), ("charnames", "@C22"), ("cptrie", "CPTrie.get"), ("cptrie", "@C07")], rule="distinct = items", assumptions=LIBS + ["opening and reading the data file is trusted: the bytes read are arbitrary"])
prop("C23", T, "proof",
     "Every field of CharacterData and its sub-records proved to be the value of its own attribute, of the char else of the group else empty, for all attributes of both; code point lists proved to become the string of their characters, whatever their length. "
     "The reading of single texts (int, eval, split, replace) is python's own and appears as functions of the text.",
     [("ucd", "@C23")], rule="distinct = records",
     assumptions=["ccc, nv, bpb and the code point attributes hold texts int() or eval() accept (numbers; NaN, # and nothing where the UCD says so)", "int, eval, str.split, str.replace and Element.get are trusted, deterministic functions of their arguments"])
prop("C24", T + "; the shipped tables compared with the frozen Unicode 13.0 data for every code point", "proof",
     "The accessors are proved to report the code in their field (as C09, C15); what the modules of names, constants and masks hold after their statements is a closed statement, evaluated by the verifier for every name, code and mask; "
     "that naming the reported code of a code point gives its Unicode 13.0 value is decided by evaluating all 1114112 code points on every run.",
     [("names", "@C24"), ("charprops", "@C09"), ("bidi", ""), ("utrie2", "UTrie2.get")], ground=["utrie2", "charprops", "bidi"], rule="all codes of all dictionaries, all code points; distinct = codes", finite=True)
prop("C25", T + "; what the regular expressions match and the whole pipeline by bounded evaluation", "exploration",
     "Proved: what ModuleBuilder writes for scalars, arrays and trie headers, given what its regular expressions find, that HeaderFile reads every header line as comment, conditional, macro part or code as specified and writes exactly one line for each constant and enumerator, in order, with its value, that UCDReader gathers and writes exactly the value lines of every property, for every property file, and that the constructors read the named source file and prepare the output under the named path. "
     "Bounded, not proved: what the regular expressions match, build() and the whole pipeline, evaluated on 600 (thorough: 2000) generated C sources, headers and property files, and on ICU source trees written back from the shipped modules.",
     [("modulebuilder", "@C25")], rule="distinct = generated sources",
     assumptions=["re.findall, re.search and fullmatch are functions of pattern and text; csv.reader yields the rows of the file", "eval(text, names) is a function of the text and the names bound, an integer for every enumerator", "the header has the constructs ICU sources use: every line read as code has a token, every #define and enumerator matches its pattern"])

NOT_APPLICABLE = {}
