"""C23: UCD XML records built from random char and group elements, against the attribute names of UAX #42."""
from fractions import Fraction
from xml.etree.ElementTree import Element

from .common import parallel

BIN = dict(whitespace="WSpace", dash="Dash", hyphen="Hyphen", quotationMark="QMark", terminalPunctuation="Term", sentenceTerminalPunctuation="STerm",
           diacritic="Dia", extender="Ext", prependedConcatenationMark="PCM", softDotted="SD", alphabetic="Alpha", otherAlphabetic="OAlpha", math="Math",
           otherMath="OMath", hexDigit="Hex", asciiHexDigit="AHex", defaultIgnorable="DI", otherDefaultIgnorable="ODI", logicalOrderException="LOE",
           regionalIndicator="RI", graphemeBase="Gr_Base", graphemeExtended="Gr_Ext", otherGraphemeExtended="OGr_Ext", graphemeLink="Gr_Link",
           ideographic="Ideo", unifiedIdeographic="UIdeo", idsBinaryOperator="IDSB", idsTrinaryOperator="IDST", radical="Radical", deprecated="Dep",
           variationSelector="VS", nonCharacterCodePoint="NChar", idStart="IDS", otherIDStart="OIDS", xIDStart="XIDS", idContinue="IDC",
           otherIDContinue="OIDC", xIDContinue="XIDC", patternSyntax="Pat_Syn", patternWhitespace="Pat_WS")
# field -> (attribute, kind)
FIELDS = {
    "combiningClass": ("ccc", "int"), "name": ("na", "name"), "generalCategory": ("gc", "str"), "numericType": ("nt", "str"), "numericValue": ("nv", "number"),
    "script": ("sc", "str"), "scriptExtensions": ("scx", "list"), "block": ("blk", "spaced"), "joiningType": ("jt", "str"), "joiningGroup": ("jg", "spaced"),
    "isJoiningControl": ("Join_C", "bool"), "lineBreak": ("lb", "str"), "sentenceBreak": ("SB", "str"), "wordBreak": ("WB", "str"), "graphemeClusterBreak": ("GCB", "str"),
    "eastAsianWidth": ("ea", "str"), "hangulSyllableType": ("hst", "str"), "jamoShortName": ("JSN", "str"), "verticalOrientation": ("vo", "str"),
    "emoji": ("Emoji", "bool"), "emojiPresentation": ("EPres", "bool"), "emojiModifier": ("EMod", "bool"), "emojiModifierBase": ("EBase", "bool"),
    "emojiComponent": ("EComp", "bool"), "extendedPictograph": ("ExtPict", "bool"),
    "bidiProperties.bidiClass": ("bc", "str"), "bidiProperties.bidiMirrored": ("Bidi_M", "bool"), "bidiProperties.bidiMirroredGlyph": ("bmg", "mirror"),
    "bidiProperties.bidiControl": ("Bidi_C", "bool"), "bidiProperties.bidiPairedBracketType": ("bpt", "str"), "bidiProperties.bidiPairedBracket": ("bpb", "bracket"),
    "decompProperties.decompositionType": ("dt", "str"), "decompProperties.decomposition": ("dm", "decomposition"), "decompProperties.compositionExclusion": ("CE", "bool"),
    "decompProperties.fullCompositionExclusion": ("Comp_Ex", "bool"), "decompProperties.nfcQuickCheck": ("NFC_QC", "str"), "decompProperties.nfdQuickCheck": ("NFD_QC", "str"),
    "decompProperties.nfkcQuickCheck": ("NFKC_QC", "str"), "decompProperties.nfkdQuickCheck": ("NFKD_QC", "str"), "decompProperties.expandOnNFC": ("XO_NFC", "bool"),
    "decompProperties.expandOnNFD": ("XO_NFD", "bool"), "decompProperties.expandOnNFKC": ("XO_NFKC", "bool"), "decompProperties.expandOnNFKD": ("XO_NFKD", "bool"),
    "decompProperties.nfkcFullClosure": ("FC_NFKC", "decomposition"), "decompProperties.nfkcCaseFolded": ("NFKC_CF", "folded"),
    "caseProperties.upper": ("Upper", "bool"), "caseProperties.lower": ("Lower", "bool"), "caseProperties.otherUpper": ("OUpper", "bool"), "caseProperties.otherLower": ("OLower", "bool"),
    "caseProperties.simpleUpperCase": ("suc", "chars"), "caseProperties.simpleLowerCase": ("slc", "chars"), "caseProperties.simpleTitleCase": ("stc", "chars"),
    "caseProperties.upperCase": ("uc", "chars"), "caseProperties.lowerCase": ("lc", "chars"), "caseProperties.titleCase": ("tc", "chars"),
    "caseProperties.simpleCaseFolding": ("scf", "chars"), "caseProperties.caseFolding": ("cf", "chars"), "caseProperties.caseIgnorable": ("CI", "bool"),
    "caseProperties.cased": ("Cased", "bool"), "caseProperties.changesWhenCaseFolded": ("CWCF", "bool"), "caseProperties.changesWhenCasedMapped": ("CWCM", "bool"),
    "caseProperties.changesWhenLowercased": ("CWL", "bool"), "caseProperties.changesWhenNFKCCaseFolded": ("CWKCF", "bool"), "caseProperties.changesWhenTitlecased": ("CWT", "bool"),
    "caseProperties.changesWhenUppercased": ("CWU", "bool"), "caseProperties.nkfcCasefold": ("NFKC_CF", "fold2"),
    "indicProperties.syllabicCategory": ("InSC", "str"), "indicProperties.positionalCategory": ("InPC", "str"),
    **{"binaryProperties." + f: (a, "bool") for f, a in BIN.items()}}
MUST = {"ccc", "nv", "bpb"}


def cps(rng, n=None):
    return " ".join(format(rng.choice([rng.randrange(0x110000), rng.randrange(0xD800), 0x41, 0x10FFFF]), rng.choice(["04X", "X"])) for _ in range(n or rng.choice([1, 1, 2, 3, 18, rng.randrange(4, 48)])))


def value(rng, kind):
    if kind == "int":
        return str(rng.choice([0, 1, 230, 240, rng.randrange(255)]))
    if kind == "bool":
        return rng.choice(["Y", "N", "Y", "N", "", "Yes", "y", "M", "YN"])
    if kind == "number":
        a = rng.choice([0, 1, -1, 3, 10**12, rng.randrange(-50, 10000)])
        return rng.choice(["NaN", str(a), f"{a}/{rng.choice([2, 3, 8, 12, 20, 320])}"])
    if kind in ("chars", "decomposition", "folded", "fold2"):
        return rng.choice(["#", "", cps(rng), cps(rng), cps(rng)]) if kind != "fold2" else rng.choice(["#", cps(rng), cps(rng)])
    if kind == "mirror":
        return rng.choice(["", cps(rng, 1), cps(rng, 1)])
    if kind == "bracket":
        return rng.choice(["#", cps(rng, 1)])
    if kind == "list":
        return " ".join(rng.sample(["Latn", "Grek", "Zyyy", "Arab", "Deva"], rng.choice([1, 2, 3])))
    if kind == "name":
        return rng.choice(["", "LATIN SMALL LETTER A", "CJK UNIFIED IDEOGRAPH-#", "A#B#", "#"])
    if kind == "spaced":
        return rng.choice(["", "ASCII", "Latin_Ext_A", "No_Joining_Group", "_x_"])
    return rng.choice(["", "L", "Y", "N", "#", "some value", "A_B"])


def expected(kind, v, cp, c):
    chars = "".join(chr(int(x, 16)) for x in v.split(" ")) if kind in ("chars", "decomposition", "folded", "fold2") and v not in ("", "#") else None
    if kind == "int":
        return int(v)
    if kind == "bool":
        return v == "Y"
    if kind == "number":
        return None if v == "NaN" else float(Fraction(v))
    if kind in ("chars", "fold2"):
        return chr(c) if chars is None else chars
    if kind == "decomposition":
        return chars
    if kind == "folded":
        return chr(c) if v == "#" else chars
    if kind == "mirror":
        return int(v, 16) if v else c
    if kind == "bracket":
        return c if v == "#" else int(v, 16)
    if kind == "list":
        return v.split(" ")
    if kind == "name":
        return v.replace("#", cp)
    if kind == "spaced":
        return v.replace("_", " ")
    return v


def records(r):
    from UnicodeData.CharacterData import CharacterData
    rng = r.rng
    kinds = {a: k for a, k in FIELDS.values()}
    e1 = e2 = None
    for _ in range(2500 if r.thorough else 500):
        c = rng.choice([0, 0x41, 0xD800, 0x10FFFF, rng.randrange(0x110000)])
        cp = format(c, "04X")
        style = rng.choice(["char", "group", "both", "mixed", "sparse"])
        ch, gr, val = {"cp": cp}, {}, {}
        if rng.random() < 0.2:
            gr["cp"] = "0041"
        for a, k in kinds.items():
            inc, ing = {"char": (1, 0), "group": (0, 1), "both": (1, 1), "mixed": (rng.randrange(2), rng.randrange(2)), "sparse": (rng.random() < 0.1, rng.random() < 0.1)}[style]
            if a in MUST and not inc and not ing:
                inc, ing = rng.choice([(1, 0), (0, 1)])
            if inc:
                ch[a] = value(rng, k)
            if ing:
                gr[a] = value(rng, k)
            val[a] = ch.get(a, gr.get(a, "")) if k != "list" else ch.get(a, gr.get(a, ""))
        info = {"char": ch, "group": gr}
        if e2 is None or rng.random() < 0.7:
            e1, e2 = Element("char", ch), Element("group", gr)
            e2.append(e1)
        else:               # the same elements, with other attributes now
            for e, a in ((e1, ch), (e2, gr)):
                e.attrib.clear()
                e.attrib.update(a)
            info["h"] = {"history": "the elements of the record before, with other attributes"}
        ok, rec = r.call("CharacterData", info, lambda: CharacterData(e1, e2))
        if not ok:
            return
        r.same("codePoint", info, c, rec.codePoint)
        r.same("attributes are left alone", info, (ch, gr), (e1.attrib, e2.attrib))
        for f, (a, k) in FIELDS.items():
            if k == "fold2" and val[a] == "":
                continue
            o = rec
            try:
                for part in f.split("."):
                    o = getattr(o, part)
            except AttributeError as e:
                o = f"AttributeError: {e}"
            if not r.same(f, {**info.get("h", {}), "attribute": a, "char": ch.get(a), "group": gr.get(a), "cp": cp}, expected(k, val[a], cp, c), o):
                return
        r.distinct += 1
    r.sample(f"{len(FIELDS)} fields of {500} records")


def run(pid, r):
    parallel(r, [records] * 8)
