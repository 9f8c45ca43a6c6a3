"""Character property accessors: each returns the bit field of its own property (C09), numeric decoding (C10) and the
category predicates (C12). The two tries and the table of property words are arbitrary well-formed ones."""
from pydv.engine import Contract, Loop
from pydv.spec import SPECS
from contracts.utrie2 import TRIE, WF, ut2_val

M = "UnicodeData.CharProps:"


@SPECS.fn
def field(w, lo, n):
    """bits lo..lo+n-1 of the word"""
    return (w >> lo) % (1 << n)


@SPECS.fn
def script_code(w):
    """script code or index into the script extensions: bits 21..20 above bits 7..0"""
    return (w >> 20) % 4 * 256 + w % 256


@SPECS.fn
def script_of(w, S):
    """bits 23..22: script itself, Common or Inherited with extensions, other with extensions"""
    k = (w >> 22) % 4
    return script_code(w) if k == 0 else 0 if k == 1 else 1 if k == 2 else S[script_code(w)]


@SPECS.fn
def ntv_type(v):
    return 0 if v == 0 else 1 if v < 11 else 2 if v < 21 else 3


@SPECS.fn
def twice(b, k):
    """b doubled k times, k < 6"""
    return b if k == 0 else b * 2 if k == 1 else b * 4 if k == 2 else b * 8 if k == 3 else b * 16 if k == 4 else b * 32


@SPECS.fn
def times_pow10(m, e):
    return (m * 100 if e == 2 else m * 1000 if e == 3 else m * 10**4 if e == 4 else m * 10**5 if e == 5 else m * 10**6 if e == 6 else
            m * 10**7 if e == 7 else m * 10**8 if e == 8 else m * 10**9 if e == 9 else m * 10**10 if e == 10 else m * 10**11 if e == 11 else
            m * 10**12 if e == 12 else m * 10**13 if e == 13 else m * 10**14 if e == 14 else m * 10**15 if e == 15 else m * 10**16 if e == 16 else
            m * 10**17 if e == 17 else m * 10**18 if e == 18 else m * 10**19 if e == 19 else m * 10**20 if e == 20 else m * 10**21 if e == 21 else
            m * 10**22 if e == 22 else m * 10**23 if e == 23 else m * 10**24 if e == 24 else m * 10**25 if e == 25 else m * 10**26 if e == 26 else
            m * 10**27 if e == 27 else m * 10**28 if e == 28 else m * 10**29 if e == 29 else m * 10**30 if e == 30 else m * 10**31 if e == 31 else
            m * 10**32 if e == 32 else m * 10**33)


def on(trie, clauses):
    return [c.replace("self.", trie + ".") for c in clauses]


W32 = ["0 <= w", "w <= 0xFFFFFFFF"]
GP = {"propsTrie": TRIE}
GV = {"propsVectorTrie": TRIE, "propsVectors": "intlist", "scriptExtensions": "intlist"}
WFP = on("propsTrie", WF)
WFV = on("propsVectorTrie", WF)
C = ["0 <= c"]
PW = "ut2_val(propsTrie, c)"
VI = "ut2_val(propsVectorTrie, c)"
VOK = [f"0 <= {VI}", f"{VI} + 2 < len(propsVectors)"]
VEC = ["0 <= vecIndex", "vecIndex + 2 < len(propsVectors)"]


def word(k, i="vecIndex"):
    return f"propsVectors[{i} + {k}]"


CONTRACTS = []


PROP = "C09"


def con(name, params, requires, ensures, **kw):
    CONTRACTS.append(Contract(M + name, params, requires, ensures, props=[PROP], **kw))


# ---- C09
con("unicodePropertiesFromVecIndex", {"vecIndex": "int", "column": "int"}, ["0 <= vecIndex + column", "vecIndex + column < len(propsVectors)"],
    ["result == propsVectors[vecIndex + column]"], globals=GV, result="int")
con("getUnicodeProperties", {"c": "int", "column": "int"}, WFV + C + VOK + ["0 <= column"],
    [f"result == (0 if column >= 3 else propsVectors[{VI} + column])"], globals=GV, result="int")
con("generalCategoryFromProps", {"props": "int"}, ["0 <= props"], ["result == field(props, 0, 5)"], result="int")
con("getGeneralCategory", {"c": "int"}, WFP + C + [f"0 <= {PW}"], [f"result == field({PW}, 0, 5)", "0 <= result", "result < 32"],
    globals=GP, result="int")


def vec_accessor(stem, column, lo, n):
    con(stem + "FromVecIndex", {"vecIndex": "int"}, VEC, [f"result == field({word(column)}, {lo}, {n})"], globals=GV, result="int")
    con("get" + stem[0].upper() + stem[1:], {"c": "int"}, WFV + C + VOK, [f"result == field({word(column, VI)}, {lo}, {n})"],
        globals=GV, result="int")


vec_accessor("block", 0, 8, 9)
vec_accessor("eastAsianWidth", 0, 17, 3)
vec_accessor("lineBreak", 2, 20, 6)
vec_accessor("sentenceBreak", 2, 15, 5)
vec_accessor("wordBreak", 2, 10, 5)
vec_accessor("graphemeClusterBreak", 2, 5, 5)
vec_accessor("decompType", 2, 0, 5)

con("ageFromProps", {"props": "int"}, ["0 <= props", "props <= 0xFFFFFFFF"],
    ["len(result) == 4", "result[0] == field(props, 28, 4)", "result[1] == field(props, 24, 4)", "result[2] == 0", "result[3] == 0"],
    result="intlist")
con("getAge", {"c": "int"}, WFV + C + VOK + [f"0 <= {word(0, VI)}", f"{word(0, VI)} <= 0xFFFFFFFF"],
    ["len(result) == 4", f"result[0] == field({word(0, VI)}, 28, 4)", f"result[1] == field({word(0, VI)}, 24, 4)", "result[2] == 0", "result[3] == 0"],
    globals=GV, result="intlist")
con("mergeScriptCodeOrIndex", {"scriptX": "int"}, ["0 <= scriptX", "scriptX <= 0xFFFFFFFF"], ["result == script_code(scriptX)"], result="int", theory="bv")
SX = lambda w: f"implies(({w} >> 22) % 4 == 3, script_code({w}) < len(scriptExtensions))"
con("scriptFromVecIndex", {"vecIndex": "int"}, VEC + ["vecIndex < 0x1000000", f"0 <= {word(0)}", f"{word(0)} <= 0xFFFFFFFF", SX(word(0))],
    [f"result == script_of({word(0)}, scriptExtensions)"], globals=GV, result="int", theory="bv")
con("getScript", {"c": "int"}, WFV + C + VOK + [f"{VI} < 0x1000000", f"0 <= {word(0, VI)}", f"{word(0, VI)} <= 0xFFFFFFFF", SX(word(0, VI))],
    [f"result == (-1 if c > 0x10FFFF else script_of({word(0, VI)}, scriptExtensions))"], globals=GV, result="int")

BITS = [{"name": f"bit {k}", "params": {"propShift": ("const", k)}} for k in range(32)]
con("binaryPropFromVecIndex", {"vecIndex": "int", "propShift": "int", "column": "int"}, VEC + ["0 <= column", "column <= 2"],
    ["iff(result, field(propsVectors[vecIndex + column], propShift, 1) == 1)"], globals=GV, cases=BITS, result="bool")
con("getBinaryProp", {"c": "int", "propShift": "int", "column": "int"}, WFV + C + VOK + ["0 <= column"],
    [f"iff(result, column < 3 and propShift < 32 and field(propsVectors[{VI} + column], propShift, 1) == 1)"], globals=GV,
    cases=BITS + [{"name": "no such property", "requires": ["propShift >= 32"]}], result="bool")
con("getBinaryProp", {"c": "int", "propShift": "int"}, WFV + C + VOK, [f"iff(result, propShift < 32 and field(propsVectors[{VI} + 1], propShift, 1) == 1)"],
    globals=GV, cases=BITS + [{"name": "no such property", "requires": ["propShift >= 32"]}], result="bool", variant="default column")
for name, bit in [("isExtendedPictograph", 26), ("isEmojiComponent", 27), ("isEmoji", 28), ("isEmojiPresentation", 29),
                  ("isEmojiModifier", 30), ("isEmojiModifierBase", 31)]:
    con(name, {"c": "int"}, WFV + C + VOK, [f"iff(result, field({word(2, VI)}, {bit}, 1) == 1)"], globals=GV, result="bool")

# ---- C10
PROP = "C10"
NTV = "(props >> 6)"
con("numericTypeValueFromProps", {"props": "int"}, ["0 <= props"], [f"result == {NTV}"], result="int", value=None)
con("numericTypeFromProps", {"props": "int"}, ["0 <= props"], [f"result == ntv_type({NTV})"], result="int")
con("getNumericTypeValue", {"c": "int"}, WFP + C + [f"0 <= {PW}"], [f"result == ({PW} >> 6)"], globals=GP, result="int")
con("getNumericType", {"c": "int"}, WFP + C + [f"0 <= {PW}"], [f"result == ntv_type({PW} >> 6)"], globals=GP, result="int")
con("digitValue", {"c": "int"}, WFP + C + [f"0 <= {PW}"],
    [f"result == (({PW} >> 6) - 1 if 1 <= ({PW} >> 6) and ({PW} >> 6) <= 10 else -1)"], globals=GP, result="int")
NVALUE = [
    ("no value", f"{NTV} == 0", ["is_none(result)"]),
    ("decimal digit", f"1 <= {NTV} and {NTV} < 11", [f"result == {NTV} - 1"]),
    ("other digit", f"11 <= {NTV} and {NTV} < 21", [f"result == {NTV} - 11"]),
    ("small integer", f"21 <= {NTV} and {NTV} < 0xb0", [f"result == {NTV} - 21"]),
    ("large integer", f"0x1e0 <= {NTV} and {NTV} < 0x300", [f"result == times_pow10(({NTV} >> 5) - 14, {NTV} % 32 + 2)"]),
    ("base 60", f"0x300 <= {NTV} and {NTV} < 0x324",
     [f"result == (({NTV} >> 2) - 0xbf) * (60 if {NTV} % 4 == 0 else 3600 if {NTV} % 4 == 1 else 216000 if {NTV} % 4 == 2 else 12960000)"]),
    ("reserved", f"0x34c <= {NTV}", ["is_none(result)"]),
    # the quotient is compared as a quotient: both sides divide the same integers
    ("fraction", f"0xb0 <= {NTV} and {NTV} < 0x1e0", [f"result == (({NTV} >> 4) - 12) / ({NTV} % 16 + 1)"]),
    ("twentieths", f"0x324 <= {NTV} and {NTV} < 0x33c", [f"result == (2 * (({NTV} - 0x324) % 4) + 1) / twice(20, ({NTV} - 0x324) >> 2)"]),
    ("thirty-seconds", f"0x33c <= {NTV} and {NTV} < 0x34c", [f"result == (2 * (({NTV} - 0x33c) % 4) + 1) / twice(32, ({NTV} - 0x33c) >> 2)"]),
]
con("numericValueFromProps", {"props": "int"}, ["0 <= props"], [], loops=[Loop(unroll=9)],
    cases=[{"name": n, "requires": [r], "ensures": e} for n, r, e in NVALUE])
con("getNumericValue", {"c": "int"}, WFP + C + [f"0 <= {PW}"], [], globals=GP, inline={"numericValueFromProps"}, loops=[Loop(unroll=9)],
    cases=[{"name": n, "requires": [r.replace("props", PW)], "ensures": [x.replace("props", PW) for x in e]} for n, r, e in NVALUE])

PROP = "C12"
# ---- C12: the category of c and its property words are arbitrary
GC = {"getGeneralCategory": Contract(M + "getGeneralCategory", {"c": "int"}, [], ["0 <= GC(c)", "GC(c) < 32"], value="GC(c)", ufs={"GC": (1, "int")}),
      "getUnicodeProperties": Contract(M + "getUnicodeProperties", {"c": "int", "column": "int"}, [], [], value="PW(c, column)", ufs={"PW": (2, "int")})}


@SPECS.fn
def s_control_space(c): return 9 <= c <= 13 or 0x1C <= c <= 0x1F


@SPECS.fn
def s_iso_control(c): return 0 <= c <= 0x1F or 0x7F <= c <= 0x9F


@SPECS.fn
def s_ignorable(c, g): return (s_iso_control(c) and not s_control_space(c)) if c <= 0x9F else g == 16


@SPECS.fn
def s_hex(c): return 0x30 <= c <= 0x39 or 0x41 <= c <= 0x46 or 0x61 <= c <= 0x66 or 0xFF10 <= c <= 0xFF19 or 0xFF21 <= c <= 0xFF26 or 0xFF41 <= c <= 0xFF46


@SPECS.fn
def s_letter(g): return 1 <= g <= 5


@SPECS.fn
def s_sep(g): return 12 <= g <= 14


PREDICATES = [
    ("isLower", "g == 2"), ("isUpper", "g == 1"), ("isTitle", "g == 3"), ("isDigit", "g == 9"),
    ("isHexDigit", "0x41 <= c and c <= 0x46 or 0x61 <= c and c <= 0x66 or 0xFF21 <= c and c <= 0xFF26 or 0xFF41 <= c and c <= 0xFF46 or g == 9"),
    ("isalpha", "s_letter(g)"), ("isalnum", "s_letter(g) or g == 9"), ("isAlphabetic", "(PW(c, 1) >> 8) % 2 == 1"),
    ("isalnumPOSIX", "(PW(c, 1) >> 8) % 2 == 1 or g == 9"), ("isDefined", "g != 0"),
    ("isbase", "s_letter(g) or g == 9 or g == 10 or g == 11 or g == 8 or g == 7"),
    ("iscntrl", "g == 15 or g == 16 or g == 13 or g == 14"),
    ("isISOControl", "s_iso_control(c)"), ("isThatControlSpace", "s_control_space(c) or c == 0x85"),
    ("isThatASCIIControlSpace", "s_control_space(c)"),
    ("isspace", "s_sep(g) or s_control_space(c) or c == 0x85"), ("isJavaSpaceChar", "s_sep(g)"),
    ("isWhiteSpace", "(s_sep(g) and c != 0xA0 and c != 0x2007 and c != 0x202F) or s_control_space(c)"),
    ("isBlank", "(c == 9 or c == 0x20) if c <= 0x9F else g == 12"),
    ("isUWhiteSpace", "PW(c, 1) % 2 == 1"),
    ("isPrint", "g != 0 and g != 15 and g != 16 and g != 17 and g != 18"),
    ("isPrintPOSIX", "g == 12 or (g != 0 and g != 15 and g != 18 and not s_sep(g))"),
    ("isgraph", "g != 0 and g != 15 and g != 16 and g != 18 and not s_sep(g)"),
    ("isGraphPOSIX", "g != 0 and g != 15 and g != 18 and not s_sep(g)"),
    ("ispunct", "g == 19 or g == 20 or g == 21 or g == 22 or g == 23 or g == 28 or g == 29"),
    ("isIDStart", "s_letter(g) or g == 10"),
    ("isIDPart", "s_letter(g) or g == 9 or g == 10 or g == 22 or g == 8 or g == 6 or s_ignorable(c, g)"),
    ("isIDIgnorable", "s_ignorable(c, g)"),
    ("isJavaIDStart", "s_letter(g) or g == 25 or g == 22"),
    ("isJavaIDPart", "s_letter(g) or g == 9 or g == 10 or g == 25 or g == 22 or g == 8 or g == 6 or s_ignorable(c, g)"),
]
GCUF = {"GC": (1, "int"), "PW": (2, "int")}
import re
for name, meaning in PREDICATES:
    con(name, {"c": "int"}, ["0 <= c", "c <= 0x7FFFFFFF"], [f"iff(result, {re.sub(r'\bg\b', 'GC(c)', meaning)})"], stubs=GC, ufs=GCUF, theory="bv",
        result="bool", inline={n for n, _ in PREDICATES} | {"gcMask"})


def ground():
    """the preconditions on the tables, evaluated for every code point (0x110000 stands for everything above U+10FFFF)"""
    from pydv.ground import evaluate, View, Total
    import UnicodeData.CharProps as cp
    v = View(cp.propsVectorTrie)
    V = Total(cp.propsVectors)
    clauses = VOK + [f"{VI} < 0x1000000"] + [f"0 <= {word(k, VI)} and {word(k, VI)} <= 0xFFFFFFFF" for k in range(3)] + [SX(word(0, VI))]
    env = {"propsVectorTrie": v, "propsVectors": V, "scriptExtensions": Total(cp.scriptExtensions)}
    bad = [c for c in clauses if not evaluate(f"forall(lambda c: {c})", env, domain=range(0x110001))]
    p = View(cp.propsTrie)
    clause = f"0 <= {PW} and {PW} <= 0xFFFF"
    if not evaluate(f"forall(lambda c: {clause})", {"propsTrie": p}, domain=range(0x110001)):
        bad.append(clause)
    if cp.propsVectorsColumns != 3:
        bad.append("propsVectorsColumns == 3")
    return [("propsVectors, propsTrie, every code point", len(clauses) + 2, bad)]
