"""Decompositions (C16, C17): arbitrary trie values, thresholds and extra data in the ICU normalizer2 format.

Assumed of the data (WF): what gennorm2 writes; evaluated on the shipped NFC data on every run."""
from pydv.engine import Contract, Loop
from pydv.spec import SPECS
from contracts.binary import u16, u32
from contracts.cptrie import decoded, fits_in
from contracts.utilities import s_is_lead, s_is_trail, s_join

Arr = None
SCRATCH = True
M = "UnicodeData.Normalizer2:Normalizer2."
INTS = ["minDecompNoCP", "minCompNoMaybeCP", "minLcccCP", "minYesNo", "minYesNoMappingsOnly", "minNoNo", "minNoNoCompBoundaryBefore",
        "minNoNoCompNoMaybeCC", "minNoNoEmpty", "limitNoNo", "minMaybeYes", "centerNoNoDelta"]
NORM = ("obj", "UnicodeData.Normalizer2:Normalizer2", {"trie": ("obj", "UnicodeData.CPTrie:CPTrie", {}), **{k: "int" for k in INTS}, "extraData": "inttuple"})
# the trie is any map from code points to 16-bit values (CPTrie.get is C07)
NT = {"NT": (1, "int")}
GET = {"CPTrie.get": Contract("UnicodeData.CPTrie:CPTrie.get", {"self": ("obj", "UnicodeData.CPTrie:CPTrie", {}), "c": "int"}, ["0 <= c", "c <= 0x10FFFF"],
                              ["0 <= NT(c)", "NT(c) <= 0xFFFF"], value="NT(c)", ufs=NT)}
X = "self.extraData"
UNITS = [f"forall(lambda k: implies(0 <= k and k < len({X}), 0 <= {X}[k] and {X}[k] <= 0xFFFF), pat={X}[k])"]
C = ["0 <= c", "c <= 0x10FFFF"]


@SPECS.fn
def n16(c):
    return 1 if s_is_lead(c) else NT(c)


@SPECS.fn(rec=True)
def pend(A: Arr, index, i, lead):
    """the lead surrogate that waits for its trail before unit i, or 0"""
    return lead if i <= 0 else A[index + i - 1] if pend(A, index, i - 1, lead) == 0 and s_is_lead(A[index + i - 1]) else 0


@SPECS.fn(rec=True)
def cnt(A: Arr, index, i, lead):
    """number of characters that the first i units complete"""
    return 0 if i <= 0 else cnt(A, index, i - 1, lead) + (0 if pend(A, index, i - 1, lead) == 0 and s_is_lead(A[index + i - 1]) else 1)


@SPECS.fn
def completes(A, index, i, lead):
    return not (pend(A, index, i, lead) == 0 and s_is_lead(A[index + i]))


@SPECS.fn
def char_at(A, index, i, lead):
    return A[index + i] if pend(A, index, i, lead) == 0 else s_join(pend(A, index, i, lead), A[index + i])


def paired(index, length, lead):
    """every lead surrogate is followed by a trail surrogate"""
    return f"forall(lambda k: implies(0 <= k and k < {length} and pend({X}, {index}, k, {lead}) != 0, s_is_trail({X}[{index} + k])), pat={X}[{index} + k])"


def text(index, length, lead, off="0"):
    return [f"len(result) == {off} + cnt({X}, {index}, {length}, {lead})",
            f"implies(0 <= I and I < {length} and completes({X}, {index}, I, {lead}), result[{off} + cnt({X}, {index}, I, {lead})] == char_at({X}, {index}, I, {lead}))"]


SPECS.lemma("cnt_nonneg", {"A": "Arr", "index": "int", "i": "int", "lead": "int"}, ["0 <= i"], ["0 <= cnt(A, index, i, lead)"], induct="i")
SPECS.lemma("cnt_mono", {"A": "Arr", "index": "int", "i": "int", "n": "int", "lead": "int"}, ["0 <= i", "i <= n"],
            ["0 <= cnt(A, index, i, lead)", "cnt(A, index, i, lead) <= cnt(A, index, n, lead)",
             "implies(i < n and not (pend(A, index, i, lead) == 0 and s_is_lead(A[index + i])), cnt(A, index, i, lead) < cnt(A, index, n, lead))"], induct="n", uses=["cnt_nonneg(A, index, i, lead)"])


def con(prop, name, params, requires, ensures, **kw):
    kw.setdefault("stubs", GET)
    kw.setdefault("ufs", NT)
    return Contract(M + name, {"self": NORM, **params}, requires, ensures, props=prop.split(), **kw)


N16 = {"norm16": "int"}
W16 = ["0 <= norm16", "norm16 <= 0xFFFF"]
B = dict(result="bool")
BOTH = "C16 C17"
SYL = ["0xAC00 <= c", "c <= 0xD7A3"]
CONTRACTS = [
    con(BOTH, "getNorm16", {"c": "int"}, C, ["result == n16(c)", "0 <= result", "result <= 0xFFFF"], result="int"),
    con(BOTH, "getRawNorm16", {"c": "int"}, C, ["result == NT(c)", "0 <= result", "result <= 0xFFFF"], result="int"),
    con(BOTH, "isMaybeOrNonZeroCC", N16, W16, ["iff(result, norm16 >= self.minMaybeYes)"], **B),
    con(BOTH, "isDecompNoAlgorithmic", N16, W16, ["iff(result, norm16 >= self.limitNoNo)"], **B),
    con(BOTH, "isDecompYes", N16, W16, ["iff(result, norm16 < self.minYesNo or norm16 >= self.minMaybeYes)"], **B),
    con(BOTH, "isInert", N16, W16, ["iff(result, norm16 == 1)"], **B),
    con(BOTH, "isJamoL", N16, W16, ["iff(result, norm16 == 2)"], **B),
    con(BOTH, "isJamoVT", N16, W16, ["iff(result, norm16 == 0xFE00)"], **B),
    con(BOTH, "isHangulLV", N16, W16, ["iff(result, norm16 == self.minYesNo)"], **B),
    con(BOTH, "isHangulLVT", N16, W16 + ["0 <= self.minYesNoMappingsOnly", "self.minYesNoMappingsOnly % 2 == 0"], ["iff(result, norm16 == self.minYesNoMappingsOnly + 1)"], **B),
    con(BOTH, "mapAlgorithmic", {"c": "int", **N16}, W16, ["result == c + norm16 // 8 - self.centerNoNoDelta"], result="int"),
    con(BOTH, "getMappingIndex", N16, W16, ["result == norm16 // 2"], result="int"),
    # the jamos of a syllable; the last line inverts the decomposition
    con(BOTH, "hangulDecomposition", {"c": "int"}, SYL,
        ["len(result) == (2 if (old(c) - 0xAC00) % 28 == 0 else 3)",
         "implies(I == 0, result[I] == 0x1100 + (old(c) - 0xAC00) // 588)",
         "implies(I == 1, result[I] == 0x1161 + (old(c) - 0xAC00) // 28 % 21)",
         "implies(I == 2 and I < len(result), result[I] == 0x11A7 + (old(c) - 0xAC00) % 28)",
         "implies(J == 0 and I == 1, 0xAC00 + ((result[J] - 0x1100) * 21 + (result[I] - 0x1161)) * 28 + (old(c) - 0xAC00) % 28 == old(c))"],
        ghosts={"J": "int", "I": "int"}, result="strseq"),
    con(BOTH, "rawHangulDecomposition", {"c": "int"}, SYL,
        ["len(result) == 2",
         "implies(I == 0, result[I] == (0x1100 + (old(c) - 0xAC00) // 588 if (old(c) - 0xAC00) % 28 == 0 else old(c) - (old(c) - 0xAC00) % 28))",
         "implies(I == 1, result[I] == (0x1161 + (old(c) - 0xAC00) // 28 % 21 if (old(c) - 0xAC00) % 28 == 0 else 0x11A7 + (old(c) - 0xAC00) % 28))"],
        ghosts={"I": "int"}, result="strseq"),
    con(BOTH, "stringFromData", {"index": "int", "length": "int", "lead": "int"},
        UNITS + ["0 <= index", "0 <= length", f"index + length <= len({X})", "old(lead) == 0 or s_is_lead(old(lead))", paired("index", "length", "old(lead)")],
        text("index", "length", "old(lead)"), ghosts={"I": "int"}, result="strseq",
        hints=[f"cnt_mono({X}, index, I, length, old(lead))"],
        loops=[Loop(inv=["lead == pend(self.extraData, index, i, old(lead))", "lead == 0 or s_is_lead(lead)", f"len(s) == cnt({X}, index, i, old(lead))",
                         f"implies(0 <= I and I < i and completes({X}, index, I, old(lead)), s[cnt({X}, index, I, old(lead))] == char_at({X}, index, I, old(lead)))"],
                    hints=[f"cnt_mono({X}, index, I, i, old(lead))"], types={"s": "strseq"})]),
]

# ---- decompositions of a code point
TH = ["0 < self.minYesNo", "self.minYesNo <= self.minYesNoMappingsOnly", "self.minYesNoMappingsOnly + 1 < self.limitNoNo", "self.limitNoNo <= self.minMaybeYes",
      "self.minMaybeYes <= 0xFC00", "self.minYesNoMappingsOnly % 2 == 0"]
GUARD = ["c >= self.minDecompNoCP"]


def is_hangul(n):
    return f"({n} == self.minYesNo or {n} == self.minYesNoMappingsOnly + 1)"


def stored(n):
    """n stands for a mapping in the extra data, not for a Hangul syllable"""
    return [f"{n} > self.minYesNo", f"{n} < self.limitNoNo", f"{n} != self.minYesNoMappingsOnly + 1"]


def inside(n):
    """the mapping lies inside the extra data"""
    return [f"{n} // 2 < len({X})", f"{n} // 2 + 1 + {X}[{n} // 2] % 32 <= len({X})"]


def mapping(n):
    """and every lead surrogate in it is followed by a trail surrogate"""
    return inside(n) + [paired(f"{n} // 2 + 1", f"({X}[{n} // 2] % 32)", "0")]


def hangul_is(c):
    return [f"len(result) == (2 if ({c} - 0xAC00) % 28 == 0 else 3)",
            f"implies(I == 0, result[I] == 0x1100 + ({c} - 0xAC00) // 588)",
            f"implies(I == 1, result[I] == 0x1161 + ({c} - 0xAC00) // 28 % 21)",
            f"implies(I == 2 and I < len(result), result[I] == 0x11A7 + ({c} - 0xAC00) % 28)"]


# ghosts: w is the norm16 value of c, d the target of an algorithmic mapping
N, TC, TN = "w", "d", "NT(d)"
WD = ["w == n16(c)", "d == c + w // 8 - self.centerNoNoDelta"]
GH = {"I": "int", "w": "int", "d": "int"}
ALG = [f"{N} >= self.limitNoNo", f"{N} < self.minMaybeYes", f"0 <= {TC}", f"{TC} <= 0x10FFFF"]
# the first unit of a mapping: bits 4..0 length, bit 6 a raw mapping is stored in front, bit 7 a ccc/lccc word is
IX = f"({N} // 2)"
FU = f"{X}[{IX}]"
RAW = f"({IX} - {FU} // 128 % 2 - 1)"
RM0 = f"{X}[{RAW}]"
HASRAW = f"{FU} // 64 % 2 == 1"
LEN = f"({FU} % 32)"
ONE = ["len(result) == 1"]
CONTRACTS += [
    con("C16 C17", "getDecomposition", {"c": "int"}, UNITS + C + TH + WD, [], ghosts=GH, cases=[
        dict(name="below the first that decomposes", requires=["c < self.minDecompNoCP"], ensures=["is_none(result)"]),
        dict(name="decomposes to itself", requires=[f"{N} < self.minYesNo or {N} >= self.minMaybeYes"], ensures=["is_none(result)"]),
        dict(name="Hangul syllable", requires=GUARD + SYL + [is_hangul(N), f"{N} < self.limitNoNo"], ensures=hangul_is("old(c)")),
        dict(name="stored mapping", requires=GUARD + stored(N) + mapping(N), ensures=text(f"{IX} + 1", LEN, "0")),
        dict(name="algorithmic mapping to a character that does not decompose", requires=GUARD + ALG + [f"{TN} < self.minYesNo"],
             ensures=ONE + [f"implies(I == 0, result[I] == {TC})"]),
        dict(name="algorithmic mapping to a Hangul syllable", requires=GUARD + ALG + [is_hangul(TN), f"0xAC00 <= {TC}", f"{TC} <= 0xD7A3"], ensures=hangul_is(TC)),
        dict(name="algorithmic mapping to a stored mapping", requires=GUARD + ALG + stored(TN) + mapping(TN), ensures=text(f"{TN} // 2 + 1", f"({X}[{TN} // 2] % 32)", "0")),
    ]),
    con("C16 C17", "getRawDecomposition", {"c": "int"}, UNITS + C + TH + WD, [], ghosts=GH, hints=[f"cnt_mono({X}, {IX} + 3, I, {LEN} - 2, 0)"], cases=[
        dict(name="below the first that decomposes", requires=["c < self.minDecompNoCP"], ensures=["is_none(result)"]),
        dict(name="decomposes to itself", requires=[f"{N} < self.minYesNo or {N} >= self.minMaybeYes"], ensures=["is_none(result)"]),
        dict(name="Hangul syllable", requires=GUARD + SYL + [is_hangul(N), f"{N} < self.limitNoNo"],
             ensures=["len(result) == 2",
                      "implies(I == 0, result[I] == (0x1100 + (old(c) - 0xAC00) // 588 if (old(c) - 0xAC00) % 28 == 0 else old(c) - (old(c) - 0xAC00) % 28))",
                      "implies(I == 1, result[I] == (0x1161 + (old(c) - 0xAC00) // 28 % 21 if (old(c) - 0xAC00) % 28 == 0 else 0x11A7 + (old(c) - 0xAC00) % 28))"]),
        dict(name="algorithmic mapping", requires=GUARD + ALG, ensures=ONE + [f"implies(I == 0, result[I] == {TC})"]),
        dict(name="empty mapping", requires=GUARD + stored(N) + [f"{IX} < len({X})", f"not ({HASRAW})", f"{LEN} == 0"], ensures=["is_none(result)"]),
        dict(name="stored mapping that is its own raw mapping", requires=GUARD + stored(N) + mapping(N) + [f"not ({HASRAW})", f"{LEN} > 0"],
             ensures=text(f"{IX} + 1", LEN, "0")),
        dict(name="raw mapping stored in full", requires=GUARD + stored(N) + [f"{IX} < len({X})", HASRAW, f"{RAW} >= 0", f"{RM0} <= 31", f"{RM0} > 0", f"{RAW} - {RM0} >= 0", paired(f"({RAW} - {RM0})", RM0, "0")],
             ensures=text(f"({RAW} - {RM0})", RM0, "0")),
        dict(name="raw mapping with its first two units replaced by one", requires=GUARD + stored(N) + inside(N) + [HASRAW, f"{RAW} >= 0", f"{RM0} > 31", f"not s_is_lead({RM0})", f"{LEN} >= 2", paired(f"({IX} + 3)", f"({LEN} - 2)", "0")],
             ensures=["len(result) == 1 + " + f"cnt({X}, {IX} + 3, {LEN} - 2, 0)", f"implies(I == -1, result[I + 1] == {RM0})",
                      f"implies(0 <= I and I < {LEN} - 2 and completes({X}, {IX} + 3, I, 0), result[1 + cnt({X}, {IX} + 3, I, 0)] == char_at({X}, {IX} + 3, I, 0))"]),
        dict(name="raw mapping with its first two units replaced by a lead surrogate", requires=GUARD + stored(N) + inside(N) + [HASRAW, f"{RAW} >= 0", f"{RM0} > 31", f"s_is_lead({RM0})", f"{LEN} >= 3", paired(f"({IX} + 3)", f"({LEN} - 2)", RM0)],
             ensures=text(f"{IX} + 3", f"({LEN} - 2)", RM0)),
    ]),
]

CONTRACTS += [
    Contract(M + "__init__", {"self": ("obj", NORM[1], {}), "trie": ("obj", "UnicodeData.CPTrie:CPTrie", {}), "indexes": "inttuple", "extraData": "inttuple"},
             ["len(indexes) >= 20", "0 <= indexes[13]", "indexes[13] <= 0xFC00", "indexes[13] % 8 == 0", "(0xFC00 - indexes[13]) // 2 <= len(extraData)"],
             ["same(self.trie, trie)", *[f"self.{n} == indexes[{k}]" for n, k in (("minDecompNoCP", 8), ("minYesNo", 10), ("minNoNo", 11), ("limitNoNo", 12), ("minMaybeYes", 13), ("minYesNoMappingsOnly", 14))],
              # a difference of 0 is in the middle of the range [limitNoNo .. minMaybeYes[
              "self.centerNoNoDelta == indexes[13] // 8 - 65",
              "len(self.extraData) == len(extraData) - (0xFC00 - indexes[13]) // 2",
              "implies(0 <= I and I < len(self.extraData), self.extraData[I] == extraData[(0xFC00 - indexes[13]) // 2 + I])"],
             ghosts={"I": "int"}, props=["C16", "C17"],
             modifies=["self." + k for k in INTS + ["trie", "extraData", "maybeYesCompositions"]]),
]


def ground():
    """the preconditions on the shipped NFC data: thresholds, units, and for every code point the preconditions of one of the cases"""
    from pydv.ground import evaluate, View
    from UnicodeData.Normalizer2 import Normalizer2
    t = Normalizer2.createFromHardCodedData()
    v = View(t)
    globals()["NT"] = t.trie.get
    env = {"self": v, "NT": t.trie.get, "old": lambda x: x}
    bad = [x for x in TH if not evaluate(x, env)]
    if not all(0 <= u <= 0xFFFF for u in t.extraData):
        bad.append(UNITS[0])
    count = 0
    for con in CONTRACTS:
        if con.qualname.split(".")[1] not in ("getDecomposition", "getRawDecomposition"):
            continue
        for c in range(0x110000):
            w = n16(c)
            if c < t.minDecompNoCP or w < t.minYesNo or w >= t.minMaybeYes:
                continue
            count += 1
            e = dict(env, c=c, w=w, d=c + w // 8 - t.centerNoNoDelta, NT=lambda x: t.trie.get(x) if 0 <= x <= 0x10FFFF else 0)
            if 0xAC00 <= c <= 0xD7A3:
                if not (w == t.minYesNo or w == t.minYesNoMappingsOnly + 1) or w >= t.limitNoNo:
                    bad.append(f"{con.qualname}: {c:#x} is not marked as a Hangul syllable")
                continue
            if not any(all(evaluate(r, e, domain=range(32)) for r in case["requires"]) for case in con.cases):
                bad.append(f"{con.qualname}: the preconditions of no case hold of {c:#x}")
                break
    return [(f"shipped NFC data, {count} decompositions", len(TH) + 1 + count, bad)]


# ------------------------------------------------------------------ where the data come from (C17)
# the order of the numbers a data file begins with
IX = {"minDecompNoCP": 8, "minYesNo": 10, "minNoNo": 11, "limitNoNo": 12, "minMaybeYes": 13, "minYesNoMappingsOnly": 14}
CLS = {"cls": ("pyobj", "UnicodeData.Normalizer2:Normalizer2")}


def made(index, extra, n):
    """the thresholds are the numbers of the index, the mappings follow the compositions in the extra data"""
    m = f"((0xFC00 - {index(13)}) // 2)"
    return [f"result.{f} == {index(i)}" for f, i in IX.items()] + [
        f"result.centerNoNoDelta == {index(13)} // 8 - 65", f"len(result.extraData) == {n} - {m}",
        f"forall(lambda k: implies(0 <= k and k < {n} - {m}, result.extraData[k] == {extra(m + ' + k')}), pat=result.extraData[k])"]


def usable(index, n):
    return [f"{index(13)} % 8 == 0", f"{index(13)} <= 0xFC00", f"(0xFC00 - {index(13)}) // 2 <= {n}"]


HARD = ["trieIndex", "trieData", "type", "valueWidth", "index3NullOffset", "dataNullOffset", "highStart", "shifted12HighStart", "indexes", "extraData"]
N2 = "norm2_nfc_data_"
FD = "ICUData._fileData"
DO = 'ICUData._dataOffsets[cat(package, ".nrm")]'


def ix(i):
    return f"u32({FD}, B + {4 * i})"


ICUC = ("cls", "UnicodeData.ICUDataFile:ICUData", {"_fileData": "bytes", "_dataOffsets": ("map",)})
EXN = f"(({ix(2)} - {ix(1)}) // 2)"

CONTRACTS += [
    Contract(M + "createFromHardCodedData", CLS, ["20 <= len(norm2_nfc_data_indexes)"] + usable(lambda i: f"{N2}indexes[{i}]", f"len({N2}extraData)"),
             made(lambda i: f"{N2}indexes[{i}]", lambda k: f"{N2}extraData[{k}]", f"len({N2}extraData)") +
             [f"result.trie.trieType == {N2}type"] + [f"result.trie.{f} == {N2}{f}" for f in HARD[3:8]] +
             [f"len(result.trie.{f}) == len({N2}{g}) and forall(lambda k: implies(0 <= k and k < len({N2}{g}), result.trie.{f}[k] == {N2}{g}[k]))" for f, g in (("index", "trieIndex"), ("data", "trieData"))],
             globals={N2 + f: "inttuple" if f in ("trieIndex", "trieData", "indexes", "extraData") else "int" for f in HARD}, inline=["Normalizer2.__init__"], props=["C16", "C17"]),
    # B: where the data begin, after the header; T: where the trie begins
    Contract(M + "createFromFileData", {**CLS, "package": "str"},
             ['has(ICUData._dataOffsets, cat(package, ".nrm"))', f"0 <= {DO}", f"{DO} + 24 <= len({FD})", f"B == {DO} + u16({FD}, {DO})", f"T == B + {ix(0)}",
              f"B + 80 <= len({FD})", f"80 <= {ix(0)}", f"B + {ix(0)} <= len({FD})",
              # the trie and the extra data follow one another
              f"{ix(0)} <= {ix(1)}"] + fits_in(FD, "T", f"({ix(1)} - {ix(0)})") +
             [f"{ix(1)} <= {ix(2)}", f"({ix(2)} - {ix(1)}) % 2 == 0", f"B + {ix(2)} <= len({FD})"] + usable(ix, EXN),
             made(ix, lambda k: f"u16({FD}, B + {ix(1)} + 2 * ({k}))", EXN) + decoded("result.trie", FD, "T"),
             ghosts={"B": "int", "T": "int"}, globals={"ICUData": ICUC}, inline=["Normalizer2.__init__"], props=["C17"]),
]
