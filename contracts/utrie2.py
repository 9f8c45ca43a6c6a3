from pydv.engine import Contract, Loop, Yields
from pydv.spec import SPECS

M = "UnicodeData.Utrie2:UTrie2."


@SPECS.fn
def ut2_bmp(A, c):
    """data position of a BMP code point: two-stage lookup, lead surrogate code points in their own block"""
    return A[(0x800 - 0x6C0 if 0xD800 <= c <= 0xDBFF else 0) + c // 32] * 4 + c % 32


@SPECS.fn
def ut2_supp(A, c):
    """data position of a supplementary code point below highStart: three-stage lookup"""
    return A[A[2080 + c // 2048] + (c // 32) % 64] * 4 + c % 32


@SPECS.fn
def ut2_pos(T, c):
    return (ut2_bmp(T.index, c) if c <= 0xFFFF else
            T.indexLength + 128 if c > 0x10FFFF else
            T.highValueIndex if c >= T.highStart else ut2_supp(T.index, c))


@SPECS.fn
def ut2_val(T, c):
    return T.index[ut2_pos(T, c)]


@SPECS.fn
def ut2_i2block(T, c):
    """start of the index-2 block that serves code point c < highStart"""
    return (0x800 if 0xD800 <= c <= 0xDBFF else 0x6C0 if 0xDC00 <= c <= 0xDFFF else (c // 2048) * 64) if c <= 0xFFFF else T.index[2080 + c // 2048]


@SPECS.fn
def ut2_via2(T, b, o):
    """value at offset o of the index-2 block b"""
    return T.index[T.index[b + o // 32] * 4 + o % 32]


TRIE = ("obj", "UnicodeData.Utrie2:UTrie2",
        {"index": "intlist", "indexLength": "int", "dataLength": "int", "index2NullOffset": "int", "dataNullOffset": "int",
         "highStart": "int", "highValueIndex": "int", "initialValue": "int"})

IDX1 = "(2080 + (self.highStart + 2047) // 2048)"   # end of the index-1 table

# what makes the arrays of a trie well formed (checked on the shipped and the synthetic tables by the ground checker)
WF = [
    "2112 <= self.indexLength", "self.indexLength + 128 < len(self.index)",
    "0 <= self.highValueIndex", "self.highValueIndex < len(self.index)",
    "0 <= self.highStart", "self.highStart <= 0x110000",
    "forall(lambda k: implies(0 <= k and k < 2080, 0 <= self.index[k] and self.index[k] * 4 + 31 < len(self.index)))",
    f"{IDX1} <= self.indexLength",
    # index-1 entries point at whole index-2 blocks
    f"forall(lambda k: implies(2112 <= k and k < {IDX1}, 0 <= self.index[k] and (self.index[k] + 63 < 2080 or {IDX1} <= self.index[k] and self.index[k] + 63 < self.indexLength)))",
    # index-2 entries point at whole data blocks
    f"forall(lambda k: implies({IDX1} <= k and k < self.indexLength, 0 <= self.index[k] and self.index[k] * 4 + 31 < len(self.index)))",
]

# additionally, for enumeration: blocks are whole, the null blocks hold the initial value, the tail holds the high value
WFE = WF + [
    "self.highStart % 2048 == 0",
    "forall(lambda c: implies(self.highStart <= c and c <= 0xFFFF, self.index[ut2_bmp(self.index, c)] == self.index[self.highValueIndex]))",
    # the null data block
    "0 <= self.dataNullOffset", "self.dataNullOffset + 31 < len(self.index)",
    "forall(lambda k: implies(self.dataNullOffset <= k and k < self.dataNullOffset + 32, self.index[k] == self.initialValue))",
    # the null index-2 block
    "implies(self.index2NullOffset + 63 < self.indexLength, forall(lambda o: implies(0 <= o and o < 64, self.index[self.index2NullOffset + o] * 4 == self.dataNullOffset)))",
]

YIELD_ASSERTS = [
    "out[0].start == pos", "out[0].start < out[0].stop", "out[0].stop <= limit",
    "implies(out[0].start <= X and X < out[0].stop, out[1] == valueFunction(ut2_val(self, X)))",
    "implies(pos > start, out[1] != lastv)"]
COMMON = [
    "start <= prev", "prev <= c", "pos == prev", "implies(prev == c, c == start)", "prev < limit or prev == start",
    "implies(prev > start, prevValue != lastv)",
    "implies(prev <= X and X < c and X < limit, valueFunction(ut2_val(self, X)) == prevValue)",
]
KBLOCK = "implies(c < limit and c - prev >= 32, prevBlock >= 0 and prevBlock + 31 < len(self.index) and valueFunction(self.index[prevBlock + X % 32]) == prevValue)"
OUTER = COMMON + [
    "implies(c > start, c <= self.highStart)",
    "implies(c < limit and c > start, c % 2048 == 0 or c == 0xDC00)",
    KBLOCK,
    # the previous index-2 block is filled with prevValue
    "implies(c < limit and c >= 0x10000 and c - prev >= 2048, prevI2Block >= 0 and valueFunction(ut2_via2(self, prevI2Block, X % 2048)) == prevValue)",
]
B0 = "(pre(c) - pre(c) % 2048)"
INV_Y = f"implies({B0} != 0xD800 and prev <= {B0} + X % 2048 and {B0} + X % 2048 < c and {B0} + X % 2048 < tempLimit, valueFunction(ut2_via2(self, i2Block, X % 2048)) == prevValue)"
I2LOOP = COMMON + [
    f"0 <= i2Block and (i2Block + 63 < 2080 or {IDX1} <= i2Block and i2Block + 63 < self.indexLength or i2Block == 0x800 and i2Limit <= 31)",
    f"implies(i2 <= i2Limit, pre(c) <= c and c < tempLimit and c // 32 == {B0} // 32 + i2 and (c % 32 == 0 or c == start))",
    f"implies(i2 > i2Limit, tempLimit <= c and (c == tempLimit or c >= limit) and c <= {B0} + 2048)",
    KBLOCK, INV_Y,
]
JB = "(pre(c) - pre(c) % 32)"
JLOOP = COMMON + [
    "0 <= block and block + 31 < len(self.index)",
    f"c == {JB} + j", "pre(c) <= c", "pre(c) < tempLimit",
    f"implies(prev <= {JB} + X % 32 and {JB} + X % 32 < c, valueFunction(self.index[block + X % 32]) == prevValue)",
    INV_Y,
]


@SPECS.fn
def identity(v):
    return v


def enum_contract(variant, vf_type, vf, **params):
    """the value function is any function of the trie value (an uninterpreted function), called with the keyword arguments given, or absent"""
    t = lambda e: e.replace("valueFunction(", vf + "(")
    tt = lambda es: [t(e) for e in es]
    return Contract(
        M + "enumerator",
        {"self": TRIE, "start": "int", "limit": "int", "valueFunction": vf_type, **params},
        WFE + ["0 <= start", "0 <= limit", "limit <= 0x110000"],
        ["pos == (limit if start < limit else start)"],
        ghosts={"X": "int"}, variant=variant, merge=True,
        yields=Yields(init={"pos": "start", "lastv": t("valueFunction(0)")}, asserts=tt(YIELD_ASSERTS),
                      update={"pos": "out[0].stop", "lastv": "out[1]"}),
        loops=[Loop(inv=tt(OUTER), dec="limit - c if c < limit else 0"), Loop(inv=tt(I2LOOP)), Loop(inv=tt(JLOOP))])


CONTRACTS = [
    Contract(M + "get", {"self": TRIE, "c": "int"}, WF + ["0 <= c"], ["result == ut2_val(self, c)"], result="int"),
    enum_contract("any value function", ("uf", 1, "val", "valueFunctionArgs"), "valueFunction", valueFunctionArgs=("kwargs",)),
    enum_contract("no value function", ("const", None), "identity"),
]
INTS = ["indexLength", "index2NullOffset", "dataNullOffset", "highStart", "highValueIndex", "initialValue"]
CONTRACTS += [
    Contract(M + "__init__", {"self": ("obj", "UnicodeData.Utrie2:UTrie2", {}), "index": "inttuple", **{f: "int" for f in INTS}}, [],
             ["len(self.index) == len(index)", "forall(lambda k: implies(0 <= k and k < len(index), self.index[k] == index[k]))", "self.dataLength == len(index) - indexLength"] +
             [f"self.{f} == {f}" for f in INTS],
             creates={"self.index": "inttuple", "self.dataLength": "int", **{"self." + f: "int" for f in INTS}}, props=["C05"]),
]
