from pydv.engine import Contract, Loop, Yields
from pydv.spec import SPECS
from contracts.binary import u16, u32

Arr = None   # annotation: an array argument
M = "UnicodeData.CPTrie:CPTrie."
FAST, SMALL = 0, 1


@SPECS.fn(rec=True)
def cpt_entry(A: Arr, e, i):
    """data block number i of index-3 block e: 16-bit entries, or 18-bit entries in groups of nine words per eight entries"""
    return A[e + i] if e < 0x8000 else (shl(A[e - 0x8000 + (i // 8) * 9], 2 + 2 * (i % 8)) & 0x30000) + A[e - 0x8000 + (i // 8) * 9 + 1 + i % 8]


@SPECS.fn
def cpt_i1(T, c):
    return c // 16384 + (1020 if T.trieType == 0 else 64)


@SPECS.fn(rec=True)
def cpt_i3at(A: Arr, i1, i2):
    return A[A[i1] + i2]


@SPECS.fn
def cpt_i3(T, c):
    """index-3 block that serves code point c"""
    return cpt_i3at(T.index, cpt_i1(T, c), (c // 512) % 32)


@SPECS.fn
def cpt_fastlimit(T):
    return 0x10000 if T.trieType == 0 else 0x1000


@SPECS.fn
def cpt_pos(T, c):
    return (c if c <= 0x7F else
            T.index[c // 64] + c % 64 if c < cpt_fastlimit(T) else
            T.dataLength - 1 if c > 0x10FFFF else
            T.dataLength - 2 if c >= T.highStart else
            cpt_entry(T.index, cpt_i3(T, c), (c // 16) % 32) + c % 16)


@SPECS.fn
def cpt_val(T, c):
    return T.data[cpt_pos(T, c)]


@SPECS.fn
def cpt_via3(T, e, o):
    """value at offset o (0..511) of the index-3 block e"""
    return T.data[cpt_entry(T.index, e, o // 16) + o % 16]


@SPECS.fn
def cpt_null(T):
    return T.data[T.dataNullOffset if T.dataNullOffset < T.dataLength else T.dataLength - 2]


@SPECS.fn(rec=True)
def touched(c) -> bool:
    """trigger only: true of every number"""
    return True


SPECS.lemma("same512", {"a": "int", "b": "int"}, ["a // 512 == b // 512"], ["a // 16384 == b // 16384", "(a // 512) % 32 == (b // 512) % 32"])
SPECS.lemma("same16", {"a": "int", "b": "int"}, ["a // 16 == b // 16"], ["a // 512 == b // 512", "(a // 16) % 32 == (b // 16) % 32"])
SPECS.lemma("off512", {"x": "int", "b": "int"}, ["b % 512 == 0"],
            ["(b + x % 512) // 512 == b // 512", "((b + x % 512) // 16) % 32 == (x % 512) // 16", "(b + x % 512) % 16 == x % 16",
             "(x % 512) % 16 == x % 16", "0 <= (x % 512) // 16", "(x % 512) // 16 < 32",
             "(b + x % 512) // 16384 == b // 16384", "((b + x % 512) // 512) % 32 == (b // 512) % 32"])
SPECS.lemma("off16", {"x": "int", "b": "int"}, ["b % 16 == 0"],
            ["(b + x % 16) // 16 == b // 16", "(b + x % 16) % 16 == x % 16"])
SPECS.lemma("group18", {"e": "int", "i": "int"}, ["0 <= e", "e <= 0xFFFF", "0 <= i", "i < 32"],
            ["iff((e & 0x8000) == 0, e < 0x8000)", "implies(e >= 0x8000, (e & 0x7FFF) + (i & ~7) + (i >> 3) == e - 0x8000 + (i // 8) * 9)"])
SPECS.lemma("entry_def", {"A": "Arr", "e": "int", "i": "int"}, [],
            ["implies(e < 0x8000, cpt_entry(A, e, i) == A[e + i])",
             "implies(e >= 0x8000, cpt_entry(A, e, i) == (shl(A[e - 0x8000 + (i // 8) * 9], 2 + 2 * (i % 8)) & 0x30000) + A[e - 0x8000 + (i // 8) * 9 + 1 + i % 8])"])
SPECS.lemma("i3_def", {"A": "Arr", "i1": "int", "i2": "int"}, [], ["cpt_i3at(A, i1, i2) == A[A[i1] + i2]"])
SPECS.lemma("touch", {"c": "int"}, [], ["touched(c)"])


@SPECS.fn
def cpt_ok(T, c):
    """the index entries that serve a multi-stage code point stay inside the arrays"""
    e = cpt_i3(T, c)
    i = (c // 16) % 32
    return (0 <= cpt_i1(T, c) and cpt_i1(T, c) < len(T.index) and T.index[cpt_i1(T, c)] + (c // 512) % 32 < len(T.index)
            and 0 <= e and e <= 0xFFFF
            and (e + i < len(T.index) if e < 0x8000 else e - 0x8000 + (i // 8) * 9 + 1 + i % 8 < len(T.index))
            and 0 <= cpt_entry(T.index, e, i) and cpt_entry(T.index, e, i) + 15 < T.dataLength)


TRIE = ("obj", "UnicodeData.CPTrie:CPTrie",
        {"trieType": "int", "valueWidth": "int", "indexLength": "int", "dataLength": "int", "index3NullOffset": "int",
         "dataNullOffset": "int", "highStart": "int", "shifted12HighStart": "int", "index": "inttuple", "data": "inttuple"})
TYPES = [dict(name=n, params={"self": (TRIE[0], TRIE[1], dict(TRIE[2], trieType=("const", v)))}) for n, v in (("fast", 0), ("small", 1))]

WF = [
    "self.dataLength == len(self.data)", "self.dataLength >= 128",
    "cpt_fastlimit(self) <= self.highStart", "self.highStart <= 0x110000",
    "cpt_fastlimit(self) // 64 <= len(self.index)",
    "forall(lambda k: implies(0 <= k and k < len(self.index), 0 <= self.index[k] and self.index[k] <= 0xFFFF))",
    "forall(lambda k: implies(0 <= k and k < cpt_fastlimit(self) // 64, self.index[k] + 63 < self.dataLength))",
    "forall(lambda c: implies(cpt_fastlimit(self) <= c and c < self.highStart, cpt_ok(self, c)), pat=touched(c))",
]
WFE = WF + [
    "self.highStart % 512 == 0", "self.dataNullOffset >= 0",
    "self.index[0] == 0", "self.index[1] == 64",
    "implies(self.dataNullOffset < self.dataLength, forall(lambda t: implies(self.dataNullOffset <= t and t < self.dataNullOffset + 16 and t < self.dataLength, self.data[t] == self.data[self.dataNullOffset])))",
    "forall(lambda k, t: implies(0 <= k and k < cpt_fastlimit(self) // 64 and self.index[k] == self.dataNullOffset and self.dataNullOffset <= t and t < self.dataNullOffset + 64, self.data[t] == self.data[self.dataNullOffset]), pat=(self.index[k], self.data[t]))",
    # the index-3 null block
    "forall(lambda c: implies(cpt_fastlimit(self) <= c and c < self.highStart and cpt_i3(self, c) == self.index3NullOffset, cpt_entry(self.index, cpt_i3(self, c), (c // 16) % 32) == self.dataNullOffset), pat=touched(c))",
]

YIELD_ASSERTS = [
    "out[0].start == pos", "out[0].start < out[0].stop", "out[0].stop <= limit",
    "implies(out[0].start <= X and X < out[0].stop, out[1] == cpt_val(self, X))",
    "implies(pos > start, out[1] != lastv)"]
COMMON = [
    "start <= prev", "prev <= c", "pos == prev", "implies(prev == c, c == start)", "prev < limit or prev == start",
    "implies(prev > start, prevValue != lastv)",
    "implies(prev <= X and X < c and X < limit, cpt_val(self, X) == prevValue)",
]
OUTER = COMMON + [
    "prevI3Block >= -1",
    "implies(c < limit and c > start, c % 512 == 0 and c <= self.highStart)",
    "implies(prevI3Block < 0 and c < limit, c == start or c == cpt_fastlimit(self))",
    "implies(prevI3Block >= 0, c > cpt_fastlimit(self))",
    "prevBlock >= -1",
    "implies(c < limit and prevI3Block >= 0 and c - prev >= 16 and prevBlock != -1, prevBlock + 15 < self.dataLength)",
    "implies(c < limit and prevI3Block >= 0 and c - prev >= 16 and prevBlock != -1, self.data[prevBlock + X % 16] == prevValue)",
    "implies(c < limit and prevI3Block >= 0 and c - prev >= 512, cpt_via3(self, prevI3Block, X % 512) == prevValue)",
]
B0 = "(pre(c) - pre(c) % 512)"
INV_Y = f"implies(dataBlockLength == 16 and prev <= {B0} + X % 512 and {B0} + X % 512 < c and {B0} + X % 512 < limit, cpt_via3(self, i3Block, X % 512) == prevValue)"
I3LOOP = COMMON + [
    "pre(c) <= c",
    "implies(dataBlockLength == 64 and c < limit, c // 64 == i3 and (c % 64 == 0 or c == start))",
    f"implies(dataBlockLength == 16, c <= {B0} + 512)",
    f"implies(dataBlockLength == 16 and c < limit, c // 16 == {B0} // 16 + i3 and (c % 16 == 0 or c == start))",
    "prevBlock >= -1",
    "implies(c < limit and c - prev >= dataBlockLength and prevBlock != -1, prevBlock + dataBlockLength - 1 < self.dataLength)",
    "implies(c < limit and c - prev >= dataBlockLength and prevBlock != -1, self.data[prevBlock + X % dataBlockLength] == prevValue)",
    "implies(dataBlockLength == 16 and c < limit and i3 < 32, i3 == (c // 16) % 32 and c // 512 == pre(c) // 512 and i3Block == cpt_i3(self, c))",
    INV_Y,
]
C0 = "(pre(c) - 1)"
JB = f"({C0} - {C0} % dataBlockLength)"
B1 = f"({C0} - {C0} % 512)"
JLOOP = COMMON + [
    "pre(c) <= c", f"c <= {JB} + dataBlockLength", "c <= limit", f"di == block + (c - {JB})", "prev < c",
    f"implies(dataBlockLength == 16, i3Block == cpt_i3(self, {C0}) and block == cpt_entry(self.index, i3Block, ({C0} // 16) % 32))",
    f"implies(dataBlockLength == 64, block == self.index[{C0} // 64])",
    "0 <= block", "block + dataBlockLength - 1 < self.dataLength",
    f"implies(prev <= {JB} + X % dataBlockLength and {JB} + X % dataBlockLength < c, self.data[block + X % dataBlockLength] == prevValue)",
    f"implies(dataBlockLength == 16 and prev <= {B1} + X % 512 and {B1} + X % 512 < c and {B1} + X % 512 < limit, cpt_via3(self, i3Block, X % 512) == prevValue)",
]
TOUCH = ["i3_def(self.index, cpt_i1(self, c), (c // 512) % 32)", "touch(c)", "touch(X)", "touch(c - c % 512 + X % 512)", "touch(c - c % 16 + X % 16)", "off512(X, c - c % 512)", "same512(c - c % 512, c)", "off16(X, c - c % 16)"]
Y0 = f"{B0} + X % 512"
Y1 = f"{B1} + X % 512"
T1 = ["touch(c)", "i3_def(self.index, cpt_i1(self, c), (c // 512) % 32)", "entry_def(self.index, i3Block, i3)",  f"same512({B0}, c)", f"same512({Y0}, pre(c))", "same16(c - c % 16 + X % 16, c)", "touch(X)", f"touch({Y0})", f"off512(X, {B0})", "off16(X, c - c % 16)", "group18(i3Block, i3)",
      "same16(c, X)", "same512(c, X)", "same512(c, pre(c))", "same512(X, pre(c))", f"same16({Y0}, c)", f"same512({Y0}, c)"]
T2 = ["touch(c)", f"same512({B1}, {C0})", "touch(X)", f"touch({C0})", f"touch({Y1})", f"off512(X, {B1})", f"off16(X, {C0} - {C0} % 16)",
      f"same512(X, {C0})", f"same16(X, {C0})", f"same512({Y1}, {C0})", f"same16({Y1}, {C0})", f"same16(c - 1, {C0})", f"same512(c - 1, {C0})"]

CONTRACTS = [
    Contract(M + "get", {"self": TRIE, "c": "int"}, WF + ["0 <= c"], ["result == cpt_val(self, c)"], result="int",
             entry_hints=["touch(c)", "i3_def(self.index, cpt_i1(self, c), (c // 512) % 32)", "entry_def(self.index, cpt_i3(self, c), (c // 16) % 32)",
                          "group18(cpt_i3(self, c), (c // 16) % 32)"], cases=TYPES),
    Contract(M + "enumerator", {"self": TRIE, "start": "int", "limit": "int"},
             WFE + ["0 <= start", "start <= 0x110000", "0 <= limit", "limit <= 0x110000"],
             ["pos == (limit if start < limit else start)"],
             ghosts={"X": "int"}, cases=TYPES, merge=True,
             cuts=[dict(var="block", hints=["group18(i3Block, i3)", "entry_def(self.index, i3Block, i3)"],
                        facts=["block == cpt_entry(self.index, i3Block, i3)"])],
             yields=Yields(init={"pos": "start", "lastv": "0"}, asserts=YIELD_ASSERTS, update={"pos": "out[0].stop", "lastv": "out[1]"}),
             loops=[Loop(inv=OUTER, dec="limit - c if c < limit else 0", hints=TOUCH), Loop(inv=I3LOOP, hints=T1),
                    Loop(inv=JLOOP, dec="limit - c", hints=T2)]),
]


# ------------------------------------------------------------------ the serialized form (C07)
INTS = ["trieType", "valueWidth", "index3NullOffset", "dataNullOffset", "highStart", "shifted12HighStart", "indexLength", "dataLength"]
CREATE = M + "createFromData"


def parts(d, s):
    """options, index length, data length, size of a data item, high start, item k of a trie serialized at s"""
    opt, ilen = f"u16({d}, {s} + 4)", f"u16({d}, {s} + 6)"
    item = f"{s} + 16 + 2 * {ilen}"
    return (opt, ilen, f"({opt} // 4096 * 65536 + u16({d}, {s} + 8))", f"(2 if {opt} % 8 == 0 else 4 if {opt} % 8 == 1 else 1)", f"(512 * u16({d}, {s} + 14))",
            f"(u16({d}, {item} + 2 * k) if {opt} % 8 == 0 else u32({d}, {item} + 4 * k) if {opt} % 8 == 1 else {d}[{item} + k])")


def fits_in(d, s, n):
    """a serialized trie at s, in n bytes"""
    opt, ilen, dlen, size, high, item = parts(d, s)
    return [f"16 <= {n}", f"16 + 2 * {ilen} + {dlen} * {size} <= {n}"]


def decoded(t, d, s):
    """t is the trie serialized at s"""
    opt, ilen, dlen, size, high, item = parts(d, s)
    return [f"{t}.trieType == {opt} // 64 % 4", f"{t}.valueWidth == {opt} % 8", f"{t}.index3NullOffset == u16({d}, {s} + 10)",
            f"{t}.dataNullOffset == {opt} // 256 % 16 * 65536 + u16({d}, {s} + 12)", f"{t}.highStart == {high}",
            f"{t}.shifted12HighStart == ({high} + 4095) // 4096", f"{t}.indexLength == {ilen}", f"len({t}.index) == {ilen}",
            f"{t}.dataLength == {dlen}", f"len({t}.data) == {dlen}",
            f"forall(lambda k: implies(0 <= k and k < {ilen}, {t}.index[k] == u16({d}, {s} + 16 + 2 * k)))",
            f"forall(lambda k: implies(0 <= k and k < {dlen}, {t}.data[k] == {item}))"]


MADE = ("obj", "UnicodeData.CPTrie:CPTrie", {"index": "inttuple", "data": "inttuple", **{f: "int" for f in INTS}})
CONTRACTS += [
    Contract(M + "__init__", {"self": ("obj", "UnicodeData.CPTrie:CPTrie", {}), "index": "inttuple", "data": "inttuple", "trieType": "int", "valueWidth": "int",
                              "index3NullOffset": "int", "dataNullOffset": "int", "highStart": "int", "shifted12HighStart": "int"}, [],
             ["len(self.index) == len(index)", "forall(lambda k: implies(0 <= k and k < len(index), self.index[k] == index[k]))", "self.indexLength == len(index)",
              "len(self.data) == len(data)", "forall(lambda k: implies(0 <= k and k < len(data), self.data[k] == data[k]))", "self.dataLength == len(data)"] +
             [f"self.{f} == {f}" for f in INTS if "Length" not in f],
             creates={"self.index": "inttuple", "self.data": "inttuple", **{"self." + f: "int" for f in INTS}}, props=["C07"]),
    Contract(CREATE, {"cls": ("pyobj", "UnicodeData.CPTrie:CPTrie"), "trieData": "bytes"},
             fits_in("trieData", "0", "len(trieData)"), decoded("result", "trieData", "0"), result=MADE, props=["C07"]),
]
