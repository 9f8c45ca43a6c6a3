"""The ICU data file (C22): arbitrary file contents. Layout properties read one when imported, hence the scratch file."""
from pydv.engine import Contract, Loop
from pydv.spec import SPECS
from contracts.binary import u16, u32, tok, terminated
from contracts.cptrie import WF, TRIE, decoded, fits_in

SCRATCH = True
M = "UnicodeData.ICUDataFile:ICUData."
CLS = ("cls", "UnicodeData.ICUDataFile:ICUData", {"_fileData": "bytes", "_dataOffsets": ("map",)})
D = "cls._fileData"
GLOB = {"ICUData": ("alias", "cls")}
# numbers of a header and where they are
HEADER = {"headerLength": 0, "infoSize": 4, "reservedWord": 6}
BYTES = {"magic1": 2, "magic2": 3, "isBigEndian": 8, "charsetFamily": 9, "sizeofUChar": 10, "reservedByte": 11,
         "fvMajor": 16, "fvMinor": 17, "fvMilli": 18, "fvMicro": 19, "dvMajor": 20, "dvMinor": 21, "dvMilli": 22, "dvMicro": 23}
HEADER_T = ("obj", "UnicodeData.ICUDataFile:DataHeader", {f: "int" for f in [*HEADER, *BYTES]})
OFFSET = "cls._dataOffsets[name]"


def name_of(f, t):
    """the text after the first slash of the string at t"""
    s = f'tok({f}, {t}, "")'
    return f'text_from({s}, index_of({s}, "/") + 1)'


def readable(f, t):
    return f'terminated({f}, len({f}), {t}) and has_text(tok({f}, {t}, ""), "/")'


H = "u16(FILE, 0)"
COUNT = f"u32(FILE, {H})"


def key(k):
    return name_of("FILE", f"(u32(FILE, {H} + 4 + 8 * {k}) + {H})")


def key_ok(k):
    return readable("FILE", f"(u32(FILE, {H} + 4 + 8 * {k}) + {H})")


def where(k):
    return f"u32(FILE, {H} + 8 + 8 * {k}) + {H}"


CONTRACTS = [
    Contract(M + "getString", {"cls": CLS, "offset": "int"}, [f"terminated({D}, len({D}), offset)"], [f'result == tok({D}, offset, "")'], result="str", props=["C22", "C20"],
             loops=[Loop(inv=[f"terminated({D}, len({D}), offset)", f'tok({D}, offset, s) == tok({D}, pre(offset), "")'], dec=f"len({D}) - offset", types={"s": "str"})]),
    Contract(M + "getName", {"cls": CLS, "offset": "int"}, [readable(D, "offset")], ["result == " + name_of(D, "offset")], result="str", props=["C22"]),
    Contract(M + "getDataOffset", {"cls": CLS, "name": "str"}, ["has(cls._dataOffsets, name)"], [f"result == {OFFSET}"], result="int", props=["C22"]),
    Contract(M + "getData", {"cls": CLS, "startOffset": "int", "limitOffset": "int"},
             ["0 <= startOffset", "startOffset <= limitOffset", f"limitOffset <= len({D})"],
             ["len(result) == limitOffset - startOffset", f"forall(lambda k: implies(0 <= k and k < limitOffset - startOffset, result[k] == {D}[startOffset + k]))"],
             standalone=True, props=["C22"]),
    Contract(M + "getDataOffsetAndHeader", {"cls": CLS, "name": "str"}, ["has(cls._dataOffsets, name)", f"0 <= {OFFSET}", f"{OFFSET} + 24 <= len({D})"],
             [f"result[0] == {OFFSET}"] + [f"result[1].{f} == u16({D}, {OFFSET} + {o})" for f, o in HEADER.items()] +
             [f"result[1].{f} == {D}[{OFFSET} + {o}]" for f, o in BYTES.items()],
             result=("tuple", ["int", HEADER_T]), props=["C22"]),
    Contract(M + "_populateData", {"cls": CLS}, [], [], ghosts={"FILE": "bytes", "X": "str", "K": "int"}, modifies=["cls._fileData", "cls._dataOffsets"], globals=GLOB,
             standalone=True, props=["C22"],
             cases=[{"name": "again", "requires": [f"0 < len({D})"],
                     "ensures": [f"len({D}) == old(len({D}))", f"forall(lambda k: implies(0 <= k and k < len({D}), {D}[k] == old({D}[k])))",
                                 "iff(has(cls._dataOffsets, X), old(has(cls._dataOffsets, X)))", "cls._dataOffsets[X] == old(cls._dataOffsets[X])"]}] +
                   [{"name": n, "requires": [f"0 == len({D})", "not has(cls._dataOffsets, X)", "24 <= len(FILE)", f"{H} + 4 <= len(FILE)", f"{H} + 4 + 8 * {COUNT} <= len(FILE)",
                                             f"forall(lambda k: implies(0 <= k and k < {COUNT}, {key_ok('k')}))"] + req,
                     "ensures": [f"len({D}) == len(FILE)", f"forall(lambda k: implies(0 <= k and k < len({D}), {D}[k] == FILE[k]))"] + ens}
                    for n, req, ens in (
                        ("a listed item", ["0 <= K", f"K < {COUNT}", f"X == {key('K')}", f"forall(lambda k: implies(K < k and k < {COUNT}, X != {key('k')}))"],
                         ["has(cls._dataOffsets, X)", f"cls._dataOffsets[X] == {where('K')}"]),
                        ("no such item", ["K == 0", f"forall(lambda k: implies(0 <= k and k < {COUNT}, X != {key('k')}))"], ["not has(cls._dataOffsets, X)"]))],
             loops=[Loop(inv=[f"tocEntryStart == {H} + 4 + 8 * _", "tocEntryLimit == tocEntryStart + 8",
                              f"implies(_ == 0 or forall(lambda k: implies(0 <= k and k < {COUNT}, X != {key('k')})), not has(cls._dataOffsets, X))",
                              f"implies(_ > K and X == {key('K')}, has(cls._dataOffsets, X) and cls._dataOffsets[X] == {where('K')})"])]),
]

# ------------------------------------------------------------------ layout properties
L = "UnicodeData.LayoutProps:"
FD, DO = "ICUData._fileData", 'ICUData._dataOffsets["ulayout.icu"]'
ICUC = (CLS[0], CLS[1], CLS[2])
PROPS = [("getInPC", "inpcTrie"), ("getInSC", "inscTrie"), ("getVO", "voTrie")]


def ix(i):
    return f"u32({FD}, B + {4 * i})"


STARTS = [f"(B + 4 * {ix(0)})", f"(B + {ix(1)})", f"(B + {ix(2)})", f"(B + {ix(3)})"]
CONTRACTS += [Contract(L + f, {"c": "int"}, [w.replace("self", t) for w in WF] + ["0 <= c"], [f"result == cpt_val({t}, c)"], result="int", variant=n,
                       globals={t: (TRIE[0], TRIE[1], dict(TRIE[2], trieType=("const", v)))}, props=["C22"]) for f, t in PROPS for n, v in (("fast", 0), ("small", 1))]
CONTRACTS += [
    Contract(L + "<module>", {}, [f'has(ICUData._dataOffsets, "ulayout.icu")', f"0 <= {DO}", f"{DO} + 24 <= len({FD})", f"0 < len({FD})", f"B == {DO} + u16({FD}, {DO})",
                                  f"4 <= {ix(0)}", f"B + 4 * {ix(0)} <= len({FD})", f"4 * {ix(0)} <= {ix(1)}", f"{ix(1)} <= {ix(2)}", f"{ix(2)} <= {ix(3)}", f"B + {ix(3)} <= len({FD})"] +
             sum([fits_in(FD, STARTS[k], f"({STARTS[k + 1]} - {STARTS[k]})") for k in range(3)], []),
             sum([decoded(t, FD, STARTS[k]) for k, (_, t) in enumerate(PROPS)], []),
             ghosts={"B": "int"}, globals={"ICUData": ICUC}, inline=["ICUData._populateData"], props=["C22"]),
]
