"""Bidi, mirroring, bracket and joining properties (C15): arbitrary well-formed trie, sorted mirror table and joining group
arrays."""
from pydv.engine import Contract, Loop
from pydv.spec import SPECS
from contracts.utrie2 import TRIE, WF, ut2_val
from contracts.charprops import field, on

M = "UnicodeData.BidiProps:"
W = "ut2_val(bidiPropsTrie, c)"
WFB = on("bidiPropsTrie", WF)


@SPECS.fn
def mir_cp(m):
    """source code point of a mirror table entry: bits 20..0"""
    return m % 0x200000


@SPECS.fn
def mir_ix(m):
    """index of the partner's entry: bits 31..21"""
    return m >> 21


@SPECS.fn
def mir_delta(w):
    """signed mirror delta: bits 15..13"""
    return (w >> 13) - 8 if w >= 0x8000 else w >> 13


GT = {"bidiPropsTrie": TRIE}
GM = {"bidiPropsTrie": TRIE, "ubidi_props_mirrors": "intlist"}
GJ = {"ubidi_props_indexes": "intlist", "ubidi_props_jgArray": "intlist", "ubidi_props_jgArray2": "intlist"}
L = "ubidi_props_mirrors"
MOK = [f"forall(lambda k: implies(0 <= k and k < len({L}), 0 <= {L}[k] and mir_ix({L}[k]) < len({L})), pat={L}[k])",
       f"forall(lambda j, k: implies(0 <= j and j < k and k < len({L}), mir_cp({L}[j]) < mir_cp({L}[k])), pat=({L}[j], {L}[k]))"]
W16 = ["0 <= props", "props <= 0xFFFF"]
C = ["0 <= c"]
WC = WFB + C + [f"0 <= {W}", f"{W} <= 0xFFFF"]


def mirror_of(w):
    return [f"implies(mir_delta({w}) != -4, result == c + mir_delta({w}))",
            f"implies(mir_delta({w}) == -4 and 0 <= K and K < len({L}) and mir_cp({L}[K]) == c, result == mir_cp({L}[mir_ix({L}[K])]))",
            f"implies(mir_delta({w}) == -4 and forall(lambda k: implies(0 <= k and k < len({L}), mir_cp({L}[k]) != c), pat={L}[k]), result == c)"]


def guard(g, es):
    return [f"implies({g}, {e})" for e in es]


def con(name, params, requires, ensures, **kw):
    return Contract(M + name, params, requires, ensures, props=["C15"], **kw)


JS = [f"ubidi_props_indexes[{k}]" for k in (4, 5, 6, 7)]
CONTRACTS = [
    con("getClassFromProps", {"props": "int"}, W16, ["result == field(props, 0, 5)"], result="int"),
    con("getFlagFromProps", {"props": "int", "shift": "int"}, W16 + ["0 <= shift", "shift < 16"], ["iff(result, (props >> shift) % 2 == 1)"], result="bool"),
    con("getMirrorDeltaFromProps", {"props": "int"}, W16, ["result == mir_delta(props)"], result="int"),
    con("getMirrorCodePointFromProps", {"m": "int"}, ["0 <= m"], ["result == mir_cp(m)"], result="int"),
    con("getMirrorIndexFromProps", {"m": "int"}, ["0 <= m"], ["result == mir_ix(m)"], result="int"),
    con("getCharDirection", {"c": "int"}, WC, [f"result == field({W}, 0, 5)"], globals=GT, result="int"),
    con("isMirrored", {"c": "int"}, WC, [f"iff(result, field({W}, 12, 1) == 1)"], globals=GT, result="bool"),
    con("isBidiControl", {"c": "int"}, WC, [f"iff(result, field({W}, 11, 1) == 1)"], globals=GT, result="bool"),
    con("isJoinControl", {"c": "int"}, WC, [f"iff(result, field({W}, 10, 1) == 1)"], globals=GT, result="bool"),
    con("getJoiningType", {"c": "int"}, WC, [f"result == field({W}, 5, 3)"], globals=GT, result="int"),
    con("getPairedBracketType", {"c": "int"}, WC, [f"result == field({W}, 8, 2)"], globals=GT, result="int"),
    con("getMirrorFromProps", {"c": "int", "props": "int"}, MOK + C + W16, mirror_of("props"), globals=GM, ghosts={"K": "int"}, result="int",
        loops=[Loop(inv=[f"forall(lambda k: implies(0 <= k and k < _k, mir_cp({L}[k]) != c), pat={L}[k])"])]),
    con("getMirror", {"c": "int"}, WC + MOK, mirror_of(W), globals=GM, ghosts={"K": "int"}, result="int"),
    con("getPairedBracket", {"c": "int"}, WC + MOK, [f"implies(field({W}, 8, 2) == 0, result == c)"] + guard(f"field({W}, 8, 2) != 0", mirror_of(W)),
        globals=GM, ghosts={"K": "int"}, result="int"),
    con("getJoiningGroup", {"c": "int"},
        C + ["len(ubidi_props_indexes) == 16", f"0 <= {JS[0]}", f"0 <= {JS[2]}", f"{JS[1]} - {JS[0]} <= len(ubidi_props_jgArray)", f"{JS[3]} - {JS[2]} <= len(ubidi_props_jgArray2)"],
        [f"result == (ubidi_props_jgArray[c - {JS[0]}] if {JS[0]} <= c and c < {JS[1]} else ubidi_props_jgArray2[c - {JS[2]}] if {JS[2]} <= c and c < {JS[3]} else 0)"],
        globals=GJ, result="int"),
]


def ground():
    import UnicodeData.BidiProps as b
    from pydv.ground import evaluate, View, Total
    M_ = b.ubidi_props_mirrors
    n = len(M_)
    cp = [m & 0x1FFFFF for m in M_]
    bad = []
    if not all(0 <= m and m >> 21 < n for m in M_):
        bad.append(MOK[0])
    if not all(x < y for x, y in zip(cp, cp[1:])):
        bad.append(MOK[1])
    if not evaluate(f"forall(lambda c: 0 <= {W} and {W} <= 0xFFFF)", {"bidiPropsTrie": View(b.bidiPropsTrie)}, domain=range(0x110001)):
        bad.append(f"0 <= {W} <= 0xFFFF")
    ix = b.ubidi_props_indexes
    if not (len(ix) == 16 and ix[5] - ix[4] <= len(b.ubidi_props_jgArray) and ix[7] - ix[6] <= len(b.ubidi_props_jgArray2)):
        bad.append("joining group ranges fit the arrays")
    return [("bidi trie, mirror table, joining group arrays", 4, bad)]
