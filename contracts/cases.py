"""Simple (C13) and full (C14) case mappings: arbitrary well-formed trie and exceptions array in the ICU ucase format."""
from pydv.engine import Contract, Loop
from pydv.spec import SPECS
from contracts.utrie2 import TRIE, WF, ut2_val
from contracts.charprops import on

M = "UnicodeData.CaseProps:"
P = "ut2_val(casePropsTrie, c)"
E = "ucase_props_exceptions"
WFC = on("casePropsTrie", WF)
G = {"casePropsTrie": TRIE, E: "intlist"}


@SPECS.fn
def bit_of(w, k):
    return (w >> k) % 2


@SPECS.fn
def below(w, i):
    """number of the bits 0..i-1 that are set, i <= 8"""
    return ((w % 2 if i > 0 else 0) + ((w >> 1) % 2 if i > 1 else 0) + ((w >> 2) % 2 if i > 2 else 0) + ((w >> 3) % 2 if i > 3 else 0) +
            ((w >> 4) % 2 if i > 4 else 0) + ((w >> 5) % 2 if i > 5 else 0) + ((w >> 6) % 2 if i > 6 else 0) + ((w >> 7) % 2 if i > 7 else 0))


@SPECS.fn
def slot_end(w, i):
    """offset of the last unit of slot i from the first slot of the record with main word w"""
    return below(w, i) if bit_of(w, 8) == 0 else 2 * below(w, i) + 1


@SPECS.fn
def slot(A, w, x, i):
    """value of slot i; x is the position of the first slot"""
    return A[x + below(w, i)] if bit_of(w, 8) == 0 else A[x + 2 * below(w, i)] * 65536 + A[x + 2 * below(w, i) + 1]


@SPECS.fn
def case_delta(p):
    """bits 15..7, signed"""
    return (p >> 7) - 512 if p >= 0x8000 else p >> 7


@SPECS.fn
def with_delta(A, w, x, c):
    return c - slot(A, w, x, 4) if bit_of(w, 10) == 1 else c + slot(A, w, x, 4)


@SPECS.fn
def lower_exc(A, w, x, c, p):
    if bit_of(w, 4) == 1 and p % 4 >= 2:
        return with_delta(A, w, x, c)
    if bit_of(w, 0) == 1:
        return slot(A, w, x, 0)
    return c


@SPECS.fn
def upper_exc(A, w, x, c, p):
    if bit_of(w, 4) == 1 and p % 4 == 1:
        return with_delta(A, w, x, c)
    if bit_of(w, 2) == 1:
        return slot(A, w, x, 2)
    return c


@SPECS.fn
def title_exc(A, w, x, c, p):
    if bit_of(w, 4) == 1 and p % 4 == 1:
        return with_delta(A, w, x, c)
    if bit_of(w, 3) == 1:
        return slot(A, w, x, 3)
    if bit_of(w, 2) == 1:
        return slot(A, w, x, 2)
    return c


@SPECS.fn
def s_lower(A, c, p):
    if bit_of(p, 3) == 0:
        return c + case_delta(p) if p % 4 >= 2 else c
    return lower_exc(A, A[p >> 4], (p >> 4) + 1, c, p)


@SPECS.fn
def s_upper(A, c, p):
    if bit_of(p, 3) == 0:
        return c + case_delta(p) if p % 4 == 1 else c
    return upper_exc(A, A[p >> 4], (p >> 4) + 1, c, p)


@SPECS.fn
def s_title(A, c, p):
    if bit_of(p, 3) == 0:
        return c + case_delta(p) if p % 4 == 1 else c
    return title_exc(A, A[p >> 4], (p >> 4) + 1, c, p)


@SPECS.fn
def nib(v, k):
    return (v >> (4 * k)) % 16


@SPECS.fn
def has_full(w):
    """unconditional full mappings are stored"""
    return bit_of(w, 7) == 1 and bit_of(w, 14) == 0


@SPECS.fn
def lengths(A, p):
    return slot(A, A[p >> 4], (p >> 4) + 1, 7)


@SPECS.fn
def full_start(A, p):
    """position of the first full mapping string"""
    return (p >> 4) + 1 + slot_end(A[p >> 4], 7) + 1


@SPECS.fn
def rec_fits(A, p, n):
    """the exception record lies inside the array: slots, and the full mapping strings when there are any"""
    w = A[p >> 4]
    x = (p >> 4) + 1
    if bit_of(p, 3) == 0:
        return True
    return ((p >> 4) < n and x + (below(w, 8) if bit_of(w, 8) == 0 else 2 * below(w, 8)) <= n and
            (not has_full(w) or full_start(A, p) + nib(lengths(A, p), 0) + nib(lengths(A, p), 1) + nib(lengths(A, p), 2) + nib(lengths(A, p), 3) <= n))


C = ["0 <= c", "c <= 0x10FFFF"]
WORDS = [f"forall(lambda k: 0 <= {E}[k] and {E}[k] <= 0xFFFF, pat={E}[k])"]
P16 = ["0 <= props", "props <= 0xFFFF"]
REC = WFC + C + WORDS + [f"0 <= {P}", f"{P} <= 0xFFFF", f"rec_fits({E}, {P}, len({E}))"]
CODE = {n: f"0 <= s_{n}({E}, c, {P}) and s_{n}({E}, c, {P}) <= 0x10FFFF" for n in ("lower", "upper", "title")}
EXC = f"bit_of({P}, 3) == 1"
W = f"{E}[{P} >> 4]"
JOIN = dict(types={"elem": "chr"})


def con(prop, name, params, requires, ensures, **kw):
    return Contract(M + name, params, requires, ensures, props=prop.split(), **kw)


def full(kind, which, special, units):
    """the string returned; K is an arbitrary position in it"""
    n = f"nib(lengths({E}, {P}), {which})"
    before = " + ".join(f"nib(lengths({E}, {P}), {k})" for k in range(which)) or "0"
    return [f"implies({EXC} and bit_of({W}, 14) == 1 and c == {special}, len(result) == {len(units)})",
            *[f"implies({EXC} and bit_of({W}, 14) == 1 and c == {special} and K == {k}, result[K] == {u})" for k, u in enumerate(units)],
            f"implies({EXC} and has_full({W}) and {n} != 0, len(result) == {n})",
            f"implies({EXC} and has_full({W}) and {n} != 0 and 0 <= K and K < {n}, result[K] == {E}[full_start({E}, {P}) + {before} + K])",
            f"implies(not ({EXC}) or (not (bit_of({W}, 14) == 1 and c == {special}) and not (has_full({W}) and {n} != 0)), len(result) == 1)",
            f"implies((not ({EXC}) or (not (bit_of({W}, 14) == 1 and c == {special}) and not (has_full({W}) and {n} != 0))) and K == 0, result[K] == s_{kind}({E}, c, {P}))"]


SLOTS = [{"name": f"slot {k}", "params": {"index": ("const", k)}} for k in range(8)]
CONTRACTS = [
    con("C13 C14", "getDeltaFromProps", {"props": "int"}, P16, ["result == case_delta(props)"], result="int"),
    con("C13 C14", "getTypeFromProps", {"props": "int"}, P16, ["result == props % 4"], result="int"),
    con("C13 C14", "getTypeAndIgnorableFromProps", {"props": "int"}, P16, ["result == props % 8"], result="int"),
    con("C13 C14", "isUpperOrTitle", {"props": "int"}, P16, ["iff(result, props % 4 == 2 or props % 4 == 3)"], result="bool"),
    con("C13 C14", "hasException", {"props": "int"}, P16, ["iff(result, bit_of(props, 3) == 1)"], result="bool"),
    con("C13 C14", "hasSlot", {"flags": "int", "index": "int"}, ["0 <= flags", "flags <= 0xFFFF", "0 <= index", "index < 8"],
        ["iff(result, bit_of(flags, index) == 1)"], result="bool", cases=SLOTS),
    con("C13 C14", "slotOffset", {"flags": "int", "index": "int"}, ["0 <= flags", "flags <= 0xFFFF", "0 <= index", "index < 8"],
        ["result == below(flags, index)"], result="int", cases=SLOTS, theory="bv"),
    con("C13 C14", "getSlotValue", {"excWord": "int", "index": "int", "exceptionIndex": "int"},
        WORDS + ["0 <= excWord", "excWord <= 0xFFFF", "0 <= index", "index < 8", "0 <= exceptionIndex", f"exceptionIndex + slot_end(excWord, index) < len({E})"],
        ["len(result) == 2", f"result[0] == slot({E}, excWord, exceptionIndex, index)", "result[1] == slot_end(excWord, index)"],
        result=("tuple", ["int", "int"]), cases=SLOTS, globals={E: "intlist"}),
    con("C13", "toLower", {"c": "int"}, REC, [f"result == s_lower({E}, old(c), {P})"], result="int", globals=G),
    con("C13", "toUpper", {"c": "int"}, REC, [f"result == s_upper({E}, old(c), {P})"], result="int", globals=G),
    con("C13", "toTitle", {"c": "int"}, REC, [f"result == s_title({E}, old(c), {P})"], result="int", globals=G),
    con("C14", "toFullLower", {"c": "int"}, REC + [CODE["lower"]], full("lower", 0, "0x130", [0x69, 0x307]), result="strseq", globals=G, ghosts={"K": "int"},
        loops=[Loop(inv=["len(chars) == i", f"forall(lambda k: implies(0 <= k and k < i, chars[k] == {E}[exceptionIndex + k]), pat=chars[k])"], **JOIN)]),
    con("C14", "toUpperOrTitle", {"c": "int", "upperNotTitle": "bool"}, REC + [CODE["upper"], CODE["title"]], [], result="strseq", globals=G, ghosts={"K": "int"},
        cases=[{"name": "upper", "params": {"upperNotTitle": ("const", True)}, "ensures": full("upper", 2, "0x587", [0x535, 0x552])},
               {"name": "title", "params": {"upperNotTitle": ("const", False)}, "ensures": full("title", 3, "0x587", [0x535, 0x582])}],
        loops=[Loop(inv=["len(chars) == i", f"forall(lambda k: implies(0 <= k and k < i, chars[k] == {E}[exceptionIndex + k]), pat=chars[k])"], **JOIN)]),
    con("C14", "toFullUpper", {"c": "int"}, REC + [CODE["upper"], CODE["title"]], full("upper", 2, "0x587", [0x535, 0x552]), result="strseq", globals=G, ghosts={"K": "int"}),
    con("C14", "toFullTitle", {"c": "int"}, REC + [CODE["upper"], CODE["title"]], full("title", 3, "0x587", [0x535, 0x582]), result="strseq", globals=G, ghosts={"K": "int"}),
]


def ground():
    """the preconditions of the mappings, evaluated for every code point"""
    import UnicodeData.CaseProps as m
    from pydv.ground import evaluate, View, Total
    env = {"casePropsTrie": View(m.casePropsTrie), E: Total(m.ucase_props_exceptions)}
    bad = [] if all(0 <= x <= 0xFFFF for x in m.ucase_props_exceptions) else WORDS[:]
    bad += [r for r in [f"0 <= {P} and {P} <= 0xFFFF", f"rec_fits({E}, {P}, len({E}))"] + list(CODE.values())
            if not evaluate(f"forall(lambda c: {r})", env, domain=range(0x110000))]
    return [("case trie and exceptions, every code point", 6, bad)]
