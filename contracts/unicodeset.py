"""UnicodeSet (C01-C04): the inversion list is strictly increasing and ends with 0x110000; X is an arbitrary code point."""
from pydv.engine import Contract, Loop, Yields
from pydv.spec import SPECS

Arr = None
M = "UnicodeData.UnicodeSet:"
H = "0x110000"
SET = ("obj", "UnicodeData.UnicodeSet:UnicodeSet", {"list": "intlist"})


@SPECS.fn(rec=True, prefix=True)
def cnt_le(A: Arr, n, x):
    """number of k < n with A[k] <= x"""
    return 0 if n <= 0 else cnt_le(A, n - 1, x) + (1 if A[n - 1] <= x else 0)


@SPECS.fn
def mem(L, x):
    """x lies at or above an odd number of boundaries"""
    return cnt_le(L, len(L), x) % 2 == 1


@SPECS.fn
def wf(L):
    return (1 <= len(L) and L[len(L) - 1] == 0x110000 and 0 <= L[0] and
            forall(lambda j, k: implies(0 <= j and j < k and k < len(L), L[j] < L[k]), pat=(L[j], L[k])))


@SPECS.fn
def wfarg(L):
    """as wf, but 0x110000 may stand twice at the end"""
    return (1 <= len(L) and L[len(L) - 1] == 0x110000 and 0 <= L[0] and
            forall(lambda j, k: implies(0 <= j and j < k and k < len(L), L[j] <= L[k] and (L[j] < L[k] or L[j] == 0x110000)), pat=(L[j], L[k])))


SORTED = "forall(lambda j, k: implies(0 <= j and j < k and k < n, A[j] <= A[k]), pat=(A[j], A[k]))"
SPECS.lemma("cnt_le_ext", {"A": "Arr", "B": "Arr", "n": "int", "x": "int"}, ["forall(lambda k: implies(0 <= k and k < n, A[k] == B[k]), pat=A[k])"],
            ["cnt_le(A, n, x) == cnt_le(B, n, x)"], induct="n")
SPECS.lemma("cnt_full", {"A": "Arr", "n": "int", "x": "int"}, ["0 <= n", SORTED, "n == 0 or A[n - 1] <= x"], ["cnt_le(A, n, x) == n"], induct="n")
SPECS.lemma("cnt_rank", {"A": "Arr", "n": "int", "x": "int", "r": "int"}, ["0 <= r", "r <= n", SORTED, "r == 0 or A[r - 1] <= x", "r == n or x < A[r]"],
            ["cnt_le(A, n, x) == r"], induct="n", uses=["cnt_full(A, r, x)"])
SPECS.lemma("cnt_tail", {"A": "Arr", "n": "int", "x": "int", "r": "int"}, ["0 <= r", "r <= n", SORTED, "r == n or x < A[r]"],
            ["cnt_le(A, n, x) == cnt_le(A, r, x)"], induct="n")


SPECS.lemma("cnt_is_rank", {"A": "Arr", "n": "int", "x": "int"}, ["0 <= n", SORTED],
            ["0 <= cnt_le(A, n, x)", "cnt_le(A, n, x) <= n", "cnt_le(A, n, x) == 0 or A[cnt_le(A, n, x) - 1] <= x",
             "cnt_le(A, n, x) == n or x < A[cnt_le(A, n, x)]"], induct="n")


def con(prop, name, params, requires, ensures, **kw):
    return Contract(M + name, params, requires, ensures, props=prop.split(), **kw)


S = {"self": SET}
WF = ["wf(self.list)"]
CP = ["0 <= X", "X < 0x110000"]
CONTRACTS = [
    con("C02 C03", "_pinCodePoint", {"cp": "int"}, [], ["result == (0 if old(cp) < 0 else 0x10FFFF if old(cp) > 0x10FFFF else old(cp))"], result="int"),
    con("C03 C04", "UnicodeSet._findCodePoint", {**S, "cp": "int"}, WF + ["cp < 0x110000"],
        ["0 <= result", "result < len(self.list)", "result == 0 or self.list[result - 1] <= cp", "cp < self.list[result]", "result == cnt_le(self.list, len(self.list), cp)"], result="int",
        hints=["cnt_rank(self.list, len(self.list), cp, result)"],
        loops=[Loop(inv=["0 <= lo", "lo < hi", "hi <= len(self.list) - 1", "self.list[lo] <= cp", "cp < self.list[hi]"], dec="hi - lo")]),
]
OP = {"_retainList": [(0, "mem(old(self.list), X) and mem(old(other), X)"), (2, "mem(old(self.list), X) and not mem(old(other), X)")],
      "_addList": [(0, "mem(old(self.list), X) or mem(old(other), X)")],
      "_exclusiveOrList": [(0, "mem(old(self.list), X) != mem(old(other), X)")]}
A, B, BUF = "old(self.list)", "old(other)", "buffer"
CA, CB, CBUF = f"cnt_le({A}, i - 1, X)", f"cnt_le({B}, j - 1, X)", f"cnt_le({BUF}, len({BUF}), X)"
POS = ["1 <= i", f"i <= len({A})", "1 <= j", f"j <= len({B})"]
EXACT_A = f"a == {A}[i - 1]"
EXACT_B = f"b == {B}[j - 1]"
BUFFER = [f"forall(lambda j, k: implies(0 <= j and j < k and k < len({BUF}), {BUF}[j] < {BUF}[k]), pat=({BUF}[j], {BUF}[k]))",
          f"len({BUF}) == 0 or {BUF}[0] >= 0"]
LAST = f"{BUF}[len({BUF}) - 1]"
LOWER = f"len({BUF}) == 0 or ({LAST} < min(a, b))"
DEC = f"(len({A}) - i) + (len({B}) - j)"
CONSUMED = ["implies(X >= min(a, b), " + CA + " == i - 1 and " + CB + " == j - 1)"]
TAIL = [f"cnt_tail({A}, len({A}), X, i - 1)", f"cnt_tail({B}, len({B}), X, j - 1)"]
MERGE = dict(modifies=["self.list"], result="self", ghosts={"X": "int"})


def merge(prop, name, loop):
    cases = []
    for p, meaning in OP[name]:
        for alias in (False, True):
            cases.append(dict(name=f"polarity {p}" + (", the list itself" if alias else ""), params={"polarity": ("const", p), **({"other": ("alias", "self.list")} if alias else {})},
                              ensures=[f"iff(mem(self.list, X), {meaning})"]))
    return con(prop, "UnicodeSet." + name, {**S, "other": "intlist", "polarity": "int"}, WF + ["wfarg(other)"] + CP, ["wf(self.list)"], cases=cases, loops=[loop], **MERGE)


CONTRACTS += [
    merge("C01 C02 C03", "_retainList", Loop(
        inv=POS + [EXACT_A, EXACT_B, "0 <= polarity", "polarity <= 3", "polarity % 2 == (i - 1) % 2", "polarity // 2 == (j - 1 + old(polarity) // 2) % 2"] + BUFFER + [LOWER] + CONSUMED +
        [f"i == 1 or {A}[i - 2] < min(a, b)", f"j == 1 or {B}[j - 2] < min(a, b)",
         f"iff({CBUF} % 2 == 1, {CA} % 2 == 1 and ({CB} + old(polarity) // 2) % 2 == 1)"], dec=DEC, exit_hints=TAIL)),
    merge("C01 C02 C03", "_exclusiveOrList", Loop(
        inv=POS + [EXACT_A, EXACT_B] + BUFFER + [LOWER, f"{CBUF} % 2 == ({CA} + {CB}) % 2"], dec=DEC, exit_hints=TAIL)),
]

# ---- union: the end of the last range in the buffer may be moved while ranges overlap it
MA, MB = f"cnt_le({A}, len({A}), X)", f"cnt_le({B}, len({B}), X)"
UNION = f"({MA} % 2 == 1 or {MB} % 2 == 1)"


def upto(front):
    """below `front` the buffer is final"""
    return f"implies(X < {front}, iff({CBUF} % 2 == 1, {UNION}))"


def at(p, *es):
    return [f"implies(polarity == {p}, {e})" for e in es]


PREV_A, PREV_B = f"{A}[i - 2]", f"{B}[j - 2]"
OPEN = [f"len({BUF}) % 2 == 1"]
ADD = Loop(
    inv=POS + BUFFER + ["0 <= polarity", "polarity <= 3", "polarity % 2 == (i - 1) % 2", "polarity // 2 == (j - 1) % 2", f"len({BUF}) == 0 or {LAST} < {H}",
                        f"a >= {A}[i - 1]", f"b >= {B}[j - 1]", f"a <= {H}", f"b <= {H}"] +
    at(0, f"len({BUF}) % 2 == 0", EXACT_A, EXACT_B, f"implies(len({BUF}) == 0, i == 1 and j == 1)", f"i == 1 or {PREV_A} <= {LAST}", f"j == 1 or {PREV_B} <= {LAST}",
       upto("min(a, b)"), f"implies(len({BUF}) > 0, {upto(LAST)})") +
    at(1, *OPEN, f"a > {LAST}", EXACT_B, f"j == 1 or {PREV_B} <= a", upto("a")) +
    at(2, *OPEN, f"b > {LAST}", EXACT_A, f"i == 1 or {PREV_A} <= b", upto("b")) +
    at(3, *OPEN, f"max(a, b) > {LAST}", upto("max(a, b)")),
    hints=[f"cnt_rank({A}, len({A}), X, i - 1)", f"cnt_rank({A}, len({A}), X, i)", f"cnt_rank({B}, len({B}), X, j - 1)", f"cnt_rank({B}, len({B}), X, j)",
           f"cnt_full({BUF}, len({BUF}), X)", f"cnt_full({BUF}, len({BUF}) - 1, X)"],
    end_hints=[f"cnt_full({BUF}, len({BUF}), X)"],
    dec=DEC, exit_hints=TAIL)
CONTRACTS += [merge("C01 C02 C03", "_addList", ADD)]

@SPECS.fn
def pin(c):
    return 0 if c < 0 else 0x10FFFF if c > 0x10FFFF else c


OLD, NEW = "old(self.list)", "cur(self.list)"
NEW = "self.list"
RANKS = [f"cnt_is_rank({OLD}, len({OLD}), X)"] + [f"cnt_rank({NEW}, len({NEW}), X, cnt_le({OLD}, len({OLD}), X) + {d})" for d in (-2, -1, 0, 1, 2)]
CHG = dict(modifies=["self.list"], result="self", ghosts={"X": "int"})


def member(what):
    return [f"iff(mem(self.list, X), {what})"]


WAS = f"mem({OLD}, X)"
CONTRACTS += [
    con("C02 C03", "UnicodeSet.add", {**S, "cp": "int"}, WF + CP, ["wf(self.list)"] + member(f"{WAS} or X == pin(old(cp))"), hints=RANKS, **CHG),
    con("C02 C03", "UnicodeSet.clear", S, [], ["wf(self.list)", "len(self.list) == 1"] + member("False"), modifies=["self.list"], result="self", ghosts={"X": "int"}),
]
CONTRACTS[-1].requires = CP


def inrange(a, b):
    return f"(old({a}) <= old({b}) and pin(old({a})) <= X and X <= pin(old({b})))"


def change(prop, name, params, what, requires=(), **kw):
    return con(prop, "UnicodeSet." + name, {**S, **params}, WF + CP + list(requires), ["wf(self.list)"] + (member(what) if what else []), **{**CHG, **kw})


R2 = {"start": "int", "end": "int"}
P1 = {"cp": "int"}
OTHER = {"other": SET}
INO = "mem(old(other.list), X)"
SELF_TOO = [dict(name="another set", requires=[]), dict(name="the set itself", params={"other": ("alias", "self")})]
WFO = ["wf(other.list)"]
AS_ONE = "(0 <= old({0}) and old({0}) <= 0x10FFFF and X == old({0}) or old({0}) < 0 and X == 0 or old({0}) > 0x10FFFF and X == 0x10FFFF)"
ONE = "X == pin(old(cp))"
CONTRACTS += [
    change("C02 C03", "addRange", R2, f"{WAS} or {inrange('start', 'end')}", hints=RANKS),
    change("C02 C03", "removeRange", R2, f"{WAS} and not {inrange('start', 'end')}"),
    change("C02 C03", "retainRange", R2, f"{WAS} and {inrange('start', 'end')}"),
    change("C02 C03", "complementRange", R2, f"{WAS} != {inrange('start', 'end')}"),
    change("C02 C03", "remove", P1, f"{WAS} and not {ONE}"),
    change("C02 C03", "retain", P1, f"{WAS} and {ONE}"),
    change("C01 C02", "addAll", OTHER, f"{WAS} or {INO}", WFO, cases=SELF_TOO),
    change("C01 C02", "removeAll", OTHER, f"{WAS} and not {INO}", WFO, cases=SELF_TOO),
    change("C01 C02", "retainAll", OTHER, f"{WAS} and {INO}", WFO, cases=SELF_TOO),
    change("C01 C02", "complementAll", OTHER, f"{WAS} != {INO}", WFO, cases=SELF_TOO),
    change("C01 C02", "__ior__", OTHER, f"{WAS} or {INO}", WFO, cases=SELF_TOO),
    change("C01 C02", "__isub__", OTHER, f"{WAS} and not {INO}", WFO, cases=SELF_TOO),
    change("C01 C02", "__iand__", OTHER, f"{WAS} and {INO}", WFO, cases=SELF_TOO),
    change("C01 C02", "__ixor__", OTHER, f"{WAS} != {INO}", WFO, cases=SELF_TOO),
    change("C01 C02 C03", "complement", {"arg": "int"}, None, hints=RANKS, cases=[
        dict(name="everything", params={"arg": "none"}, ensures=member(f"not {WAS}")),
        dict(name="a code point", params={"arg": "int"}, ensures=member(f"{WAS} != (X == pin(arg))")),
        dict(name="a range", params={"arg": "range"},
             ensures=member(f"{WAS} != (arg.start < arg.stop and pin(arg.start) <= X and X <= pin(arg.stop - 1))"))]),
]
NEWSET = ("obj", "UnicodeData.UnicodeSet:UnicodeSet", {})
IS1 = lambda cp: f"iff(mem(self.list, X), X == pin({cp}))"
L, N = "self.list", "len(self.list)"


def made(prop, name, what):
    return con(prop, "UnicodeSet." + name, {**S, **OTHER}, WF + WFO + CP, ["wf(result.list)", f"iff(mem(result.list, X), {what})"], ghosts={"X": "int"}, result=SET, cases=SELF_TOO)


IN = "mem(self.list, X)"
MO = "mem(other.list, X)"
HAS = {"arg": "int"}
CONTAINS = dict(result="bool", ghosts={"X": "int"}, cases=[
    dict(name="a code point", params={"arg": "int"}, ensures=["iff(result, mem(self.list, arg) and arg < 0x110000)"]),
    dict(name="a range", params={"arg": "range"}, requires=["arg.start < arg.stop", "arg.start < 0x110000"],
         ensures=["implies(result and arg.start <= X and X < arg.stop, mem(self.list, X))",
                  "implies(not result, exists(lambda x: arg.start <= x and x < arg.stop and not mem(self.list, x)))"])])
RNG = "cnt_le(self.list, len(self.list), arg.start)"
CONTRACTS += [
    con("C01 C02 C03", "UnicodeSet.__init__", {"self": NEWSET, "arg": "none"}, CP, ["wf(self.list)"], ghosts={"X": "int"}, creates={"self.list": "intlist"}, cases=[
        dict(name="empty", params={"arg": "none"}, ensures=["not mem(self.list, X)", "len(self.list) == 1"]),
        dict(name="a copy", params={"arg": SET}, requires=["wf(arg.list)"], ensures=["iff(mem(self.list, X), mem(arg.list, X))"]),
        dict(name="a code point", params={"arg": "int"}, ensures=[IS1("arg")]),
        dict(name="a range", params={"arg": "range"}, ensures=["iff(mem(self.list, X), arg.start < arg.stop and pin(arg.start) <= X and X <= pin(arg.stop - 1))"])]),
    made("C01 C02", "union", f"{IN} or {MO}"),
    made("C01 C02", "intersection", f"{IN} and {MO}"),
    made("C01 C02", "difference", f"{IN} and not {MO}"),
    made("C01 C02", "symmetric_difference", f"{IN} != {MO}"),
    made("C01 C02", "__or__", f"{IN} or {MO}"),
    made("C01 C02", "__and__", f"{IN} and {MO}"),
    made("C01 C02", "__sub__", f"{IN} and not {MO}"),
    made("C01 C02", "__xor__", f"{IN} != {MO}"),
    con("C04", "UnicodeSet.contains", {**S, **HAS}, WF, [], hints=[f"cnt_rank({L}, {N}, X, {RNG})", f"cnt_rank({L}, {N}, {L}[{RNG}], {RNG} + 1)"], **CONTAINS),
    con("C04", "UnicodeSet.__contains__", {**S, **HAS}, WF, [], **CONTAINS),
    con("C04", "UnicodeSet.getRangeCount", S, WF, ["result == len(self.list) // 2"], result="int"),
    con("C04", "UnicodeSet.getRangeStart", {**S, "index": "int"}, WF + ["0 <= index", "2 * index + 1 < len(self.list)"], ["result == self.list[2 * index]"], result="int"),
    con("C04", "UnicodeSet.getRangeEnd", {**S, "index": "int"}, WF + ["0 <= index", "2 * index + 1 < len(self.list)"], ["result == self.list[2 * index + 1] - 1"], result="int"),
]

# ---- equality: two well-formed lists with the same members are the same list
SAME = "forall(lambda x: implies(0 <= x and x < 0x110000, (cnt_le(A, n, x) % 2 == 1) == (cnt_le(B, m, x) % 2 == 1)), pat=cnt_le(A, n, x))"


def strict(a, n):
    return [f"1 <= {n}", f"{a}[{n} - 1] == 0x110000", f"0 <= {a}[0]",
            f"forall(lambda j, k: implies(0 <= j and j < k and k < {n}, {a}[j] < {a}[k]), pat=({a}[j], {a}[k]))"]


SPECS.lemma("agree", {"A": "Arr", "n": "int", "B": "Arr", "m": "int", "k": "int"}, strict("A", "n") + strict("B", "m") + ["0 <= k", "k <= n", "k <= m", SAME],
            ["forall(lambda j: implies(0 <= j and j < k, A[j] == B[j]), pat=A[j])"], induct="k",
            uses=["cnt_rank(A, n, A[k - 1], k)", "cnt_rank(B, m, A[k - 1], k - 1)", "cnt_rank(B, m, B[k - 1], k)", "cnt_rank(A, n, B[k - 1], k - 1)"])
EQ = "forall(lambda x: implies(0 <= x and x < 0x110000, mem(self.list, x) == mem(other.list, x)), pat=cnt_le(self.list, len(self.list), x))"
CONTRACTS += [
    con("C02", "UnicodeSet.__eq__", {**S, **OTHER}, WF + WFO, [f"implies(result, {IN} == {MO})", f"implies({EQ}, result)"], ghosts={"X": "int"}, result="bool", cases=SELF_TOO,
        hints=[f"agree({L}, {N}, other.list, len(other.list), min({N}, len(other.list)))", f"cnt_le_ext({L}, other.list, {N}, X)"]),
    con("C02", "UnicodeSet.__ne__", {**S, **OTHER}, WF + WFO, [f"implies(not result, {IN} == {MO})", f"implies({EQ}, not result)"], ghosts={"X": "int"}, result="bool", cases=SELF_TOO),
]


# ---- counting members
@SPECS.fn(rec=True)
def nmem(A: Arr, n, x):
    """number of members below x"""
    return 0 if x <= 0 else nmem(A, n, x - 1) + (1 if cnt_le(A, n, x - 1) % 2 == 1 else 0)


@SPECS.fn(rec=True)
def card(A: Arr, k):
    """total length of the first k ranges"""
    return 0 if k <= 0 else card(A, k - 1) + A[2 * k - 1] - A[2 * k - 2]


BETWEEN = ["0 <= lo", "lo <= x", "0 <= r", "r <= n", SORTED, "r == 0 or A[r - 1] <= lo", "r == n or x <= A[r]"]
SPECS.lemma("nmem_in", {"A": "Arr", "n": "int", "lo": "int", "x": "int", "r": "int"}, BETWEEN + ["r % 2 == 1"], ["nmem(A, n, x) == nmem(A, n, lo) + x - lo"], induct="x", uses=["cnt_rank(A, n, x - 1, r)"])
SPECS.lemma("nmem_out", {"A": "Arr", "n": "int", "lo": "int", "x": "int", "r": "int"}, BETWEEN + ["r % 2 == 0"], ["nmem(A, n, x) == nmem(A, n, lo)"], induct="x", uses=["cnt_rank(A, n, x - 1, r)"])
SPECS.lemma("card_def", {"A": "Arr", "n": "int", "k": "int"}, strict("A", "n") + ["0 <= k", "2 * k <= n"],
            ["card(A, k) == nmem(A, n, A[2 * k - 1] if k > 0 else 0)", "0 <= card(A, k)"], induct="k",
            uses=["nmem_out(A, n, A[2 * k - 3] if k > 1 else 0, A[2 * k - 2], 2 * k - 2)", "nmem_in(A, n, A[2 * k - 2], A[2 * k - 1], 2 * k - 1)"])
SPECS.lemma("card_total", {"A": "Arr", "n": "int"}, strict("A", "n"), ["card(A, n // 2) == nmem(A, n, 0x110000)"],
            uses=["card_def(A, n, n // 2)", "nmem_out(A, n, A[n - 2] if n > 1 else 0, 0x110000, n - 1)"])
SPECS.lemma("card_mono", {"A": "Arr", "n": "int", "k": "int", "m": "int"}, strict("A", "n") + ["0 <= k", "k <= m", "2 * m <= n"], ["card(A, k) <= card(A, m)"], induct="m")
TOTAL = "nmem(self.list, len(self.list), 0x110000)"
RK = f"cnt_le({L}, {N}, cp)"
AT = lambda i, x: [f"card_def({L}, {N}, {i})", f"nmem_out({L}, {N}, {L}[2 * {i} - 1] if {i} > 0 else 0, {L}[2 * {i}], 2 * {i})", f"nmem_in({L}, {N}, {L}[2 * {i}], {x}, 2 * {i} + 1)"]
CONTRACTS += [
    con("C04", "UnicodeSet.size", S, WF, [f"result == {TOTAL}"], result="int", loops=[Loop(inv=["s == card(self.list, index)"])], hints=[f"card_total({L}, {N})"]),
    con("C04", "UnicodeSet.indexOf", {**S, "cp": "int"}, WF, [], result="int", cases=[
        dict(name="a member", requires=["0 <= cp", "cp < 0x110000", "mem(self.list, cp)"], ensures=["result == nmem(self.list, len(self.list), cp)"]),
        dict(name="not a member", requires=["not (mem(self.list, cp) and 0 <= cp and cp < 0x110000)"], ensures=["is_none(result)"])],
        entry_hints=[f"cnt_is_rank({L}, {N}, cp)"],
        loops=[Loop(inv=["i % 2 == 0", f"i <= len2", f"i <= {RK}", "n == card(self.list, i // 2)"], hints=[f"cnt_rank({L}, {N}, cp, i)", f"cnt_rank({L}, {N}, cp, i + 1)"])],
        hints=AT(f"(({RK} - 1) // 2)", "cp")),
    con("C04", "UnicodeSet.charAt", {**S, "index": "int"}, WF, [], result="int", cases=[
        dict(name="an index of a member", requires=["0 <= index", f"index < {TOTAL}"],
             ensures=["0 <= result", "result < 0x110000", "mem(self.list, result)", "nmem(self.list, len(self.list), result) == old(index)"]),
        dict(name="no member there", requires=[f"index < 0 or index >= {TOTAL}"], ensures=["is_none(result)"])],
        loops=[Loop(inv=["i % 2 == 0", "i <= len2", "index == old(index) - card(self.list, i // 2)", "0 <= index"])],
        hints=AT("(i // 2)", "result") + [f"cnt_rank({L}, {N}, result, i + 1)", f"card_total({L}, {N})", f"card_mono({L}, {N}, i // 2 + 1, {N} // 2)"]),
    con("C04", "UnicodeSet.__iter__", S, WF, ["implies(pos <= X and X < 0x110000, not mem(self.list, X))"], ghosts={"X": "int"},
        yields=Yields(init={"pos": "0"}, asserts=["pos <= out", "out < 0x110000", "mem(self.list, out)", "implies(pos <= X and X < out, not mem(self.list, X))"],
                      update={"pos": "out + 1"}),
        hints=[f"cnt_rank({L}, {N}, X, {N} - 1)", f"cnt_rank({L}, {N}, X, {N})"],
        loops=[Loop(inv=["0 <= i", "i % 2 == 0", f"i <= {N}", f"pos == ({L}[i - 1] if i > 0 else 0)"]),
               Loop(inv=[f"cp <= {L}[i + 1]", f"cp >= {L}[i]", f"pos == (cp if cp > {L}[i] else {L}[i - 1] if i > 0 else 0)"],
                    hints=[f"cnt_rank({L}, {N}, cp, i + 1)", f"cnt_rank({L}, {N}, X, i)"])]),
    con("C04", "UnicodeSet.getRanges", S, WF, ["len(result) == len(self.list) // 2", "implies(0 <= I and I < len(result), result[I].start == self.list[2 * I] and result[I].stop == self.list[2 * I + 1])"],
        ghosts={"I": "int"}, result="rangelist",
        loops=[Loop(inv=["0 <= i", "i % 2 == 0", f"i <= {N}", "2 * len(ranges) == i",
                         "implies(0 <= I and I < len(ranges), ranges[I].start == self.list[2 * I] and ranges[I].stop == self.list[2 * I + 1])"], types={"elem": "range"})]),
]
PIECE = 'f"0x{self.list[k]:04X}"'
CONTRACTS += [
    # L: the texts of the list's numbers, one by one
    con("C02", "UnicodeSet.__str__", S, ["len(L) == len(self.list)", f"forall(lambda k: implies(0 <= k and k < len(self.list), L[k] == {PIECE}))"],
        ['result == cat("[", join_of(", ", L), "]")'], ghosts={"L": "strlist"}, result="str",
        loops=[Loop(inv=["len(pieces) == _k", 'forall(lambda k: implies(0 <= k and k < _k, pieces[k] == f"0x{self.list[k]:04X}"), pat=pieces[k])'], types={"elem": "str"})]),
]
