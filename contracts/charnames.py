"""Character names (C19, C20, C21): arbitrary name data. The modules read an ICU data file when imported; the contracts
are about everything such a file can hold, so they are imported with a small scratch file."""
from pydv.engine import Contract, Loop, Yields
from pydv.spec import SPECS
from contracts.utilities import s_nonchar, s_is_lead
from contracts.binary import tok, terminated, u16, u32

SCRATCH = True
M = "UnicodeData.CharNames:"
Arr = StrArr = None

# ------------------------------------------------------------------ algorithmic names (C20)


@SPECS.fn(rec=True)
def quo(F: Arr, off, count, i):
    """offset divided by the factors after i, last factor first"""
    return off if i >= count else quo(F, off, count, i + 1) // F[i + 1]


@SPECS.fn
def digit(F: Arr, off, count, i):
    """mixed-radix digit i of the offset; factor count is the least significant"""
    return quo(F, off, count, i) % F[i]


@SPECS.fn(rec=True)
def base(F: Arr, i):
    """where the elements of factor i start"""
    return 0 if i <= 0 else base(F, i - 1) + F[i - 1]


@SPECS.fn(rec=True)
def prod(F: Arr, i):
    """number of combinations of the first i factors"""
    return 1 if i <= 0 else prod(F, i - 1) * F[i - 1]


@SPECS.fn(rec=True)
def joined(P: str, E: StrArr, F: Arr, off, count, k) -> str:
    """the prefix followed by the elements the first k digits select"""
    return P if k <= 0 else cat(joined(P, E, F, off, count, k - 1), E[base(F, k - 1) + digit(F, off, count, k - 1)])


@SPECS.fn(rec=True)
def horner(F: Arr, off, count, i):
    """the value of the first i digits"""
    return 0 if i <= 0 else horner(F, off, count, i - 1) * F[i - 1] + digit(F, off, count, i - 1)


POS = "forall(lambda k: implies(0 <= k and k <= n, 1 <= F[k]))"
POSX = POS.replace("k <= n", "k < n")
SPECS.lemma("base_mono", {"F": "Arr", "i": "int", "n": "int"}, [POSX, "0 <= i", "i <= n"], ["base(F, i) <= base(F, n)", "0 <= base(F, i)"], induct="n",
            uses=["base_nonneg(F, i)"])
SPECS.lemma("base_nonneg", {"F": "Arr", "n": "int"}, [POSX, "0 <= n"], ["0 <= base(F, n)"], induct="n")
SPECS.lemma("prod_pos", {"F": "Arr", "n": "int"}, [POSX, "0 <= n"], ["1 <= prod(F, n)"], induct="n")
SPECS.lemma("div_lt", {"a": "int", "b": "int", "c": "int"}, ["0 <= a", "1 <= c", "a < b * c"], ["a // c < b", "0 <= a // c"])
# the quotients: nonnegative, and below the number of combinations of the factors before
SPECS.lemma("quo_bound", {"F": "Arr", "off": "int", "n": "int", "d": "int"},
            [POS, "0 <= d", "d <= n", "0 <= off", "off < prod(F, n + 1)"],
            ["0 <= quo(F, off, n, n - d)", "quo(F, off, n, n - d) < prod(F, n - d + 1)"], induct="d",
            uses=["div_lt(quo(F, off, n, n - d + 1), prod(F, n - d + 1), F[n - d + 1])"])
# the digits determine the offset
SPECS.lemma("digits_value", {"F": "Arr", "off": "int", "n": "int", "i": "int"},
            [POS, "0 <= i", "i <= n", "0 <= off", "off < prod(F, n + 1)"], ["horner(F, off, n, i + 1) == quo(F, off, n, i)"], induct="i",
            uses=["quo_bound(F, off, n, n - i)", "quo_bound(F, off, n, n)"])
SPECS.lemma("digits_determine", {"F": "Arr", "off": "int", "n": "int"}, [POS, "0 <= n", "0 <= off", "off < prod(F, n + 1)"],
            ["horner(F, off, n, n + 1) == off"], uses=["digits_value(F, off, n, n)"])

RANGE = ("obj", "UnicodeData.CharNames:AlgorithmicRange",
         {"type": "int", "variant": "int", "string": "str", "factors": "inttuple", "elements": "strlist", "charRange": "range"})
OFF = "char - self.charRange.start"
CNT = "len(self.factors) - 1"
FACT = ["1 <= len(self.factors)", "forall(lambda k: implies(0 <= k and k < len(self.factors), 1 <= self.factors[k]))",
        "base(self.factors, len(self.factors)) <= len(self.elements)"]
FOFF = [f"0 <= {OFF}", f"{OFF} < prod(self.factors, len(self.factors))"]
JOIN = f"joined(self.string, self.elements, self.factors, {OFF}, {CNT}, len(self.factors))"


def on2(e, a, b):
    import re
    return re.sub(rf"(?<!\.)\b{a}\b", b, e)


def on2all(es):
    return [on2(e, "char", "code") for e in es]


CONTRACTS = [
    Contract(M + "AlgorithmicRange.factorSuffix", {"self": RANGE, "char": "int"}, FACT + FOFF, [f"result == {JOIN}"], result="str", props=["C20"],
             loops=[Loop(inv=["len(indexes) == count - i", f"code == quo(self.factors, {OFF}, count, i)",
                              f"forall(lambda j: implies(0 <= j and j < len(indexes), indexes[j] == digit(self.factors, {OFF}, count, i + 1 + j)))"],
                         types={"elem": "int"}, hints=[f"quo_bound(self.factors, {OFF}, count, count - i)"]),
                    Loop(inv=["elementIndex == base(self.factors, i)",
                              f"suffix == joined(self.string, self.elements, self.factors, {OFF}, count, i)"],
                         types={"suffix": "str"},
                         hints=["base_nonneg(self.factors, i)", "base_mono(self.factors, i, count + 1)", "base_mono(self.factors, i + 1, count + 1)"])],
             entry_hints=[f"quo_bound(self.factors, {OFF}, {CNT}, {CNT})"]),
    Contract(M + "AlgorithmicRange.getName", {"self": RANGE, "code": "int", "nameChoice": "int"}, ["0 <= code"], [], result="str", props=["C20"],
             cases=[{"name": f"hexadecimal, {d} digits", "requires": ["self.type == 0", cond, "nameChoice == 0 or nameChoice == 2"],
                     "ensures": [f'result == cat(self.string, f"{{code:0{d}X}}")']}
                    for d, cond in ((4, "self.variant == 4"), (5, "self.variant == 5"), (6, "self.variant == 6"))] +
                   [{"name": "factorized", "requires": ["self.type == 1", "nameChoice == 0 or nameChoice == 2"] + on2all(FACT + FOFF),
                     "ensures": ["result == " + on2(JOIN, "char", "code")]},
                    {"name": "other choices", "requires": ["nameChoice != 0", "nameChoice != 2"], "ensures": ['result == ""']},
                    {"name": "unknown type", "requires": ["self.type != 0", "self.type != 1"], "ensures": ['result == ""']}]),
    Contract(M + "AlgorithmicRange.charInRange", {"self": RANGE, "char": "int"}, [], ["iff(result, self.charRange.start <= char and char < self.charRange.stop)"],
             result="bool", props=["C20", "C21"]),
    Contract(M + "AlgorithmicRange.charOffsetInRange", {"self": RANGE, "char": "int"}, [], ["result == char - self.charRange.start"], result="int", props=["C20"]),
]

# ------------------------------------------------------------------ lookup (C21)
GROUPS = ("records", {"msb": "int", "tag": "int"}, "UnicodeData.CharNames:Group")
RANGES = ("records", {"charRange": "range", "tag": "int"}, "UnicodeData.CharNames:AlgorithmicRange")
NAMES = ("cls", "UnicodeData.CharNames:CharNames", {"_groups": GROUPS, "_algorithmicRanges": RANGES})
GWF = ["1 <= len(cls._groups)",
       "forall(lambda k: implies(0 <= k and k < len(cls._groups), 0 <= cls._groups[k].msb), pat=cls._groups[k].msb)",
       "forall(lambda j, k: implies(0 <= j and j < k and k < len(cls._groups), cls._groups[j].msb < cls._groups[k].msb), pat=(cls._groups[j].msb, cls._groups[k].msb))"]
FOUND = ["0 <= K", "K < len(cls._groups)", "cls._groups[K].msb == code >> 5"]
MISSING = ["forall(lambda k: implies(0 <= k and k < len(cls._groups), cls._groups[k].msb != code >> 5), pat=cls._groups[k].msb)"]
# a name as the record it comes from determines it: which text that is, C19 and C20 say
STORED = Contract(M + "Group.expandName", {"self": ("obj", "UnicodeData.CharNames:Group", {"tag": "int"}), "lineNumber": "int", "nameChoice": "int"},
                  ["0 <= lineNumber", "lineNumber < 32"], [], value="stored(self.tag, lineNumber, nameChoice)", ufs={"stored": (3, "val")})
GENERATED = Contract(M + "AlgorithmicRange.getName", {"self": ("obj", "UnicodeData.CharNames:AlgorithmicRange", {"tag": "int"}), "code": "int", "nameChoice": "int"},
                     ["self.charRange.start <= code", "code < self.charRange.stop"], [], value="generated(self.tag, code, nameChoice)", ufs={"generated": (3, "val")})
NUF = {"stored": (3, "val"), "generated": (3, "val")}
NSTUBS = {"Group.expandName": STORED, "AlgorithmicRange.getName": GENERATED}
GCS = {"getGeneralCategory": Contract("UnicodeData.CharProps:getGeneralCategory", {"c": "int"}, ["0 <= c"], ["0 <= GC(c)", "GC(c) < 32"], value="GC(c)", ufs={"GC": (1, "int")})}
CODE = ["0 <= code", "code <= 0x10FFFF"]


@SPECS.fn
def char_cat(code, gc):
    """the category an extended name shows: noncharacters and the two kinds of surrogate have their own"""
    return 30 if s_nonchar(code) else (31 if s_is_lead(code) else 32) if gc == 18 else gc


NOALG = "forall(lambda k: implies(0 <= k and k < len(cls._algorithmicRanges), not (cls._algorithmicRanges[k].charRange.start <= code and code < cls._algorithmicRanges[k].charRange.stop)), pat=cls._algorithmicRanges[k].tag)"


INALG = "cls._algorithmicRanges[{0}].charRange.start <= code and code < cls._algorithmicRanges[{0}].charRange.stop"
ALG = ["0 <= A", "A < len(cls._algorithmicRanges)", INALG.format("A"),
       "forall(lambda k: implies(0 <= k and k < A, not (" + INALG.format("k") + ")), pat=cls._algorithmicRanges[k].tag)"]


def cls_fn(name, params, requires, ensures, **kw):
    return Contract(M + "CharNames." + name, {"cls": NAMES, **params}, requires, ensures, props=["C21"], **kw)


CONTRACTS += [
    cls_fn("getGroup", {"code": "int"}, GWF + CODE, [], ghosts={"K": "int"}, result=("element", "cls._groups"),
           cases=[{"name": "found", "requires": FOUND, "ensures": ["result.tag == cls._groups[K].tag"]},
                  {"name": "missing", "requires": MISSING, "ensures": ["is_none(result)"]}],
           loops=[Loop(inv=["0 <= start", "start < limit", "limit <= len(cls._groups)",
                            "forall(lambda k: implies(0 <= k and k < start, cls._groups[k].msb < code >> 5), pat=cls._groups[k].msb)",
                            "forall(lambda k: implies(limit <= k and k < len(cls._groups), code >> 5 < cls._groups[k].msb), pat=cls._groups[k].msb)"],
                       dec="limit - start")]),
    cls_fn("getCharCat", {"code": "int"}, CODE, ["result == char_cat(code, GC(code))", "0 <= result", "result < 33"], ufs={"GC": (1, "int")}, stubs=GCS, result="int"),
    cls_fn("getCharCatName", {"code": "int"}, CODE + ["len(charCatNames) == 33"], ["result == charCatNames[char_cat(code, GC(code))]"],
           ufs={"GC": (1, "int")}, stubs=GCS, result="str", globals={"charCatNames": "strlist"}),
    cls_fn("_getName", {"code": "int", "nameChoice": "int"}, GWF + CODE, [], ghosts={"K": "int"}, ufs=NUF, stubs=NSTUBS, result="str",
           cases=[{"name": "found", "requires": FOUND, "ensures": ["result == stored(cls._groups[K].tag, code % 32, nameChoice)"]},
                  {"name": "missing", "requires": MISSING, "ensures": ['result == ""']}]),
    cls_fn("getCharName", {"code": "int", "nameChoice": "int"}, GWF + CODE + ["len(charCatNames) == 33"], [], ghosts={"K": "int", "A": "int"},
           ufs={**NUF, "GC": (1, "int")}, stubs={**NSTUBS, **GCS}, result="str", globals={"charCatNames": "strlist", "CharNames": ("alias", "cls")},
           cases=[{"name": "algorithmic", "requires": ALG, "ensures": ["result == generated(cls._algorithmicRanges[A].tag, code, nameChoice)"]},
                  {"name": "stored", "requires": [NOALG, "nameChoice != 2"] + FOUND, "ensures": ["result == stored(cls._groups[K].tag, code % 32, nameChoice)"]},
                  {"name": "none", "requires": [NOALG, "nameChoice != 2"] + MISSING, "ensures": ['result == ""']},
                  {"name": "extended", "requires": [NOALG, "nameChoice == 2"],
                   "ensures": ['result == cat("<", charCatNames[char_cat(code, GC(code))], "-", f"{code:04X}", ">")']}],
           loops=[Loop(inv=["forall(lambda k: implies(0 <= k and k < _k, not (cls._algorithmicRanges[k].charRange.start <= code and code < cls._algorithmicRanges[k].charRange.stop)), pat=cls._algorithmicRanges[k].tag)"])]),
]

# ------------------------------------------------------------------ iteration and reverse lookup (C21)
OUT = ("tuple", ["int", "str"])
GRP = ("obj", "UnicodeData.CharNames:Group", {"charRange": "range", "tag": "int"})
ALR = ("obj", "UnicodeData.CharNames:AlgorithmicRange", {"charRange": "range", "tag": "int"})


def record_iterator(cls, ty, name):
    return Contract(M + cls + ".nameIterator", {"self": ty, "nameChoice": "int"}, ["0 <= self.charRange.start", "self.charRange.start <= self.charRange.stop"],
                    ["pos == self.charRange.stop"], ufs=NUF, stubs=NSTUBS, props=["C21"],
                    yields=Yields(out=OUT, init={"pos": "self.charRange.start"}, update={"pos": "out[0] + 1"},
                                  asserts=["out[0] == pos", "out[0] < self.charRange.stop", f"out[1] == {name}"]),
                    loops=[Loop(inv=["pos == code"])])


# the sources of names: groups of 32 code points, algorithmic ranges; nm(c) is the name getCharName gives
GA = {"_groups": ("records", {"msb": "int", "charRange": "range", "tag": "int"}, "UnicodeData.CharNames:Group"), "_algorithmicRanges": RANGES}
G, R = "cls._groups", "cls._algorithmicRanges"
SRC = [f"forall(lambda k: implies(0 <= k and k < len({G}), 0 <= {G}[k].charRange.start and {G}[k].charRange.start % 32 == 0 and "
       f"{G}[k].charRange.stop == {G}[k].charRange.start + 32 and {G}[k].charRange.stop <= 0x110000), pat={G}[k].tag)",
       f"forall(lambda j, k: implies(0 <= j and j < k and k < len({G}), {G}[j].charRange.start < {G}[k].charRange.start), pat=({G}[j].tag, {G}[k].tag))",
       f"forall(lambda k: implies(0 <= k and k < len({R}), 0 <= {R}[k].charRange.start and {R}[k].charRange.start <= {R}[k].charRange.stop and {R}[k].charRange.stop <= 0x110000), pat={R}[k].tag)",
       f"forall(lambda j, k: implies(0 <= j and j < len({R}) and 0 <= k and k < len({R}) and j != k, {R}[j].charRange.stop <= {R}[k].charRange.start or {R}[k].charRange.stop <= {R}[j].charRange.start), pat=({R}[j].tag, {R}[k].tag))",
       # the name of a code point, as getCharName's contract gives it; covered(c): c is in an algorithmic range
       f"forall(lambda k, c: implies(0 <= k and k < len({R}) and {R}[k].charRange.start <= c and c < {R}[k].charRange.stop, nm(c) == generated({R}[k].tag, c, nameChoice) and covered(c)), pat=generated({R}[k].tag, c, nameChoice))",
       f"forall(lambda k, c: implies(0 <= k and k < len({G}) and {G}[k].charRange.start <= c and c < {G}[k].charRange.stop, "
       f"iff(covered(c), False) and stored({G}[k].tag, c % 32, nameChoice) == nm(c) or covered(c) and stored({G}[k].tag, c % 32, nameChoice) == ''), pat=(stored({G}[k].tag, c % 32, nameChoice)))",
       # where the name of the arbitrary code point X comes from
       f"implies(KIND == 0, 0 <= S and S < len({G}) and {G}[S].charRange.start <= X and X < {G}[S].charRange.stop and not covered(X))",
       f"implies(KIND == 1, 0 <= S and S < len({R}) and {R}[S].charRange.start <= X and X < {R}[S].charRange.stop and covered(X))",
       f"implies(KIND == 2, nm(X) == '' and not covered(X) and forall(lambda k: implies(0 <= k and k < len({G}), not ({G}[k].charRange.start <= X and X < {G}[k].charRange.stop)), pat={G}[k].tag))",
       "0 <= KIND", "KIND <= 2"]
SRC_G = {"X": "int", "KIND": "int", "S": "int"}
SRC_UF = {**NUF, "nm": (1, "val"), "covered": (1, "bool")}
NAMED = ("cls", "UnicodeData.CharNames:CharNames", GA)
HERE = "(KIND == 1 and sorted_pos1[S] {0} or KIND == 0 and sorted_pos0[S] {0})"
ONE = "nm(X) != '' and "

CONTRACTS += [
    record_iterator("Group", GRP, "stored(self.tag, out[0] % 32, nameChoice)"),
    record_iterator("AlgorithmicRange", ALR, "generated(self.tag, out[0], nameChoice)"),
    Contract(M + "CharNames.nameIterator", {"cls": NAMED, "nameChoice": "int"}, SRC, ["seen == (1 if nm(X) != '' else 0)"],
             ghosts=SRC_G, ufs=SRC_UF, stubs=NSTUBS, props=["C21"],
             yields=Yields(out=OUT, init={"seen": "0"}, update={"seen": "seen + (1 if out[0] == X else 0)"},
                           asserts=["out[1] == nm(out[0])", "out[1] != ''", "0 <= out[0]", "out[0] <= 0x10FFFF"]),
             loops=[Loop(inv=["seen == (1 if " + ONE + HERE.format("< _k") + " else 0)"]),
                    Loop(inv=["charRange.charRange.start <= it_pos", "it_pos <= charRange.charRange.stop",
                              "seen == pre(seen) + (1 if " + ONE + "it_pos > X and " + HERE.format("== _k") + " else 0)"])]),
    Contract(M + "CharNames.charFromName", {"cls": NAMED, "theName": "str", "nameChoice": "int"}, SRC,
             ["implies(result != 0xFFFFFFFF, nm(result) == theName and theName != '')", "implies(nm(X) == theName and theName != '', result != 0xFFFFFFFF)",
              "result == 0xFFFFFFFF or 0 <= result and result <= 0x10FFFF"],
             ghosts=SRC_G, ufs=SRC_UF, stubs=NSTUBS, props=["C21"], result="int",
             loops=[Loop(inv=["implies(nm(X) == theName, it_seen == 0)"])]),
]

# ------------------------------------------------------------------ stored names (C19)


@SPECS.fn(rec=True)
def ex(B: Arr, n, T: Arr, tn, S: Arr, choice, i, acc: str) -> str:
    """acc followed by what the bytes from i on denote. A byte without a token is itself; token 0xFFFE: the byte leads a
    two-byte token; token 0xFFFF: no token. A semicolon that is not a token ends the name (an extended name skips leading ones)."""
    c = B[i]
    two = T[c] == 0xFFFE
    token = T[c * 256 + B[i + 1]] if two else T[c]
    after = i + 2 if two else i + 1
    if i >= n:
        return acc
    if c >= tn:
        return acc if c == 59 else ex(B, n, T, tn, S, choice, i + 1, cat(acc, chr(c)))
    if token != 0xFFFF:
        return ex(B, n, T, tn, S, choice, after, tok(S, token, acc))
    if c != 59:
        return ex(B, n, T, tn, S, choice, after, cat(acc, chr(c)))
    return ex(B, n, T, tn, S, choice, after, acc) if acc == "" and choice == 2 and T[59] == 0xFFFF else acc


@SPECS.fn(rec=True)
def well_formed(B: Arr, n, T: Arr, tn, S: Arr, sn, i) -> bool:
    """lead bytes are followed by a trail byte, two-byte tokens are in the table, token strings are terminated"""
    c = B[i]
    two = T[c] == 0xFFFE
    k = c * 256 + B[i + 1] if two else c
    after = i + 2 if two else i + 1
    if i >= n:
        return True
    if c >= tn:
        return well_formed(B, n, T, tn, S, sn, i + 1)
    return implies(two, i + 1 < n and k < tn) and (T[k] == 0xFFFF or terminated(S, sn, T[k])) and well_formed(B, n, T, tn, S, sn, after)


TOKENS = ("cls", "UnicodeData.CharNames:Tokens", {"_tokens": "inttuple", "_strings": "bytes"})


def expansion(b, n, t, i="0", acc='""'):
    return f"ex({b}, {n}, {t}._tokens, len({t}._tokens), {t}._strings, nameChoice, {i}, {acc})"


def wf(b, n, t, i="0"):
    return f"well_formed({b}, {n}, {t}._tokens, len({t}._tokens), {t}._strings, len({t}._strings), {i})"


TXT = "ex(G, O + {0}, {1}._tokens, len({1}._tokens), {1}._strings, nameChoice, {2}, {3})"
TWF = "well_formed(G, O + {0}, {1}._tokens, len({1}._tokens), {1}._strings, len({1}._strings), {2})"
# the string is the bytes of G from O on
AT = ["0 <= O", "forall(lambda j: implies(0 <= j and j < len(string), string[j] == G[O + j]))"]
N = "len(string)"
CONTRACTS += [
    Contract(M + "Tokens.expandString", {"cls": TOKENS, "string": "bytes", "nameChoice": "int"}, AT + [TWF.format(N, "cls", "O")],
             ["result == " + TXT.format(N, "cls", "O", '""')], result="str", ghosts={"G": "bytes", "O": "int"}, props=["C19"],
             loops=[Loop(inv=["0 <= s", "nameLength == len(string) - s", "0 <= nameLength", TWF.format(N, "cls", "O + s"),
                              TXT.format(N, "cls", "O + s", "expandedName") + " == " + TXT.format(N, "cls", "O", '""')],
                         dec="nameLength", types={"expandedName": "str"}),
                    Loop(inv=["terminated(cls._strings, len(cls._strings), token)",
                              "tok(cls._strings, token, expandedName) == tok(cls._strings, pre(token), pre(expandedName))"],
                         dec="len(cls._strings) - token", types={"expandedName": "str"})]),
]


@SPECS.fn
def ends(B, n, i, p):
    """the field that starts at i ends at p; at the end when there is none"""
    return 0 <= p and p <= n and (p == n or B[p] == 59) and (p == n if i > n else i <= p and forall(lambda j: implies(i <= j and j < p, B[j] != 59)))


STRING = "self.strings[lineNumber]"
LEN = f"len({STRING})"
BOUNDS = [f"ends({STRING}, {LEN}, 0, P0)"] + [f"ends({STRING}, {LEN}, P{k} + 1, P{k + 1})" for k in range(3)]
CONTRACTS += [
    Contract(M + "Group.expandName", {"self": ("obj", "UnicodeData.CharNames:Group", {"strings": "byteslist"}), "lineNumber": "int", "nameChoice": "int"},
             ["0 <= lineNumber", "lineNumber < len(self.strings)", "0 <= FIRST", f"forall(lambda j: implies(0 <= j and j < {LEN}, {STRING}[j] == G[FIRST + j]))"],
             [], ghosts={"G": "bytes", "O": "int", "FIRST": "int", "P0": "int", "P1": "int", "P2": "int", "P3": "int"}, globals={"Tokens": TOKENS}, standalone=True, props=["C19"],
             cases=[{"name": "name", "requires": ["nameChoice == 0 or nameChoice == 2", "O == FIRST", TWF.format(LEN, "Tokens", "O")],
                     "ensures": ["result == " + TXT.format(LEN, "Tokens", "O", '""')]}] +
                   [{"name": f"field {f} of choice {choice}", "requires": [f"nameChoice == {choice}", *BOUNDS, f"P{f - 1} < {LEN}", f"O == FIRST + P{f - 1} + 1",
                                                                           TWF.format(f"P{f} - P{f - 1} - 1", "Tokens", "O")],
                     "ensures": ["result == " + TXT.format(f"P{f} - P{f - 1} - 1", "Tokens", "O", '""')]} for choice, f in ((1, 1), (3, 3), (4, 2))] +
                   [{"name": f"no field for choice {choice}", "requires": [f"nameChoice == {choice}", *BOUNDS, f"P{f - 1} == {LEN}", "O == 0"], "ensures": ['result == ""']} for choice, f in ((1, 1), (3, 3), (4, 2))]),
]


@SPECS.fn
def nibble(D: Arr, s, j):
    """nibble j of the bytes from s on, high nibble first"""
    return D[s + j // 2] // 16 if j % 2 == 0 else D[s + j // 2] % 16


@SPECS.fn(rec=True)
def len_at(D: Arr, s, k):
    """the nibble where the length of string k begins: one nibble below 12, or two"""
    return 0 if k <= 0 else len_at(D, s, k - 1) + (2 if nibble(D, s, len_at(D, s, k - 1)) >= 12 else 1)


@SPECS.fn(rec=True)
def len_of(D: Arr, s, k):
    """the length of string k"""
    p = len_at(D, s, k)
    n = nibble(D, s, p)
    return n if n < 12 else n % 4 * 16 + nibble(D, s, p + 1) + 12


@SPECS.fn(rec=True)
def offset_of(D: Arr, s, k):
    """the lengths of the strings before k added up"""
    return 0 if k <= 0 else offset_of(D, s, k - 1) + len_of(D, s, k - 1)


SPECS.lemma("len_at_mono", {"D": "Arr", "s": "int", "i": "int", "n": "int"}, ["0 <= i", "i <= n"], ["len_at(D, s, n) >= len_at(D, s, i) + (n - i)"], induct="n")
SPECS.lemma("len_step", {"D": "Arr", "s": "int", "k": "int"}, ["0 <= k"],
            ["len_at(D, s, k + 1) == len_at(D, s, k) + (2 if nibble(D, s, len_at(D, s, k)) >= 12 else 1)", "offset_of(D, s, k + 1) == offset_of(D, s, k) + len_of(D, s, k)"])
ICU = ("cls", "UnicodeData.ICUDataFile:ICUData", {"_fileData": "bytes"})
DB, S0 = "icuData._fileData", "groupStringsOffset"
CONTRACTS += [
    Contract(M + "Group.expandGroupLengths", {"self": ("obj", "UnicodeData.CharNames:Group", {}), "icuData": ICU, "groupStringsOffset": "int"},
             [f"0 <= {S0}", f"{S0} + (len_at({DB}, {S0}, 32) + 1) // 2 <= len({DB})"],
             [f"result[0] == {S0} + (len_at({DB}, {S0}, 32) + 1) // 2", "len(result[1]) == len(result[2])", "32 <= len(result[1])", "len(result[1]) <= 33",
              f"forall(lambda k: implies(0 <= k and k < len(result[1]), result[1][k] == offset_of({DB}, {S0}, k) and result[2][k] == len_of({DB}, {S0}, k)))"],
             result=("tuple", ["int", "intlist", "intlist"]), props=["C19"],
             loops=[Loop(inv=["0 <= i", "i <= 33", "len(offsets) == i", "len(lengths) == i", f"offset == offset_of({DB}, {S0}, i)", "0 <= length",
                              f"{S0} <= s",
                              f"forall(lambda k: implies(0 <= k and k < i, offsets[k] == offset_of({DB}, {S0}, k)))", f"forall(lambda k: implies(0 <= k and k < i, lengths[k] == len_of({DB}, {S0}, k)))",
                              f"implies(length < 12, 2 * (s - {S0}) == len_at({DB}, {S0}, i))",
                              f"implies(length >= 12, i <= 32 and length <= 15 and 2 * (s - {S0}) == len_at({DB}, {S0}, i) + 1 and length == nibble({DB}, {S0}, len_at({DB}, {S0}, i)))",
                              f"implies(i == 33, nibble({DB}, {S0}, len_at({DB}, {S0}, 32)) < 12)"],
                         dec="33 - i", types={"elem": "int"},
                         hints=[f"len_at_mono({DB}, {S0}, i, 32)", f"len_at_mono({DB}, {S0}, i + 1, 32)", f"len_step({DB}, {S0}, i)", f"len_step({DB}, {S0}, i + 1)"],
                         exit_hints=[f"len_step({DB}, {S0}, 32)"])]),
]

SPECS.lemma("len_at_nonneg", {"D": "Arr", "s": "int", "n": "int"}, ["0 <= n"], ["n <= len_at(D, s, n)"], induct="n")
SPECS.lemma("len_nonneg", {"D": "Arr", "s": "int", "n": "int"}, ["forall(lambda k: 0 <= D[k])", "0 <= n"], ["0 <= len_of(D, s, n)"])
SPECS.lemma("offset_nonneg", {"D": "Arr", "s": "int", "n": "int"}, ["forall(lambda k: 0 <= D[k])", "0 <= n"], ["0 <= offset_of(D, s, n)"], induct="n",
            uses=["len_nonneg(D, s, n - 1)"])
LENGTHS = ["len_of", "offset_of", "len_at"]
# a group: the number its code points start with, and its strings
def group_facts(g, d, o, base, k="K"):
    """g is the group stored at o, its lengths and strings at base; string k, if the file holds it"""
    field = f"({base} + (len_at({d}, {base}, 32) + 1) // 2 + offset_of({d}, {base}, {k}))"
    held = f"{field} + len_of({d}, {base}, {k}) <= len({d})"
    return [f"{g}.msb == u16({d}, {o})", f"{g}.charRange.start == 32 * {g}.msb", f"{g}.charRange.stop == {g}.charRange.start + 32", f"32 <= len({g}.strings)",
            f"implies({held}, len({g}.strings[{k}]) == len_of({d}, {base}, {k}))",
            f"forall(lambda j: implies({held} and 0 <= j and j < len_of({d}, {base}, {k}), {g}.strings[{k}][j] == {d}[{field} + j]))"]


def lengths_inside(d, base):
    return f"{base} + (len_at({d}, {base}, 32) + 1) // 2 <= len({d})"


GROUP = {"msb": "int", "charRange": "range", "strings": "byteslist"}
BASE = f"(groupStringsStart + u16({DB}, groupStart + 2) * 65536 + u16({DB}, groupStart + 4))"
KEPT = [e.replace("implies(", "implies(i > K and ", 1) for e in group_facts("self", DB, "groupStart", BASE)[4:]]
CONTRACTS += [
    Contract(M + "Group.__init__", opaque=LENGTHS, params={"self": ("obj", "UnicodeData.CharNames:Group", {}), "icuData": ICU, "groupStart": "int", "groupStringsStart": "int"},
             requires=["0 <= groupStart", f"groupStart + 6 <= len({DB})", f"0 <= {BASE}", lengths_inside(DB, BASE), "0 <= K", "K < 32"],
             ensures=group_facts("self", DB, "groupStart", BASE),
             ghosts={"K": "int"}, modifies=["self.msb", "self.charRange", "self.strings"], creates={"self." + f: t for f, t in GROUP.items()}, props=["C19"],
             loops=[Loop(inv=["len(self.strings) == i"] + KEPT, types={"elem": "bytes"},
                         hints=[f"{n}({DB}, {BASE}, i)" for n in ("len_at_nonneg", "len_nonneg", "offset_nonneg")] + [f"len_at_nonneg({DB}, {BASE}, 32)"])]),
]

# ------------------------------------------------------------------ a stored algorithmic range (C20)


@SPECS.fn(rec=True)
def element_at(D: Arr, s, k):
    """where element k starts: the elements follow one another, each with its null byte"""
    return s if k <= 0 else element_at(D, s, k - 1) + len(tok(D, element_at(D, s, k - 1), "")) + 1


SPECS.lemma("element_step", {"D": "Arr", "s": "int", "k": "int"}, ["0 <= k"], ["element_at(D, s, k + 1) == element_at(D, s, k) + len(tok(D, element_at(D, s, k), '')) + 1"])


def stored_range(r, d, o):
    """r is the range stored at o: what every range has, and what its type adds"""
    after = f"({o} + 12 + 2 * {d}[{o} + 9])"
    elem = f'element_at({d}, {after} + len(tok({d}, {after}, "")) + 1, {{0}})'
    limit = f"({o} + u16({d}, {o} + 10))"
    at = elem.format("k")
    alls = "forall(lambda k: implies(0 <= k and k < len({0}), {1}))"
    return ([f"{r}.charRange.start == u32({d}, {o})", f"{r}.charRange.stop == u32({d}, {o} + 4) + 1", f"{r}.type == {d}[{o} + 8]", f"{r}.variant == {d}[{o} + 9]", f"{r}.size == u16({d}, {o} + 10)"],
            [f'{r}.string == tok({d}, {o} + 12, "")', f"len({r}.factors) == 0", f"len({r}.elements) == 0"],
            [f'{r}.string == tok({d}, {after}, "")', f"len({r}.factors) == {d}[{o} + 9]", alls.format(f"{r}.factors", f"{r}.factors[k] == u16({d}, {o} + 12 + 2 * k)"),
             alls.format(f"{r}.elements", f"{r}.elements[k] == tok({d}, {at}, '')"), alls.format(f"{r}.elements", f"{at} < {limit}"), f"{limit} <= " + elem.format(f"len({r}.elements)")],
            [f'{r}.string == ""', f"len({r}.factors) == 0", f"len({r}.elements) == 0"])


def range_needs(d, o):
    """what its type asks of the bytes of a range stored at o"""
    after = f"({o} + 12 + 2 * {d}[{o} + 9])"
    at = f'element_at({d}, {after} + len(tok({d}, {after}, "")) + 1, k)'
    return ([f"{d}[{o} + 8] == 0", f"terminated({d}, len({d}), {o} + 12)"],
            [f"{d}[{o} + 8] == 1", f"{after} <= len({d})", f"terminated({d}, len({d}), {after})",
             f"forall(lambda k: implies(0 <= k and {at} < {o} + u16({d}, {o} + 10), terminated({d}, len({d}), {at})))"],
            [f"{d}[{o} + 8] != 0", f"{d}[{o} + 8] != 1"])


AFTER = f"(offset + 12 + 2 * {DB}[offset + 9])"
ELEM0 = f'{AFTER} + len(tok({DB}, {AFTER}, "")) + 1'
LIMIT = f"offset + u16({DB}, offset + 10)"
RANGE_F = {"type": "int", "variant": "int", "size": "int", "charRange": "range", "string": "str", "factors": "inttuple", "elements": "strlist"}
HEAD, *BY_TYPE = stored_range("self", DB, "offset")
CONTRACTS += [
    Contract(M + "AlgorithmicRange.__init__", {"self": ("obj", "UnicodeData.CharNames:AlgorithmicRange", {}), "icuData": ICU, "offset": "int"},
             ["0 <= offset", f"offset + 12 <= len({DB})"], HEAD, modifies=["self." + f for f in RANGE_F], creates={"self." + f: t for f, t in RANGE_F.items()}, props=["C20"],
             cases=[{"name": n, "requires": q, "ensures": e} for n, q, e in zip(("hexadecimal", "factorized", "unknown type"), range_needs(DB, "offset"), BY_TYPE)],
             loops=[Loop(inv=[f"elementStart == element_at({DB}, {ELEM0}, len(self.elements))"] + BY_TYPE[1][3:5],
                         dec=f"{LIMIT} - elementStart", types={"elem": "str"}, hints=[f"element_step({DB}, {ELEM0}, len(self.elements))"])]),
]

TS = "tokensStart"
CONTRACTS += [
    Contract(M + "Tokens.populateData", {"cls": TOKENS, "icuData": ICU, TS: "int", "tokenStringsStart": "int", "tokenStringsLimit": "int"},
             [f"0 <= {TS}", f"{TS} + 2 <= len({DB})"], [], modifies=["cls._tokens", "cls._strings"], props=["C19"],
             cases=[{"name": "first", "requires": ["len(cls._tokens) == 0", f"tokenStringsStart == {TS} + 2 + 2 * u16({DB}, {TS})", "tokenStringsStart <= tokenStringsLimit", f"tokenStringsLimit <= len({DB})"],
                     "ensures": [f"len(cls._tokens) == u16({DB}, {TS})", f"forall(lambda k: implies(0 <= k and k < len(cls._tokens), cls._tokens[k] == u16({DB}, {TS} + 2 + 2 * k)))",
                                 "len(cls._strings) == tokenStringsLimit - tokenStringsStart", f"forall(lambda k: implies(0 <= k and k < len(cls._strings), cls._strings[k] == {DB}[tokenStringsStart + k]))"]},
                    {"name": "again", "requires": ["0 < len(cls._tokens)"],
                     "ensures": ["len(cls._tokens) == old(len(cls._tokens))", "forall(lambda k: implies(0 <= k and k < len(cls._tokens), cls._tokens[k] == old(cls._tokens)[k]))",
                                 "len(cls._strings) == old(len(cls._strings))", "forall(lambda k: implies(0 <= k and k < len(cls._strings), cls._strings[k] == old(cls._strings)[k]))"]}]),
]

# ------------------------------------------------------------------ all name data of a file (C19, C20, C21, C22)


@SPECS.fn(rec=True)
def range_at(D: Arr, s, j):
    """where range j is stored: each says how long it is"""
    return s if j <= 0 else range_at(D, s, j - 1) + u16(D, range_at(D, s, j - 1) + 10)


@SPECS.fn(rec=True)
def base_at(D: Arr, g, s, k):
    """where the lengths of group k are stored"""
    return s + u16(D, g + 6 * k + 2) * 65536 + u16(D, g + 6 * k + 4)


SPECS.lemma("range_step", {"D": "Arr", "s": "int", "j": "int"}, ["0 <= j"], ["range_at(D, s, j + 1) == range_at(D, s, j) + u16(D, range_at(D, s, j) + 10)"])
SPECS.lemma("base_def", {"D": "Arr", "g": "int", "s": "int", "k": "int"}, [], ["base_at(D, g, s, k) == s + u16(D, g + 6 * k + 2) * 65536 + u16(D, g + 6 * k + 4)"])
DATA = ("cls", "UnicodeData.ICUDataFile:ICUData", {"_fileData": "bytes", "_dataOffsets": ("map",)})
FILLED = ("cls", "UnicodeData.CharNames:CharNames", {"_icuData": DATA, "_groups": ("records", GROUP, "UnicodeData.CharNames:Group"),
                                                     "_algorithmicRanges": ("records", RANGE_F, "UnicodeData.CharNames:AlgorithmicRange")})
DF, DO = "cls._icuData._fileData", 'cls._icuData._dataOffsets["unames.icu"]'
AR0 = f"(B + u32({DF}, B + 12) + 4)"
GROUP0 = f"(B + u32({DF}, B + 4) + 2)"
NGROUPS, NRANGES = f"u16({DF}, {GROUP0} - 2)", f"u32({DF}, {AR0} - 4)"


def base_of(k):
    return f"base_at({DF}, {GROUP0}, B + u32({DF}, B + 8), {k})"


def range_pos(j):
    return f"range_at({DF}, {AR0}, {j})"


NEEDS = [" and ".join(q) for q in range_needs(DF, range_pos("j"))]
GI = group_facts("cls._groups[I]", DF, f"{GROUP0} + 6 * I", base_of("I"))
RI, *TI = stored_range("cls._algorithmicRanges[J]", DF, range_pos("J"))
WHICH = [f"{DF}[{range_pos('J')} + 8] == 0", f"{DF}[{range_pos('J')} + 8] == 1", f"{DF}[{range_pos('J')} + 8] >= 2"]


def once(c, e):
    """e, when c"""
    return e.replace("implies(", f"implies({c} and ", 1) if e.startswith(("implies(", "forall(lambda j: implies(", "forall(lambda k: implies(")) else f"implies({c}, {e})"


FULL_I = [once("{0}", e) for e in GI]
FULL_J = [once("{0}", e) for e in RI] + [once("{0} and " + w, e) for w, es in zip(WHICH, TI) for e in es]


def given(es, c):
    return [e.replace("{0}", c) for e in es]


CONTRACTS += [
    Contract(M + "CharNames.populateData", {"cls": FILLED},
             ['has(cls._icuData._dataOffsets, "unames.icu")', f"0 <= {DO}", f"{DO} + 24 <= len({DF})", f"B == {DO} + u16({DF}, {DO})", f"B + 16 <= len({DF})",
              "len(cls._groups) == 0", "len(cls._algorithmicRanges) == 0", "len(Tokens._tokens) == 0",
              # tokens, their strings, groups, group strings and ranges, each inside the file
              f"B + 18 <= len({DF})", f"u32({DF}, B) == 18 + 2 * u16({DF}, B + 16)", f"u32({DF}, B) <= u32({DF}, B + 4)",
              f"{GROUP0} + 6 * {NGROUPS} <= len({DF})", f"{AR0} <= len({DF})", "0 <= I", f"0 <= J", "0 <= K", "K < 32",
              f"forall(lambda k: implies(0 <= k and k < {NGROUPS}, {lengths_inside(DF, base_of('k'))}), pat={base_of('k')})",
              f"forall(lambda j: implies(0 <= j and j < {NRANGES}, {range_pos('j')} + 12 <= len({DF})), pat={range_pos('j')})",
              f"forall(lambda j: implies(0 <= j and j < {NRANGES}, {' or '.join('(' + n + ')' for n in NEEDS)}), pat={range_pos('j')})"],
             [f"len(Tokens._tokens) == u16({DF}, B + 16)", f"forall(lambda k: implies(0 <= k and k < len(Tokens._tokens), Tokens._tokens[k] == u16({DF}, B + 18 + 2 * k)))",
              f"len(Tokens._strings) == u32({DF}, B + 4) - u32({DF}, B)", f"forall(lambda k: implies(0 <= k and k < len(Tokens._strings), Tokens._strings[k] == {DF}[B + u32({DF}, B) + k]))",
              f"len(cls._groups) == {NGROUPS}", f"len(cls._algorithmicRanges) == {NRANGES}"] + given(FULL_I, f"I < {NGROUPS}") + given(FULL_J, f"J < {NRANGES}"),
             ghosts={"B": "int", "I": "int", "J": "int", "K": "int"}, globals={"Tokens": TOKENS}, modifies=["cls._groups", "cls._algorithmicRanges", "Tokens._tokens", "Tokens._strings"],
             standalone=True, opaque=LENGTHS, props=["C19", "C20", "C21", "C22"],
             loops=[Loop(inv=["len(cls._groups) == _", f"groupStart == {GROUP0} + 6 * _"] + given(FULL_I, "I < _"), hints=[f"base_def({DF}, {GROUP0}, B + u32({DF}, B + 8), _)"]),
                    Loop(inv=["len(cls._algorithmicRanges) == _", "0 <= rangeStart", f"rangeStart == {range_pos('_')}"] + given(FULL_J, "J < _"), hints=[f"range_step({DF}, {AR0}, _)"])]),
]
