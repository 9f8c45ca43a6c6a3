"""The module builder. What re.findall matches is a library function here; the refuter compares it on generated sources."""
from pydv.engine import Contract, Loop
from pydv.spec import SPECS
from refute.modulebuilder import modules

modules()        # makes the builder's modules importable
M = "ModuleBuilder:ModuleBuilder."
B = {"self": ("obj", "ModuleBuilder:ModuleBuilder", {"source": "str", "outputLines": "strlist"})}
SCALAR, ARRAY, PROPS, TRIE = '"=(.+);"', r'"\\[.+?\\]=\\{(.+?)\\};"', r'"=\\{\\n(.+?)\\n\\};"', r'"\\{\\n(.+?)\\}"'
DOTALL = 16
FIELDS = [("index_length", 3), ("index_2_null_offset", 5), ("data_null_offset", 6), ("high_start", 9), ("high_value_index", 10)]


def pattern(name, p): return f"cat({name}, {p})"
def has(pat, flags, text="self.source"): return f"nfound({pat}, {text}, {flags}) >= 1"
def first(pat, flags, text="self.source"): return f"found({pat}, {text}, {flags}, 0)"


OUT, OLD = "self.outputLines", "old(self.outputLines)"
KEPT = [f"forall(lambda k: implies(0 <= k and k < len({OLD}), {OUT}[k] == {OLD}[k]))"]


def added(*lines):
    """these lines, and nothing else, at the end of the output"""
    return KEPT + [f"len({OUT}) == len({OLD}) + {len(lines)}"] + [f"{OUT}[len({OLD}) + {k}] == {t}" for k, t in enumerate(lines)]


def trie_lines(trie):
    return added(*[f'cat(prefix, "_{n} = ", text_method("strip", part({trie}, ",\\n", {k})))' for n, k in FIELDS], '""')


def con(name, params, requires, ensures, **kw):
    return Contract(M + name, {**B, **params}, requires, ensures, props=["C25"], **kw)


PROPS_P, TRIE_P = pattern("propsName", PROPS), pattern("trieName", PROPS)
INNER = first(TRIE, DOTALL, first(PROPS_P, DOTALL))
LINES = [f"{OUT}"]
ARR = first(pattern("arrayName", ARRAY), DOTALL)
CUT = f'(text_init({ARR}, 1) if text_method("endswith", {ARR}, "\\n") else {ARR})'
CONTRACTS = [
    con("getScalarDeclaration", {"name": "str"}, [has(pattern("name", SCALAR), 0)], [f"result == {first(pattern('name', SCALAR), 0)}"], result="str"),
    con("getArrayDeclaration", {"arrayName": "str"}, [has(pattern("arrayName", ARRAY), DOTALL)], [f"result == {ARR}"], result="str"),
    con("getPropsDeclaration", {"name": "str"}, [has(pattern("name", PROPS), DOTALL)], [f"result == {first(pattern('name', PROPS), DOTALL)}"], result="str"),
    con("scalarToPython", {"name": "str"}, [has(pattern("name", SCALAR), 0)], added(f'cat(name, " = ", {first(pattern("name", SCALAR), 0)}, "\\n")'), modifies=[OUT]),
    con("arrayToPython", {"arrayName": "str"}, [has(pattern("arrayName", ARRAY), DOTALL)], [], modifies=[OUT],
        cases=[dict(name="one line", requires=[f'not has_text({ARR}, "\\n")', f'not text_method("endswith", {ARR}, "\\n")'], ensures=added(f'cat(arrayName, " = [", {ARR}, "]\\n")')),
               dict(name="several lines", requires=[f'has_text({ARR}, "\\n")'],
                    ensures=added(f'cat(arrayName, " = [", text_method("replace", {CUT}, "\\n", "\\n    "), "\\n]\\n")'))]),
    con("trieValues", {"trie": "str", "prefix": "str"}, ['nparts(trie, ",\\n") >= 11'], trie_lines("trie"), modifies=[OUT]),
    con("trieValuesFromPropsDeclaration", {"propsName": "str", "prefix": "str"},
        [has(PROPS_P, DOTALL), has(TRIE, DOTALL, first(PROPS_P, DOTALL)), f'nparts({INNER}, ",\\n") >= 11'], trie_lines(INNER), modifies=[OUT]),
    con("trieValuesFromTrieDeclaration", {"trieName": "str", "prefix": "str"},
        [has(TRIE_P, DOTALL), f'nparts({first(TRIE_P, DOTALL)}, ",\\n") >= 11'], trie_lines(first(TRIE_P, DOTALL)), modifies=[OUT]),
]

Arr = None


@SPECS.fn(rec=True)
def summed(A: Arr, n):
    return summed(A, n - 1) + A[n - 1] if n > 0 else 0


# ---- the value lines of the property file; T: any property type, X: any row, Y: any row that gives the version
U = "UCDReader:UCDReader."
TEXTS = ["str", "str", "table", "textfn"]
READER = {"self": ("obj", "UCDReader:UCDReader", {"reader": "rows", "prefix": ("table", TEXTS), "lines": ("lists",), "ucdVersion": "val"})}
R = "self.reader"


def value_line(k): return f'(len({R}[{k}]) > 0 and {R}[{k}][0] == "value" and {R}[{k}][1] == T and has(self.prefix, T))'
def mapped(k): return f"has(self.prefix[T][2], {R}[{k}][3])"
def dropped(k): return f'({mapped(k)} and self.prefix[T][2][{R}[{k}][3]] == "")'
def kept(k): return f"({value_line(k)} and not {dropped(k)})"


def text_of(k):
    key = f'(self.prefix[T][2][{R}[{k}][3]] if {mapped(k)} else text_method("upper", {R}[{k}][3]))'
    return f'cat("    ", self.prefix[T][0], "_", {key}, ": \\"", call_of(self.prefix[T][3], {R}[{k}][2]), "\\"")'


def gathered(n):
    return [f"iff(has(self.lines, T), summed(S, {n}) > 0)", f"implies(has(self.lines, T), len(self.lines[T]) == summed(K, {n}))",
            f"implies(0 <= X and X < {n} and {kept('X')}, self.lines[T][summed(K, X)] == {text_of('X')})",
            f'implies(Y < {n} and {VERSION}, self.ucdVersion == {R}[Y][1])']


VERSION = f'(0 <= Y and Y < len({R}) and len({R}[Y]) > 0 and {R}[Y][0] == "ucd" and forall(lambda k: implies(Y < k and k < len({R}), len({R}[k]) == 0 or {R}[k][0] != "ucd")))'
# K, S: 1 for the rows that give T an entry, and for the value lines of T
COUNTED = [f"len(K) == len({R})", f"len(S) == len({R})",
           f"forall(lambda k: implies(0 <= k and k < len({R}), K[k] == (1 if {kept('k')} else 0)), pat=K[k])",
           f"forall(lambda k: implies(0 <= k and k < len({R}), S[k] == (1 if {value_line('k')} else 0)), pat=S[k])"]
CONTRACTS += [
    Contract(U + "generateDictionaries", READER,
             COUNTED + [f'forall(lambda k: implies(0 <= k and k < len({R}) and len({R}[k]) > 0, ({R}[k][0] != "value" or len({R}[k]) >= 4 and text_method("upper", {R}[k][3]) != "") and ({R}[k][0] != "ucd" or len({R}[k]) >= 2)))',
                        "not has(self.lines, T)"],
             gathered(f"len({R})"), ghosts={"T": "str", "X": "int", "Y": "int", "K": "intlist", "S": "intlist"},
             modifies=["self.lines", "self.ucdVersion"], props=["C25"],
             loops=[Loop(inv=gathered("_k") + ["summed(K, _k) >= 0", "implies(summed(S, _k) == 0, summed(K, _k) == 0)", "summed(S, _k) >= 0", "implies(0 <= X and X < _k, summed(K, X) >= 0 and summed(K, X) + K[X] <= summed(K, _k))"])]),
]

# ---- header files: which lines are read as code, which are joined, which comment ends them
H = "HeaderToPtyhon:HeaderFile."
FILE = ("obj", "pydv.library:TextFile", {"lines": "strlist", "pos": "int"})
HEADER = {"self": ("obj", "HeaderToPtyhon:HeaderFile", {"sourceFile": FILE, "guardMatch": ("pattern",), "outputLines": "strlist", "ignore": "strlist"})}
N, POS = "len(self.sourceFile.lines)", "self.sourceFile.pos"


def starts(t, x): return f'text_method("startswith", {t}, "{x}")'
def ends(t, x): return f'text_method("endswith", {t}, "{x}")'


def code_of(t): return f'(text_method("strip", text_slice({t}, 0, group_start(cCommentRE, {t}, 0))) if searched(cCommentRE, {t}) else text_method("strip", text_slice({t}, 0, group_start(eolCommentRE, {t}, 0))) if searched(eolCommentRE, {t}) else {t})'
def comment_of(t): return f'(text_slice({t}, group_start(cCommentRE, {t}, 1), group_end(cCommentRE, {t}, 1)) if searched(cCommentRE, {t}) else text_slice({t}, group_start(eolCommentRE, {t}, 1), group_end(eolCommentRE, {t}, 1)) if searched(eolCommentRE, {t}) else "")'


# T: the lines without surrounding blanks; C, Q, A: 1 while line k is in a comment, in a conditional, in a macro; M: the macro so far
NOISE = f'(T[k] == "" or {starts("T[k]", "//")} or {starts("T[k]", "/*")})'
OPENS = f'(T[k] != "" and not {starts("T[k]", "//")} and {starts("T[k]", "/*")} and not {ends("T[k]", "*/")})'
LIVE = f'(not {NOISE} and C[k] == 0)'
IF = f'({LIVE} and {starts("T[k]", "#if")})'
PLAIN = f'({LIVE} and not {starts("T[k]", "#if")} and Q[k] == 0 and not {starts("T[k]", "#endif")})'
BACK = ends("T[k]", "\\\\")
MACRO = f'({PLAIN} and {starts("T[k]", "#define")} and {BACK})'
EMITS = f'({PLAIN} and not {MACRO} and (A[k] == 0 or not {BACK}))'
TEXT = "(cat(M[k], T[k]) if A[k] == 1 else T[k])"


def lines(body, pat): return f"forall(lambda k: implies(0 <= k and k < {N}, {body}), pat={pat})"


# Z: 1 for the lines that give a result; LN, CM: its code and its comment
SCAN = [f"len({x}) == {N} + 1" for x in "CQAM"] + [f"len({x}) == {N}" for x in ("T", "Z", "LN", "CM")] + [
    f'forall(lambda k: implies(0 <= k and k < {N}, self.sourceFile.lines[k] != "" and T[k] == text_method("strip", self.sourceFile.lines[k])), pat=self.sourceFile.lines[k])',
    "C[0] == 0 and Q[0] == 0 and A[0] == 0",
    lines(f'C[k + 1] == (1 if {OPENS} else 0 if not {NOISE} and C[k] == 1 and {ends("T[k]", "*/")} else C[k])', "T[k]"),
    lines(f'Q[k + 1] == (1 if {IF} and not searched(self.guardMatch, T[k]) else 0 if {LIVE} and not {starts("T[k]", "#if")} and Q[k] == 1 and {starts("T[k]", "#endif")} else Q[k])', "T[k]"),
    lines(f'A[k + 1] == (1 if {MACRO} else 0 if {EMITS} else A[k])', "T[k]"),
    lines(f'M[k + 1] == (text_init(T[k], 1) if {MACRO} else cat(M[k], text_method("strip", text_init(T[k], 1))) if {PLAIN} and A[k] == 1 and {BACK} else M[k])', "T[k]"),
    lines(f'Z[k] == (1 if {EMITS} else 0)', "Z[k]"),
    lines(f'implies({EMITS}, LN[k] == {code_of(TEXT)} and CM[k] == {comment_of(TEXT)})', "Z[k]"),
]
SCANNED = {"T": "strlist", "C": "intlist", "Q": "intlist", "A": "intlist", "M": "strlist", "Z": "intlist", "LN": "strlist", "CM": "strlist"}
AT_REST = [f"0 <= {POS} and {POS} <= {N}", f"{POS} == {N} or C[{POS}] == 0 and Q[{POS}] == 0 and A[{POS}] == 0"]


def silent(a, b): return f"forall(lambda k: implies({a} <= k and k < {b}, Z[k] == 0), pat=Z[k])"


# ---- what the results are translated to. E: 1 while the enum of line k is open; NV, ENV: the value of its next constant, and the names it has given
TOKEN = "group(firstTokenRE, LN[k], 0, 1)"
DEFINE = f'({TOKEN} == "#define")'
ENUM = f'(not {DEFINE} and ({TOKEN} == "enum" or {TOKEN} == "typedef" and fully(typedefEnumRE, LN[k])))'
MNAME, MVALUE, ENAME, EVALUE = [f"group({p}, LN[k], 0, {g})" for p in ("macroDefineRE", "enumEntryRE") for g in (1, 2)]
CLOSES = f'(not {starts("LN[k]", "{")} and searched(endOfEnumRE, LN[k]))'
ENTRY = f'(Z[k] == 1 and E[k] == 1 and not {starts("LN[k]", "{")} and not searched(endOfEnumRE, LN[k]))'
CONSTANT = f'(Z[k] == 1 and E[k] == 0 and {DEFINE} and not {MNAME} in self.ignore and {MVALUE} != "" and not has_text({MNAME}, "("))'
VALUE = f'(evaluate({EVALUE}, ENV[k]) if {EVALUE} != "" else NV[k])'
SHOWN = f'({EVALUE} if {EVALUE} != "" else f"{{NV[k]}}")'
NAMED = f'(cat({MNAME}, " = ", {MVALUE}) if E[k] == 0 else cat({ENAME}, " = ", {SHOWN}))'
WRITTEN = f'({NAMED} if CM[k] == "" else cat({NAMED}, "  # ", CM[k]))'
KEPT_BY_SILENT = "implies(Z[k] == 0, P[k] == 0 and E[k + 1] == E[k] and NV[k + 1] == NV[k] and ENV[k + 1] == ENV[k])"
TRANSLATED = SCANNED | {"P": "intlist", "E": "intlist", "NV": "intlist", "ENV": "vallist"}
STEADY = [f"len({x}) == {N} + 1" for x in ("E", "NV", "ENV")] + [f"len(P) == {N}", lines(KEPT_BY_SILENT, "Z[k]")]
STATES = [
    "E[0] == 0",
    lines(f"P[k] == (1 if {ENTRY} or {CONSTANT} else 0)", "P[k]"),
    lines(f"implies(Z[k] == 1, E[k + 1] == ((1 if {ENUM} else 0) if E[k] == 0 else 0 if {CLOSES} else 1))", "Z[k]"),
    lines(f"implies(Z[k] == 1, NV[k + 1] == ((0 if {ENUM} else NV[k]) if E[k] == 0 else {VALUE} + 1 if {ENTRY} else NV[k]))", "Z[k]"),
    lines(f"implies(Z[k] == 1, implies(E[k] == 0 and {ENUM}, ENV[k + 1] == no_names()) and implies(E[k] == 1, ENV[k + 1] == (bind(ENV[k], {ENAME}, {VALUE}) if {ENTRY} else ENV[k])))", "Z[k]"),
]
# what the regular expressions must find for the source to be translated at all; constants have integer values
SOURCE = [lines(f"implies(Z[k] == 1 and E[k] == 0, ngroups(firstTokenRE, LN[k]) >= 1 and implies({DEFINE}, ngroups(macroDefineRE, LN[k]) >= 1))", "Z[k]"),
          lines(f'implies({ENTRY}, ngroups(enumEntryRE, LN[k]) >= 1 and ({EVALUE} == "" or evaluates({EVALUE}, ENV[k])))', "Z[k]")]


def unchanged(a, b): return [f"{x}[{a}] == {x}[{b}]" for x in ("E", "NV", "ENV")] + [f"summed(P, {a}) == summed(P, {b})"]


SPECS.lemma("summed_grows", {"A": "Arr", "i": "int", "j": "int"}, ["0 <= i and i <= j", "forall(lambda k: implies(i <= k and k < j, A[k] >= 0), pat=A[k])"], ["summed(A, i) <= summed(A, j)"], induct="j")


def written(n):
    return [f"len({OUT}) == len({OLD}) + summed(P, {n})", f"summed(P, {n}) >= 0", KEPT[0],
            f"implies(0 <= X and X < {n} and P[X] == 1, {OUT}[len({OLD}) + summed(P, X)] == {WRITTEN.replace('[k]', '[X]')})"]


GROWS = [f"summed_grows(P, X + 1, {POS})"]
CONTRACTS += [
    Contract(H + "getTrailingComment", {"cls": ("cls", "HeaderToPtyhon:HeaderFile", {}), "line": "str"}, [], [f"result[0] == {code_of('line')}", f"result[1] == {comment_of('line')}"],
             result=("tuple", ["str", "str"]), props=["C25"]),
    Contract(H + "firstToken", {"cls": ("cls", "HeaderToPtyhon:HeaderFile", {}), "line": "str"}, ["ngroups(firstTokenRE, line) >= 1"], ["result == group(firstTokenRE, line, 0, 1)"], result="str", props=["C25"]),
    Contract(H + "nextLine", HEADER, SCAN + STEADY + AT_REST, [], ghosts=TRANSLATED, modifies=[POS], result=("tuple", ["str", "str"]), props=["C25"],
             cases=[dict(name="no line left", requires=[silent(POS, N)], ensures=["is_none(result)", f"{POS} == {N}"] + unchanged(POS, f"old({POS})")),
                    dict(name="a line", requires=[f"exists(lambda k: {POS} <= k and k < {N} and Z[k] == 1)"],
                         ensures=["not is_none(result)", f"old({POS}) < {POS} and {POS} <= {N}", f"Z[{POS} - 1] == 1", silent(f"old({POS})", f"{POS} - 1"),
                                  f"result[0] == LN[{POS} - 1]", f"result[1] == CM[{POS} - 1]", f"C[{POS}] == 0 and Q[{POS}] == 0 and A[{POS}] == 0"] + unchanged(f"{POS} - 1", f"old({POS})"))],
             loops=[Loop(dec=f"{N} - {POS}", types={"macroLine": "str"},
                         inv=[f"pre({POS}) <= {POS} and {POS} <= {N}", f"{POS} == {N} or C[{POS}] == (1 if inComment else 0)", f"{POS} == {N} or Q[{POS}] == (1 if inConditional else 0)", f"{POS} == {N} or A[{POS}] == (1 if inMacro else 0)",
                              f"implies({POS} < {N} and inMacro, macroLine == M[{POS}])", silent(f"pre({POS})", POS)] + unchanged(POS, f"pre({POS})"))]),
    Contract(H + "translate", HEADER, SCAN + STEADY + STATES + SOURCE + AT_REST + [f"{POS} == 0"], [f"{POS} == {N}"] + written(N), ghosts=TRANSLATED | {"X": "int"}, modifies=[POS, OUT], props=["C25"],
             loops=[Loop(dec=f"{N} - {POS}", inv=AT_REST + [f"E[{POS}] == 0 or {POS} == {N}"] + written(POS), hints=GROWS),
                    Loop(dec=f"{N} - {POS}", types={"dict": "env", "_prevName": "undef"},
                         inv=AT_REST + [f"E[{POS}] == 1", f"NV[{POS}] == nextValue", f"ENV[{POS}] == variables", f"pre({POS}) <= {POS}"] + written(POS), hints=GROWS)]),
]


def writes(target, path, params):
    """the file at path holds the output lines, a line feed between each two, and nothing else"""
    return Contract(target, {"self": ("obj", target.rsplit(".", 1)[0], {path: "val", **params})}, [], [f"FILE.path == self.{path}", "len(FILE.written) == 1", 'FILE.written[0] == join_of("\\n", self.outputLines)'],
                    ghosts={"FILE": ("obj", "pydv.library:OutFile", {"path": "val", "written": "strlist"})}, modifies=["FILE.path", "FILE.written"], props=["C25"])


CONTRACTS += [writes(M + "writeFile", "modulePath", {"outputLines": "strlist"}), writes(H + "writeFile", "headerPath", {"outputLines": "strlist"})]

# ---- the file of dictionaries: the lines before them, then for every property its name, its entries and a closing brace
FW, NP, KEYJ = "FILE.written", "len(self.prefixLines)", "key_of(self.lines, j)"


def dictionaries(n):
    at = lambda k: f"{FW}[{NP} + 3 * j + {k}]"
    return [f"len({FW}) == {NP} + 3 * {n}", f'forall(lambda j: implies(0 <= j and j < {NP}, {FW}[j] == cat(self.prefixLines[j], "\\n")))',
            f"""forall(lambda j: implies(0 <= j and j < {n}, {at(0)} == cat(self.prefix[{KEYJ}][1], "Names = {{\\n") and {at(1)} == join_of(",\\n", self.lines[{KEYJ}]) and {at(2)} == "\\n}}\\n\\n"), pat={KEYJ})"""]


CONTRACTS += [
    Contract(U + "writeFile", {"self": ("obj", "UCDReader:UCDReader", {"file": ("obj", "pydv.library:TextFile", {}), "outPath": "val", "prefix": ("table", TEXTS), "lines": ("lists",), "prefixLines": "strlist"})},
             ["forall(lambda j: implies(0 <= j and j < nkeys(self.lines), has(self.prefix, key_of(self.lines, j))), pat=key_of(self.lines, j))"], ["FILE.path == self.outPath"] + dictionaries("nkeys(self.lines)"),
             ghosts={"FILE": ("obj", "pydv.library:OutFile", {"path": "val", "written": "strlist"})}, modifies=["FILE.path", "FILE.written"], props=["C25"],
             loops=[Loop(inv=[f"len({FW}) == _k", f'forall(lambda j: implies(0 <= j and j < _k, {FW}[j] == cat(self.prefixLines[j], "\\n")))']), Loop(inv=dictionaries("_k"))]),
]


# ---- the constructors: what is read, where the result goes, and the lines before it
def first_lines(out, name, source):
    return [f"len({out}) >= 4", f"{out}[0] == '\"\"\"/'", f'{out}[1] == cat({name}, ", based on ", path_name({source}), " from ICU\\n")', f"{out}[3] == '\"\"\"\\n'"]


SOURCE = {"SOURCE": ("obj", "pydv.library:TextFile", {"path": "val", "text": "str"})}
HNAME = 'text_method("lower", text_method("replace", path_name(path_join(icuDirectory, cSourcePath)), ".", "_"))'
CONTRACTS += [
    Contract(H + "__init__", {"self": ("obj", "HeaderToPtyhon:HeaderFile", {}), "icuDirectory": ("path",), "cSourcePath": "str", "outDirectory": ("path",), "extraCode": "strlist", "ignore": "strlist"},
             ["SOURCE.path == path_join(icuDirectory, cSourcePath)"],
             ["same(self.sourceFile, SOURCE)", "same(self.ignore, ignore)", f'self.headerPath == path_join(outDirectory, cat({HNAME}, ".py"))',
              *first_lines("self.outputLines", f'cat({HNAME}, ".py")', "path_join(icuDirectory, cSourcePath)"), "len(self.outputLines) == 4 + len(extraCode)",
              "forall(lambda k: implies(0 <= k and k < len(extraCode), self.outputLines[4 + k] == extraCode[k]))",
              f'self.guardMatch == compiled(cat("\\\\#ifndef\\\\s+(?:__)?", text_method("upper", {HNAME}), "(?:__)?\\\\s*$"))'],
             ghosts=SOURCE, allow_share={"ignore", "SOURCE"}, creates={"self.ignore": "strlist", "self.sourceFile": SOURCE["SOURCE"], "self.outputLines": "strlist", "self.headerPath": "val", "self.guardMatch": ("pattern",)}, props=["C25"],
             loops=[Loop(inv=["len(self.outputLines) == 4 + _k", "forall(lambda j: implies(0 <= j and j < 4, self.outputLines[j] == pre(self.outputLines[j])))",
                              "forall(lambda j: implies(0 <= j and j < _k, self.outputLines[4 + j] == extraCode[j]))"])]),
    Contract(M + "__init__", {"self": ("obj", "ModuleBuilder:ModuleBuilder", {}), "icuDirectory": ("path",), "cSourcePath": "str", "outDirectory": ("path",), "moduleName": "str"},
             ["SOURCE.path == path_join(icuDirectory, cSourcePath)"],
             ["self.source == SOURCE.text", "self.modulePath == path_join(outDirectory, moduleName)", *first_lines("self.outputLines", "moduleName", "path_join(icuDirectory, cSourcePath)"), "len(self.outputLines) == 4"],
             ghosts=SOURCE, creates={"self.source": "str", "self.modulePath": "val", "self.outputLines": "strlist"}, props=["C25"]),
]

# the properties whose values are named, the prefix of the constants in ICU's headers (uchar.h, uscript.h) and the name of the dictionary
ICU = dict(bc="U bidiClass", blk="UBLOCK block", dt="U_DT decompositionType", ea="U_EA eastAsianWidth", gc="U generalCategory", GCB="U_GCB graphemeClusterBreak", hst="U_HST hangulSyllableType",
           InPC="U_INPC indicPositionalCategory", InSC="U_INSC indicSyllabicCategory", jg="U_JG joiningGroup", jt="U_JT joiningType", lb="U_LB lineBreak", nt="U_NT numberType", SB="U_SB sentenceBreak",
           sc="USCRIPT script", vo="U_VO verticalOrientation", WB="U_WB wordBreak")


def icu_names():
    return [f'self.prefix["{p}"][{i}] == "{x}"' for p, both in ICU.items() for i, x in enumerate(both.split())] + [f"len(self.prefix) == {len(ICU)}"]


CONTRACTS += [
    Contract(U + "__init__", {"self": ("obj", "UCDReader:UCDReader", {}), "icuDirectory": ("path",), "outDirectory": ("path",)}, ['SOURCE.path == path_join(icuDirectory, "data/unidata/ppucd.txt")'],
             ["same(self.reader, ROWS)", "is_none(self.ucdVersion)", 'self.outPath == path_join(outDirectory, "UCDTypeDictionaries.py")', "len(self.prefixLines) == 6", *icu_names(), "len(self.lines) == 0", "self.prefixLines[0] == '\"\"\"/'", "self.prefixLines[3] == '\"\"\"\\n'",
              'self.prefixLines[4] == "from .uchar_h import *"', 'self.prefixLines[5] == "from .uscript_h import *\\n"'],
             ghosts={**SOURCE, "ROWS": "rows"}, props=["C25"]),
]
