"""C25: the module builder on generated ICU sources. A source is written from a list of declarations; the generated
module is parsed and evaluated, and must define exactly those names, in order, with those values."""
import ast
import contextlib
import importlib
import io
import os
import shutil
import sys
import tempfile
import types
from pathlib import Path

from .common import REPO

BUILDER = os.path.join(REPO, "module_builder")


def modules():
    """the builder's modules; FontDocTools' ArgumentIterator is not installed here: a stand-in with its interface"""
    if BUILDER not in sys.path:
        sys.path.insert(0, BUILDER)
    try:
        import FontDocTools.ArgumentIterator  # noqa
    except ImportError:
        pkg, m = types.ModuleType("FontDocTools"), types.ModuleType("FontDocTools.ArgumentIterator")

        class ArgumentIterator:
            def __init__(self, items):
                self.items = iter(items)

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.items)

            def nextExtra(self, what):
                return next(self.items)
        m.ArgumentIterator = ArgumentIterator
        pkg.ArgumentIterator = m
        sys.modules["FontDocTools"], sys.modules["FontDocTools.ArgumentIterator"] = pkg, m
    return [importlib.import_module(n) for n in ("ModuleBuilder", "HeaderToPtyhon", "UCDReader")]


def evaluated(text, env=None):
    """(name, value) of every assignment of the generated module, in order; other statements under the name None"""
    env = dict(env or {})
    out = []
    for k, st in enumerate(ast.parse(text).body):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and k == 0:
            continue
        exec(compile(ast.Module([st], []), "<generated>", "exec"), env)
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            v = env[st.targets[0].id]
            out.append((st.targets[0].id, list(v) if isinstance(v, tuple) else v))
        elif isinstance(st, ast.ImportFrom):
            out.append(("from", st.module))
        elif isinstance(st, ast.FunctionDef):
            out.append(("def", st.name))
        else:
            out.append((None, ast.unparse(st)[:80]))
    return out


def number(rng, v):
    return rng.choice([str, hex])(v)


# ---- arrays, scalars and trie headers ----
def array_text(rng, name, values):
    words = [number(rng, v) for v in values]
    size = rng.choice([str(len(values)), "UBIDI_IX_TOP"])
    style = rng.randrange(3)
    if style == 0:
        body = ",".join(words)
    else:
        per = rng.choice([1, 4, 8, 16])
        lines = [",".join(words[i:i + per]) for i in range(0, len(words), per)]
        body = "\n" + ",\n".join(lines) + ("\n" if style == 1 else "")
    return f"static const uint{rng.choice([8, 16, 32])}_t {name}[{size}]={{{body}}};\n"


def trie_text(rng, prefix, index, f, indent="    "):
    rows = [index, f"{index}+{f['index_length']}", "NULL", str(f["index_length"]), str(rng.randrange(1 << 15)), hex(f["index_2_null_offset"]), hex(f["data_null_offset"]),
            hex(rng.randrange(2)), "0x0", hex(f["high_start"]), hex(f["high_value_index"]), "NULL, 0, FALSE, FALSE, 0, NULL"]
    return ",\n".join(indent + x for x in rows) + "\n"


FIELDS = ["index_length", "index_2_null_offset", "data_null_offset", "high_start", "high_value_index"]


def trie_fields(rng):
    return {f: rng.choice([0, rng.randrange(1 << 16), rng.randrange(0x110001)]) for f in FIELDS}


def props_text(rng, name, prefix, f):
    return (f"static const UBiDiProps {name}={{\n  NULL,\n  {prefix}_indexes,\n  {prefix}_mirrors,\n  {{\n{trie_text(rng, prefix, prefix + '_trieIndex', f)}  }},\n"
            f"  {{ {rng.randrange(9)},2,0,0 }}\n}};\n")


NAMES = ["ubidi_props_indexes", "ubidi_props_jgArray", "ubidi_props_jgArray2", "propsTrie_index", "propsVectorsTrie_index", "propsVectors", "scriptExtensions", "ucase_props_exceptions", "a", "B2"]
NOISE = ["\n", "// made by gencase\n", "/* a comment; x=3 */\n", "#ifdef INCLUDED_FROM_UBIDI_PROPS_C\n", "static const UVersionInfo dataVersion={0xd,0,0,0};\n", "#endif\n"]


def c_source(rng):
    """[(kind, name, value)] and the text; the declarations of the file in any order"""
    decls = []
    for n in rng.sample(NAMES, rng.randrange(1, 6)):
        size = rng.choice([1, 2, 3, 7, 16, 33, 60])
        decls.append(("array", n, [rng.choice([0, 1, 0xFFFF, rng.randrange(1 << 32)]) for _ in range(size)]))
    for n in rng.sample(["propsVectorsColumns", "columns", "n3"], rng.randrange(3)):
        decls.append(("scalar", n, rng.randrange(1 << rng.choice([3, 16, 32])) - rng.choice([0, 0, 5])))
    for n in rng.sample(["propsTrie", "propsVectorsTrie", "t"], rng.randrange(3)):
        decls.append(("trie", n, trie_fields(rng)))
    for n in rng.sample(["ubidi_props_singleton", "ucase_props_singleton"], rng.randrange(3)):
        decls.append(("props", n, trie_fields(rng)))
    rng.shuffle(decls)
    out = []
    for kind, n, v in decls:
        out += rng.sample(NOISE, rng.randrange(2))
        out.append(array_text(rng, n, v) if kind == "array" else f"static const int32_t {n}={number(rng, v)};\n" if kind == "scalar"
                   else f"static const UTrie2 {n}={{\n{trie_text(rng, n, n + '_index', v)}}};\n" if kind == "trie" else props_text(rng, n, n[:-10], v))
    return decls, "\n".join(out)


def run_builder(MB, tmp, text, decls, rng):
    src = tmp / "common"
    src.mkdir(exist_ok=True)
    (src / "x_data.h").write_text(text)
    b = MB.ModuleBuilder(tmp, "common/x_data.h", tmp / "out", "XData.py")
    want = []
    order = list(decls)
    rng.shuffle(order)
    for kind, n, v in order:
        if kind == "array":
            b.arrayToPython(n)
            want.append((n, v))
        elif kind == "scalar":
            b.scalarToPython(n)
            want.append((n, v))
        else:
            prefix = rng.choice([n, n + "_x"])
            (b.trieValuesFromTrieDeclaration if kind == "trie" else b.trieValuesFromPropsDeclaration)(n, prefix)
            want += [(f"{prefix}_{f}", v[f]) for f in FIELDS]
    b.writeFile()
    return want, (tmp / "out" / "XData.py").read_text()


def differing(want, got):
    for k in range(max(len(want), len(got))):
        w, g = (x[k] if k < len(x) else "nothing" for x in (want, got))
        if w != g or (isinstance(w, tuple) and type(w[1]) is not type(g[1])):
            return w, g


# ---- headers ----
def comment(rng):
    return rng.choice(["", "", "", "  /* L */", "  /**< a doc comment @stable ICU 2.0 */", "  // to the end; a=3,", " /* [0000] */", "  // 0x300+9*4=0x324", "  /* }; */", "  // = 5, #endif", "  // and/or 3/4", "  // see http://x.y/z", " // costs $5, or 6$", "//", "  /**/", " /* one */ /* two */",
                       "\t// tab", " /*< a=b; */", "/* it's */"])


def block(rng):
    """a comment of several lines, with lines that would mean something outside it"""
    lines = [rng.choice(["#endif of the part above", "#define NOT_DEFINED 1", "enum {", "    FAKE = 9,", "};", "// to the end", "#if U_NOT_THIS", "", " * text", "#define NOT_EITHER \\",
                         "code; /* no", "typedef enum X {"]) for _ in range(rng.randrange(4))]
    return rng.choice(["/*", "/**", "/* first", "    /**"]) + "\n" + "".join(x + "\n" for x in lines) + rng.choice(["*/", " */", " * last */", "last */"]) + "\n"


def hidden(rng):
    """a conditional part: nothing in it is wanted"""
    lines = [rng.choice(["#define HIDDEN_DEFINE 7\n", "/** doc */\n", "// #endif\n", "enum {\n    HIDDEN_ENTRY = 3\n};\n", "    HIDDEN_COUNT = 99,\n", "\n", "#define HIDDEN_LONG \\\n    8\n", block(rng), "int32_t x;\n"])
             for _ in range(rng.randrange(5))]
    return rng.choice(["#ifndef U_HIDE_DEPRECATED_API", "#if U_SHOW_CPLUSPLUS_API", "#ifdef __cplusplus", "#if 0", "#ifndef X_H", "#ifndef UCHAR_HIDE_OBSOLETE", "#ifndef UCASE_HIDE_X", "#ifndef __UPROPS_HIDDEN", "#ifndef X_Y_H2"]) + "\n" + "".join(lines) + rng.choice(["#endif\n", "#endif  // X\n", "#endif /* X */\n"])


def outside(rng):
    if rng.random() < 0.4:
        return rng.choice([block, hidden])(rng)
    return rng.choice(["\n", "/* one line */\n", "/**\n * More lines.\n * enum { NOT_AN_ENTRY }\n * #define NOT_DEFINED 1\n */\n", "// to the end of the line\n", '#include "unicode/utypes.h"\n',
                       "typedef struct UCaseProps UCaseProps;\n", "U_CAPI int32_t U_EXPORT2\nu_foo(UChar32 c, int32_t n);\n", "U_CDECL_BEGIN\n", "#define NO_VALUE\n",
                       "#define ONE_ARG(x) ((x)+1)\n", "#define TWO_ARGS(x, y) ((x)&(y))\n", "#define LONG_MACRO(x, y) \\\n    ((x)+ \\\n     (y))\n",
                       "#ifndef U_HIDE_DEPRECATED_API\n#define HIDDEN_DEFINE 7\n/** doc */\n#endif  // U_HIDE_DEPRECATED_API\n", "#if U_SHOW_CPLUSPLUS_API\nenum {\n    HIDDEN_ENTRY = 3\n};\n#endif\n",
                       "static inline int8_t getType(uint16_t props) {\n    return (int8_t)(props & 3);\n}\n"])


def inside(rng):
    if rng.random() < 0.3:
        return rng.choice([block, hidden])(rng)
    return rng.choice(["\n", "    /** one line @stable ICU 2.0 */\n", "    /*\n     * several\n     * FAKE=9,\n     */\n", "    // a line\n",
                       "#ifndef U_HIDE_DEPRECATED_API\n    /** doc */\n    HIDDEN_COUNT = 99,\n#endif  // U_HIDE_DEPRECATED_API\n"])


class Header:
    def __init__(self, rng, n):
        self.rng, self.out, self.want, self.env, self.n = rng, [], [], {"U_MASK": lambda x: 1 << x}, 0
        self.ignore = []
        self.macros = rng.random() < 0.7       # U_MASK available
        for _ in range(n):
            for _ in range(rng.randrange(3)):
                self.out.append(outside(rng))
            rng.choice([self.define, self.enum, self.enum, self.long_define])()
        for _ in range(rng.randrange(2)):
            self.out.append(outside(rng))

    def name(self, tail=""):
        self.n += 1
        return self.rng.choice(["UCASE_", "U_", "UPROPS_X_", "_", "UBLOCK_A1_", "N"]) + f"{self.n}{tail}"

    def value(self, names, simple=False):
        rng = self.rng
        k = rng.randrange(11 if names else 8)
        v = rng.choice([0, 1, 7, rng.randrange(1 << 12), rng.randrange(1 << 31)])
        if k < 2:
            return str(v)
        if k < 4:
            return hex(v)
        if k == 4:
            return f"-{v}"
        if k == 5:
            return f"({rng.randrange(1, 9)}<<{rng.randrange(20)})"
        if k == 6:
            return f"{v}+{rng.randrange(9)}*4"
        if k == 7:
            return rng.choice([f"{v} + {rng.randrange(9)}", f"1 << {rng.randrange(31)}", f"( {v} | 0x10 )"])
        a, b = rng.choice(names), rng.choice(names)
        return rng.choice([a, f"{a}+{rng.randrange(40)}", f"({a}|{b})", f"{a}-1", f"{a} + 1", f"{a} | {b}"])

    def add(self, name, text):
        v = eval(text, dict(self.env))
        self.env[name] = v
        self.want.append((name, v))
        return v

    def known(self):
        return [n for n, v in self.want if isinstance(v, int)]

    def define(self):
        rng = self.rng
        n = self.name()
        t = '"13.0"' if rng.random() < 0.1 else f"U_MASK({rng.randrange(32)})" if self.macros and rng.random() < 0.2 else self.value(self.known())
        if rng.random() < 0.1:
            self.ignore.append(n)
            for other in rng.sample([n + "_TOO", "NOT_" + n], rng.randrange(3)):     # names that contain the one ignored
                self.add(other, "3")
                self.out.append(f"#define {other} 3\n")
        else:
            self.add(n, t)
        gap = rng.choice([" ", "    ", " \\\n    ", "  \\\n\\\n    "] if rng.random() < 0.4 else [" ", "    "])
        self.out.append(f"#define {n}{gap}{t}{comment(rng)}\n")

    def long_define(self):
        rng = self.rng
        if not self.known():
            return self.define()
        n = self.name("_MASK")
        parts = [rng.choice(self.known()) for _ in range(rng.randrange(2, 9))]
        self.add(n, "(" + "|".join(parts) + ")")
        cut = rng.randrange(1, len(parts))
        lines = ["|".join(parts[:cut]) + "|"] + ["|".join(p for p in parts[i:i + 2]) + ("|" if i + 2 < len(parts) else "") for i in range(cut, len(parts), 2)]
        first = f"#define {n}  \\\n    (" if rng.random() < 0.5 else f"#define {n}  ("
        self.out.append(first + "\\\n            ".join(lines) + ")" + comment(rng) + "\n")

    def enum(self):
        rng = self.rng
        tag = rng.choice(["", " UCharDirection", " UProperty"])
        typedef = rng.random() < 0.5
        head = ("typedef " if typedef else "") + "enum" + tag
        lines = [head + (" {" if rng.random() < 0.7 else "\n{") + "\n"]
        names, value = [], 0
        count = rng.randrange(1, 12)
        for i in range(count):
            for _ in range(rng.randrange(2)):
                lines.append(inside(rng))
            n = self.name()
            line = rng.choice(["    ", "    ", "  ", "", "\t"]) + n
            if rng.random() < 0.35:
                t = self.value(names)
                line += rng.choice(["=", " = ", "   = ", "\t=\t", " =", "= "]) + t
            else:
                t = str(value)
            value = self.add(n, t) + 1
            names.append(n)
            if i < count - 1 or rng.random() < 0.4:
                line += ","
            lines.append(line + comment(rng) + "\n")
        for _ in range(rng.randrange(2)):
            lines.append(inside(rng))
        lines.append("}" + (rng.choice([" ", ""]) if typedef or not tag else "") + (tag.strip() if typedef else "") + ";\n")
        self.out += lines

    def text(self, guard):
        return f"/*\n* Copyright\n* x=1;\n*/\n#ifndef {guard}\n#define {guard}\n\n" + "".join(self.out) + f"\n#endif{self.rng.choice(['', '  /* ' + guard + ' */', ' // ' + guard])}\n"


def guard_name(rng, name):
    g = name.replace(".", "_").upper()
    return rng.choice([g, f"__{g}__"])


def run_header(HP, tmp, name, text, extra, ignore):
    (tmp / "unicode").mkdir(exist_ok=True)
    (tmp / "unicode" / name).write_text(text)
    h = HP.HeaderFile(tmp, "unicode/" + name, tmp / "out", **({"extraCode": extra} if extra else {}), **({"ignore": ignore} if ignore else {}))
    h.translate()
    h.sourceFile.close()
    h.writeFile()
    return (tmp / "out" / (name.replace(".", "_") + ".py")).read_text()


# ---- the property file ----
BUILT = {  # property: (constant prefix, dictionary, how the name is written, long names whose constant is not the upper-cased long name; None: no constant)
    "bc": ("U", "bidiClass", "spaces", {"Arabic_Letter": "RIGHT_TO_LEFT_ARABIC", "Common_Separator": "COMMON_NUMBER_SEPARATOR", "European_Separator": "EUROPEAN_NUMBER_SEPARATOR",
           "European_Terminator": "EUROPEAN_NUMBER_TERMINATOR", "Nonspacing_Mark": "DIR_NON_SPACING_MARK", "Paragraph_Separator": "BLOCK_SEPARATOR", "White_Space": "WHITE_SPACE_NEUTRAL"}),
    "blk": ("UBLOCK", "block", "spaces", {"Combining_Diacritical_Marks_For_Symbols": "COMBINING_MARKS_FOR_SYMBOLS", "Greek_And_Coptic": "GREEK"}),
    "dt": ("U_DT", "decompositionType", "lower", {}), "ea": ("U_EA", "eastAsianWidth", "spaces", {}),
    "gc": ("U", "generalCategory", "spaces", {**{n: None for n in "Other Letter Cased_Letter Mark Number Punctuation Symbol Separator".split()}, "Control": "CONTROL_CHAR", "Format": "FORMAT_CHAR",
           "Private_Use": "PRIVATE_USE_CHAR", "Spacing_Mark": "COMBINING_SPACING_MARK", "Nonspacing_Mark": "NON_SPACING_MARK", "Decimal_Number": "DECIMAL_DIGIT_NUMBER",
           "Close_Punctuation": "END_PUNCTUATION", "Open_Punctuation": "START_PUNCTUATION"}),
    "GCB": ("U_GCB", "graphemeClusterBreak", "spaces", {"SpacingMark": "SPACING_MARK"}), "hst": ("U_HST", "hangulSyllableType", "spaces", {}),
    "InPC": ("U_INPC", "indicPositionalCategory", "as it is", {}), "InSC": ("U_INSC", "indicSyllabicCategory", "as it is", {}),
    "jg": ("U_JG", "joiningGroup", "spaces", {}), "jt": ("U_JT", "joiningType", "spaces", {}), "lb": ("U_LB", "lineBreak", "spaces", {}), "nt": ("U_NT", "numberType", "spaces", {}),
    "SB": ("U_SB", "sentenceBreak", "spaces", {}),
    "sc": ("USCRIPT", "script", "spaces", {"Afak": "AFAKA", "Blis": "BLISSYMBOLS", "Cirt": "CIRTH", "Cyrs": "OLD_CHURCH_SLAVONIC_CYRILLIC", "Egyd": "DEMOTIC_EGYPTIAN", "Egyh": "HIERATIC_EGYPTIAN",
           "Geok": "KHUTSURI", "Hanb": "HAN_WITH_BOPOMOFO", "Hans": "SIMPLIFIED_HAN", "Hant": "TRADITIONAL_HAN", "Inds": "HARAPPAN_INDUS", "Jpan": "JAPANESE", "Jurc": "JURCHEN", "Kore": "KOREAN",
           "Kpel": "KPELLE", "Tai_Tham": "LANNA", "Latf": "LATIN_FRAKTUR", "Latg": "LATIN_GAELIC", "Maya": "MAYAN_HIEROGLYPHS", "Mende_Kikakui": "MENDE", "Meetei_Mayek": "MEITEI_MAYEK",
           "Nkgb": "NAKHI_GEBA", "Old_Turkic": "ORKHON", "Phlv": "BOOK_PAHLAVI", "Roro": "RONGORONGO", "Sara": "SARATI", "SignWriting": "SIGN_WRITING", "Syre": "ESTRANGELO_SYRIAC",
           "Syrj": "WESTERN_SYRIAC", "Syrn": "EASTERN_SYRIAC", "Teng": "TENGWAR", "Visp": "VISIBLE_SPEECH", "Wole": "WOLEAI", "Zmth": "MATHEMATICAL_NOTATION", "Zsye": "SYMBOLS_EMOJI",
           "Zsym": "SYMBOLS", "Zxxx": "UNWRITTEN_LANGUAGES"}),
    "vo": ("U_VO", "verticalOrientation", "spaces", {}), "WB": ("U_WB", "wordBreak", "spaces", {})}
OTHERS = ["ccc", "age", "NFC_QC", "Upper", "bpt", "gcm", "sc2", "b", "BC"]


def entry(prop, short, long):
    p, _, how, mapped = BUILT[prop]
    c = mapped.get(long, long.upper())
    return None if c is None else (f"{p}_{c}", short.lower() if how == "lower" else short.replace("_", " ") if how == "spaces" else short)


def ppucd(rng):
    """the dictionaries a file defines and its text"""
    used = rng.sample(list(BUILT), rng.randrange(1, len(BUILT) + 1)) + rng.sample(OTHERS, rng.randrange(4))
    rows, want = [], {}
    for p in used:
        mapped = list(BUILT[p][3]) if p in BUILT else []
        longs = rng.sample(mapped, rng.randrange(len(mapped) + 1)) + [f"{rng.choice(['Alpha', 'beta_Gamma', 'X1', 'Zwj_Extend', 'Letter_Number'])}_{k}" for k in range(rng.randrange(1, 8))]
        rng.shuffle(longs)
        for k, long in enumerate(longs):
            short = rng.choice([long, rng.choice(mapped or [long]), f"Ab_{k}", f"C{k}", f"dE{k}", f"Cd_Ef_{k}"])
            rows.append((p, short, long, rng.choice([[], [], [f"alias{k}"], ["x", "y"]])))
    mixed = rng.random() < 0.3
    if mixed:
        rng.shuffle(rows)
    out = ["# Preparsed UCD", "", "ucd;13.0.0", "property;Binary;Upper;Uppercase", "property;Enumerated;gc;General_Category", "binary;N;No;F;False"]
    for p, short, long, alias in rows:
        if rng.random() < 0.1:
            out.append(rng.choice(["", "# value;gc;Xx;Not_A_Value", "property;Catalog;blk;Block", "block;0000..007F;age=1.1;blk=ASCII;ea=Na;gc=Cn", "values;gc;Yy;Not_Either"]))
        out.append(";".join(["value", p, short, long] + alias))
        if p in BUILT:
            want.setdefault(p, {})
            e = entry(p, short, long)
            if e:
                want[p][e[0]] = e[1]
    out += ["defaults;0000..10FFFF;age=NA;bc=L;blk=NB", "block;0000..007F;age=1.1;blk=ASCII", "cp;0000;bc=BN;gc=Cc;na1=NULL", "unassigned;0378..0379", "algnamesrange;AC00..D7A3;hangul"]
    return want, "\n".join(out) + "\n"


def run_ucd(UR, tmp, text):
    d = tmp / "data/unidata"
    d.mkdir(parents=True, exist_ok=True)
    (tmp / "out").mkdir(exist_ok=True)
    (d / "ppucd.txt").write_text(text)
    u = UR.UCDReader(tmp, tmp / "out")
    u.generateDictionaries()
    u.writeFile()
    return u.ucdVersion, (tmp / "out" / "UCDTypeDictionaries.py").read_text()


def dictionaries(text):
    """[(dictionary, {constant name: text})] of a generated module, imports first"""
    out, imports = [], []
    for k, st in enumerate(ast.parse(text).body):
        if k == 0 and isinstance(st, ast.Expr):
            continue
        if isinstance(st, ast.ImportFrom):
            imports.append((st.level, st.module, [a.name for a in st.names]))
        elif isinstance(st, ast.Assign) and isinstance(st.value, ast.Dict):
            out.append((st.targets[0].id, [(ast.unparse(k), ast.literal_eval(v)) for k, v in zip(st.value.keys, st.value.values)]))
        else:
            out.append((None, ast.unparse(st)[:80]))
    return imports, out


def check_ucd(r, what, inp, want, text):
    imports, got = dictionaries(text)
    r.same(what + ": imports", inp, [(1, "uchar_h", ["*"]), (1, "uscript_h", ["*"])], sorted(imports))
    r.same(what + ": dictionaries", inp, sorted(BUILT[p][1] + "Names" for p in want), sorted(str(n) for n, _ in got))
    for p, w in want.items():
        for n, v in got:
            if n == BUILT[p][1] + "Names":
                extra = sorted(set(v) ^ set(w.items()))
                r.true(f"{what}: {n}", inp, len(v) == len(w) and not extra, f"{len(w)} entries", f"{len(v)} entries, differing: {extra[:4]}")


# ---- the whole pipeline on sources written back from the shipped modules ----
def shipped(name):
    with open(os.path.join(REPO, "UnicodeData", name), encoding="utf8") as f:
        return f.read()


def tree(rng, tmp):
    """an ICU source tree that says what the shipped modules say"""
    icu, want = tmp / "icu/source", {}
    for d in ("common/unicode", "data/unidata", "build/data/out"):
        (icu / d).mkdir(parents=True, exist_ok=True)
    for src, mod, tries in [("ubidi_props_data.h", "BidiPropsData.py", [("ubidi_props_singleton", "ubidi_props_trie")]), ("uchar_props_data.h", "CharPropsData.py", [("propsTrie", "propsTrie"), ("propsVectorsTrie", "propsVectorsTrie")]),
                            ("ucase_props_data.h", "CasePropsData.py", [("ucase_props_singleton", "ucase_props_trie")])]:
        vals = evaluated(shipped(mod))
        want[mod] = vals
        text = ""
        fields = dict(vals)
        for n, v in vals:
            if isinstance(v, list):
                text += array_text(rng, n, v)
            elif not any(n == f"{p}_{f}" for _, p in tries for f in FIELDS):
                text += f"static const int32_t {n}={v};\n"
        for n, p in tries:
            f = {x: fields[f"{p}_{x}"] for x in FIELDS}
            text += f"static const UTrie2 {n}={{\n{trie_text(rng, n, n + '_index', f)}}};\n" if n == p else props_text(rng, n, n[:-10], f)
        (icu / "common" / src).write_text(text)
    for src, mod in [("common/uprops.h", "uprops_h.py"), ("common/ucase.h", "ucase_h.py"), ("common/unicode/uchar.h", "uchar_h.py"), ("common/unicode/uscript.h", "uscript_h.py")]:
        vals = evaluated(shipped(mod))
        want[mod] = vals
        g = guard_name(rng, os.path.basename(src))
        out, k = [f"#ifndef {g}\n#define {g}\n"], 0
        vals = [x for x in vals if x[0] not in ("def", "from", None)]
        while k < len(vals):
            n, v = vals[k]
            if isinstance(v, int) and k + 1 < len(vals) and vals[k + 1][1] == v + 1 and v >= 0:
                out.append(f"enum {{\n    {n}{'' if v == 0 else f' = {v}'},{comment(rng)}\n")
                k += 1
                while k < len(vals) and vals[k][1] == vals[k - 1][1] + 1:
                    out.append(f"    {vals[k][0]},{comment(rng)}\n")
                    k += 1
                out.append("};\n")
            else:
                out.append(f"#define {n} {hex(v) if isinstance(v, int) and v >= 0 else v if isinstance(v, int) else chr(34) + v + chr(34)}{comment(rng)}\n")
                k += 1
            out.append(outside(rng))
        if mod == "ucase_h.py":
            out.append("#define UCASECONTEXT_INITIALIZER { NULL,  NULL, 0,  FALSE, 0 }\n")
        if mod == "uchar_h.py":
            out.append("#define U_NO_NUMERIC_VALUE ((double)-123456789.)\n")
        (icu / src).write_text("".join(out) + f"\n#endif  /* {g} */\n")
    (icu / "common/unicode/uvernum.h").write_text('#define U_ICU_VERSION_MAJOR_NUM 69\n#define U_ICU_VERSION "69.1"\n#define U_ICU_VERSION_SHORT "69"\n')
    data = bytes(rng.randrange(256) for _ in range(400))
    (icu / "build/data/out/icudt69l.dat").write_bytes(data)
    (tmp / "icu/LICENSE").write_text("licence\n")
    values, _ = {}, []
    rows = ["ucd;13.0.0"]
    _, dicts = dictionaries(shipped("UCDTypeDictionaries.py"))
    for n, items in dicts:
        p = next((p for p in BUILT if BUILT[p][1] + "Names" == n), None)
        if p is None or items is None:
            continue
        back = {v: k for k, v in BUILT[p][3].items() if v}
        values[p] = {}
        for c, text in items:
            tail = c[len(BUILT[p][0]) + 1:]
            short = text.replace(" ", "_") if BUILT[p][2] != "lower" else text.title()
            rows.append(f"value;{p};{short};{back.get(tail, tail.title())}")
            values[p][c] = text
    (icu / "data/unidata/ppucd.txt").write_text("\n".join(rows) + "\n")
    return icu, want, values, data


def pipeline(r, MB, tmp):
    icu, want, values, data = tree(r.rng, tmp)
    out = tmp / "made"
    MB.argv = ["ModuleBuilder.py", "--sourceDir", str(icu), "--buildDir", str(icu / "build"), "--outputDir", str(out)]
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()) as err:
        try:
            MB.build()
        except SystemExit:
            r.fail("build()", "complete source tree", "the modules", err.getvalue())
            return
    for mod, w in want.items():
        d = differing(w, evaluated((out / mod).read_text()))
        r.true(f"build(): {mod}", "sources written from the shipped module", d is None, d and d[0], d and d[1])
        r.distinct += 1
    check_ucd(r, "build(): UCDTypeDictionaries.py", "value lines written from the shipped module", values, (out / "UCDTypeDictionaries.py").read_text())
    r.same("build(): UnicodeVersion.py", "", [("unicodeVersion", "13.0.0")], evaluated((out / "UnicodeVersion.py").read_text()))
    r.same("build(): icudata.dat", "", data, (out / "icudata.dat").read_bytes())
    r.true("build(): LICENSE", "", (out / "LICENSE").exists())
    made = sorted(p.name for p in out.iterdir())
    r.same("build(): files", "", sorted(list(want) + ["UCDTypeDictionaries.py", "UnicodeVersion.py", "icudata.dat", "LICENSE"]), made)


def run(pid, r):
    with r.guard("import of the module builder", ""):
        MB, HP, UR = modules()
    if r.failures:
        return
    rng = r.rng
    tmp = Path(tempfile.mkdtemp())
    try:
        for k in range(2000 if r.thorough else 600):
            decls, text = c_source(rng)
            if k < 2:
                r.sample(text)
            with r.guard("ModuleBuilder", text):
                want, got = run_builder(MB, tmp, text, decls, rng)
                d = differing(want, evaluated(got))
                r.true("ModuleBuilder", text, d is None, d and d[0], d and d[1])
                r.distinct += 1
            name = rng.choice(["uprops.h", "ucase.h", "uchar.h", "x_y.h"])
            h = Header(rng, rng.randrange(1, 9))
            text = h.text(guard_name(rng, name))
            extra = ["def U_MASK(x: int) -> int: return 1<<x\n"] if h.macros else []
            with r.guard("HeaderFile", text):
                got = run_header(HP, tmp, name, text, extra, h.ignore)
                want = ([("def", "U_MASK")] if extra else []) + h.want
                d = differing(want, evaluated(got))
                r.true("HeaderFile", (text, h.ignore), d is None, d and d[0], d and d[1])
                r.distinct += 1
            want, text = ppucd(rng)
            with r.guard("UCDReader", text):
                version, got = run_ucd(UR, tmp, text)
                r.same("UCDReader: version", text, "13.0.0", version)
                check_ucd(r, "UCDReader", text, want, got)
                r.distinct += 1
            if r.full:
                break
        for _ in range(3):
            t = tmp / f"tree{_}"
            t.mkdir()
            with r.guard("build()", "sources written from the shipped modules"):
                pipeline(r, MB, t)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
