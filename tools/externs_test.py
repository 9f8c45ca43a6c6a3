"""The trusted semantics of library functions (pydv/externs.py) compared with the libraries on concrete data: every fact the
engine assumes about a result must be true of the real result, and the facts must determine the result."""
import os
import random
import struct
import sys
import types
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
import z3
from fontTools.misc import sstruct
from pydv import engine, externs
from pydv.engine import Contract, Engine, State
from pydv.spec import SPECS
from pydv.values import *

FORMATS = ["H", "I", "HBBHH", "4H", "3I", "2HI", "BI", "BH4sI", "4s6H", "HI", "BBBI"]
SFORMATS = ["a: H; b: I", "headerLength: H; magic1: B; magic2: B; infoSize: H; reservedWord: H", "a: I; b: I; c: B; d: B; e: H", "a: B; b: 4s; c: H; d: I"]


def run(gen):
    out = list(gen)
    assert len(out) == 1
    return out[0]


def value(x):
    x = z3.simplify(x) if isinstance(x, z3.ExprRef) else x
    return x.as_long() if isinstance(x, z3.ExprRef) else x


def main(seed):
    rng = random.Random(seed)
    eng = Engine(Contract("UnicodeData.Utilities:highBit"), {}, {}, SPECS)
    n = 0

    def state(): return State()

    def obligations(start):
        return all(z3.is_true(z3.simplify(engine.zb(o.goal))) for o in eng.obls[start:])
    node = types.SimpleNamespace(lineno=0)
    for fmt in FORMATS:
        size = struct.calcsize(fmt)
        for extra in (0, 1, -1):
            data = bytes(rng.randrange(256) for _ in range(max(0, size + extra)))
            k = len(eng.obls)
            s, r = run(externs.handler(struct.unpack)(eng, [Str([("c", fmt)]), Seq("bytes", items=list(data))], {}, state(), None, node))
            try:
                real = struct.unpack(fmt, data)
            except struct.error:
                assert not obligations(k), (fmt, extra)
                continue
            assert obligations(k), (fmt, extra)
            assert len(r.items) == len(real) and all(isinstance(a, Opaque) if isinstance(b, bytes) else value(a) == b for a, b in zip(r.items, real)), fmt
            n += 1
        s, r = run(externs.handler(struct.calcsize)(eng, [Str([("c", fmt)])], {}, state(), None, node))
        assert r == size
    for fmt in SFORMATS:
        for extra in (0, 1):
            data = bytes(rng.randrange(256) for _ in range(sstruct.calcsize(fmt) + extra))
            st = state()
            o = eng.alloc(st, ObjE(types.SimpleNamespace, {}))
            k = len(eng.obls)
            s, r = run(externs.handler(sstruct.unpack)(eng, [Str([("c", fmt)]), Seq("bytes", items=list(data)), o], {}, st, None, node))
            try:
                real = sstruct.unpack(fmt, data, types.SimpleNamespace())
            except struct.error:
                assert not obligations(k)
                continue
            assert obligations(k)
            f = s.heap[o.id].fields
            assert set(f) == set(vars(real)) and all(isinstance(f[a], Opaque) if isinstance(b, (bytes, str)) else value(f[a]) == b for a, b in vars(real).items()), fmt
            n += 1
    # f"{n}H": the number of items comes from the data
    for code in "BHI":
        for count in (0, 1, 5):
            data = bytes(rng.randrange(256) for _ in range(count * struct.calcsize(code)))
            N = z3.Int("N")
            s, r = run(externs.handler(struct.unpack)(eng, [Str([("fmt", "", N), ("c", code)]), Seq("bytes", items=list(data))], {}, state(), None, node))
            real = struct.unpack(f"{count}{code}", data)
            assert z3.simplify(r.n).eq(N) and all(value(z3.substitute(eng.th.z(r.fn(k)), (N, z3.IntVal(count)))) == real[k] for k in range(count))
            n += 1
    # split: the facts hold of the real pieces, and allow no others
    for _ in range(12):
        data = bytes(rng.choice(b";;ab") for _ in range(rng.randrange(0, 7)))
        real = data.split(b";")
        B = z3.Array("B", z3.IntSort(), z3.IntSort())
        st = state().assume(*[B[k] == b for k, b in enumerate(data)])
        s, r = run(externs.method_handler(Seq("bytes", arr=B, n=len(data)), "split")(eng, Seq("bytes", arr=B, n=len(data)), [Seq("bytes", items=[59])], {}, st, None, node))
        q = s.heap[r.id].seq
        d = engine.bytes_sort(eng.th.sort)
        same = z3.And(q.n == len(real), *[z3.And(d.length(q.arr[k]) == len(p), *[d.data(q.arr[k])[j] == b for j, b in enumerate(p)]) for k, p in enumerate(real[:4])])
        facts = [engine.zb(c) for c in s.pc]
        S = [0]
        for p in real[:-1]:
            S.append(S[-1] + len(p) + 1)
        v = z3.Solver()
        v.set("timeout", 20000)
        v.add(*facts, z3.Not(same))
        if len(real) <= 4:
            assert v.check() == z3.unsat, (data, v.check())
        # the real pieces satisfy the facts (finite parts evaluated: starts, ends, lengths, contents)
        mod = {"n": len(real)}
        names = {x.decl().name().split("!")[0]: x for f in facts for x in consts(f)}
        sub = [(names["split_n"], z3.IntVal(len(real)))]
        st_arr, en_arr, pc_arr = z3.K(z3.IntSort(), z3.IntVal(0)), z3.K(z3.IntSort(), z3.IntVal(0)), z3.K(z3.IntSort(), d.mk(z3.K(z3.IntSort(), z3.IntVal(0)), z3.IntVal(0)))
        for k, p in enumerate(real):
            st_arr, en_arr = z3.Store(st_arr, k, S[k]), z3.Store(en_arr, k, S[k] + len(p))
            a = z3.K(z3.IntSort(), z3.IntVal(0))
            for j, b in enumerate(p):
                a = z3.Store(a, j, b)
            pc_arr = z3.Store(pc_arr, k, d.mk(a, z3.IntVal(len(p))))
        barr = z3.K(z3.IntSort(), z3.IntVal(0))
        for k, b in enumerate(data):
            barr = z3.Store(barr, k, b)
        sub += [(names["split_start"], st_arr), (names["split_end"], en_arr), (B, barr)] + ([(names["split"], pc_arr)] if "split" in names else [])
        for f in facts:
            w = z3.Solver()
            w.set("timeout", 20000)
            w.add(z3.Not(z3.substitute(f, *sub)))
            assert w.check() == z3.unsat, (data, f)
        n += 1
    return n


PATTERNS = [r"([^\s]+)", r"/\*\*?(.+?)\*/", r"//\s*([^$]+)$", r"#define (\w+(?:\(\w+(?:,\s*\w+)?\))?)(?:\s+(.+))?", r"typedef\s+enum\s*\w*\s*\{?", r"\}\s*\w*\s*;",
            r"(\w+)(?:\s*=\s*([^,]+))?(?:,|\s)?", r"a(b)?(c+)", r"(a|b)(?:(c)|d)", r"x=(.+);", r"n\[.+?\]=\{(.+?)\};", r"(a+)(b*)"]
WORDS = ["#define ", "X_Y", "(x)", "/*", "/**", "*/", "//", " ", "\n", "typedef enum ", "{", "}", ";", "=", ",", "12", "a", "b", "c", "d", "x=", "n[", "]=", "$"]


def texts(rng):
    """the facts about texts, patterns, elements and files that the engine assumes of the libraries"""
    import io
    import re
    import tempfile
    from xml.etree.ElementTree import Element
    from pydv.library import OutFile, TextFile
    n = 0
    for _ in range(1500):
        t = "".join(rng.choice(WORDS) for _ in range(rng.randrange(12)))
        for flags in (0, re.DOTALL):
            for src in PATTERNS:
                p = re.compile(src, flags)
                wrapped = PyObj(p)
                certain = externs.certain_groups(wrapped)
                m, found = p.search(t), p.findall(t)
                assert isinstance(found, list) and (m is not None) == (len(found) > 0) == (re.search(src, t, flags) is not None) and re.findall(src, t, flags) == found, (src, t)
                for k, one in enumerate(p.finditer(t)):
                    assert all(one.group(g) is not None for g in certain), (src, t)
                    got = found[k]
                    assert one.group() == got if p.groups == 0 else one.group(1) == got or one.group(1) is None and got == "" if p.groups == 1 else \
                        isinstance(got, tuple) and len(got) == p.groups and all((one.group(j + 1) or "") == x for j, x in enumerate(got)), (src, t)
                for m in (m, p.fullmatch(t)):
                    if m is not None:
                        assert all(m.group(g) == t[m.start(g):m.end(g)] and 0 <= m.start(g) <= m.end(g) <= len(t) for g in certain), (src, t)
                n += 1
        # split: at least one piece; the pieces joined are the text
        for sep in (" ", ";", "; "):
            assert len(t.split(sep)) >= 1 and sep.join(t.split(sep)) == t
        # an open file gives its lines, none of them empty, and then the empty text, in each of the ways of reading it
        real, ghost = io.StringIO(t), TextFile()
        ghost.lines, ghost.pos = list(io.StringIO(t)), 0
        assert all(ghost.lines) and all(x.endswith("\n") for x in ghost.lines[:-1]) and "".join(ghost.lines) == t
        for _ in range(len(ghost.lines) + 2):
            assert real.readline() == ghost.readline()
        ghost.pos = k = rng.randrange(len(ghost.lines) + 1)
        real = io.StringIO(t)
        for _ in range(k):
            real.readline()
        assert list(real) == ghost.lines[k:]
        n += 1
    with tempfile.TemporaryDirectory() as d:
        for _ in range(20):
            pieces, ghost = ["".join(rng.choice(WORDS) for _ in range(5)) for _ in range(rng.randrange(6))], OutFile()
            ghost.written = []
            f = open(os.path.join(d, "f"), "w")
            for x in pieces:
                f.write(x)
                ghost.write(x)
            f.close()
            ghost.close()
            with open(os.path.join(d, "f")) as f:
                assert f.read() == "".join(ghost.written)
            n += 1
    for _ in range(300):
        k = rng.choice([rng.randrange(-50, 50), rng.randrange(-2 ** 40, 2 ** 40)])
        assert eval(str(k)) == k and eval(str(k), {"a": 1}) == k and int(str(k)) == k
        if k >= 0:
            assert all(int(format(k, f), 16) == k for f in ("x", "X", "04X"))
        a = {rng.choice("abc"): rng.choice("xyz") for _ in range(rng.randrange(3))}
        e = Element("char", a)
        assert all(e.get(x) == e.attrib.get(x) == a.get(x) and e.get(x, "q") == a.get(x, "q") for x in "abcd")
        assert [(x, a[x]) for x in a.keys()] == list(a.items()) == [(x, a[x]) for x in a]
        n += 1
    return n


def consts(f):
    todo, out, seen = [f], [], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


if __name__ == "__main__":
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print("library semantics agree on", main(seed) + texts(random.Random(seed)), "inputs")
