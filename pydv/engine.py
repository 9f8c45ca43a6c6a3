"""Verification-condition generator: symbolic execution of real Python functions with contracts."""
import ast
import builtins
import importlib
import inspect
import itertools
import os
import re
import sys
import types
import z3

from .theory import Unsupported, Ctx, NOCTX, IntTheory, BVTheory, isc
from .values import *
from . import library

REPO_PREFIX = ("UnicodeData", "ModuleBuilder", "HeaderToPtyhon", "UCDReader", "pydv")
MAX_DEPTH = 14
MAX_PATHS = 6000


class Infeasible(Exception):
    pass


# --------------------------------------------------------------------------- source access

_ast_cache = {}


def module_ast(mod):
    fn = mod.__file__
    if fn not in _ast_cache:
        with open(fn, encoding="utf-8") as f:
            src = f.read()
        _ast_cache[fn] = (ast.parse(src), src)
    return _ast_cache[fn]


class FuncInfo:
    def __init__(self, node, mod, qualname, cls):
        self.node, self.mod, self.qualname, self.cls = node, mod, qualname, cls
        self.key = f"{mod.__name__}:{qualname}"
        self.decorators = [d.id if isinstance(d, ast.Name) else ast.dump(d) for d in node.decorator_list]

    @property
    def is_classmethod(self): return "classmethod" in self.decorators

    @property
    def is_static(self): return "staticmethod" in self.decorators


MODULE = "<module>"
TEXT_FUNCTIONS = {"replace": (2,), "startswith": (1,), "endswith": (1,), "upper": (0,), "lower": (0,), "strip": (0,)}


def module_func(mod, tree):
    """what a module does when it is imported, as a function: its statements without imports and definitions"""
    body = [x for x in tree.body if not isinstance(x, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef))]
    node = ast.FunctionDef(name=MODULE, args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                           body=body or [ast.Pass()], decorator_list=[], lineno=1, col_offset=0)
    return FuncInfo(node, mod, MODULE, None)


def find_func(modname, qualname):
    mod = importlib.import_module(modname)
    tree, _ = module_ast(mod)
    if qualname == MODULE:
        return module_func(mod, tree)
    body, cls, node = tree.body, mod, None
    parts = qualname.split(".")
    for k, part in enumerate(parts):
        node = None
        for s in body:  # last definition wins, as at run time
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == part:
                node = s
        if node is None:
            # not defined here under that name: resolve the live object (inherited or re-exported)
            raise Unsupported(f"{modname}:{qualname} not found in the source")
        if k < len(parts) - 1:
            cls = getattr(cls, part)
            body = node.body
    if not isinstance(node, ast.FunctionDef):
        raise Unsupported(f"{modname}:{qualname} is not a function definition")
    as_defined(node, vars(cls).get(parts[-1]), modname, qualname)
    return FuncInfo(node, mod, qualname, cls if cls is not mod else None)


def as_defined(node, live, modname, qualname):
    """what is called under that name at run time is this definition: not wrapped by a decorator, not bound to something else later"""
    if any(not (isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod", "property")) for d in node.decorator_list):
        raise Unsupported(f"{modname}:{qualname} has a decorator")
    live = live.fget if isinstance(live, property) else getattr(live, "__func__", live)
    first = node.decorator_list[0].lineno if node.decorator_list else node.lineno
    if not isinstance(live, types.FunctionType) or (live.__code__.co_name, live.__code__.co_firstlineno) != (node.name, first):
        raise Unsupported(f"{modname}:{qualname} is not what its name is bound to at run time")


def plain_attribute(cls, attr):
    """reading and writing the attribute of an instance runs no code of the class"""
    for name in ("__getattribute__", "__setattr__", "__delattr__"):
        if isinstance(cls, type) and isinstance(inspect.getattr_static(cls, name, None), types.FunctionType):
            raise Unsupported(f"{cls.__name__} defines {name}")
    raw = inspect.getattr_static(cls, attr, None)
    if raw is not None and hasattr(type(raw), "__set__") and not isinstance(raw, (types.MemberDescriptorType, types.GetSetDescriptorType)):
        raise Unsupported(f"{attr} of {getattr(cls, '__name__', cls)} is computed")


def func_of_live(f):
    f = getattr(f, "__func__", f)
    if not isinstance(f, types.FunctionType):
        raise Unsupported(f"call of {f!r}")
    if "<lambda>" in f.__qualname__ or "<locals>" in f.__qualname__:
        raise Unsupported(f"call of local function {f.__qualname__}")
    return find_func(f.__module__, f.__qualname__)


TEXT_OPERATIONS = {n for n in dir(str) if not n.startswith("_")} - {"format", "count", "index"}
PATTERN_OPERATIONS = {"findall", "finditer", "search", "match", "fullmatch", "sub", "subn", "compile"}


def text_words(call, fi):
    """the text operations a call performs, which specifications name: methods of texts, and patterns"""
    f = call.func
    if not isinstance(f, ast.Attribute):
        return set()
    if f.attr in TEXT_OPERATIONS and f.attr not in PATTERN_OPERATIONS and not (isinstance(f.value, ast.Name) and f.value.id in ("self", "cls")):
        return {f.attr}
    if f.attr in PATTERN_OPERATIONS and isinstance(f.value, ast.Name):
        o = getattr(fi.mod, f.value.id, None)
        if isinstance(o, re.Pattern):
            return {f"{f.attr} {o.pattern} {int(o.flags)}"}
        if o is re:
            return {f"{f.attr} of {[n.value for n in ast.walk(fi.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)]}"}
    return set()


def local_names(node):
    """parameters then local variables, in order of first binding."""
    out = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n): pass
        def visit_Lambda(self, n): pass

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
    for s in node.body:
        V().visit(s)
    return out


# --------------------------------------------------------------------------- contracts

class Loop:
    def __init__(self, inv=(), dec=None, hints=(), end_hints=None, exit_hints=(), types=None, unroll=None, ghost_set=None):
        self.inv, self.dec, self.hints = list(inv), dec, list(hints)
        self.end_hints = list(end_hints) if end_hints is not None else list(hints)
        self.exit_hints = list(exit_hints)
        self.types, self.unroll = types or {}, unroll
        self.ghost_set = ghost_set or {}


class Yields:
    """asserts: what must hold of `out` at each yield; update: ghost assignments made at the yield."""
    def __init__(self, asserts=(), update=None, init=None, out=None):
        self.asserts, self.update, self.init, self.out = list(asserts), update or {}, init or {}, out


class Contract:
    def __init__(self, target, params=None, requires=(), ensures=(), ghosts=None, ufs=None, loops=(), theory="int",
                 cases=None, modifies=(), value=None, result=None, yields=None, globals=None, hints=(), entry_hints=(),
                 stubs=None, inline=(), trusted=False, props=(), note="", bvwidth=64, specfns=None, final=(),
                 timeout=None, loop_limit=None, replay=None, allow_share=(), variant="", raises=None, merge=False, cuts=(), creates=None, standalone=False, opaque=()):
        self.target, self.params = target, params or {}
        self.requires, self.ensures = list(requires), list(ensures)
        self.ghosts, self.ufs = ghosts or {}, ufs or {}
        self.loops, self.theory, self.cases = list(loops), theory, cases or [{}]
        self.modifies, self.value, self.result = list(modifies), value, result
        self.yields, self.globals = yields, globals or {}
        self.hints, self.entry_hints = list(hints), list(entry_hints)
        self.stubs, self.inline, self.trusted = stubs or {}, set(inline), trusted
        self.props, self.note, self.bvwidth = list(props), note, bvwidth
        self.timeout = timeout
        self.allow_share = set(allow_share)
        self.variant = variant
        self.opaque = frozenset(opaque)     # spec functions whose definitions its obligations do not need
        self.raises = raises
        self.merge = merge
        self.cuts = list(cuts)
        self.standalone = standalone       # callers inline the function instead
        self.creates = creates or {}       # attributes that exist afterwards: path -> type

    @property
    def module(self): return self.target.split(":")[0]

    @property
    def qualname(self): return self.target.split(":")[1]


class Obligation:
    __slots__ = ("func", "case", "desc", "line", "pc", "goal", "kind", "status", "time", "backend", "model")

    def __init__(self, func, case, desc, line, pc, goal, kind="vc"):
        self.func, self.case, self.desc, self.line, self.pc, self.goal, self.kind = func, case, desc, line, pc, goal, kind
        self.status = self.model = self.backend = None
        self.time = 0.0


class Heap(dict):
    """Objects by identity. An object that was stored in a list of records is a value from then on: it is never changed again."""
    __slots__ = ("frozen",)

    def __init__(self, *a):
        super().__init__(*a)
        self.frozen = a[0].frozen if a else frozenset()

    def __setitem__(self, k, v):
        if k in self.frozen:
            raise Unsupported("change of an object that is in a list of records")
        super().__setitem__(k, v)


class State:
    __slots__ = ("vars", "stack", "heap", "pc", "ghosts")

    def __init__(self):
        self.vars, self.stack, self.heap, self.pc, self.ghosts = {}, (), Heap(), (), {}

    def copy(self):
        s = State()
        s.vars, s.stack, s.heap, s.pc, s.ghosts = dict(self.vars), self.stack, Heap(self.heap), self.pc, dict(self.ghosts)
        return s

    def assume(self, *cs):
        s = self.copy()
        s.pc = self.pc + tuple(c for c in cs if not (c is True))
        return s


class Frame:
    def __init__(self, fi, contract, parent=None, depth=0):
        self.fi, self.contract, self.parent, self.depth = fi, contract, parent, depth
        self.closure = None


class ExcVal:
    def __init__(self, name): self.name = name


def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def land(*cs):
    out = []
    for c in cs:
        if c is True or (isinstance(c, z3.BoolRef) and z3.is_true(c)):
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def lor(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def lnot(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def has_quant(t, cache={}):
    i = t.get_id()
    r = cache.get(i)
    if r is not None and r[1].eq(t):
        return r[0]
    res, todo, seen = False, [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        todo.extend(x.children())
    cache[i] = (res, t)
    return res


# --------------------------------------------------------------------------- the engine

_range_sorts = {}


def range_sort(sort):
    """pairs (start, stop) standing for ranges with step 1"""
    k = str(sort)
    if k not in _range_sorts:
        d = z3.Datatype("Range_" + k)
        d.declare("mk", ("start", sort), ("stop", sort))
        _range_sorts[k] = d.create()
    return _range_sorts[k]


_bytes_sorts = {}


def bytes_sort(sort):
    """elements of a list of bytes objects"""
    k = str(sort)
    if k not in _bytes_sorts:
        d = z3.Datatype("Bytes_" + k)
        d.declare("mk", ("data", z3.ArraySort(sort, sort)), ("length", sort))
        _bytes_sorts[k] = d.create()
    return _bytes_sorts[k]


class Engine:
    def __init__(self, contract, registry, case=None, specs=None):
        self.contract, self.registry, self.case = contract, registry, case or {}
        self.specs = specs
        self.th = IntTheory() if contract.theory == "int" else BVTheory(contract.bvwidth)
        self.obls = []
        self.ids = itertools.count(1)
        self.npaths = 0
        self.loop_order = {}
        self.loop_next = 0
        self.entry = None
        self.ufs = {}
        self.used_contracts = set()
        self.used_trusted = set()
        self.inlined = set()
        self.lines = set()
        self.frames_loops = []
        self.consumed = set()
        self.reading = {}
        self.name_map = {}
        self.quick_cache = {}
        self.globals_vals = {}
        self.base_axioms = []
        self.yield_count = 0
        self.cut_after = {}
        self.fname = contract.target + (f"#{contract.variant}" if contract.variant else "")

    # ---- fresh values
    def fid(self): return next(self.ids)

    def fresh_int(self, name="v"): return self.th.fresh(name)

    def fresh_arr(self, name="a", rng=None):
        return z3.FreshConst(z3.ArraySort(self.th.sort, self.th.sort if rng is None else rng), name)

    def fresh_bool(self, name="b"): return z3.FreshConst(z3.BoolSort(), name)

    def alloc(self, st, entry):
        r = Ref(self.fid())
        st.heap[r.id] = entry
        return r

    def elem_sort(self, elem):
        if elem in ("int", "chr"):
            return self.th.sort
        if elem == "bool":
            return z3.BoolSort()
        if elem in ("val", "str", "opaque"):
            return ValSort
        if elem == "range":
            return range_sort(self.th.sort)
        if elem == "bytes":
            return bytes_sort(self.th.sort)
        if elem == "texts":
            return texts_sort(self.th.sort)
        raise Unsupported(f"element type {elem}")

    def make(self, st, ty, name):
        """A fresh symbolic value of the given type; constraints are added to st.pc."""
        th = self.th
        if ty == "int":
            return th.const(name)
        if ty == "nat":
            v = th.const(name)
            st.pc += (th.le(0, v),)
            return v
        if ty == "bool":
            return z3.Const(name, z3.BoolSort())
        if ty == "none":
            return None
        if ty == "real":
            return z3.Const(name, z3.RealSort())
        if ty in ("str", "val"):
            return Opaque(z3.Const(name, ValSort), ty) if ty == "val" else Str([("atom", z3.Const(name, ValSort))])
        if ty == "range":
            return VRange(th.const(name + "_start"), th.const(name + "_stop"), 1)
        if ty in ("intlist", "inttuple", "bytes", "strseq", "chrlist", "strlist", "vallist", "rangelist", "byteslist", "rows"):
            elem = {"rows": "texts", "strlist": "str", "vallist": "val", "chrlist": "chr", "rangelist": "range", "byteslist": "bytes"}.get(ty, "int")
            arr = z3.Const(name, z3.ArraySort(th.sort, self.elem_sort(elem)))
            n = th.const(name + "_len")
            st.pc += (th.le(0, n),)
            kind = {"intlist": "list", "inttuple": "tuple", "bytes": "bytes", "strseq": "str"}.get(ty, "list")
            seq = Seq(kind, arr=arr, n=n, elem=elem)
            if ty == "bytes":
                k = z3.FreshConst(th.sort, "k")
                st.pc += (z3.ForAll([k], z3.And(th.le(0, arr[k]), th.lt(arr[k], 256)), patterns=[arr[k]]),)
            if ty == "byteslist":
                d = bytes_sort(th.sort)
                i, k = z3.FreshConst(th.sort, "i"), z3.FreshConst(th.sort, "k")
                b = d.data(arr[i])[k]
                st.pc += (z3.ForAll([i], th.le(0, d.length(arr[i])), patterns=[d.length(arr[i])]),
                          z3.ForAll([i, k], z3.And(th.le(0, b), th.lt(b, 256)), patterns=[b]))
            if ty == "rows":
                d = texts_sort(th.sort)
                i = z3.FreshConst(th.sort, "i")
                st.pc += (z3.ForAll([i], th.le(0, d.length(arr[i])), patterns=[d.length(arr[i])]),)
            if ty == "strseq":
                k = z3.FreshConst(th.sort, "k")
                st.pc += (z3.ForAll([k], z3.And(th.le(0, arr[k]), th.lt(arr[k], 0x110000)), patterns=[arr[k]]),)
            if kind == "list":
                return self.alloc(st, ListE(seq))
            return seq
        if isinstance(ty, tuple):
            tag = ty[0]
            if tag == "const":
                return self.wrap(ty[1])
            if tag == "pyobj":
                return PyObj(self.live(ty[1]))
            if tag == "obj" or tag == "cls":
                cls = self.live(ty[1])
                fields = {}
                e = ObjE(cls if tag == "obj" else ("class", cls), fields)
                ref = self.alloc(st, e)
                for f, t in ty[2].items():
                    fields[f] = self.make(st, t, f"{name}.{f}")
                return ref
            if tag == "records":
                arr = {f: self.column(t, f"{name}.{f}") for f, t in ty[1].items()}
                st.pc += self.column_facts(ty[1], arr)
                n = th.const(name + "_len")
                st.pc += (th.le(0, n),)
                cls = self.live(ty[2]) if len(ty) > 2 and ty[2] else None
                seq = Seq("list", arr=arr, n=n, elem="rec", fields=dict(ty[1]), cls=cls)
                return self.alloc(st, ListE(seq))
            if tag == "uf":
                rng = th.sort if len(ty) < 3 or ty[2] == "int" else ValSort
                decl = z3.Function(name, *([th.sort] * ty[1]), rng)
                return UF(name, decl, "int" if rng is th.sort else "val", ty[3] if len(ty) > 3 else None)
            if tag == "kwargs":      # keyword arguments of which only the whole is known
                return Opaque(z3.Const(name, ValSort), "kwargs")
            if tag == "path":
                return Opaque(z3.Const(name, ValSort), "path")
            if tag == "pattern":     # a compiled regular expression
                return Opaque(z3.Const(name, ValSort), "pattern")
            if tag == "tuple":
                return Seq("tuple", items=[self.make(st, t, f"{name}.{k}") for k, t in enumerate(ty[1])])
            if tag == "attrs":   # abstract string->string mapping of an XML element
                return self.alloc(st, self.fresh_dict(name, "str"))
            if tag == "map":     # abstract string->integer mapping
                return self.alloc(st, self.fresh_dict(name, "int"))
            if tag == "lists":   # abstract mapping of texts to lists of texts
                e = self.fresh_dict(name, "texts")
                d, x = texts_sort(th.sort), z3.FreshConst(ValSort, "x")
                st.pc += (z3.ForAll([x], th.le(0, d.length(e.arr[x])), patterns=[d.length(e.arr[x])]),)
                return self.alloc(st, e)
            if tag == "table":   # abstract mapping of texts to tuples
                return self.alloc(st, self.fresh_dict(name, ("tuple", name, tuple(ty[1]))))
            if tag == "dict":
                return self.alloc(st, DictE(d={}))
        raise Unsupported(f"type {ty!r}")

    LISTS = {"intlist": ("list", "int"), "inttuple": ("tuple", "int"), "bytes": ("bytes", "int"), "strlist": ("list", "str"), "byteslist": ("list", "bytes")}

    def column(self, t, name):
        """one attribute of all records of a list"""
        th = self.th
        nums = z3.ArraySort(th.sort, th.sort)
        if t == "int":
            return z3.Const(name, nums)
        if t == "range":
            return (z3.Const(name + ".start", nums), z3.Const(name + ".stop", nums))
        if t in ("val", "str"):
            return z3.Const(name, z3.ArraySort(th.sort, ValSort))
        if t in self.LISTS:
            return (z3.Const(name, z3.ArraySort(th.sort, z3.ArraySort(th.sort, self.elem_sort(self.LISTS[t][1])))), z3.Const(name + ".len", nums))
        raise Unsupported(f"record field type {t}")

    def column_facts(self, fields, arr):
        out = ()
        for f, t in fields.items():
            if t in self.LISTS:
                k = z3.FreshConst(self.th.sort, "k")
                out += (z3.ForAll([k], self.th.le(0, arr[f][1][k]), patterns=[arr[f][1][k]]),)
        return out

    def append_record(self, s, seq, x):
        """the object x as the last record: from now on it is a value"""
        th = self.th
        e = s.heap.get(x.id) if isinstance(x, Ref) else None
        if not isinstance(e, ObjE) or seq.parts is not None or seq.cls is not None and e.cls is not seq.cls:
            raise Unsupported("appending to a list of records")
        n, arr, ids = th.z(seq.n), {}, {x.id}
        for f, t in seq.fields.items():
            v, a = e.fields.get(f), seq.arr[f]
            if not self.fits(t, v, s):
                raise Unsupported(f"attribute {f} of an object in a list of records")
            if t == "int":
                arr[f] = z3.Store(a, n, th.z(v))
            elif t == "range":
                arr[f] = (z3.Store(a[0], n, th.z(v.start)), z3.Store(a[1], n, th.z(v.stop)))
            elif t in ("val", "str"):
                arr[f] = z3.Store(a, n, self.val_term(v))
            else:
                if isinstance(v, Ref):
                    ids.add(v.id)
                q = self.seq_of(s, v)
                if q.items is not None and not q.items:
                    arr[f] = (a[0], z3.Store(a[1], n, th.z(0)))
                    continue
                if q.fn is not None:
                    s, q = self.stored(s, q)
                d, m = self.to_arr(q)
                arr[f] = (z3.Store(a[0], n, d), z3.Store(a[1], n, th.z(m)))
        s = s.copy()
        s.heap.frozen |= ids
        return s, Seq("list", arr=arr, n=th.add(seq.n, 1), elem="rec", fields=seq.fields, cls=seq.cls)

    def fresh_dict(self, name, ret):
        return DictE(arr=z3.Const(name + "_get", z3.ArraySort(ValSort, self.th.sort if ret == "int" else texts_sort(self.th.sort) if ret == "texts" else ValSort)),
                     present=z3.Const(name + "_has", z3.ArraySort(ValSort, z3.BoolSort())), ret=ret)

    def key_order(self, e):
        """the keys of an abstract mapping, how many there are, and where a key stands"""
        sorts, a = [e.arr.sort(), e.present.sort()], (e.arr, e.present)
        f = lambda n, *r: z3.Function("dict." + n, *sorts, *r)
        return f("keys", z3.ArraySort(self.th.sort, ValSort))(*a), f("count", self.th.sort)(*a), lambda x: f("place", ValSort, self.th.sort)(*a, x)

    def put_texts(self, s, o, t, q):
        """the mapping with this list at t"""
        e, d, s = s.heap[o.id], texts_sort(self.th.sort), s.copy()
        if q.items is not None and not q.items:
            q = Seq("list", arr=z3.FreshConst(z3.ArraySort(self.th.sort, ValSort), "empty"), n=0, elem="str")
        if q.elem != "str" or q.kind != "list":
            raise Unsupported("list in a mapping of lists of texts")
        arr, n = self.to_arr(q)
        s.heap[o.id] = DictE(arr=z3.Store(e.arr, t, d.mk(arr, self.th.z(n))), present=z3.Store(e.present, t, True), ret=e.ret)
        return s

    def live(self, path):
        mod, q = path.split(":")
        o = importlib.import_module(mod)
        for p in q.split("."):
            o = getattr(o, p)
        return o

    # ---- wrapping live python values
    def wrap(self, v):
        if v is None or isinstance(v, (bool, int)):
            return v
        if isinstance(v, float):
            return v
        if isinstance(v, str):
            return Str([("c", v)])
        if isinstance(v, range):
            return VRange(v.start, v.stop, v.step)
        if isinstance(v, (Seq, Str, VRange, Ref, PyObj, BoundM, Closure, UF, Opaque, z3.ExprRef)):
            return v
        return PyObj(v)

    # ---- obligations
    def oblige(self, st, cond, desc, node=None, kind="vc"):
        if cond is True:
            self.obls.append(Obligation(self.fname, self.casename(), desc, getattr(node, "lineno", 0), (), True, "trivial"))
            return
        self.obls.append(Obligation(self.fname, self.casename(), desc, getattr(node, "lineno", 0),
                                    st.pc, zb(cond), kind))

    def casename(self):
        return self.case.get("name", "")

    def ctx(self, st, node):
        return Ctx(self, st, node)

    def qf_pc(self, st):
        return [c for c in st.pc if isinstance(c, z3.BoolRef) and not has_quant(c)]

    def feasible(self, st):
        for c in st.pc:
            if c is False or (isinstance(c, z3.BoolRef) and z3.is_false(c)):
                return False
        s = z3.Solver()
        s.set("timeout", 400)
        s.add(*self.qf_pc(st))
        return s.check() != z3.unsat

    def quick(self, st, cond, timeout=600):
        if isinstance(cond, bool):
            return cond
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*self.qf_pc(st))
        s.add(z3.Not(cond))
        return s.check() == z3.unsat

    def quick_full(self, st, cond, timeout=3000):
        if isinstance(cond, bool):
            return cond
        if self.quick(st, cond):
            return True
        from .prove import prove_one
        return prove_one([zb(c) for c in st.pc], cond, self.specs, timeout=timeout, opaque=self.contract.opaque)[0] == "proved"

    # ---- sequences
    def seq_of(self, st, v):
        """contents of a sequence-like value"""
        if isinstance(v, Seq):
            return v
        if isinstance(v, Ref):
            e = st.heap[v.id]
            if isinstance(e, ListE):
                return e.seq
            raise Unsupported("object used as a sequence")
        if isinstance(v, Str):
            c = v.codes()
            if c is None:
                raise Unsupported("indexing of an abstract string")
            return Seq("str", items=c)
        if isinstance(v, PyObj) and isinstance(v.v, (list, tuple, bytes)):
            kind = {list: "list", tuple: "tuple", bytes: "bytes"}[type(v.v)]
            return Seq(kind, items=[self.wrap(x) for x in v.v], elem="str" if v.v and all(type(x) is str for x in v.v) else "int")
        if isinstance(v, VRange):
            raise Unsupported("range used as a sequence")
        raise Unsupported(f"not a sequence: {v!r}")

    def to_arr(self, seq):
        """(z3 array, length) of an integer-like sequence"""
        if seq.arr is not None:
            return seq.arr, seq.n
        if seq.fn is not None:
            k = z3.FreshConst(self.th.sort, "k")
            return z3.Lambda([k], self.th.z(seq.fn(k))), seq.n
        if not hasattr(self, "_arrs"):
            self._arrs = {}
        key = tuple(x if isc(x) else (x.get_id() if isinstance(x, z3.ExprRef) else None) for x in seq.items)
        sort = self.elem_sort(seq.elem)
        if None not in key and (key, seq.elem) in self._arrs:
            return self._arrs[(key, seq.elem)][0], len(seq.items)
        if len(seq.items) > 600:
            raise Unsupported("symbolic index into a large constant table (give it in globals)")
        arr = z3.K(self.th.sort, self.th.z(0)) if sort == self.th.sort else z3.FreshConst(z3.ArraySort(self.th.sort, sort), "lit")
        for k, x in enumerate(seq.items):
            arr = z3.Store(arr, self.th.z(k), self.elem_term(x, seq.elem))
        if None not in key:
            self._arrs[(key, seq.elem)] = (arr, seq.items)
        return arr, len(seq.items)

    def stored(self, s, x):
        """the numbers of x in an array of their own"""
        arr = self.fresh_arr("data")
        k = z3.FreshConst(self.th.sort, "k")
        fact = z3.ForAll([k], z3.Implies(zb(land(self.th.le(0, k), self.th.lt(k, x.length()))), arr[k] == self.th.z(x.fn(k))), patterns=[arr[k]])
        return s.assume(fact), Seq(x.kind, arr=arr, n=x.length())

    def elem_term(self, x, elem):
        if elem in ("int",):
            return self.th.z(x)
        if elem == "chr":
            if isinstance(x, Str):
                c = x.codes()
                if c is not None and len(c) == 1:
                    return self.th.z(c[0])
            raise Unsupported("element is not a single character")
        if elem in ("val", "str", "opaque"):
            return self.val_term(x)
        if elem == "range" and isinstance(x, VRange) and x.step == 1:
            return range_sort(self.th.sort).mk(self.th.z(x.start), self.th.z(x.stop))
        if elem == "bytes" and isinstance(x, Seq) and x.kind == "bytes":
            arr, n = self.to_arr(x)
            return bytes_sort(self.th.sort).mk(arr, self.th.z(n))
        raise Unsupported(f"element {elem}")

    def val_term(self, x):
        if isinstance(x, Opaque):
            return x.term
        if isinstance(x, Str) and len(x.pieces) == 1 and x.pieces[0][0] == "atom":
            return x.pieces[0][1]
        if isinstance(x, Str) and x.const() is not None:
            return self.str_atom(x.const())
        if isinstance(x, Str):
            return self.rope_term(x)
        raise Unsupported(f"not an abstract value: {x!r}")

    def str_atom(self, s):
        return z3.Const("str!" + s, ValSort)

    def elem_value(self, t, elem):
        if elem == "int":
            return t
        if elem == "chr":
            return Str([("chr", t)])
        if elem == "str":
            return Str([("atom", t)])
        if elem in ("val", "opaque"):
            return Opaque(t)
        if elem == "range":
            d = range_sort(self.th.sort)
            return VRange(d.start(t), d.stop(t), 1)
        if elem == "bytes":
            d = bytes_sort(self.th.sort)
            return Seq("bytes", arr=d.data(t), n=d.length(t))
        if elem == "texts":
            d = texts_sort(self.th.sort)
            return Seq("list", arr=d.data(t), n=d.length(t), elem="str")
        raise Unsupported(f"element {elem}")

    def seq_get(self, st, seq, i, cx, what="index"):
        """seq[i] with the in-range obligation."""
        th = self.th
        n = seq.length()
        if seq.items is not None and isc(i):
            if -n <= i < n:
                x = seq.items[i]
                return self.elem_value(x, "chr") if seq.kind == "str" else x
            cx.need(z3.BoolVal(False), f"{what} {i} in range of a sequence of length {n}")
            raise Infeasible()
        if isc(i) and i < 0:
            j = th.sub(n, -i)
            cx.need(th.le(0, j), f"{what} {i} in range")
        else:
            j = i
            ok = land(th.le(0, i), th.lt(i, n))
            if cx.engine is not None and not isinstance(ok, bool):
                # a provably non-negative index is the normal case
                cx.need(zb(ok), f"{what} in range")
            elif cx.engine is not None and ok is False:
                cx.need(z3.BoolVal(False), f"{what} in range")
                raise Infeasible()
        if seq.elem == "rec":
            return Rec(seq, j)
        if seq.fn is not None:
            return seq.fn(j)
        arr, _ = self.to_arr(seq)
        t = z3.Select(arr, th.z(j))
        if seq.kind == "str":
            return Str([("chr", t)])
        return self.elem_value(t, seq.elem)

    def rec_field(self, rec, f):
        th = self.th
        if rec.seq.parts is not None:
            vs = []
            for q in rec.seq.parts:
                v = self.rec_field(Rec(q, rec.seq.arr["idx"][th.z(rec.i)]), f)
                if v is None:
                    return None
                vs.append(v)
            r = vs[-1]
            for k in range(len(vs) - 2, -1, -1):
                c = rec.seq.arr["src"][th.z(rec.i)] == k
                if isinstance(r, VRange) and isinstance(vs[k], VRange):
                    r = VRange(z3.If(c, vs[k].start, r.start), z3.If(c, vs[k].stop, r.stop), 1)
                elif is_int(r) and is_int(vs[k]):
                    r = z3.If(c, vs[k], r)
                else:
                    raise Unsupported("attribute of a mixed record")
            return r
        t = rec.seq.fields.get(f)
        if t is None:
            return None
        a = rec.seq.arr[f]
        i = th.z(rec.i)
        if t == "int":
            return a[i]
        if t == "range":
            return VRange(a[0][i], a[1][i], 1)
        if t == "str":
            return Str([("atom", a[i])])
        if t in self.LISTS:
            kind, elem = self.LISTS[t]
            return Seq(kind, arr=a[0][i], n=a[1][i], elem=elem)
        return Opaque(a[i])

    # general slice assignment / concatenation: new contents described element-wise
    def seq_build(self, st, kind, parts, elem="int"):
        """concatenation of parts: each part is a list of items or (arr, from, count). Returns (seq, new pc facts)."""
        th = self.th
        if all(isinstance(p, list) for p in parts):
            return Seq(kind, items=[x for p in parts for x in p], elem=elem), ()
        # prefix of an existing array followed by single items: store chain
        if isinstance(parts[0], tuple) and isc(parts[0][1]) and parts[0][1] == 0 and all(isinstance(p, list) for p in parts[1:]):
            arr, _, n = parts[0]
            for p in parts[1:]:
                for x in p:
                    arr = z3.Store(arr, th.z(n), self.elem_term(x, elem))
                    n = th.add(n, 1)
            return Seq(kind, arr=arr, n=n, elem=elem), ()
        arr = self.fresh_arr("cat", self.elem_sort(elem))
        facts, pos = [], 0
        for p in parts:
            if isinstance(p, list):
                for x in p:
                    facts.append(z3.Select(arr, th.z(pos)) == self.elem_term(x, elem))
                    pos = th.add(pos, 1)
            else:
                src, frm, cnt = p
                k = z3.FreshConst(th.sort, "k")
                end = th.add(pos, cnt)
                delta = th.sub(frm, pos)
                sk = th.add(k, delta)
                facts.append(z3.ForAll([k], z3.Implies(z3.And(zb(th.le(pos, k)), zb(th.lt(k, end))),
                                                       z3.Select(arr, k) == z3.Select(src, th.z(sk))),
                                       patterns=[z3.Select(arr, k)]))
                k2 = z3.FreshConst(th.sort, "k")
                dk = th.sub(k2, delta)
                facts.append(z3.ForAll([k2], z3.Implies(z3.And(zb(th.le(frm, k2)), zb(th.lt(k2, th.add(frm, cnt)))),
                                                        z3.Select(arr, th.z(dk)) == z3.Select(src, k2)),
                                       patterns=[z3.Select(src, k2)]))
                pos = end
        return Seq(kind, arr=arr, n=pos, elem=elem), tuple(facts)

    # ---- truth and equality
    def truth(self, st, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, z3.BoolRef):
            return v
        if is_int(v):
            return lnot(self.th.eq(v, 0))
        if is_real(v):
            return v != 0
        if v is None:
            return False
        if isinstance(v, Seq):
            return lnot(self.th.eq(v.length(), 0))
        if isinstance(v, Str):
            c = v.const()
            if c is not None:
                return bool(c)
            if any(p[0] in ("c", "chr") or p[0] == "fmt" and is_int(p[2]) for p in v.pieces):
                return True
            if len(v.pieces) == 1 and v.pieces[0][0] == "atom":
                return v.pieces[0][1] != self.str_atom("")
            raise Unsupported("truth of an abstract string")
        if isinstance(v, Ref):
            e = st.heap[v.id]
            if isinstance(e, ListE):
                return lnot(self.th.eq(e.seq.length(), 0))
            if isinstance(e, ObjE):
                return True
            raise Unsupported("truth of a mapping")
        if isinstance(v, VRange):
            return self.th.lt(v.start, v.stop)
        if isinstance(v, PyObj):
            return bool(v.v)
        if isinstance(v, (Closure, UF, BoundM, Rec, MatchV)):
            return True
        if isinstance(v, Opaque):
            return z3.Function("truthy", ValSort, z3.BoolSort())(v.term)
        raise Unsupported(f"truth of {v!r}")

    def veq(self, st, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unsupported("use of a possibly undefined variable")
        if is_bool(a) and is_bool(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return zb(a) == zb(b)
        if is_bool(a) and is_int(b):
            a = self.th.z(a)
        if is_bool(b) and is_int(a):
            b = self.th.z(b)
        if is_int(a) and is_int(b):
            return self.th.eq(a, b)
        if (is_int(a) or is_real(a)) and (is_int(b) or is_real(b)):
            return self.real(a) == self.real(b)
        if a is None or b is None:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                o = a if isinstance(a, Opaque) else b
                return o.term == z3.Const("None!", ValSort)
            return a is None and b is None
        if isinstance(a, PyObj) and isinstance(a.v, (list, tuple, bytes)) or isinstance(b, PyObj) and isinstance(b.v, (list, tuple, bytes)):
            a, b = self.seq_of(st, a), self.seq_of(st, b)
        if isinstance(a, PyObj) and isinstance(b, PyObj):
            return a.v is b.v or bool(a.v == b.v)
        if isinstance(a, VRange) and isinstance(b, VRange):
            th = self.th
            same = land(th.eq(a.start, b.start), th.eq(a.stop, b.stop))
            empty = land(th.le(a.stop, a.start), th.le(b.stop, b.start))
            return lor(same, empty)
        if isinstance(a, Str) and isinstance(b, Str):
            return self.str_eq(a, b)
        if isinstance(a, Str) and isinstance(b, Seq) and b.kind == "str" or isinstance(b, Str) and isinstance(a, Seq) and a.kind == "str":
            a, b = self.str_seq(st, a), self.str_seq(st, b)
        if any(isinstance(x, Ref) and isinstance(st.heap[x.id], EnvE) for x in (a, b)):
            x, y = [self.env_term(st, v) for v in (a, b)]
            return x == y
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return True
            ea, eb = st.heap[a.id], st.heap[b.id]
            if isinstance(ea, ListE) and isinstance(eb, ListE):
                return self.seq_eq(st, ea.seq, eb.seq)
            if isinstance(ea, ObjE) and isinstance(eb, ObjE):
                return False
            raise Unsupported("comparison of objects")
        if isinstance(a, Ref) and isinstance(b, Seq) or isinstance(b, Ref) and isinstance(a, Seq):
            sa, sb = self.seq_of(st, a), self.seq_of(st, b)
            if sa.kind != sb.kind and "arr" not in (sa.kind, sb.kind):
                return False
            return self.seq_eq(st, sa, sb)
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.seq_eq(st, a, b)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a.term == b.term
        if isinstance(a, Opaque) and isinstance(b, Str) or isinstance(b, Opaque) and isinstance(a, Str):
            return self.val_term(a) == self.val_term(b)
        if type(a) is not type(b):
            def cat(v):
                if is_int(v) or is_bool(v) or is_real(v): return "num"
                if isinstance(v, Str) or isinstance(v, Seq) and v.kind == "str": return "str"
                return type(v).__name__
            if cat(a) != cat(b) and not isinstance(a, (Opaque, Rec)) and not isinstance(b, (Opaque, Rec)):
                return False
        raise Unsupported(f"comparison of {a!r} and {b!r}")

    def str_seq(self, st, s):
        if isinstance(s, Seq):
            return s
        c = s.codes()
        if c is None:
            raise Unsupported("abstract string as a character sequence")
        return Seq("str", items=c)

    def str_eq(self, a, b):
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            return ca == cb
        xa, xb = a.codes(), b.codes()
        if xa is not None and xb is not None:
            if len(xa) != len(xb):
                return False
            return land(*[self.th.eq(p, q) for p, q in zip(xa, xb)])
        if len(a.pieces) == len(b.pieces) and all(p[0] == q[0] for p, q in zip(a.pieces, b.pieces)):
            cs, exact = [], True
            for p, q in zip(a.pieces, b.pieces):
                if p[0] == "c":
                    if p[1] != q[1]:
                        exact = False
                elif p[0] == "chr":
                    cs.append(self.th.eq(p[1], q[1]))
                elif p[0] == "atom":
                    cs.append(p[1] == q[1])
                else:
                    if p[1] != q[1]:
                        exact = False
                    else:
                        cs.append(self.veq(None, p[2], q[2]))
            free = [p for p in a.pieces if p[0] in ("atom", "fmt")]
            if exact and (len(free) == 0 or len(free) == 1 and (free[0][0] == "atom" or is_int(free[0][2]))):
                # the same shape with at most one piece of unknown length: equal exactly when the pieces are
                # (integer formats are injective)
                return land(*cs)
        # general: equality of the abstract values
        return self.rope_term(a) == self.rope_term(b)

    # the methods of abstract strings: python's own functions, uninterpreted
    def str_index(self, a, b):
        return z3.Function("str.index", ValSort, ValSort, self.th.sort)(self.rope_term(a), self.rope_term(b))

    def str_has(self, a, b):
        return z3.Function("str.has", ValSort, ValSort, z3.BoolSort())(self.rope_term(a), self.rope_term(b))

    def str_tail(self, a, k):
        return Str([("atom", z3.Function("str.tail", ValSort, self.th.sort, ValSort)(self.rope_term(a), self.th.z(k)))])

    def str_init(self, a, k):
        """a[:k], k negative"""
        return Str([("atom", z3.Function(f"str.init{-k}", ValSort, ValSort)(self.rope_term(a)))])

    def str_function(self, name, o, args):
        """a method of texts, as a function of the texts it gets"""
        ts = [self.rope_term(a) for a in args]
        rng = z3.BoolSort() if name in ("startswith", "endswith") else ValSort
        t = z3.Function(f"str.{name}", ValSort, *[ValSort] * len(ts), rng)(self.rope_term(o), *ts)
        return t if rng == z3.BoolSort() else Str([("atom", t)])

    def str_parts(self, a, sep):
        """text.split(sep): the pieces and their number, functions of the two texts"""
        x, y = self.rope_term(a), self.rope_term(sep)
        return (z3.Function("str.parts", ValSort, ValSort, z3.ArraySort(self.th.sort, ValSort))(x, y), z3.Function("str.nparts", ValSort, ValSort, self.th.sort)(x, y))

    def str_matches(self, pattern, text, flags):
        """re.findall(pattern with one group, text, flags): the texts of the group and their number, functions of pattern and text"""
        x, y = self.rope_term(pattern), self.rope_term(text)
        return (z3.Function(f"re.found{flags}", ValSort, ValSort, z3.ArraySort(self.th.sort, ValSort))(x, y), z3.Function(f"re.nfound{flags}", ValSort, ValSort, self.th.sort)(x, y))

    def str_join(self, sep, arr, n):
        th = self.th
        return z3.Function("str.join", ValSort, z3.ArraySort(th.sort, ValSort), th.sort, ValSort)(self.str_atom(sep), arr, th.z(n))

    def joined(self, s, sep, q):
        """sep.join(list of texts): determined by the texts and their number"""
        self.used_trusted.add("str.join: the text is determined by the texts joined, in their order")
        th = self.th
        B, k = z3.FreshConst(z3.ArraySort(th.sort, ValSort), "B"), z3.FreshConst(th.sort, "k")
        other = self.str_join(sep, B, q.n)
        same = z3.ForAll([k], z3.Implies(zb(land(th.le(0, k), th.lt(k, q.n))), q.arr[k] == B[k]))
        t = self.str_join(sep, q.arr, q.n)
        return s.assume(z3.ForAll([B], z3.Implies(same, other == t), patterns=[other])), Str([("atom", t)])

    def str_number(self, a, base):
        """int(text, base): its value and whether the text is a number"""
        x = self.rope_term(a)
        return z3.Function(f"str.int{base}", ValSort, self.th.sort)(x), z3.Function(f"str.isint{base}", ValSort, z3.BoolSort())(x)

    def str_eval(self, a):
        """eval(text) of the text of a number: its value and whether the text is a number"""
        x = self.rope_term(a)
        return Opaque(z3.Function("str.eval", ValSort, ValSort)(x)), z3.Function("str.isnumber", ValSort, z3.BoolSort())(x)

    # paths: directory / text, and the name of what a path leads to, are functions
    def path_join(self, a, b):
        return Opaque(z3.Function("path.join", ValSort, ValSort, ValSort)(a.term, self.rope_term(b)), "path")

    def path_name(self, a):
        return Str([("atom", z3.Function("path.name", ValSort, ValSort)(a.term))])

    def compiled(self, x):
        return Opaque(z3.Function("re.compile", ValSort, ValSort)(self.rope_term(x)), "pattern")

    # regular expressions: what they find is a function of the pattern and the text
    def pattern_term(self, p):
        if isinstance(p, Opaque) and p.tag == "pattern":
            return p.term
        if isinstance(p, PyObj) and isinstance(p.v, re.Pattern):
            return self.str_atom(f"re:{p.v.flags}:{p.v.pattern}")
        raise Unsupported("regular expression")

    def re_search(self, how, p, x):
        """whether pattern p is found in text x"""
        return z3.Function(f"re.{how}", ValSort, ValSort, z3.BoolSort())(self.pattern_term(p), self.rope_term(x))

    def re_bound(self, which, how, p, x, g):
        """start or end of group g of the match"""
        return z3.Function(f"re.{how}.{which}{g}", ValSort, ValSort, self.th.sort)(self.pattern_term(p), self.rope_term(x))

    def re_count(self, p, x):
        return z3.Function("re.count", ValSort, ValSort, self.th.sort)(self.pattern_term(p), self.rope_term(x))

    def re_group(self, p, x, k, g):
        """group g of the match number k of findall"""
        return Str([("atom", z3.Function(f"re.group{g}", ValSort, ValSort, self.th.sort, ValSort)(self.pattern_term(p), self.rope_term(x), self.th.z(k)))])

    # eval(text, variables)
    def empty_env(self): return z3.Const("env.empty", ValSort)

    def env_term(self, st, v):
        e = st.heap[v.id] if isinstance(v, Ref) else v
        if isinstance(e, DictE) and e.d is not None and not e.d:
            return self.empty_env()
        if isinstance(e, (EnvE, Opaque)):
            return e.term
        raise Unsupported("environment")

    def env_bind(self, t, name, v):
        return z3.Function("env.bind", ValSort, ValSort, self.th.sort, ValSort)(t, self.rope_term(name), self.th.z(v))

    def evaluate(self, text, env):
        """its value, and whether it is an integer"""
        x = self.rope_term(text)
        if len(text.pieces) == 1 and text.pieces[0][0] == "fmt" and text.pieces[0][1] == "" and is_int(text.pieces[0][2]):
            return text.pieces[0][2], True
        return z3.Function("str.evaluate", ValSort, ValSort, self.th.sort)(x, env), z3.Function("str.evaluates", ValSort, ValSort, z3.BoolSort())(x, env)

    def str_slice(self, a, lo, hi):
        """a[lo:hi]"""
        return Str([("atom", z3.Function("str.slice", ValSort, self.th.sort, self.th.sort, ValSort)(self.rope_term(a), self.th.z(lo), self.th.z(hi)))])

    def str_len(self, a):
        return z3.Function("strlen", ValSort, self.th.sort)(self.rope_term(a))

    def rope_term(self, s):
        cat = z3.Function("cat", ValSort, ValSort, ValSort)
        ts = []
        for p in s.pieces:
            if p[0] == "c":
                ts.append(self.str_atom(p[1]))
            elif p[0] == "atom":
                ts.append(p[1])
            elif p[0] == "chr":
                ts.append(z3.Function("chr_val", self.th.sort, ValSort)(self.th.z(p[1])))
            else:
                x = p[2]
                if is_int(x):
                    ts.append(z3.Function("fmt!" + p[1], self.th.sort, ValSort)(self.th.z(x)))
                else:
                    ts.append(z3.Function("fmtv!" + p[1], ValSort, ValSort)(self.val_term(x)))
        if not ts:
            return self.str_atom("")
        r = ts[0]
        for t in ts[1:]:
            r = cat(r, t)
        return r

    def seq_eq(self, st, a, b):
        th = self.th
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return False
            return land(*[self.veq(st, x, y) for x, y in zip(a.items, b.items)])
        if a.items is not None or b.items is not None:
            c, s = (a, b) if a.items is not None else (b, a)
            cs = [th.eq(s.length(), len(c.items))]
            arr = self.to_arr(s)[0]
            for k, x in enumerate(c.items):
                cs.append(arr[th.z(k)] == self.elem_term(x, s.elem if s.kind != "str" else "int"))
            return land(*cs)
        if a.elem == "rec" or b.elem == "rec":
            raise Unsupported("comparison of record lists")
        if a.fn is not None or b.fn is not None:
            k = z3.FreshConst(th.sort, "k")
            x, y = [self.th.z(q.fn(k)) if q.fn is not None else q.arr[k] for q in (a, b)]
            return z3.And(zb(th.eq(a.n, b.n)), z3.ForAll([k], z3.Implies(z3.And(zb(th.le(0, k)), zb(th.lt(k, a.n))), x == y)))
        if a.arr.eq(b.arr):
            return th.eq(a.n, b.n)
        k = z3.FreshConst(th.sort, "k")
        return z3.And(zb(th.eq(a.n, b.n)),
                      z3.ForAll([k], z3.Implies(z3.And(zb(th.le(0, k)), zb(th.lt(k, a.n))), a.arr[k] == b.arr[k]),
                                patterns=[a.arr[k]] if not z3.is_store(a.arr) else []))

    def real(self, v):
        if isinstance(v, float):
            from fractions import Fraction
            f = Fraction(v)
            return z3.RealVal(f"{f.numerator}/{f.denominator}")
        if isc(v):
            return z3.RealVal(v)
        if isinstance(v, z3.ArithRef):
            return z3.ToReal(v) if v.is_int() else v
        raise Unsupported("real arithmetic on this value")

    # ---- names
    def lookup(self, name, st, fr):
        if name in st.vars:
            v = st.vars[name]
            return v
        c = fr
        if fr.closure and name in fr.closure:
            return fr.closure[name]
        if name in self.globals_vals:
            return self.globals_vals[name]
        mod = fr.fi.mod
        if hasattr(mod, name):
            return self.wrap(getattr(mod, name))
        if hasattr(builtins, name):
            return PyObj(getattr(builtins, name))
        raise Unsupported(f"unknown name {name}")

    # ------------------------------------------------------------------ expressions
    # generator: yields (state, value)
    def ev(self, node, st, fr):
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(node).__name__} (line {getattr(node,'lineno',0)})")
        try:
            yield from m(node, st, fr)
        except Infeasible:
            return

    def ev_list(self, nodes, st, fr):
        if not nodes:
            yield st, []
            return
        for s1, v in self.ev(nodes[0], st, fr):
            for s2, rest in self.ev_list(nodes[1:], s1, fr):
                yield s2, [v] + rest

    def ev_Constant(self, node, st, fr):
        v = node.value
        if isinstance(v, bytes):
            yield st, Seq("bytes", items=list(v))
        else:
            yield st, self.wrap(v)

    def ev_Name(self, node, st, fr):
        v = self.lookup(node.id, st, fr)
        if v is UNDEF:
            raise Unsupported(f"variable {node.id} may be undefined or of varying type at line {node.lineno}")
        yield st, v

    def ev_Tuple(self, node, st, fr):
        for s, vs in self.ev_list(node.elts, st, fr):
            yield s, Seq("tuple", items=vs)

    def ev_List(self, node, st, fr):
        if node.elts and all(isinstance(e, ast.Starred) for e in node.elts):
            for s, vs in self.ev_list([e.value for e in node.elts], st, fr):
                qs = [self.seq_of(s, v) for v in vs]
                if not all(q.elem == "rec" and q.parts is None for q in qs):
                    raise Unsupported("starred list elements")
                yield s, Merged(qs)
            return
        for s, vs in self.ev_list(node.elts, st, fr):
            s = s.copy()
            elem = "int"
            if vs and all(isinstance(v, Str) for v in vs):
                elem = "chr" if all(v.codes() is not None and len(v.codes()) == 1 for v in vs) else "str"
            yield s, self.alloc(s, ListE(Seq("list", items=vs, elem=elem)))

    def ev_Dict(self, node, st, fr):
        for s, ks in self.ev_list(node.keys, st, fr):
            for s2, vs in self.ev_list(node.values, s, fr):
                d = {}
                for k, v in zip(ks, vs):
                    c = k.const() if isinstance(k, Str) else k
                    if not isinstance(c, (str, int)):
                        raise Unsupported("symbolic dictionary key")
                    d[c] = v
                s2 = s2.copy()
                yield s2, self.alloc(s2, DictE(d=d))

    def ev_Lambda(self, node, st, fr):
        yield st, Closure(node, dict(st.vars), fr)

    def ev_JoinedStr(self, node, st, fr):
        def go(vals, s, acc):
            if not vals:
                yield s, Str(acc)
                return
            v = vals[0]
            if isinstance(v, ast.Constant):
                yield from go(vals[1:], s, acc + [("c", v.value)])
            else:
                spec = ""
                if v.format_spec is not None:
                    if not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                        raise Unsupported("computed format specification")
                    spec = "".join(x.value for x in v.format_spec.values)
                if v.conversion not in (-1,):
                    raise Unsupported("format conversion")
                for s1, x in self.ev(v.value, s, fr):
                    if isc(x):
                        p = [("c", format(x, spec))]
                    elif isinstance(x, Str) and spec == "":
                        p = list(x.pieces)
                    elif is_int(x) and spec == "c":
                        self.ctx(s1, node).need(zb(land(self.th.le(0, x), self.th.lt(x, 0x110000))), "code of a character")
                        p = [("chr", x)]
                    elif is_int(x):
                        p = [("fmt", spec, x)]
                    else:
                        raise Unsupported("format of this value")
                    yield from go(vals[1:], s1, acc + p)
        yield from go(node.values, st, [])

    def ev_UnaryOp(self, node, st, fr):
        for s, v in self.ev(node.operand, st, fr):
            if isinstance(node.op, ast.Not):
                yield s, lnot(self.truth(s, v))
                continue
            cx = self.ctx(s, node)
            if is_real(v):
                yield s, (-v if isinstance(node.op, ast.USub) else v)
                continue
            if not is_int(v):
                if is_bool(v):
                    v = self.th.z(v) if not isinstance(v, bool) else int(v)
                else:
                    raise Unsupported("unary operator on this value")
            if isinstance(node.op, ast.USub):
                yield s, self.th.neg(v, cx)
            elif isinstance(node.op, ast.Invert):
                yield s, self.th.inv(v, cx)
            else:
                yield s, v

    BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.FloorDiv: "div", ast.Mod: "mod",
              ast.LShift: "shl", ast.RShift: "shr", ast.BitAnd: "and_", ast.BitOr: "or_", ast.BitXor: "xor"}

    def binop(self, op, a, b, st, cx):
        """returns value (no forks); st may be needed for facts -> returns (st, value)"""
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, z3.BoolRef): a = self.th.z(a)
        if isinstance(b, z3.BoolRef): b = self.th.z(b)
        if is_int(a) and is_int(b):
            if isinstance(op, ast.Div):
                za = self.real(a)
                cx.need(zb(lnot(self.th.eq(b, 0))), "division by zero")
                return st, za / self.real(b)
            if isinstance(op, ast.Pow):
                if isc(a) and isc(b) and b >= 0:
                    return st, a ** b
                raise Unsupported("** of symbolic integers")
            nm = self.BINOPS.get(type(op))
            if nm is None:
                raise Unsupported(f"operator {type(op).__name__}")
            return st, getattr(self.th, nm)(a, b, cx)
        if (is_real(a) or is_int(a)) and (is_real(b) or is_int(b)):
            ra, rb = self.real(a), self.real(b)
            if isinstance(op, ast.Add): return st, ra + rb
            if isinstance(op, ast.Sub): return st, ra - rb
            if isinstance(op, ast.Mult): return st, ra * rb
            if isinstance(op, ast.Div):
                cx.need(rb != 0, "division by zero")
                return st, ra / rb
            raise Unsupported("float operator")
        if isinstance(op, ast.Div) and isinstance(a, Opaque) and a.tag == "path" and isinstance(b, Str):
            return st, self.path_join(a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, Str) and isinstance(b, Str):
                return st, Str(a.pieces + b.pieces)
            sa = a if isinstance(a, Seq) and a.kind == "str" else None
            if sa is not None and isinstance(b, (Str, Seq)):
                sb = self.str_seq(st, b)
                return self.concat(st, "str", sa, sb, "int")
            if isinstance(a, Str) and isinstance(b, Seq) and b.kind == "str":
                return self.concat(st, "str", self.str_seq(st, a), b, "int")
            if isinstance(a, (Seq, PyObj)) and isinstance(b, (Seq, PyObj)):
                x, y = self.seq_of(st, a), self.seq_of(st, b)
                if x.kind == y.kind and x.kind in ("tuple", "bytes"):
                    return self.concat(st, x.kind, x, y, x.elem)
            if isinstance(a, Ref) and isinstance(b, Ref):
                x, y = self.seq_of(st, a), self.seq_of(st, b)
                st, seq = self.concat(st, "list", x, y, x.elem if x.length() != 0 or not isc(x.length()) else y.elem)
                st = st.copy()
                return st, self.alloc(st, ListE(seq))
        if isinstance(op, ast.Mult) and isinstance(a, Ref) and isc(b):
            x = self.seq_of(st, a)
            if x.items is not None:
                st = st.copy()
                return st, self.alloc(st, ListE(Seq("list", items=x.items * b, elem=x.elem)))
        raise Unsupported(f"operator {type(op).__name__} on {a!r}, {b!r}")

    def concat(self, st, kind, x, y, elem):
        def part(s):
            return list(s.items) if s.items is not None else (self.to_arr(s)[0], 0, s.n)
        if x.items is not None and not x.items and y.items is None:
            return st, y.copy_as(kind)
        if y.items is not None and not y.items:
            return st, x.copy_as(kind)
        seq, facts = self.seq_build(st, kind, [part(x), part(y)], elem)
        return (st.assume(*facts) if facts else st), seq

    def ev_BinOp(self, node, st, fr):
        for s, vs in self.ev_list([node.left, node.right], st, fr):
            yield from self.binop_dispatch(node.op, vs[0], vs[1], s, fr, node)

    DUNDER = {ast.BitOr: "__or__", ast.BitAnd: "__and__", ast.Sub: "__sub__", ast.BitXor: "__xor__", ast.Add: "__add__"}
    IDUNDER = {ast.BitOr: "__ior__", ast.BitAnd: "__iand__", ast.Sub: "__isub__", ast.BitXor: "__ixor__"}

    def binop_dispatch(self, op, a, b, s, fr, node, inplace=False):
        if isinstance(a, Ref) and isinstance(s.heap[a.id], ObjE):
            cls = s.heap[a.id].cls
            nm = (self.IDUNDER.get(type(op)) if inplace else None)
            if nm and hasattr(cls, nm):
                yield from self.call(BoundM(a, getattr(cls, nm)), [b], {}, s, fr, node)
                return
            nm = self.DUNDER.get(type(op))
            if nm and hasattr(cls, nm):
                yield from self.call(BoundM(a, getattr(cls, nm)), [b], {}, s, fr, node)
                return
        yield self.binop(op, a, b, s, self.ctx(s, node))

    def pure_single(self, node, st, fr, extra):
        """evaluate node under assumption extra; if it has exactly one outcome without effects return its value."""
        base = st.assume(zb(extra))
        n0 = len(self.obls)
        outs = []
        for s, v in self.ev(node, base, fr):
            outs.append((s, v))
            if len(outs) > 1:
                break
        if len(outs) == 1:
            s, v = outs[0]
            if s.pc == base.pc and s.heap == base.heap and s.ghosts == base.ghosts:
                return True, v
        del self.obls[n0:]
        return False, None

    def ev_BoolOp(self, node, st, fr):
        isand = isinstance(node.op, ast.And)

        def go(vals, s):
            if len(vals) == 1:
                yield from self.ev(vals[0], s, fr)
                return
            for s1, v in self.ev(vals[0], s, fr):
                t = self.truth(s1, v)
                if isinstance(t, bool):
                    if t == isand:
                        yield from go(vals[1:], s1)
                    else:
                        yield s1, v
                    continue
                if is_bool(v):
                    rest = ast.BoolOp(op=node.op, values=vals[1:]) if len(vals) > 2 else vals[1]
                    ast.copy_location(rest, node)
                    ok, v2 = self.pure_single(rest, s1, fr, t if isand else z3.Not(t))
                    if ok and is_bool(v2):
                        yield s1, (land(t, v2) if isand else lor(t, v2))
                        continue
                pos = s1.assume(t if isand else z3.Not(t))
                neg = s1.assume(z3.Not(t) if isand else t)
                if self.feasible(pos):
                    yield from go(vals[1:], pos)
                if self.feasible(neg):
                    yield neg, v if not is_bool(v) else (not isand)
        yield from go(node.values, st)

    def ev_IfExp(self, node, st, fr):
        for s, v in self.ev(node.test, st, fr):
            t = self.truth(s, v)
            if isinstance(t, bool):
                yield from self.ev(node.body if t else node.orelse, s, fr)
                continue
            ok1, a = self.pure_single(node.body, s, fr, t)
            if ok1:
                n1 = len(self.obls)
                ok2, b = self.pure_single(node.orelse, s, fr, z3.Not(t))
                if ok2 and is_int(a) and is_int(b):
                    yield s, z3.If(t, self.th.z(a), self.th.z(b))
                    continue
                if ok2 and is_bool(a) and is_bool(b):
                    yield s, z3.If(t, zb(a), zb(b))
                    continue
            for cond, branch in ((t, node.body), (z3.Not(t), node.orelse)):
                s1 = s.assume(cond)
                if self.feasible(s1):
                    yield from self.ev(branch, s1, fr)

    def ev_Compare(self, node, st, fr):
        def go(left, ops, rights, s, acc):
            if not ops:
                yield s, acc
                return
            for s1, r in self.ev(rights[0], s, fr):
                for s2, c in self.compare(ops[0], left, r, s1, fr, node):
                    a2 = land(acc, self.truth(s2, c)) if acc is not True else c
                    if len(ops) > 1:
                        # remaining operands are evaluated only if this holds; they are pure in the subset
                        yield from go(r, ops[1:], rights[1:], s2, a2)
                    else:
                        yield s2, a2
        for s, l in self.ev(node.left, st, fr):
            yield from go(l, node.ops, node.comparators, s, True)

    def compare(self, op, a, b, s, fr, node):
        th = self.th
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, PyObj) and isinstance(b, PyObj):
                r = a.v is b.v
            elif a is None or b is None:
                if isinstance(a, Opaque) or isinstance(b, Opaque):
                    r = self.veq(s, a, b)
                else:
                    r = a is None and b is None
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = a.id == b.id
            elif is_bool(a) and is_bool(b):
                r = self.veq(s, a, b)
            else:
                raise Unsupported("'is' on these values")
            yield s, (r if isinstance(op, ast.Is) else lnot(r))
            return
        if isinstance(op, (ast.In, ast.NotIn)):
            for s1, r in self.contains(b, a, s, fr, node):
                yield s1, (r if isinstance(op, ast.In) else lnot(self.truth(s1, r)))
            return
        if isinstance(op, (ast.Eq, ast.NotEq)):
            nm = "__eq__" if isinstance(op, ast.Eq) else "__ne__"
            if isinstance(a, Ref) and isinstance(s.heap[a.id], ObjE) and isinstance(s.heap[a.id].cls, type):
                cls = s.heap[a.id].cls
                f = getattr(cls, nm, None)
                if isinstance(f, types.FunctionType):
                    yield from self.call(BoundM(a, f), [b], {}, s, fr, node)
                    return
            r = self.veq(s, a, b)
            yield s, (r if isinstance(op, ast.Eq) else lnot(r))
            return
        if is_bool(a): a = th.z(a) if not isinstance(a, bool) else int(a)
        if is_bool(b): b = th.z(b) if not isinstance(b, bool) else int(b)
        if is_int(a) and is_int(b):
            if isinstance(op, ast.Lt): yield s, th.lt(a, b)
            elif isinstance(op, ast.LtE): yield s, th.le(a, b)
            elif isinstance(op, ast.Gt): yield s, th.lt(b, a)
            elif isinstance(op, ast.GtE): yield s, th.le(b, a)
            return
        if (is_int(a) or is_real(a)) and (is_int(b) or is_real(b)):
            ra, rb = self.real(a), self.real(b)
            yield s, {ast.Lt: ra < rb, ast.LtE: ra <= rb, ast.Gt: ra > rb, ast.GtE: ra >= rb}[type(op)]
            return
        raise Unsupported(f"comparison {type(op).__name__} of {a!r} and {b!r}")

    def contains(self, c, x, s, fr, node):
        th = self.th
        if isinstance(c, VRange):
            if not is_int(x):
                raise Unsupported("non-integer in range")
            if isc(c.step) and c.step == 1:
                yield s, land(th.le(c.start, x), th.lt(x, c.stop))
                return
            raise Unsupported("in on a stepped range")
        if isinstance(c, Ref) and isinstance(s.heap[c.id], ObjE):
            f = getattr(s.heap[c.id].cls, "__contains__", None)
            if f is not None:
                yield from self.call(BoundM(c, f), [x], {}, s, fr, node)
                return
        if isinstance(c, Ref) and isinstance(s.heap[c.id], DictE):
            e = s.heap[c.id]
            if e.d is not None:
                k = x.const() if isinstance(x, Str) else x
                if isinstance(k, (str, int)):
                    yield s, k in e.d
                    return
            else:
                yield s, e.has(self.val_term(x))
                return
        if isinstance(c, PyObj) and isinstance(c.v, dict):
            k = x.const() if isinstance(x, Str) else x
            if isinstance(k, (str, int)):
                yield s, k in c.v
                return
        if isinstance(c, Str) and isinstance(x, Str) and c.const() is not None and x.const() is not None:
            yield s, x.const() in c.const()
            return
        if isinstance(c, Str) and isinstance(x, Str) and c.codes() is None:
            b, a, o = z3.FreshConst(ValSort, "b"), self.rope_term(x), self.rope_term(c)
            q = z3.FreshConst(ValSort, "text")      # a name: patterns have no conditionals
            r = z3.Function("str.replace", ValSort, ValSort, ValSort, ValSort)(q, a, b)
            yield s.assume(q == o, z3.ForAll([b], z3.Implies(z3.Not(self.str_has(c, x)), r == o), patterns=[r])), self.str_has(c, x)
            return
        if isinstance(c, (Seq, PyObj)) or isinstance(c, Ref):
            q = self.seq_of(s, c)
            if q.items is not None and len(q.items) <= 64:
                yield s, lor(*[self.veq(s, x, y) for y in q.items])
                return
            if q.kind == "list" and q.items is None and q.elem == "str" and isinstance(x, Str):
                k = z3.FreshConst(th.sort, "k")
                yield s, z3.Exists([k], z3.And(zb(th.le(0, k)), zb(th.lt(k, q.n)), q.arr[k] == self.rope_term(x)))
                return
        raise Unsupported("in on this container")

    def ev_Subscript(self, node, st, fr):
        for s, c in self.ev(node.value, st, fr):
            if isinstance(node.slice, ast.Slice):
                parts = [node.slice.lower, node.slice.upper]
                if node.slice.step is not None:
                    raise Unsupported("slice with a step")
                for s1, vs in self.ev_list([p for p in parts if p is not None], s, fr):
                    vs = list(vs)
                    lo = vs.pop(0) if parts[0] is not None else 0
                    hi = vs.pop(0) if parts[1] is not None else None
                    yield from self.slice_get(c, lo, hi, s1, fr, node)
                continue
            for s1, i in self.ev(node.slice, s, fr):
                try:
                    yield from self.subscript(c, i, s1, fr, node)
                except Infeasible:
                    continue

    def subscript(self, c, i, s, fr, node):
        cx = self.ctx(s, node)
        if isinstance(c, Ref) and isinstance(s.heap[c.id], DictE):
            e = s.heap[c.id]
            if e.d is not None:
                k = i.const() if isinstance(i, Str) else i
                if isinstance(k, (str, int)):
                    if k not in e.d:
                        cx.need(z3.BoolVal(False), f"key {k!r} present")
                        return
                    yield s, e.d[k]
                    return
                raise Unsupported("symbolic key")
            t = self.val_term(i)
            cx.need(e.has(t), "key present")
            yield s, e.value(t)
            return
        if isinstance(c, PyObj) and isinstance(c.v, dict):
            k = i.const() if isinstance(i, Str) else i
            if not isinstance(k, (str, int)):
                raise Unsupported("symbolic key")
            if k not in c.v:
                cx.need(z3.BoolVal(False), f"key {k!r} present")
                return
            yield s, self.wrap(c.v[k])
            return
        if isinstance(c, PyObj) and (isinstance(c.v, type) and hasattr(c.v, "__class_getitem__") or type(c.v).__module__ == "typing"):
            yield s, PyObj(object)   # type expression
            return
        if isinstance(c, Ref) and isinstance(s.heap[c.id], ObjE):
            f = getattr(s.heap[c.id].cls, "__getitem__", None)
            if f is None:
                raise Unsupported("subscript of an object")
            yield from self.call(BoundM(c, f), [i], {}, s, fr, node)
            return
        if not is_int(i):
            raise Unsupported("non-integer index")
        seq = self.seq_of(s, c)
        if not isc(i) and cx.engine is not None and seq.kind != "rec" and self.maybe_negative(s, i, seq):
            # python's negative indexing, explicit
            th = self.th
            neg = s.assume(th.lt(i, 0))
            if self.feasible(neg):
                self.oblige(neg, zb(th.le(0, th.add(seq.length(), i))), "index in range", node)
                yield neg, self.seq_get(neg, seq, th.add(seq.length(), i), NOCTX)
            pos = s.assume(th.le(0, i))
            if self.feasible(pos):
                yield pos, self.seq_get(pos, seq, i, self.ctx(pos, node))
            return
        yield s, self.seq_get(s, seq, i, cx)

    def maybe_negative(self, s, i, seq):
        """is a negative value of i possible as far as the quick check can tell?"""
        return not self.quick(s, zb(self.th.le(0, i)), timeout=800)

    def surely(self, st, cond):
        if isinstance(cond, bool) or self.quick(st, cond):
            return cond is not False
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*[zb(c) for c in st.pc])
        s.add(z3.Not(cond))
        return s.check() == z3.unsat

    def clamp(self, st, i, n):
        """python slice index normalization"""
        th = self.th
        if isc(i) and i >= 0:
            if isc(n):
                return min(i, n)
            if self.surely(st, zb(th.le(i, n))):
                return i
            return z3.If(zb(th.le(i, n)), th.z(i), th.z(n))
        if isc(i):
            j = th.add(n, i)
            if isc(j):
                return max(j, 0)
            if self.surely(st, zb(th.le(0, j))):
                return j
            return z3.If(zb(th.le(0, j)), th.z(j), th.z(0))
        if self.surely(st, zb(th.le(0, i))):
            if self.surely(st, zb(th.le(i, n))):
                return i
            return z3.If(zb(th.le(i, n)), th.z(i), th.z(n))
        j = z3.If(zb(th.lt(i, 0)), th.z(th.add(i, n)), th.z(i))
        j = z3.If(zb(th.lt(j, 0)), th.z(0), j)
        return z3.If(zb(th.le(j, n)), j, th.z(n))

    def slice_bounds(self, st, seq, lo, hi):
        n = seq.length()
        if lo is None:
            lo = 0
        if hi is None:
            hi = n
        l, h = self.clamp(st, lo, n), self.clamp(st, hi, n)
        th = self.th
        if isc(l) and isc(h):
            return l, max(l, h)
        if not self.surely(st, zb(th.le(l, h))):
            h = z3.If(zb(th.le(l, h)), th.z(h), th.z(l))
        return l, h

    def slice_get(self, c, lo, hi, s, fr, node):
        if isinstance(c, VRange):
            raise Unsupported("slice of a range")
        if isinstance(c, Str) and c.codes() is None and hi is None and lo is not None:
            yield s, self.str_tail(c, lo)
            return
        if isinstance(c, Str) and c.codes() is None and lo == 0 and isc(lo) and hi is not None and isc(hi) and hi < 0:
            yield s, self.str_init(c, hi)
            return
        if isinstance(c, Str) and c.codes() is None and hi is not None:
            yield s, self.str_slice(c, 0 if lo is None else lo, hi)
            return
        seq = self.seq_of(s, c)
        th = self.th
        if seq.kind in ("str",) and seq.items is not None and isc(lo) and (hi is None or isc(hi)):
            yield s, Str([("chr", x) for x in seq.items[lo:hi]])
            return
        l, h = self.slice_bounds(s, seq, lo, hi)
        if seq.items is not None and isc(l) and isc(h):
            new = Seq(seq.kind, items=seq.items[l:h], elem=seq.elem)
        elif seq.kind in ("bytes", "tuple") and seq.elem == "int" and seq.items is None:
            g = seq.fn or (lambda k, arr=seq.arr: z3.Select(arr, th.z(k)))
            new = Seq(seq.kind, fn=lambda k, g=g, l=l: g(th.add(k, l)), n=th.sub(h, l)) if not (isc(l) and l == 0) or seq.fn else Seq(seq.kind, arr=seq.arr, n=h)
        elif isc(l) and l == 0:
            arr, _ = self.to_arr(seq)
            new = Seq(seq.kind, arr=arr, n=h, elem=seq.elem, fields=seq.fields, cls=seq.cls)
        else:
            if seq.elem == "rec":
                raise Unsupported("slice of records")
            arr, _ = self.to_arr(seq)
            new, facts = self.seq_build(s, seq.kind, [(arr, l, th.sub(h, l)), []], seq.elem)
            s = s.assume(*facts)
        if seq.kind == "list":
            s = s.copy()
            yield s, self.alloc(s, ListE(new))
        else:
            yield s, new

    def ev_Attribute(self, node, st, fr):
        for s, o in self.ev(node.value, st, fr):
            yield s, self.getattr(o, node.attr, s, fr, node)

    def of_class(self, fi):
        """the class whose body a function is defined in"""
        parts = fi.qualname.split(".")
        if len(parts) != 2:
            return None
        cls = getattr(fi.mod, parts[0], None)
        return cls if isinstance(cls, type) else None

    def getattr(self, o, attr, s, fr, node):
        if isinstance(o, TableV) and attr == "get":
            return BuiltinM(o, attr)
        if isinstance(o, Super):
            mro = s.heap[o.obj.id].cls.__mro__
            for c in mro[mro.index(o.cls) + 1:]:
                if attr in vars(c):
                    raw = vars(c)[attr]
                    if isinstance(raw, types.FunctionType):
                        return BoundM(o.obj, raw)
                    break
            raise Unsupported(f"super().{attr}")
        if isinstance(o, Ref):
            e = s.heap[o.id]
            if isinstance(e, ObjE):
                if attr in e.fields:
                    plain_attribute(e.cls[1] if isinstance(e.cls, tuple) else e.cls, attr)
                    v = e.fields[attr]
                    if v is UNDEF:
                        raise Unsupported(f"attribute {attr} of varying type")
                    return v
                cls = e.cls[1] if isinstance(e.cls, tuple) else e.cls
                iscls = isinstance(e.cls, tuple)
                if "$class" in e.fields:
                    c = e.fields["$class"]
                    if attr in s.heap[c.id].fields or isinstance(inspect.getattr_static(cls, attr, None), classmethod):
                        return self.getattr(c, attr, s, fr, node)
                if attr == "__class__" and not iscls:
                    return PyObj(cls)
                raw = inspect.getattr_static(cls, attr, None)
                if raw is None:
                    raise Unsupported(f"attribute {attr} of {cls.__name__} has no symbolic value")
                if isinstance(raw, classmethod):
                    return BoundM(o if iscls else PyObj(cls), raw.__func__)
                if isinstance(raw, staticmethod):
                    return PyObj(raw.__func__)
                if isinstance(raw, types.FunctionType):
                    return PyObj(raw) if iscls else BoundM(o, raw)
                if isinstance(raw, property):
                    raise Unsupported("property attribute")
                if isinstance(raw, types.MethodDescriptorType):
                    return BuiltinM(o, attr)
                return self.wrap(raw)
            return BuiltinM(o, attr)
        if isinstance(o, Rec):
            v = self.rec_field(o, attr)
            if v is not None:
                return v
            if o.seq.parts is not None:
                return MixedM(o, attr)
            if o.seq.cls is not None:
                raw = inspect.getattr_static(o.seq.cls, attr, None)
                if isinstance(raw, types.FunctionType):
                    return BoundM(o, raw)
                if raw is not None:
                    return self.wrap(raw)
            raise Unsupported(f"record attribute {attr}")
        if isinstance(o, VRange):
            if attr in ("start", "stop", "step"):
                return getattr(o, attr)
        if isinstance(o, (Seq, Str, FileV)):
            return BuiltinM(o, attr)
        if isinstance(o, MatchV):
            return BuiltinM(o, attr)
        if isinstance(o, PyObj):
            if isinstance(o.v, re.Pattern):
                return BuiltinM(o, attr)
            if isinstance(o.v, (list, tuple, bytes, dict)) and not isinstance(o.v, type):
                return BuiltinM(o, attr)
            if isinstance(o.v, type):
                raw = inspect.getattr_static(o.v, attr, None)
                if isinstance(raw, classmethod):
                    return BoundM(o, raw.__func__)
                return self.wrap(getattr(o.v, attr))
            try:
                v = getattr(o.v, attr)
            except AttributeError:
                raise Unsupported(f"attribute {attr}")
            if isinstance(v, types.MethodType) and not isinstance(o.v, types.ModuleType):
                return BoundM(o if not isinstance(v.__self__, type) else PyObj(v.__self__), v.__func__)
            return self.wrap(v)
        if isinstance(o, Opaque) and o.tag == "path" and attr == "name":
            return self.path_name(o)
        if isinstance(o, Opaque):
            return BuiltinM(o, attr)
        raise Unsupported(f"attribute {attr} of {o!r}")

    def ev_NamedExpr(self, node, st, fr):
        for s, v in self.ev(node.value, st, fr):
            for s1 in self.assign(node.target, v, s, fr):
                yield s1, v

    def append_in_mapping(self, node, st, fr):
        """mapping[key].append(text)"""
        f = node.func
        if not (isinstance(f, ast.Attribute) and f.attr == "append" and isinstance(f.value, ast.Subscript) and len(node.args) == 1 and not node.keywords):
            return None
        out = []
        for s, c in self.ev(f.value.value, st, fr):
            if not (isinstance(c, Ref) and isinstance(s.heap[c.id], DictE) and s.heap[c.id].ret == "texts"):
                return None
            for s1, i in self.ev(f.value.slice, s, fr):
                t = self.val_term(i)
                self.ctx(s1, node).need(s1.heap[c.id].has(t), "key present")
                for s2, x in self.ev(node.args[0], s1, fr):
                    if not isinstance(x, Str):
                        raise Unsupported("appending this value")
                    q = s2.heap[c.id].value(t)
                    out.append((self.put_texts(s2, c, t, Seq("list", arr=z3.Store(q.arr, self.th.z(q.n), self.val_term(x)), n=self.th.add(q.n, 1), elem="str")), None))
        return out

    def ev_Call(self, node, st, fr):
        done = self.append_in_mapping(node, st, fr)
        if done is not None:
            yield from done
            return
        # super().__init__ and friends are outside the subset
        for s, f in self.ev(node.func, st, fr):
            if any(isinstance(a, ast.Starred) for a in node.args):
                raise Unsupported("star argument")
            if len(node.args) == 1 and isinstance(node.args[0], ast.GeneratorExp) and \
                    (isinstance(f, BuiltinM) and f.name == "join" or isinstance(f, PyObj) and f.v in (list, tuple, any, all)):
                self.consumed.add(id(node.args[0]))     # read to its end, at once
            for s1, args in self.ev_list(node.args, s, fr):
                names = [k.arg for k in node.keywords]
                for s2, kvs in self.ev_list([k.value for k in node.keywords], s1, fr):
                    kw, star = {}, None
                    for n, v in zip(names, kvs):
                        if n is None:
                            star = v
                        else:
                            kw[n] = v
                    try:
                        yield from self.call(f, args, kw, s2, fr, node, star)
                    except Infeasible:
                        continue

    def ev_ListComp(self, node, st, fr):
        if len(node.generators) != 1 or node.generators[0].ifs:
            raise Unsupported("list comprehension form")
        g = node.generators[0]
        for s, it in self.ev(g.iter, st, fr):
            items = self.concrete_iter(s, it)
            if items is None:
                yield from self.mapped(node, g, it, s, fr)
                continue

            def go(xs, s1, acc):
                if not xs:
                    s2 = s1.copy()
                    elem = "str" if acc and isinstance(acc[0], Str) else "int"
                    yield s2, self.alloc(s2, ListE(Seq("list", items=acc, elem=elem)))
                    return
                s2 = s1.copy()
                self.bind(g.target, xs[0], s2, fr)
                for s3, v in self.ev(node.elt, s2, fr):
                    yield from go(xs[1:], s3, acc + [v])
            saved = s.vars
            for s4, v in go(items, s, []):
                s4 = s4.copy()
                s4.vars = dict(saved)
                yield s4, v

    def ev_GeneratorExp(self, node, st, fr):
        if id(node) not in self.consumed:
            raise Unsupported("expression GeneratorExp")
        yield from self.ev_ListComp(node, st, fr)

    def mapped(self, node, g, it, s, fr):
        """[e(x) for x in it] over any number of elements: element k is e(it[k]), for an e without effects and branches"""
        th = self.th
        if isinstance(it, VRange):
            if not (isc(it.step) and it.step == 1):
                raise Unsupported("list comprehension over a stepped range")
            n, get = z3.If(zb(th.lt(it.start, it.stop)), th.z(th.sub(it.stop, it.start)), th.z(0)), lambda k, s1: th.add(it.start, k)
        else:
            seq = self.seq_of(s, it)
            n, get = seq.length(), lambda k, s1: self.seq_get(s1, seq, k, NOCTX)

        def element():
            k = z3.FreshConst(th.sort, "k")
            s1 = s.assume(zb(th.le(0, k)), zb(th.lt(k, n)))
            self.bind(g.target, get(k, s1), s1, fr)
            outs = list(self.ev(node.elt, s1, fr))
            if len(outs) != 1 or len(outs[0][0].pc) != len(s1.pc) or self.heap_changes(s1, outs[0][0]) or set(outs[0][0].heap) != set(s1.heap):
                raise Unsupported("list comprehension with branches, effects or calls")
            v = outs[0][1]
            elem = "int" if is_int(v) else "chr" if isinstance(v, Str) and v.codes() is not None and len(v.codes()) == 1 else "str" if isinstance(v, Str) else \
                "range" if isinstance(v, VRange) else "val" if isinstance(v, Opaque) else None
            if elem is None:
                raise Unsupported("elements of a list comprehension")
            return k, elem, self.elem_term(v, elem)
        k, elem, t = element()
        kept = len(self.obls)
        j, _, u = element()             # once more: a value that is not determined by the element would be another one
        del self.obls[kept:]
        if not z3.substitute(t, (k, j)).eq(u):
            raise Unsupported("list comprehension whose elements are not determined")
        arr = self.fresh_arr("mapped", self.elem_sort(elem))
        s = s.assume(z3.ForAll([k], z3.Implies(zb(land(th.le(0, k), th.lt(k, n))), arr[k] == t), patterns=[arr[k]])).copy()
        yield s, self.alloc(s, ListE(Seq("list", arr=arr, n=n, elem=elem)))

    def concrete_iter(self, s, it):
        if isinstance(it, VRange):
            if isc(it.start) and isc(it.stop) and isc(it.step):
                return list(range(it.start, it.stop, it.step))
            return None
        try:
            seq = self.seq_of(s, it)
        except Unsupported:
            return None
        if seq.items is not None:
            return [self.elem_value(x, "chr") if seq.kind == "str" else x for x in seq.items]
        return None

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw, s, fr, node, star=None):
        if star is not None and not isinstance(f, UF):
            if not isinstance(star, PyObj) or not isinstance(star.v, dict) or star.v:
                raise Unsupported("** argument")
            star = None
        if isinstance(f, PyObj):
            v = f.v
            if isinstance(v, types.FunctionType) and v.__module__.split(".")[0] in REPO_PREFIX:
                yield from self.call_func(func_of_live(v), args, kw, s, fr, node)
                return
            if isinstance(v, type) and v.__module__.split(".")[0] in REPO_PREFIX:
                yield from self.construct(v, args, kw, s, fr, node)
                return
            yield from self.call_builtin(v, args, kw, s, fr, node)
            return
        if isinstance(f, BoundM):
            fn = f.func
            if not isinstance(fn, types.FunctionType) or fn.__module__.split(".")[0] not in REPO_PREFIX:
                raise Unsupported(f"call of {fn!r}")
            yield from self.call_func(func_of_live(fn), [f.obj] + args, kw, s, fr, node)
            return
        if isinstance(f, MixedM):
            seq = f.rec.seq
            for k, q in enumerate(seq.parts):
                s1 = s.assume(seq.arr["src"][self.th.z(f.rec.i)] == k)
                if self.feasible(s1):
                    m = self.getattr(Rec(q, seq.arr["idx"][self.th.z(f.rec.i)]), f.name, s1, fr, node)
                    yield from self.call(m, args, kw, s1, fr, node, star)
            return
        if isinstance(f, BuiltinM):
            yield from self.call_method(f.obj, f.name, args, kw, s, fr, node)
            return
        if isinstance(f, Ref) and isinstance(s.heap[f.id], ObjE) and isinstance(s.heap[f.id].cls, tuple):
            yield from self.construct(s.heap[f.id].cls[1], args, kw, s, fr, node, f)
            return
        if isinstance(f, TextFn):
            if len(args) != 1 or kw or not isinstance(args[0], Str):
                raise Unsupported("arguments of a function of a text")
            yield s, f(self.val_term(args[0]))
            return
        if isinstance(f, UF):
            mine = self.entry.vars.get(f.star) if f.star and self.entry is not None else PyObj({})
            if kw or star is not None and star is not mine and not (isinstance(star, PyObj) and isinstance(mine, PyObj) and star.v == mine.v) or star is None and f.star:
                self.oblige(s, z3.BoolVal(False), "callback called with the keyword arguments given", node)
                return
            ts = []
            for a in args:
                if not is_int(a):
                    raise Unsupported("non-integer argument of a callback")
                ts.append(self.th.z(a))
            if len(ts) != f.decl.arity():
                self.oblige(s, z3.BoolVal(False), "callback called with its arity", node)
                return
            t = f.decl(*ts)
            yield s, (t if f.ret == "int" else Opaque(t))
            return
        if isinstance(f, Closure):
            a = f.node.args
            vs = dict(f.vars)
            for p, x in zip(a.args, args):
                vs[p.arg] = x
            if len(args) != len(a.args):
                raise Unsupported("lambda arguments")
            s1 = s.copy()
            s1.stack = s.stack + (s.vars,)
            s1.vars = vs
            for s2, v in self.ev(f.node.body, s1, f.fr):
                s3 = s2.copy()
                s3.vars, s3.stack = s2.stack[-1], s2.stack[:-1]
                yield s3, v
            return
        raise Unsupported(f"call of {f!r}")

    def bind_args(self, fi, args, kw, s, fr):
        a = fi.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        vs = {}
        if len(args) > len(names):
            raise Unsupported("too many arguments")
        for n, v in zip(names, args):
            vs[n] = v
        for n, v in kw.items():
            if n in vs or n not in names + [p.arg for p in a.kwonlyargs]:
                raise Unsupported(f"keyword argument {n}")
            vs[n] = v
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in names + [p.arg for p in a.kwonlyargs]:
            if n not in vs:
                if n not in defaults:
                    raise Unsupported(f"missing argument {n} of {fi.key}")
                d = defaults[n]
                tmp = State()
                for _, v in self.ev(d, tmp, Frame(fi, None)):
                    vs[n] = v
        if a.vararg or a.kwarg:
            if a.kwarg:
                vs[a.kwarg.arg] = PyObj({})
            if a.vararg:
                vs[a.vararg.arg] = PyObj(())
        return vs

    def find_contract(self, fi, fr):
        c = self.contract
        key = fi.key
        if fi.qualname in c.stubs:
            return c.stubs[fi.qualname]
        if fi.qualname in c.inline or key in c.inline:
            return None
        k = self.registry.get(key)
        return k

    def construct(self, cls, args, kw, s, fr, node, clsref=None):
        s = s.copy()
        ref = self.alloc(s, ObjE(cls, {} if clsref is None else {"$class": clsref}))
        init = inspect.getattr_static(cls, "__init__", None)
        if isinstance(init, types.FunctionType) and init.__module__.split(".")[0] in REPO_PREFIX:
            fi = func_of_live(init)
            for s1, _ in self.call_func(fi, [ref] + args, kw, s, fr, node):
                yield s1, ref
        else:
            yield s, ref

    def call_func(self, fi, args, kw, s, fr, node):
        vs = self.bind_args(fi, args, kw, s, fr)
        con = self.find_contract(fi, fr)
        if con is not None:
            for con2 in (con if isinstance(con, list) else [con]):
                if self.applicable(con2, vs, s, fi):
                    yield from self.call_contract(fi, con2, vs, s, fr, node)
                    return
        if fr.depth >= MAX_DEPTH:
            raise Unsupported(f"inlining depth at {fi.key}")
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fi.node)):
            raise Unsupported(f"generator {fi.key} called without a contract")
        self.inlined.add(fi.key)
        s1 = s.copy()
        s1.stack = s.stack + (s.vars,)
        s1.vars = vs
        nfr = Frame(fi, fr.contract, fr, fr.depth + 1)
        for s2, kind, v in self.ex_block(fi.node.body, s1, nfr):
            if kind == "raise":
                self.oblige(s2, z3.BoolVal(False), f"no exception {v} raised in {fi.qualname}", node)
                continue
            s3 = s2.copy()
            s3.vars, s3.stack = s2.stack[-1], s2.stack[:-1]
            yield s3, (v if kind == "return" else None)

    def applicable(self, con, vs, s, fi):
        """a contract is used for the arguments it was verified for: their types, and who shares storage with whom"""
        for p, ty in con.params.items():
            if p not in vs:
                continue
            if p in [q for c in con.cases for q in c.get("params", {})]:
                continue        # decided by the case
            if not self.fits(ty, vs[p], s):
                return False
        if con.result is None and con.value is None and con.yields is None and \
                any(isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None)
                    for x in ast.walk(fi.node)):
            return False        # the contract does not say what is returned
        for r in con.requires + [r for c in con.cases for r in c.get("requires", [])]:
            if self.skip_clause(con, r, None) and not self.always_met(con, r):
                return False
        return bool(self.matching_cases(con, vs, s))

    def always_met(self, con, clause):
        """some value of the ghost satisfies the clause: a definition of it, or bounds by literals"""
        e = ast.parse(clause, mode="eval").body
        if not isinstance(e, ast.Compare) or len(e.ops) != 1:
            return False
        l, r = e.left, e.comparators[0]
        ghost = [x for x in (l, r) if isinstance(x, ast.Name) and x.id in con.ghosts]
        if not ghost:
            return False
        other = r if ghost[0] is l else l
        if isinstance(e.ops[0], ast.Eq):
            return ghost[0].id not in {n.id for n in ast.walk(other) if isinstance(n, ast.Name)}
        return isinstance(other, ast.Constant)

    def matching_cases(self, con, vs, s):
        out = []
        for c in con.cases:
            ps = {**con.params, **c.get("params", {})}
            alias = {p: ty[1] for p, ty in ps.items() if isinstance(ty, tuple) and ty[0] == "alias"}
            if not all(self.fits(ty, vs[p], s) for p, ty in ps.items() if p in vs and p not in alias):
                continue
            if (con.modifies or alias) and not self.sharing_as_declared(ps, alias, vs, s):
                continue        # (arguments that are only read may share storage)
            out.append(c)
        return out

    def sharing_as_declared(self, ps, alias, vs, s):
        def at(path):
            parts = path.split(".")
            v = vs.get(parts[0])
            for f in parts[1:]:
                v = s.heap[v.id].fields.get(f) if isinstance(v, Ref) and isinstance(s.heap[v.id], ObjE) else None
            return v
        for p, path in alias.items():
            a, b = vs.get(p), at(path)
            if not (isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id):
                return False
        owner = {}
        for p in ps:
            if p in alias or not isinstance(vs.get(p), Ref):
                continue
            todo = [vs[p]]
            mine = set()
            while todo:
                r = todo.pop()
                if r.id in mine:
                    continue
                mine.add(r.id)
                e = s.heap[r.id]
                if isinstance(e, ObjE):
                    todo += [f for f in e.fields.values() if isinstance(f, Ref)]
            for i in mine:
                if i in owner:
                    return False
                owner[i] = p
        return True

    def fits(self, ty, v, s):
        def lists(kind, elems):
            if isinstance(v, Ref) and isinstance(s.heap[v.id], ListE):
                q = s.heap[v.id].seq
            elif isinstance(v, Seq):
                q = v
            elif isinstance(v, PyObj) and isinstance(v.v, {"list": list, "tuple": tuple, "bytes": bytes}[kind]):
                return "int" in elems and all(type(x) is int for x in v.v)
            else:
                return False
            return q.kind == kind and (q.elem in elems or q.items is not None and not len(q.items))
        if ty == "int": return is_int(v)
        if ty == "nat": return isinstance(v, int) and not isinstance(v, bool) and v >= 0
        if ty == "bool": return is_bool(v)
        if ty == "real": return isinstance(v, float) or isinstance(v, z3.ArithRef) and v.is_real()
        if ty == "none": return v is None
        if ty == "range": return isinstance(v, VRange) and v.step == 1
        if ty == "val": return isinstance(v, Opaque)
        if ty == "str": return isinstance(v, (Str, Opaque))
        if ty == "strseq": return isinstance(v, Str) or isinstance(v, Seq) and v.kind == "str"
        if ty == "intlist": return lists("list", ("int",))
        if ty == "chrlist": return lists("list", ("chr",))
        if ty == "strlist": return lists("list", ("str",))
        if ty == "vallist": return lists("list", ("val",))
        if ty == "rangelist": return lists("list", ("range",))
        if ty == "byteslist": return lists("list", ("bytes",))
        if ty == "inttuple": return lists("tuple", ("int",))
        if ty == "bytes": return lists("bytes", ("int",))
        if isinstance(ty, tuple):
            if ty[0] == "obj":
                if isinstance(v, PyObj):
                    return isinstance(v.v, self.live(ty[1]))
                if isinstance(v, Rec):
                    return v.seq.cls is None or issubclass(v.seq.cls, self.live(ty[1]))
                if not (isinstance(v, Ref) and isinstance(s.heap[v.id], ObjE)):
                    return False
                e = s.heap[v.id]
                return isinstance(e.cls, type) and issubclass(e.cls, self.live(ty[1])) and \
                    all(f in e.fields and self.fits(t, e.fields[f], s) for f, t in ty[2].items())
            if ty[0] == "cls":
                if isinstance(v, PyObj):
                    return isinstance(v.v, type) and issubclass(v.v, self.live(ty[1]))
                return isinstance(v, Ref) and isinstance(s.heap[v.id], ObjE) and isinstance(s.heap[v.id].cls, tuple) and \
                    issubclass(s.heap[v.id].cls[1], self.live(ty[1]))
            if ty[0] == "const":
                c = ty[1]
                if isinstance(v, Str):
                    v = v.const()
                return type(v) is type(c) and v == c
            if ty[0] == "pyobj":
                return isinstance(v, PyObj) and v.v is self.live(ty[1])
            if ty[0] == "path":
                return isinstance(v, Opaque) and v.tag == "path"
            if ty[0] == "pattern":
                return isinstance(v, Opaque) and v.tag == "pattern" or isinstance(v, PyObj) and isinstance(v.v, re.Pattern)
            if ty[0] == "uf":
                return isinstance(v, UF) and v.decl.arity() == ty[1]
            if ty[0] == "tuple":
                return isinstance(v, Seq) and v.kind == "tuple" and v.items is not None and len(v.items) == len(ty[1]) and \
                    all(self.fits(t, x, s) for t, x in zip(ty[1], v.items))
            if ty[0] in ("lists", "table"):
                return isinstance(v, Ref) and isinstance(s.heap[v.id], DictE) and (s.heap[v.id].ret == "texts" if ty[0] == "lists" else s.heap[v.id].ret == ("tuple", s.heap[v.id].ret[1], tuple(ty[1])))
            if ty[0] == "attrs":
                return isinstance(v, Ref) and isinstance(s.heap[v.id], DictE)
            if ty[0] == "records":
                return isinstance(v, Ref) and isinstance(s.heap[v.id], ListE) and s.heap[v.id].seq.elem == "rec" and s.heap[v.id].seq.fields == dict(ty[1])
        return False

    def call_contract(self, fi, con, vs, s, fr, node):
        """modular call: check the precondition, forget what may change, assume the postcondition."""
        from .spec import SpecEnv
        self.used_contracts.add(con.target)
        if con.trusted:
            self.used_trusted.add(con.target)
        env = SpecEnv(self, s, old=s, params=vs, contract=con, caller=self.contract)
        for r in con.requires:
            if self.skip_clause(con, r, env):
                raise Unsupported(f"call of {fi.qualname}: its precondition is about a ghost the caller does not have: {r}")
            self.oblige(s, env.bool(r), f"precondition of {fi.qualname}: {r}", node)
        cases = self.matching_cases(con, vs, s)
        if all(c.get("requires") for c in cases):
            alts = []
            for c in cases:
                if any(self.skip_clause(con, r, env) for r in c["requires"]):
                    continue
                alts.append(land(*[zb(env.bool(r)) for r in c["requires"]]))
            self.oblige(s, zb(lor(*alts)) if alts else z3.BoolVal(False), f"precondition of {fi.qualname}: one of its cases applies", node)
        if con.yields is not None:
            if con.cases != [{}] or con.modifies or con.creates:
                raise Unsupported(f"generator {fi.qualname} with a contract by cases")
            yield s, Gen(fi, con, vs, s.heap)
            return
        # results that are None are split off
        old_env = SpecEnv(self, s, old=s, params=vs, contract=con, caller=self.contract)

        def when(case):
            return land(*[zb(old_env.bool(r)) for r in case.get("requires", []) if not self.skip_clause(con, r, old_env)])
        if con.result is not None:
            nones = [c for c in cases if "is_none(result)" in c.get("ensures", [])]
            if nones:
                cond = lor(*[zb(when(c)) for c in nones])
                if cond is not False:
                    s1 = s.assume(zb(cond))
                    if self.feasible(s1):
                        yield from self.after_call(fi, con, vs, s1, nones, node, none=True)
                    s = s.assume(zb(lnot(cond)))
                    if cond is True or not self.feasible(s):
                        return
        yield from self.after_call(fi, con, vs, s, cases, node)

    def after_call(self, fi, con, vs, s, cases, node, none=False):
        from .spec import SpecEnv
        pre = s
        s = s.copy()
        for m in list(con.modifies) + list(con.creates):
            self.havoc_path(m, vs, s, con)
        if none:
            res = None
        elif con.value is not None:
            env = SpecEnv(self, s, old=pre, params=vs, contract=con, caller=self.contract)
            res = env.value(con.value)
        elif con.result is not None:
            if isinstance(con.result, str) and con.result in vs:
                res = vs[con.result]
            elif isinstance(con.result, tuple) and con.result[0] == "element":
                seq = self.seq_of(s, SpecEnv(self, s, old=pre, params=vs, contract=con, caller=self.contract).value(con.result[1]))
                k = self.fresh_int("elt")
                s = s.assume(zb(self.th.le(0, k)), zb(self.th.lt(k, seq.length())))
                res = self.seq_get(s, seq, k, NOCTX)
            else:
                res = self.make(s, con.result, f"res!{fi.node.name}!{self.fid()}")
        else:
            res = None
        env = SpecEnv(self, s, old=pre, params=vs, contract=con, caller=self.contract, result=res)
        facts = []
        for e in con.ensures:
            if self.skip_clause(con, e, env):
                continue
            try:
                t = env.bool(e)
                if t is False:      # what the caller gets cannot be described (identity of a new object)
                    raise Unsupported(f"assuming {e}")
                facts.append(zb(t))
            except Unsupported:
                if not none:
                    raise
        old_env = SpecEnv(self, pre, old=pre, params=vs, contract=con, caller=self.contract)
        for case in cases:
            # what a case proves holds whenever its own assumptions do
            if not case.get("ensures") or any(self.skip_clause(con, r, old_env) for r in case.get("requires", [])):
                continue
            cond = land(*[zb(old_env.bool(r)) for r in case.get("requires", [])])
            for e in case["ensures"]:
                if "is_none(" in e or self.skip_clause(con, e, env):
                    continue
                facts.append(z3.Implies(zb(cond), zb(env.bool(e))))
        s = s.assume(*facts)
        yield s, res

    def skip_clause(self, con, clause, env):
        names = {n.id for n in ast.walk(ast.parse(clause, mode="eval")) if isinstance(n, ast.Name)}
        for g in con.ghosts:
            if g in names and g not in self.ghost_vals:
                return True
        return False

    def havoc_path(self, path, vs, s, con):
        parts = path.split(".")
        v = vs[parts[0]]
        decl = con.params.get(parts[0])
        for k, p in enumerate(parts[1:]):
            e = s.heap[v.id]
            if k:
                decl = decl[2].get(parts[k]) if isinstance(decl, tuple) else None
            last = k == len(parts) - 2
            if last:
                ty = con.creates.get(path) or (decl[2].get(p) if isinstance(decl, tuple) else None)
                old = e.fields.get(p)
                fields = dict(e.fields)
                if isinstance(old, Ref) and isinstance(s.heap[old.id], ListE):
                    o = s.heap[old.id].seq
                    s.heap[old.id] = ListE(self.havoc_seq(s, o))   # the old storage may have been changed in place
                fields[p] = self.make(s, ty, f"h!{p}!{self.fid()}")
                s.heap[v.id] = ObjE(e.cls, fields)
            else:
                v = e.fields[p]
        if len(parts) == 1:
            if isinstance(v, Ref) and isinstance(s.heap[v.id], ListE):
                s.heap[v.id] = ListE(self.havoc_seq(s, s.heap[v.id].seq))
            else:
                raise Unsupported("modifies " + path)

    def havoc_seq(self, s, seq):
        if seq.elem == "rec":
            if seq.parts is not None:
                raise Unsupported("record list modified")
            arr = {f: self.column(t, f"hv!{f}!{self.fid()}") for f, t in seq.fields.items()}
            n = self.fresh_int("hv_len")
            s.pc = s.pc + (zb(self.th.le(0, n)),) + self.column_facts(seq.fields, arr)
            return Seq("list", arr=arr, n=n, elem="rec", fields=seq.fields, cls=seq.cls)
        arr = self.fresh_arr("hv", self.elem_sort(seq.elem))
        n = self.fresh_int("hv_len")
        s.pc = s.pc + (zb(self.th.le(0, n)),)
        return Seq(seq.kind, arr=arr, n=n, elem=seq.elem)

    # ---- builtins
    def call_builtin(self, v, args, kw, s, fr, node):
        th = self.th
        cx = self.ctx(s, node)
        import typing
        if v is typing.cast:
            yield s, args[1]
            return
        if v is range:
            a = args
            if len(a) == 1:
                yield s, VRange(0, a[0], 1)
            elif len(a) == 2:
                yield s, VRange(a[0], a[1], 1)
            else:
                yield s, VRange(a[0], a[1], a[2])
            return
        if v is len:
            x = args[0]
            if isinstance(x, VRange):
                if isc(x.start) and isc(x.stop):
                    yield s, len(range(x.start, x.stop, x.step))
                else:
                    d = th.sub(x.stop, x.start)
                    yield s, z3.If(zb(th.lt(0, d)), th.z(d), th.z(0))
                return
            if isinstance(x, Ref) and isinstance(s.heap[x.id], DictE):
                if s.heap[x.id].d is not None:
                    yield s, len(s.heap[x.id].d)
                    return
            if isinstance(x, PyObj) and hasattr(x.v, "__len__"):
                yield s, len(x.v)
                return
            if isinstance(x, Str) and x.codes() is None:
                r = self.str_len(x)
                yield s.assume(th.le(0, r), (r == 0) == (self.rope_term(x) == self.str_atom(""))), r
                return
            yield s, self.seq_of(s, x).length()
            return
        if v in (min, max) and len(args) >= 2:
            r = args[0]
            for x in args[1:]:
                if isc(r) and isc(x):
                    r = v(r, x)
                else:
                    c = th.le(r, x)
                    r = z3.If(zb(c), th.z(r if v is min else x), th.z(x if v is min else r))
            yield s, r
            return
        if v is abs:
            yield s, z3.If(zb(th.lt(args[0], 0)), th.z(th.neg(args[0])), th.z(args[0])) if not isc(args[0]) else abs(args[0])
            return
        if v is bool:
            yield s, self.truth(s, args[0])
            return
        if v is int and len(args) == 1 and is_int(args[0]):
            yield s, args[0]
            return
        if v is int and len(args) == 1 and is_bool(args[0]):
            yield s, th.z(args[0])
            return
        if v is chr:
            x = args[0]
            cx.need(zb(land(th.le(0, x), th.lt(x, 0x110000))), "chr() argument in range(0x110000)")
            yield s, Str([("chr", x)])
            return
        if v is ord:
            x = args[0]
            if isinstance(x, Seq):
                x = Str([("chr", y) for y in x.items]) if x.items is not None else None
            c = x.codes() if isinstance(x, Str) else None
            if c is None or len(c) != 1:
                raise Unsupported("ord of this value")
            yield s, c[0]
            return
        if v is type and len(args) == 1:
            yield s, PyObj(self.type_of(args[0], s))
            return
        if v is isinstance and isinstance(args[1], PyObj):
            t = self.type_of(args[0], s)
            yield s, issubclass(t, args[1].v)
            return
        if v in (list, tuple) and len(args) == 1:
            q = self.seq_of(s, args[0])
            if v is list:
                s = s.copy()
                yield s, self.alloc(s, ListE(q.copy_as("list")))
            else:
                yield s, q.copy_as("tuple")
            return
        if v is list and not args:
            s = s.copy()
            yield s, self.alloc(s, ListE(Seq("list", items=[])))
            return
        if v is str and len(args) == 1 and isinstance(args[0], (Str,)):
            yield s, args[0]
            return
        if v is str and not args:
            yield s, Str([])
            return
        if v is str and len(args) == 1 and not kw and is_int(args[0]) and not is_bool(args[0]):
            yield s, Str([("c", str(args[0])) if isc(args[0]) else ("fmt", "", args[0])])
            return
        if v is print:
            yield s, None
            return
        if v is super and not args and not kw:
            first = fr.fi.node.args.args[0].arg if fr.fi.node.args.args else None
            o = s.vars.get(first)
            cls = self.of_class(fr.fi)
            if not (isinstance(o, Ref) and isinstance(s.heap[o.id], ObjE) and isinstance(s.heap[o.id].cls, type) and cls is not None and issubclass(s.heap[o.id].cls, cls)):
                raise Unsupported("super() of this object")
            yield s, Super(o, cls)
            return
        if v is setattr and not kw and len(args) == 3 and isinstance(args[1], Str) and args[1].const() is not None and isinstance(args[0], Ref) \
                and isinstance(s.heap[args[0].id], ObjE) and inspect.getattr_static(s.heap[args[0].id].cls, args[1].const(), None) is None:
            e = s.heap[args[0].id]
            s = s.copy()
            s.heap[args[0].id] = ObjE(e.cls, {**e.fields, args[1].const(): args[2]})
            yield s, None
            return
        if v is divmod:
            yield s, Seq("tuple", items=[th.div(args[0], args[1], cx), th.mod(args[0], args[1], cx)])
            return
        if v in (any, all) and len(args) == 1:
            q = self.concrete_iter(s, args[0])
            if q is not None:
                ts = [self.truth(s, x) for x in q]
                yield s, (lor(*ts) if v is any else land(*ts))
                return
        if isinstance(v, type) and issubclass(v, BaseException):
            yield s, ExcVal(v.__name__)
            return
        if v is sorted and len(args) == 1 and isinstance(args[0], Merged) and set(kw) <= {"key"}:
            yield from self.sorted_merge(args[0], kw.get("key"), s, fr, node)
            return
        from . import externs
        h = externs.handler(v)
        if h is not None:
            yield from h(self, args, kw, s, fr, node)
            return
        raise Unsupported(f"call of {getattr(v, '__qualname__', v)!r}")

    def sorted_merge(self, m, key, s, fr, node):
        """sorted([*a, *b], key=...): every record once, keys not decreasing (which of equal keys comes first is left open)"""
        th = self.th
        if key is None:
            raise Unsupported("sorted without a key")
        src, idx, n = self.fresh_arr("sorted_src"), self.fresh_arr("sorted_idx"), th.fresh("sorted_len")
        pos = [self.fresh_arr(f"sorted_pos{k}") for k in range(len(m.parts))]
        seq = Seq("list", arr={"src": src, "idx": idx}, n=n, elem="rec", fields={}, parts=m.parts)
        tot = 0
        for q in m.parts:
            tot = th.add(tot, q.length())
        i, j = z3.FreshConst(th.sort, "i"), z3.FreshConst(th.sort, "j")
        inr = z3.And(0 <= i, i < n)
        facts = [n == th.z(tot), n >= 0]
        facts.append(z3.ForAll([i], z3.Implies(inr, z3.And(0 <= src[i], src[i] < len(m.parts))), patterns=[src[i]]))
        for k, q in enumerate(m.parts):
            facts.append(z3.ForAll([i], z3.Implies(z3.And(inr, src[i] == k), z3.And(0 <= idx[i], idx[i] < th.z(q.length()), pos[k][idx[i]] == i)), patterns=[src[i]]))
            facts.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < th.z(q.length())),
                                                   z3.And(0 <= pos[k][j], pos[k][j] < n, src[pos[k][j]] == k, idx[pos[k][j]] == j)), patterns=[pos[k][j]]))

        def key_of(x):
            outs = list(self.call(key, [Rec(seq, x)], {}, s, fr, node))
            if len(outs) != 1 or outs[0][0].pc != s.pc or not is_int(outs[0][1]):
                raise Unsupported("sort key")
            return outs[0][1]
        facts.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), zb(th.le(key_of(i), key_of(j)))), patterns=[z3.MultiPattern(src[i], src[j])]))
        s = s.assume(*facts)
        for k in range(len(m.parts)):
            s.ghosts[f"sorted_pos{k}"] = pos[k]
        yield s, self.alloc(s, ListE(seq))

    def type_of(self, v, s):
        if isinstance(v, bool) or isinstance(v, z3.BoolRef): return bool
        if is_int(v): return int
        if v is None: return type(None)
        if isinstance(v, VRange): return range
        if isinstance(v, Str): return str
        if isinstance(v, Seq): return {"list": list, "tuple": tuple, "str": str, "bytes": bytes}[v.kind]
        if isinstance(v, Ref):
            e = s.heap[v.id]
            if isinstance(e, ListE): return list
            if isinstance(e, ObjE): return type if isinstance(e.cls, tuple) else e.cls
            return dict
        if isinstance(v, PyObj): return type(v.v)
        raise Unsupported("type() of this value")

    def call_method(self, o, name, args, kw, s, fr, node):
        th = self.th
        cx = self.ctx(s, node)
        if isinstance(o, Ref) and isinstance(s.heap[o.id], ListE):
            seq = s.heap[o.id].seq
            if name in ("append", "extend", "pop", "insert", "copy", "clear", "index", "reverse"):
                s = s.copy()
                if seq.elem == "rec" and name != "append":
                    raise Unsupported(f"{name} of a list of records")
                if name == "append":
                    x = args[0]
                    elem = seq.elem
                    if elem == "rec":
                        s, new = self.append_record(s, seq, x)
                    elif seq.items is not None:
                        if not seq.items and isinstance(x, Str):
                            elem = "chr" if x.codes() is not None and len(x.codes()) == 1 else "str"
                        if not seq.items and isinstance(x, Opaque):
                            elem = "val"
                        if not seq.items and isinstance(x, Seq) and x.kind == "bytes":
                            elem = "bytes"
                        new = Seq("list", items=seq.items + [x], elem=elem)
                    else:
                        if isinstance(x, Seq) and x.fn is not None:
                            s, x = self.stored(s, x)
                        new = Seq("list", arr=z3.Store(seq.arr, th.z(seq.n), self.elem_term(x, elem)), n=th.add(seq.n, 1), elem=elem)
                    s.heap[o.id] = ListE(new)
                    yield s, None
                    return
                if name == "extend":
                    y = self.seq_of(s, args[0])
                    s, new = self.concat(s, "list", seq, y, seq.elem)
                    s = s.copy()
                    s.heap[o.id] = ListE(new)
                    yield s, None
                    return
                if name == "pop" and not args:
                    n = seq.length()
                    if isc(n):
                        if n == 0:
                            cx.need(z3.BoolVal(False), "pop from a non-empty list")
                            return
                        s.heap[o.id] = ListE(Seq("list", items=seq.items[:-1], elem=seq.elem))
                        yield s, seq.items[-1]
                        return
                    cx.need(zb(th.lt(0, n)), "pop from a non-empty list")
                    v = self.elem_value(seq.arr[th.z(th.sub(n, 1))], seq.elem)
                    s.heap[o.id] = ListE(Seq("list", arr=seq.arr, n=th.sub(n, 1), elem=seq.elem))
                    yield s, v
                    return
                if name == "copy":
                    yield s, self.alloc(s, ListE(seq))
                    return
                if name == "clear":
                    s.heap[o.id] = ListE(Seq("list", items=[], elem=seq.elem))
                    yield s, None
                    return
                if name == "insert":
                    i, x = args
                    if seq.items is not None and isc(i):
                        items = list(seq.items)
                        items.insert(i, x)
                        s.heap[o.id] = ListE(Seq("list", items=items, elem=seq.elem))
                        yield s, None
                        return
                    if isinstance(x, Opaque) and seq.elem != "val":
                        raise Unsupported("insert")
                    yield from self.slice_set_value(o, i, i, [x], s, node, None)
                    return
        if isinstance(o, Str) or isinstance(o, Seq) and o.kind == "str":
            if name == "join" and isinstance(o, Str) and o.const() is not None:
                sep = o.const()
                q = self.seq_of(s, args[0])
                if sep == "":
                    if q.items is not None:
                        ps = []
                        for x in q.items:
                            if not isinstance(x, Str):
                                raise Unsupported("join of non-strings")
                            ps += list(x.pieces)
                        yield s, Str(ps)
                        return
                    if q.elem == "chr":
                        yield s, Seq("str", arr=q.arr, n=q.n)
                        return
                    if q.elem == "str" and q.arr is not None:
                        yield self.joined(s, sep, q)
                        return
                elif q.items is not None and all(isinstance(x, Str) for x in q.items):
                    ps = []
                    for k, x in enumerate(q.items):
                        if k:
                            ps.append(("c", sep))
                        ps += list(x.pieces)
                    yield s, Str(ps)
                    return
                elif q.items is None and q.elem == "str":
                    yield self.joined(s, sep, q)
                    return
            if isinstance(o, Str) and o.const() is not None and all(isinstance(a, Str) and a.const() is not None or isc(a) for a in args):
                real = [a.const() if isinstance(a, Str) else a for a in args]
                if name in ("upper", "lower", "startswith", "endswith", "replace", "strip", "index", "find"):
                    yield s, self.wrap(getattr(o.const(), name)(*real))
                    return
            if isinstance(o, Str) and o.codes() is None and name in ("index", "find", "partition") and len(args) == 1 and isinstance(args[0], Str):
                i, found = self.str_index(o, args[0]), self.str_has(o, args[0])
                if name == "index":
                    cx.need(found, "substring found")
                    yield s.assume(th.le(0, i)), i
                    return
                if name == "find":
                    yield s.assume(th.le(0, i)), z3.If(found, i, th.z(-1))
                    return
                n = args[0].const()
                if n:
                    for cond, parts in ((found, None), (z3.Not(found), [o, Str([]), Str([])])):
                        s1 = s.assume(cond, th.le(0, i))
                        if self.feasible(s1):
                            yield s1, Seq("tuple", items=parts or [Opaque(z3.FreshConst(ValSort, "head")), args[0], self.str_tail(o, th.add(i, len(n)))], elem="str")
                    return
            if isinstance(o, Str) and name in TEXT_FUNCTIONS and len(args) in TEXT_FUNCTIONS[name] and not kw and all(isinstance(a, Str) for a in args):
                yield s, self.str_function(name, o, args)
                return
        if isinstance(o, Ref) and isinstance(s.heap[o.id], DictE):
            e = s.heap[o.id]
            if name in ("items", "keys", "values") and e.d is not None and not args and not kw:
                # a view: the dictionary must not change while it is in use
                if any(isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(fr.fi.node) if isinstance(x, ast.Subscript)):
                    raise Unsupported(f"{name}() in a function that assigns to elements")
                yield s, Seq("list", items=[k if name == "keys" else v if name == "values" else Seq("tuple", items=[k, v]) for k, v in ((self.wrap(k), v) for k, v in e.d.items())])
                return
            if name in ("items", "keys") and e.ret == "texts" and not args and not kw:
                # the keys in an order that is a function of the mapping; it must not change while the view is in use
                if any(isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(fr.fi.node)):
                    raise Unsupported(f"{name}() in a function that assigns to elements")
                self.used_trusted.add("dict.items(): every key once, in an order that depends only on the mapping")
                keys, n, at = self.key_order(e)
                k, x = z3.FreshConst(th.sort, "k"), z3.FreshConst(ValSort, "x")
                s = s.assume(zb(th.le(0, n)), z3.ForAll([k], z3.Implies(zb(land(th.le(0, k), th.lt(k, n))), z3.And(e.has(keys[k]), at(keys[k]) == k)), patterns=[keys[k]]),
                             z3.ForAll([x], z3.Implies(e.has(x), z3.And(zb(land(th.le(0, at(x)), th.lt(at(x), n))), keys[at(x)] == x)), patterns=[at(x)]))
                one = lambda k: Str([("atom", keys[th.z(k)])])
                yield s, Seq("tuple", fn=one if name == "keys" else lambda k: Seq("tuple", items=[one(k), e.value(keys[th.z(k)])]), n=n)
                return
            if name == "setdefault" and e.ret == "texts" and len(args) == 2 and isinstance(args[1], Ref) and isinstance(s.heap[args[1].id], ListE):
                t = self.val_term(args[0])
                pos, neg = s.assume(e.has(t)), s.assume(z3.Not(e.has(t)))
                if self.feasible(pos):
                    yield pos, e.value(t)
                if self.feasible(neg):
                    q = neg.heap[args[1].id].seq
                    neg = self.put_texts(neg, o, t, q)
                    yield neg, neg.heap[o.id].value(t)
                return
            if name == "get":
                d = args[1] if len(args) > 1 else None
                if e.d is not None:
                    k = args[0].const() if isinstance(args[0], Str) else args[0]
                    if isinstance(k, (str, int)):
                        yield s, e.d.get(k, d)
                        return
                else:
                    t = self.val_term(args[0])
                    if isinstance(d, Str) and e.ret == "str":
                        yield s, Str([("atom", z3.If(e.has(t), e.get(t), self.rope_term(d)))])
                        return
                    pos, neg = s.assume(e.has(t)), s.assume(z3.Not(e.has(t)))
                    if self.feasible(pos):
                        yield pos, e.value(t)
                    if self.feasible(neg):
                        yield neg, d
                    return
        if isinstance(o, TableV) and name == "get" and len(args) in (1, 2) and not kw:
            t = self.val_term(args[0])
            for cond, v in ((o.has(t), Str([("atom", o.get(t))])), (z3.Not(o.has(t)), args[1] if len(args) > 1 else None)):
                s1 = s.assume(cond)
                if self.feasible(s1):
                    yield s1, v
            return
        if isinstance(o, PyObj) and isinstance(o.v, dict) and name == "get":
            k = args[0].const() if isinstance(args[0], Str) else args[0]
            if isinstance(k, (str, int)):
                yield s, self.wrap(o.v[k]) if k in o.v else (args[1] if len(args) > 1 else None)
                return
        from . import externs
        h = externs.method_handler(o, name)
        if h is not None:
            yield from h(self, o, args, kw, s, fr, node)
            return
        raise Unsupported(f"method {name} of {o!r}")

    # ------------------------------------------------------------------ statements
    # generator: yields (state, kind, value)
    def ex_block(self, stmts, st, fr):
        if not stmts:
            yield st, "next", None
            return
        cut = self.cut_after.get(id(stmts[0])) if self.contract.cuts and fr.depth == 0 else None
        for s, kind, v in self.ex(stmts[0], st, fr):
            if kind == "next":
                if cut is not None:
                    s = self.apply_cut(cut, st, s, fr, stmts[0])
                yield from self.ex_block(stmts[1:], s, fr)
            else:
                yield s, kind, v

    def plan_cuts(self, node):
        """a cut for variable v applies after the last statement of the outermost block that assigns v (not inside a nested loop)"""
        self.cut_after = {}

        def assigns(stmt, name):
            if isinstance(stmt, (ast.For, ast.While)):
                return False
            for ch in ast.iter_child_nodes(stmt):
                if isinstance(ch, ast.Name) and isinstance(ch.ctx, ast.Store) and ch.id == name:
                    return True
                if isinstance(ch, (ast.stmt, ast.Tuple)) and assigns(ch, name):
                    return True
            return False
        for cut in self.contract.cuts:
            found = 0
            for n in ast.walk(node):
                if isinstance(n, (ast.For, ast.While)) or n is node:
                    hit = [x for x in n.body if assigns(x, cut["var"])]
                    if hit:
                        self.cut_after[id(hit[-1])] = cut
                        found += 1
            if not found:
                raise Unsupported(f"no assignment to {cut['var']}")

    def apply_cut(self, cut, before, s, fr, node):
        """oblige the fact about the variable, then keep only the fact (forgetting how the value was computed)"""
        s1 = self.apply_hints(cut.get("hints", ()), s, fr)
        env = self.env(s1, fr)
        for f in cut["facts"]:
            self.oblige(s1, zb(env.bool(f)), f"after {cut['var']} is computed: {f}", node)
        n = s.copy()
        k = len(before.pc)
        if len(s.pc) >= k and all(x is y for x, y in zip(s.pc, before.pc)) and all(s.heap.get(i) is e for i, e in before.heap.items()):
            n.pc = before.pc
        v = cut["var"]
        n.vars[v] = self.havoc_value(s.vars[v], v, n, {})
        for x in list(n.vars):       # other values computed by the statement are forgotten with it
            if x != v and n.vars[x] is not before.vars.get(x):
                n.vars[x] = UNDEF if n.pc is before.pc else n.vars[x]
        env = self.env(n, fr)
        return n.assume(*[zb(env.bool(f)) for f in cut["facts"]])

    def ex(self, node, st, fr):
        self.npaths += 1
        if self.npaths > 400000:
            raise Unsupported("too many paths")
        if fr.depth == 0 and hasattr(node, "lineno"):
            self.lines.add(node.lineno)
        m = getattr(self, "ex_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(node).__name__} (line {getattr(node,'lineno',0)})")
        yield from m(node, st, fr)

    def ex_Pass(self, node, st, fr):
        yield st, "next", None

    def ex_Expr(self, node, st, fr):
        if isinstance(node.value, ast.Constant):
            yield st, "next", None
            return
        if isinstance(node.value, ast.Yield):
            yield from self.ex_yield(node.value, st, fr)
            return
        for s, _ in self.ev(node.value, st, fr):
            yield s, "next", None

    def ex_yield(self, node, st, fr):
        from .spec import SpecEnv
        y = self.contract.yields
        if y is None or fr.depth != 0:
            raise Unsupported("yield without a yield contract")
        self.yield_count += 1
        for s, v in self.ev(node.value, st, fr):
            env = SpecEnv(self, s, old=self.entry, params=None, contract=self.contract, out=v, frame=fr)
            for a in y.asserts:
                self.oblige(s, env.bool(a), f"yield: {a}", node)
            s2 = s.copy()
            for g, e in y.update.items():
                s2.ghosts[g] = env.value(e)
            yield s2, "next", None

    def ex_Return(self, node, st, fr):
        if node.value is None:
            yield st, "return", None
            return
        for s, v in self.ev(node.value, st, fr):
            yield s, "return", v

    def ex_Break(self, node, st, fr):
        yield st, "break", None

    def ex_Continue(self, node, st, fr):
        yield st, "continue", None

    def ex_Raise(self, node, st, fr):
        nm = "exception"
        if isinstance(node.exc, ast.Call) and isinstance(node.exc.func, ast.Name):
            nm = node.exc.func.id
        elif isinstance(node.exc, ast.Name):
            nm = node.exc.id
        yield st, "raise", nm

    def ex_Assert(self, node, st, fr):
        for s, v in self.ev(node.test, st, fr):
            t = self.truth(s, v)
            self.oblige(s, zb(t), f"assert {ast.unparse(node.test)}", node)
            s1 = s.assume(zb(t))
            yield s1, "next", None

    def ex_If(self, node, st, fr):
        for s, v in self.ev(node.test, st, fr):
            t = self.truth(s, v)
            if isinstance(t, bool):
                yield from self.ex_block(node.body if t else node.orelse, s, fr)
                continue
            nexts = []
            for cond, body in ((t, node.body), (z3.Not(t), node.orelse)):
                s1 = s.assume(cond)
                if not self.feasible(s1):
                    continue
                for s2, kind, v2 in self.ex_block(body, s1, fr):
                    if self.contract.merge and kind == "next":
                        nexts.append(s2)
                    else:
                        yield s2, kind, v2
            for s2 in self.merge_states(s, nexts):
                yield s2, "next", None

    def merge_states(self, base, states):
        """joins states with the same heap at a control-flow join; a fresh selector says which one it was"""
        out = []
        for s in states:
            for k, o in enumerate(out):
                m = self.merge_two(base, o, s)
                if m is not None:
                    out[k] = m
                    break
            else:
                out.append(s)
        return out

    def merge_two(self, base, a, b):
        n = len(base.pc)
        if a.pc[:n] != base.pc and not all(x is y for x, y in zip(a.pc, base.pc)):
            return None
        if not all(x is y for x, y in zip(b.pc, base.pc)) or len(a.stack) != len(b.stack):
            return None
        if set(a.heap) != set(b.heap) or any(a.heap[i] is not b.heap[i] for i in a.heap):
            return None
        if len(a.pc) < n or len(b.pc) < n:
            return None
        sel = self.fresh_bool("path")

        def join(x, y):
            if x is y:
                return x
            if x is UNDEF or y is UNDEF:
                return UNDEF
            if isinstance(x, Opaque) and isinstance(y, Opaque):
                return x if x.term.eq(y.term) else Opaque(z3.If(sel, x.term, y.term), x.tag)
            if is_bool(x) and is_bool(y):
                return x if isinstance(x, bool) and isinstance(y, bool) and x == y else z3.If(sel, zb(x), zb(y))
            if is_int(x) and is_int(y):
                if isc(x) and isc(y):
                    return x if x == y else None     # distinct constants stay on distinct paths
                zx, zy = self.th.z(x), self.th.z(y)
                return x if zx.eq(zy) else z3.If(sel, zx, zy)
            if isinstance(x, Ref) and isinstance(y, Ref) and x.id == y.id:
                return x
            return None

        def joinmap(p, q):
            r = {}
            for k in set(p) | set(q):
                v = join(p.get(k, UNDEF), q.get(k, UNDEF))
                if v is None and not (p.get(k) is None and q.get(k) is None):
                    return None
                r[k] = v
            return r
        vs = joinmap(a.vars, b.vars)
        gs = joinmap(a.ghosts, b.ghosts)
        if vs is None or gs is None:
            return None
        for p, q in zip(a.stack, b.stack):
            if p is not q:
                return None
        m = a.copy()
        m.vars, m.ghosts = vs, gs
        ea, eb = a.pc[n:], b.pc[n:]
        # facts common to both sides stay separate
        ib = {c.get_id() for c in eb if isinstance(c, z3.ExprRef)}
        both = [c for c in ea if isinstance(c, z3.ExprRef) and c.get_id() in ib]
        bi = {c.get_id() for c in both}
        ra = [zb(c) for c in ea if not (isinstance(c, z3.ExprRef) and c.get_id() in bi)]
        rb = [zb(c) for c in eb if not (isinstance(c, z3.ExprRef) and c.get_id() in bi)]
        facts = list(both)
        facts += [z3.Implies(sel, c) for c in ra] + [z3.Implies(z3.Not(sel), c) for c in rb]
        m.pc = base.pc + tuple(facts)
        return m

    def ex_Assign(self, node, st, fr):
        for s, v in self.ev(node.value, st, fr):
            def go(targets, s1):
                if not targets:
                    yield s1, "next", None
                    return
                for s2 in self.assign(targets[0], v, s1, fr):
                    yield from go(targets[1:], s2)
            yield from go(node.targets, s)

    def ex_AnnAssign(self, node, st, fr):
        if node.value is None:
            yield st, "next", None
            return
        for s, v in self.ev(node.value, st, fr):
            for s2 in self.assign(node.target, v, s, fr):
                yield s2, "next", None

    def bind(self, target, v, s, fr):
        """bind names only (s is a private copy)"""
        if isinstance(target, ast.Name):
            s.vars[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            q = self.seq_of(s, v)
            if q.items is None or len(q.items) != len(target.elts):
                raise Unsupported("unpacking")
            for t, x in zip(target.elts, q.items):
                self.bind(t, x, s, fr)
        else:
            raise Unsupported("binding target")

    def assign(self, target, v, s, fr):
        if isinstance(target, ast.Name):
            s = s.copy()
            s.vars[target.id] = v
            yield s
        elif isinstance(target, (ast.Tuple, ast.List)):
            q = self.seq_of(s, v)
            if q.items is None:
                n = len(target.elts)
                self.oblige(s, zb(self.th.eq(q.length(), n)), "number of values to unpack", target)
                s = s.assume(zb(self.th.eq(q.length(), n)))
                items = [self.seq_get(s, q, k, NOCTX) for k in range(n)]
            else:
                items = q.items
                if len(items) != len(target.elts):
                    self.oblige(s, z3.BoolVal(False), "number of values to unpack", target)
                    return

            def go(ts, xs, s1):
                if not ts:
                    yield s1
                    return
                for s2 in self.assign(ts[0], xs[0], s1, fr):
                    yield from go(ts[1:], xs[1:], s2)
            yield from go(target.elts, items, s)
        elif isinstance(target, ast.Attribute):
            for s1, o in self.ev(target.value, s, fr):
                if not (isinstance(o, Ref) and isinstance(s1.heap[o.id], ObjE)):
                    raise Unsupported("attribute assignment")
                e = s1.heap[o.id]
                plain_attribute(e.cls[1] if isinstance(e.cls, tuple) else e.cls, target.attr)
                s2 = s1.copy()
                f = dict(e.fields)
                f[target.attr] = v
                s2.heap[o.id] = ObjE(e.cls, f)
                yield s2
        elif isinstance(target, ast.Subscript):
            for s1, o in self.ev(target.value, s, fr):
                if isinstance(target.slice, ast.Slice):
                    lo, hi = target.slice.lower, target.slice.upper
                    for s2, vs in self.ev_list([p for p in (lo, hi) if p is not None], s1, fr):
                        vs = list(vs)
                        l = vs.pop(0) if lo is not None else 0
                        h = vs.pop(0) if hi is not None else None
                        q = self.seq_of(s2, v)
                        if q.items is None:
                            raise Unsupported("slice assignment of a symbolic sequence")
                        for s3, _ in self.slice_set_value(o, l, h, q.items, s2, target, fr):
                            yield s3
                    continue
                for s2, i in self.ev(target.slice, s1, fr):
                    if isinstance(o, Ref) and isinstance(s2.heap[o.id], EnvE):
                        if not (isinstance(i, Str) and is_int(v)):
                            raise Unsupported("assignment in an environment")
                        s3 = s2.copy()
                        s3.heap[o.id] = EnvE(self.env_bind(s2.heap[o.id].term, i, v))
                        yield s3
                        continue
                    if isinstance(o, Ref) and isinstance(s2.heap[o.id], DictE) and s2.heap[o.id].d is not None:
                        k = i.const() if isinstance(i, Str) else i
                        if not isinstance(k, (str, int)):
                            raise Unsupported("symbolic key")
                        s3 = s2.copy()
                        d = dict(s2.heap[o.id].d)
                        d[k] = v
                        s3.heap[o.id] = DictE(d=d)
                        yield s3
                        continue
                    if isinstance(o, Ref) and isinstance(s2.heap[o.id], DictE) and s2.heap[o.id].ret == "texts":
                        # the list is a value from now on
                        if not (isinstance(v, Ref) and isinstance(s2.heap[v.id], ListE)):
                            raise Unsupported("list in a mapping")
                        s3 = self.put_texts(s2, o, self.val_term(i), s2.heap[v.id].seq)
                        s3.heap.frozen |= {v.id}
                        yield s3
                        continue
                    if isinstance(o, Ref) and isinstance(s2.heap[o.id], DictE):
                        e, t = s2.heap[o.id], self.val_term(i)
                        if e.ret not in ("int", "str"):
                            raise Unsupported("assignment in this mapping")
                        s3 = s2.copy()
                        s3.heap[o.id] = DictE(arr=z3.Store(e.arr, t, self.th.z(v) if e.ret == "int" else self.val_term(v)),
                                              present=z3.Store(e.present, t, True), ret=e.ret)
                        yield s3
                        continue
                    if not (isinstance(o, Ref) and isinstance(s2.heap[o.id], ListE)):
                        raise Unsupported("item assignment")
                    yield from self.item_set(o, i, v, s2, target)
        else:
            raise Unsupported("assignment target")

    def item_set(self, o, i, v, s, node):
        th = self.th
        seq = s.heap[o.id].seq
        n = seq.length()
        cx = self.ctx(s, node)
        if seq.items is not None and isc(i):
            if not -n <= i < n:
                cx.need(z3.BoolVal(False), "index in range")
                return
            items = list(seq.items)
            items[i] = v
            new = Seq("list", items=items, elem=seq.elem)
        else:
            if isc(i) and i < 0:
                j = th.sub(n, -i)
                cx.need(zb(th.le(0, j)), "index in range")
            else:
                cx.need(zb(land(th.le(0, i), th.lt(i, n))), "index in range (nonnegative)")
                j = i
            arr, _ = self.to_arr(seq)
            new = Seq("list", arr=z3.Store(arr, th.z(j), self.elem_term(v, seq.elem)), n=n, elem=seq.elem)
        s = s.copy()
        s.heap[o.id] = ListE(new)
        yield s

    def slice_set_value(self, o, lo, hi, items, s, node, fr):
        if not (isinstance(o, Ref) and isinstance(s.heap[o.id], ListE)):
            raise Unsupported("slice assignment")
        seq = s.heap[o.id].seq
        th = self.th
        l, h = self.slice_bounds(s, seq, lo, hi)
        if seq.items is not None and isc(l) and isc(h):
            new = Seq("list", items=seq.items[:l] + list(items) + seq.items[h:], elem=seq.elem)
            facts = ()
        else:
            arr, n = self.to_arr(seq)
            parts = [(arr, 0, l), list(items), (arr, h, th.sub(n, h))]
            if isc(l) and l == 0:
                parts = parts[1:]
            new, facts = self.seq_build(s, "list", parts, seq.elem)
        s = s.assume(*facts) if facts else s.copy()
        s.heap[o.id] = ListE(new)
        yield s, None

    def ex_AugAssign(self, node, st, fr):
        t = node.target
        load = ast.copy_location(ast.parse(ast.unparse(t), mode="eval").body, t)
        for s, vs in self.ev_list([load, node.value], st, fr):
            a, b = vs
            if isinstance(a, Ref) and isinstance(s.heap[a.id], ListE) and isinstance(node.op, ast.Add):
                for s1, _ in self.call_method(a, "extend", [b], {}, s, fr, node):
                    yield s1, "next", None
                continue
            for s1, v in self.binop_dispatch(node.op, a, b, s, fr, node, inplace=True):
                for s2 in self.assign(t, v, s1, fr):
                    yield s2, "next", None

    def ex_Delete(self, node, st, fr):
        def go(ts, s):
            if not ts:
                yield s, "next", None
                return
            t = ts[0]
            if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice):
                for s1, o in self.ev(t.value, s, fr):
                    lo, hi = t.slice.lower, t.slice.upper
                    for s2, vs in self.ev_list([p for p in (lo, hi) if p is not None], s1, fr):
                        vs = list(vs)
                        l = vs.pop(0) if lo is not None else 0
                        h = vs.pop(0) if hi is not None else None
                        for s3, _ in self.slice_set_value(o, l, h, [], s2, t, fr):
                            yield from go(ts[1:], s3)
            elif isinstance(t, ast.Subscript):
                for s1, o in self.ev(t.value, s, fr):
                    for s2, i in self.ev(t.slice, s1, fr):
                        th = self.th
                        seq = self.seq_of(s2, o)
                        self.oblige(s2, zb(land(th.le(0, i), th.lt(i, seq.length()))), "deleted index in range", t)
                        for s3, _ in self.slice_set_value(o, i, th.add(i, 1), [], s2, t, fr):
                            yield from go(ts[1:], s3)
            elif isinstance(t, ast.Attribute):
                for s1, o in self.ev(t.value, s, fr):
                    e = s1.heap[o.id]
                    f = dict(e.fields)
                    if t.attr not in f:
                        raise Unsupported("del of an unknown attribute")
                    del f[t.attr]
                    s2 = s1.copy()
                    s2.heap[o.id] = ObjE(e.cls, f)
                    yield from go(ts[1:], s2)
            elif isinstance(t, ast.Name):
                s1 = s.copy()
                s1.vars.pop(t.id, None)
                yield from go(ts[1:], s1)
            else:
                raise Unsupported("del target")
        yield from go(node.targets, st)

    # ---- loops
    def loop_annotation(self, node, fr):
        """the annotation of a loop of the verified function, by its number in the text"""
        key = (fr.fi.key, node.lineno, node.col_offset)
        if key not in self.loop_order:
            self.plan_loops()
        k = self.loop_order.get(key)
        if k is None:
            k = self.loop_next
            self.loop_order[key] = k
            self.loop_next += 1
        ls = self.contract.loops
        return ls[k] if k < len(ls) else None, k

    def plan_loops(self):
        """static pre-order numbering of the loops of the verified function (and helpers inlined into it)"""
        if getattr(self, "_planned", False):
            return
        self._planned = True
        self.shapes = []
        self.words = set()
        seen = set()

        def walk(n, fi):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                    continue
                if isinstance(ch, (ast.For, ast.While)):
                    if isinstance(ch, ast.For):
                        walk_one(ch.iter, fi)
                    key = (fi.key, ch.lineno, ch.col_offset)
                    if key not in self.loop_order and not self.self_unrolling(ch):
                        self.loop_order[key] = self.loop_next
                        self.loop_next += 1
                        it = getattr(ch, "iter", None)
                        self.shapes.append("while" if it is None else "for range" if isinstance(it, ast.Call) and getattr(it.func, "id", "") == "range" else "for")
                walk_one(ch, fi) if not isinstance(ch, (ast.For, ast.While)) else walk(ch, fi)

        def walk_one(ch, fi):
            if isinstance(ch, ast.Call):
                self.words |= text_words(ch, fi)
                g = self.static_callee(ch, fi)
                if g is not None and g.key not in seen and self.find_contract(g, None) is None:
                    seen.add(g.key)
                    walk(g.node, g)
            walk(ch, fi)
        walk(self.fi.node, self.fi)

    def self_unrolling(self, ch):
        """loops over literal lists are unrolled and take no annotation"""
        return isinstance(ch, ast.For) and isinstance(ch.iter, (ast.List, ast.Tuple))

    def static_callee(self, call, fi):
        try:
            f = call.func
            if isinstance(f, ast.Name) and hasattr(fi.mod, f.id):
                o = getattr(fi.mod, f.id)
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
                if f.value.id in ("self", "cls") and fi.cls is not None:
                    o = getattr(fi.cls, f.attr, None)
                elif hasattr(fi.mod, f.value.id):
                    o = getattr(getattr(fi.mod, f.value.id), f.attr, None)
                else:
                    return None
            else:
                return None
            if o is None:
                return None
            fn = inspect.unwrap(getattr(o, "__func__", o))
            if isinstance(fn, types.FunctionType) and fn.__module__.split(".")[0] in REPO_PREFIX:
                return func_of_live(fn)
        except Exception:
            return None
        return None

    def assigned(self, stmts):
        names = set()
        for st in stmts:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
        return names

    def havoc_value(self, v, name, s, types):
        if name in types:
            ty = types[name]
            if ty == "undef":
                return UNDEF
            if callable(ty):
                return ty(self, s, v)
            return self.make(s, ty, f"{name}!{self.fid()}")
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return self.fresh_bool(name)
        if is_int(v):
            return self.fresh_int(name)
        if is_real(v):
            return z3.FreshConst(z3.RealSort(), name)
        if isinstance(v, Seq) and v.elem != "rec" and v.kind in ("str", "bytes") :
            return self.havoc_seq(s, v)
        if isinstance(v, Str) and v.codes() is not None:
            return self.havoc_seq(s, Seq("str", items=[]))
        if isinstance(v, Opaque):
            return Opaque(z3.FreshConst(ValSort, name))
        if isinstance(v, VRange):
            return VRange(self.fresh_int(name), self.fresh_int(name), v.step)
        if isinstance(v, Seq) and v.kind == "tuple" and v.items is not None:
            return Seq("tuple", items=[self.havoc_value(x, name, s, {}) for x in v.items])
        return UNDEF

    def havoc_loop(self, st, names, mod_heap, ann, hidden, ghosts=()):
        s = st.copy()
        for n in sorted(names):
            if n in s.vars:
                s.vars[n] = self.havoc_value(s.vars[n], n, s, ann.types if ann else {})
            elif ann and n in ann.types and ann.types[n] != "undef":
                pass
        for n in hidden:
            s.vars[n] = self.fresh_int(n)
        for hid, field in sorted(mod_heap, key=str):
            e = s.heap[hid]
            if isinstance(e, ListE):
                seq = e.seq
                elem = seq.elem
                if ann and ("elem:%s" % hid) in ann.types:
                    elem = ann.types["elem:%s" % hid]
                if seq.items is not None and not seq.items and ann and "elem" in ann.types:
                    elem = ann.types["elem"]
                s.heap[hid] = ListE(self.havoc_seq(s, Seq("list", items=seq.items, arr=seq.arr, n=seq.n, elem=elem, fields=seq.fields, cls=seq.cls, parts=seq.parts)))
            elif isinstance(e, ObjE):
                f = dict(e.fields)
                f[field] = self.havoc_value(f[field], field, s, ann.types if ann else {}) if field in f else UNDEF
                s.heap[hid] = ObjE(e.cls, f)
            elif isinstance(e, EnvE):
                s.heap[hid] = EnvE(z3.FreshConst(ValSort, "env"))
            elif isinstance(e, DictE) and e.d is None:
                s.heap[hid] = self.fresh_dict(f"map!{self.fid()}", e.ret)
            else:
                raise Unsupported("mapping modified in a loop")
        for g in list(self.contract.yields.update if self.contract.yields is not None else ()) + list(ghosts):
            s.ghosts[g] = self.havoc_value(s.ghosts[g], g, s, {})
        return s

    def heap_changes(self, a, b):
        ch = set()
        for i, e in a.heap.items():
            f = b.heap.get(i)
            if f is e:
                continue
            if isinstance(e, ObjE) and isinstance(f, ObjE):
                for k in set(e.fields) | set(f.fields):
                    if e.fields.get(k) is not f.fields.get(k):
                        ch.add((i, k))
            else:
                ch.add((i, None))
        return ch

    def env(self, s, fr, **kw):
        from .spec import SpecEnv
        return SpecEnv(self, s, old=self.entry, params=None, contract=self.contract, frame=fr, **kw)

    def ex_While(self, node, st, fr):
        ann, k = self.loop_annotation(node, fr)
        if ann is None or ann.unroll:
            yield from self.unroll_while(node, st, fr, (ann.unroll if ann else 40), k)
            return
        yield from self.cut_loop(node, st, fr, ann, k, test=node.test, hidden=(), pre=None, post=None)

    def unroll_while(self, node, st, fr, limit, k):
        def go(s, d):
            for s1, v in self.ev(node.test, s, fr):
                t = self.truth(s1, v)
                if t is not True:
                    s2 = s1.assume(lnot(t)) if t is not False else s1
                    if t is False or self.feasible(s2):
                        yield from self.ex_block(node.orelse, s2, fr)
                if t is not False:
                    s2 = s1.assume(t) if t is not True else s1
                    if t is True or self.feasible(s2):
                        if d >= limit:
                            if limit >= 40:
                                raise Unsupported(f"loop {k} at line {node.lineno} has no invariant")
                            self.oblige(s2, z3.BoolVal(False), f"loop at line {node.lineno} runs at most {limit} times", node)
                            continue
                        for s3, kind, v3 in self.ex_block(node.body, s2, fr):
                            if kind in ("next", "continue"):
                                yield from go(s3, d + 1)
                            elif kind == "break":
                                yield s3, "next", None
                            else:
                                yield s3, kind, v3
        yield from go(st, 0)

    def ex_With(self, node, st, fr):
        """with open(...) as name: the file is closed after the block"""
        if len(node.items) != 1:
            raise Unsupported("with several contexts")
        for s, f in self.ev(node.items[0].context_expr, st, fr):
            if not (isinstance(f, FileV) or isinstance(f, Ref) and isinstance(s.heap[f.id], ObjE) and s.heap[f.id].cls in (library.OutFile, library.TextFile)):
                raise Unsupported("with something else than a file")
            for s1 in (self.assign(node.items[0].optional_vars, f, s, fr) if node.items[0].optional_vars is not None else [s]):
                yield from self.ex_block(node.body, s1, fr)

    def ex_For(self, node, st, fr):
        if node.orelse:
            raise Unsupported("for ... else")
        for s, it in self.ev(node.iter, st, fr):
            items = self.concrete_iter(s, it)
            # loops over literal or small constant collections are unrolled
            if items is not None and (len(items) <= 64 and (self.self_unrolling(node) or self.no_annotation(node, fr))):
                yield from self.unroll_for(node, items, s, fr)
                continue
            if isinstance(it, Gen):
                yield from self.for_gen(node, it, s, fr)
            elif isinstance(it, Ref) and isinstance(s.heap[it.id], ObjE) and s.heap[it.id].cls is library.TextFile and isinstance(node.target, ast.Name):
                # the lines of a file, one by one: readline until it gives nothing
                if id(node) not in self.reading:
                    w = ast.While(test=ast.NamedExpr(target=node.target, value=ast.Call(func=ast.Attribute(value=node.iter, attr="readline", ctx=ast.Load()), args=[], keywords=[])), body=node.body, orelse=[])
                    for x in ast.walk(w):
                        if not hasattr(x, "lineno"):
                            ast.copy_location(x, node)
                    self.reading[id(node)] = w
                yield from self.ex_While(self.reading[id(node)], s, fr)
            elif isinstance(it, VRange):
                yield from self.for_range(node, it, s, fr)
            else:
                yield from self.for_seq(node, it, s, fr)

    def no_annotation(self, node, fr):
        ann, _ = self.loop_annotation(node, fr)
        return ann is None or (not ann.inv and ann.unroll)

    def unroll_for(self, node, items, st, fr):
        def go(xs, s):
            if not xs:
                yield s, "next", None
                return
            for s1 in self.assign(node.target, xs[0], s, fr):
                for s2, kind, v in self.ex_block(node.body, s1, fr):
                    if kind in ("next", "continue"):
                        yield from go(xs[1:], s2)
                    elif kind == "break":
                        yield s2, "next", None
                    else:
                        yield s2, kind, v
        yield from go(items, st)

    def for_range(self, node, r, st, fr):
        th = self.th
        ann, k = self.loop_annotation(node, fr)
        if not isc(r.step) or r.step == 0:
            raise Unsupported("range step")
        if not isinstance(node.target, ast.Name):
            raise Unsupported("range loop target")
        if ann is None:
            raise Unsupported(f"loop {k} at line {node.lineno} has no invariant")
        name = node.target.id
        hid = f"$i{k}"
        s = st.copy()
        s.vars[hid] = r.start
        s.vars[name] = r.start     # in invariants the loop variable denotes the next value

        def more(x):
            return th.lt(x, r.stop) if r.step > 0 else th.lt(r.stop, x)

        def head(sx):
            x = sx.vars[hid]
            sx = sx.copy()
            sx.vars[name] = x
            return sx

        def advance(sx):
            sx = sx.copy()
            x = th.add(sx.vars[hid], r.step)
            sx.vars[hid] = x
            sx.vars[name] = x
            return sx
        # standing fact about the hidden counter
        def standing(sx):
            x = sx.vars[hid]
            if r.step == 1:
                return land(th.le(r.start, x), lor(th.le(x, r.stop), th.eq(x, r.start)))
            if r.step == -1:
                return land(th.le(x, r.start), lor(th.le(r.stop, x), th.eq(x, r.start)))
            d = th.sub(x, r.start) if r.step > 0 else th.sub(r.start, x)
            a = abs(r.step)
            bound = lor(th.lt(th.sub(x, a), r.stop) if r.step > 0 else th.lt(r.stop, th.add(x, a)), th.eq(x, r.start))
            return land(th.le(0, d), th.eq(th.mod(d, a), 0), bound)

        yield from self.cut_loop(node, s, fr, ann, k, test=more, hidden=(hid, name), pre=head, post=advance,
                                 standing=standing, hid=hid, loopvar=name)

    def for_seq(self, node, it, st, fr):
        th = self.th
        ann, k = self.loop_annotation(node, fr)
        if ann is None:
            raise Unsupported(f"loop {k} at line {node.lineno} has no invariant")
        seq = self.seq_of(st, it)
        hid = f"$i{k}"
        s = st.copy()
        s.vars[hid] = 0
        s.vars["_k"] = 0

        def more(x):
            return th.lt(x, seq.length())

        def head(sx):
            x = sx.vars[hid]
            sx = sx.copy()
            v = self.seq_get(sx, seq, x, NOCTX)
            self.bind(node.target, v, sx, fr)
            return sx

        def advance(sx):
            if isinstance(it, Ref) and sx.heap[it.id].seq is not seq:
                raise Unsupported("list changed while iterating over it")
            sx = sx.copy()
            sx.vars[hid] = th.add(sx.vars[hid], 1)
            sx.vars["_k"] = sx.vars[hid]
            return sx

        def standing(sx):
            x = sx.vars[hid]
            return land(th.le(0, x), th.le(x, seq.length()))
        yield from self.cut_loop(node, s, fr, ann, k, test=more, hidden=(hid, "_k"), pre=head, post=advance,
                                 standing=standing, hid=hid, loopvar=None)

    def for_gen(self, node, gen, st, fr):
        """a loop over a generator, by the generator's contract: each value satisfies its yield clauses, its ghost state
        (it_<name> in the invariants) is updated as the contract says, and its postcondition holds when it is exhausted"""
        from .spec import SpecEnv
        th = self.th
        con, y = gen.con, gen.con.yields
        ann, k = self.loop_annotation(node, fr)
        if ann is None:
            raise Unsupported(f"loop {k} at line {node.lineno} has no invariant")
        if y.out is None:
            raise Unsupported(f"the contract of {gen.fi.qualname} does not give the type of what it yields")
        used = {n.id for e in y.asserts + list(y.update.values()) + list(y.init.values()) for n in ast.walk(ast.parse(e, mode="eval")) if isinstance(n, ast.Name)}
        if used & self.assigned(gen.fi.node.body):
            raise Unsupported(f"the yield clauses of {gen.fi.qualname} mention variables it assigns")
        names = {g: "it_" + g for g in y.update}
        if any(v in st.ghosts for v in names.values()):
            raise Unsupported("nested loops over generators with the same ghost names")
        reach, todo = set(), [v for v in gen.vs.values() if isinstance(v, Ref)]
        while todo:
            r = todo.pop()
            if r.id in reach:
                continue
            reach.add(r.id)
            e = st.heap[r.id]
            if isinstance(e, ObjE):
                todo += [f for f in e.fields.values() if isinstance(f, Ref)]

        def genv(sx, **kw):
            e = SpecEnv(self, sx, old=st, params=gen.vs, contract=con, caller=self.contract, **kw)
            e.loc = {g: sx.ghosts[v] for g, v in names.items() if v in sx.ghosts}
            return e
        s = st.copy()
        init = {v: genv(st).value(y.init[g]) for g, v in names.items()}
        s.ghosts.update(init)
        hid = f"$i{k}"
        s.vars[hid] = 0
        cell = []

        def untouched(sx):
            if any(sx.heap[i] is not gen.heap[i] for i in reach):
                raise Unsupported(f"state the generator {gen.fi.qualname} reads changes while it is iterated over")

        def head(sx):
            sx = sx.copy()
            out = self.make(sx, y.out, f"out!{k}!{self.fid()}")
            e = genv(sx, out=out)
            sx = sx.assume(*[zb(e.bool(a)) for a in y.asserts if not self.skip_clause(con, a, e)])
            new = {v: e.value(y.update[g]) for g, v in names.items()}
            sx.ghosts.update(new)
            self.bind(node.target, out, sx, fr)
            return sx

        def standing(sx):
            b = self.fresh_bool("more")
            cell[:] = [b]
            e = genv(sx)
            return z3.Implies(z3.Not(b), zb(land(*[zb(e.bool(c)) for c in con.ensures if not self.skip_clause(con, c, e)])))

        def advance(sx):
            untouched(sx)
            return sx
        for s1, kind, v in self.cut_loop(node, s, fr, ann, k, test=lambda x: cell[0], hidden=(hid,), pre=head, post=advance,
                                         standing=standing, hid=hid, loopvar=None, ghosts=list(names.values())):
            s1 = s1.copy()
            for g in names.values():
                s1.ghosts.pop(g, None)
            yield s1, kind, v

    def cut_loop(self, node, st, fr, ann, k, test, hidden, pre, post, standing=None, hid=None, loopvar=None, ghosts=()):
        label = f"loop {k} (line {node.lineno})"
        if "dict" in ann.types:     # mappings that are still empty become environments of eval
            st = st.copy()
            for i, e in st.heap.items():
                if isinstance(e, DictE) and e.d is not None and not e.d and i not in st.heap.frozen:
                    st.heap[i] = EnvE(self.empty_env())
        if "elem" in ann.types:
            st = st.copy()      # lists that are still empty get the element type the loop is annotated with
            for i, e in st.heap.items():
                if isinstance(e, ListE) and e.seq.items is not None and not e.seq.items and i not in st.heap.frozen:
                    st.heap[i] = ListE(Seq("list", items=[], elem=ann.types["elem"]))
        env = self.env(st, fr, loop_entry=st)
        st = self.apply_hints(ann.hints, st, fr, st)
        env = self.env(st, fr, loop_entry=st)
        for i, inv in enumerate(ann.inv):
            self.oblige(st, env.bool(inv), f"{label}: invariant established: {inv}", node)
        names = self.assigned(node.body)
        if isinstance(node, ast.For):
            for n in ast.walk(node.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        if isinstance(node, ast.While):
            names |= {n.target.id for n in ast.walk(node.test) if isinstance(n, ast.NamedExpr)}
        mod_heap = set()
        for attempt in range(12):
            n0 = len(self.obls)
            h = self.havoc_loop(st, names - set(hidden), mod_heap, ann, [x for x in hidden if x == hid], ghosts)
            if hid is not None:
                x = h.vars[hid]
                if loopvar:
                    h.vars[loopvar] = x
                elif "_k" in hidden:
                    h.vars["_k"] = x
            facts = []
            if standing is not None:
                facts.append(zb(standing(h)))
            h = h.assume(*facts)
            env = self.env(h, fr, loop_entry=st)
            h = h.assume(*[zb(env.bool(inv)) for inv in ann.inv])
            h = self.apply_hints(ann.hints, h, fr, st)
            exits, back, changed = [], [], set()
            # decide the test
            outs = []
            if callable(test):
                t = test(h.vars[hid])
                outs.append((h, t))
            else:
                for s1, v in self.ev(test, h, fr):
                    outs.append((s1, self.truth(s1, v)))
            for s1, t in outs:
                if t is not True:
                    s2 = s1.assume(lnot(t)) if t is not False else s1
                    if t is False or self.feasible(s2):
                        exits.append((s2, "exit", None))
                if t is not False:
                    s2 = s1.assume(t) if t is not True else s1
                    if t is True or self.feasible(s2):
                        headst = s2
                        if pre is not None:
                            s2 = pre(s2)
                        d0 = None
                        if ann.dec is not None:
                            d0 = self.env(h if pre is None else s2, fr, loop_entry=st).value(ann.dec)     # before the test, which may have effects
                        for s3, kind, v in self.ex_block(node.body, s2, fr):
                            changed |= self.heap_changes(h, s3)
                            if kind in ("next", "continue"):
                                back.append((s3, d0))
                            elif kind == "break":
                                exits.append((s3, "break", None))
                            else:
                                exits.append((s3, kind, v))
            changed = {c for c in changed if c[0] in st.heap}
            if changed <= mod_heap:
                break
            mod_heap |= changed
            del self.obls[n0:]
        else:
            raise Unsupported("loop effects do not stabilise")
        for s3, d0 in back:
            s4 = post(s3) if post is not None else s3
            s4 = self.apply_hints(ann.end_hints, s4, fr, st)
            env = self.env(s4, fr, loop_entry=st)
            for inv in ann.inv:
                self.oblige(s4, env.bool(inv), f"{label}: invariant preserved: {inv}", node)
            if ann.dec is not None:
                d1 = env.value(ann.dec)
                self.oblige(s4, zb(land(self.th.le(0, d0), self.th.lt(d1, d0))), f"{label}: measure decreases: {ann.dec}", node)
            elif isinstance(node, ast.While):
                self.oblige(s4, z3.BoolVal(False), f"{label}: no measure given", node)
        for s5, kind, v in exits:
            if kind == "exit":
                s5 = s5.copy()
                if loopvar:
                    # after the loop the variable holds the last value, if there was an iteration
                    s5.vars[loopvar] = UNDEF
                s5 = self.apply_hints(ann.exit_hints, s5, fr, st)
                if isinstance(node, ast.While) and node.orelse:
                    yield from self.ex_block(node.orelse, s5, fr)
                else:
                    yield s5, "next", None
            elif kind == "break":
                s5 = self.apply_hints(ann.exit_hints, s5, fr, st)
                yield s5, "next", None
            else:
                yield s5, kind, v

    def apply_hints(self, hints, s, fr, loop_entry=None, result=None, has_result=False):
        if not hints:
            return s
        facts = []
        kw = {"result": result} if has_result else {}
        env = self.env(s, fr, loop_entry=loop_entry, **kw)
        for h in hints:
            try:
                facts += env.hint(h)
            except Unsupported:
                continue     # a hint only helps the solver; skipping it is sound
        return s.assume(*[zb(f) for f in facts]) if facts else s

    # ------------------------------------------------------------------ verifying one function
    def run(self):
        c = self.contract
        fi = find_func(c.module, c.qualname)
        self.fi = fi
        st = State()
        fr = Frame(fi, c, None, 0)
        params = dict(c.params)
        params.update(self.case.get("params", {}))
        for u, (ar, rng) in c.ufs.items():
            self.ufs[u] = z3.Function(u, *([self.th.sort] * ar), self.th.sort if rng == "int" else (z3.BoolSort() if rng == "bool" else ValSort))
        allargs = fi.node.args
        names = [p.arg for p in allargs.posonlyargs + allargs.args + allargs.kwonlyargs]
        defaults = dict(zip(names[len(names) - len(allargs.defaults):], allargs.defaults))
        missing = [p for p in params if p not in names and p not in (allargs.kwarg.arg if allargs.kwarg else "",)]
        cnames = list(params)
        if missing:
            # parameters may have been renamed: match by position when the number agrees
            if len([p for p in cnames]) == len(names):
                ren = dict(zip(cnames, names))
                self.name_map.update({a: b for a, b in ren.items() if a != b})
                params = {ren[p]: t for p, t in params.items()}
            else:
                raise Unsupported(f"parameters {missing} of the contract not found in {fi.key}")
        late = []
        for n in names:
            ty = params.get(n)
            if ty is None:
                if n in defaults:
                    for _, v in self.ev(defaults[n], State(), fr):
                        st.vars[n] = v
                    continue
                raise Unsupported(f"parameter {n} of {fi.key} has no type in the contract")
            if isinstance(ty, tuple) and ty[0] == "alias":
                late.append((n, ty[1]))
                continue
            st.vars[n] = self.make(st, ty, n)
        for n, src in late:
            parts = src.split(".")
            v = st.vars[parts[0]]
            for f in parts[1:]:
                v = st.heap[v.id].fields[f]
            st.vars[n] = v
        if allargs.kwarg:
            ty = params.get(allargs.kwarg.arg)
            st.vars[allargs.kwarg.arg] = self.make(st, ty, allargs.kwarg.arg) if ty else PyObj({})
        self.ghost_vals = {}
        for g, ty in c.ghosts.items():
            if isinstance(ty, tuple) and ty[0] == "lambda":
                continue
            v = self.make(st, ty, "ghost_" + g)
            self.ghost_vals[g] = v
        for g, ty in c.globals.items():
            self.globals_vals[g] = st.vars[self.name_map.get(ty[1], ty[1])] if isinstance(ty, tuple) and ty[0] == "alias" else self.make(st, ty, g)
        st.ghosts = {}
        self.param_names = names
        self.plan_cuts(fi.node)
        self.entry = st
        env = self.env(st, fr)
        st = st.assume(*[zb(env.bool(r)) for r in c.requires + self.case.get("requires", [])])
        self.entry = st
        if c.yields is not None:
            for g, e in c.yields.init.items():
                st = st.copy()
                st.ghosts[g] = self.env(st, fr).value(e)
            self.entry = st
        # vacuity: the precondition must be satisfiable
        self.obls.append(Obligation(self.fname, self.casename(), "cover: precondition satisfiable", fi.node.lineno,
                                    st.pc, z3.BoolVal(False), "cover"))
        st = self.apply_hints(c.entry_hints, st, fr)
        nexit = 0
        for s, kind, v in self.ex_block(fi.node.body, st, fr):
            if kind == "raise":
                if c.raises is not None:
                    env = self.env(s, fr)
                    cond = c.raises.get(v)
                    self.oblige(s, env.bool(cond) if cond else z3.BoolVal(False), f"exception {v} only when allowed", fi.node)
                else:
                    self.oblige(s, z3.BoolVal(False), f"no exception {v}", fi.node)
                continue
            if kind in ("break", "continue"):
                raise Unsupported("break outside a loop")
            nexit += 1
            res = v if kind == "return" else None
            s = self.apply_hints(c.hints, s, fr, result=res, has_result=True)
            env = self.env(s, fr, result=res)
            for e in c.ensures + self.case.get("ensures", []):
                try:
                    goal = env.bool(e)
                except Unsupported:
                    if res is not None:
                        raise
                    goal = z3.BoolVal(False)    # the clause speaks of a value: this exit must be unreachable
                self.oblige(s, goal, f"postcondition: {e}", fi.node)
                if z3.is_quantifier(goal) or z3.is_and(goal) and has_quant(goal):
                    s = s.assume(goal)      # an obligation of its own; later clauses may use it
            if c.result is not None and isinstance(c.result, str) and c.result in st.vars:
                same = isinstance(res, Ref) and isinstance(st.vars[c.result], Ref) and res.id == st.vars[c.result].id
                self.oblige(s, z3.BoolVal(True) if same else z3.BoolVal(False), f"returns {c.result}", fi.node)
            if isinstance(c.result, tuple) and c.result[0] == "element" and res is not None:
                q = self.seq_of(s, env.value(c.result[1]))
                if not (isinstance(res, Rec) and res.seq is q):
                    raise Unsupported("result is not an element of the list of records")
                self.oblige(s, zb(land(self.th.le(0, res.i), self.th.lt(res.i, q.length()))), f"returns an element of {c.result[1]}", fi.node)
            if c.value is not None:
                self.oblige(s, self.veq(s, res, env.value(c.value)), f"result == {c.value}", fi.node)
            self.frame_obligations(s, res, fi)
        self.nexit = nexit
        self.exit_paths = nexit
        if nexit == 0:
            self.oblige(st, z3.BoolVal(False), "function has a normal exit", fi.node)
        if c.yields is not None and self.yield_count == 0:
            self.oblige(st, z3.BoolVal(False), "generator yields somewhere", fi.node)
        return self.obls

    def self_id(self, ent, fi):
        """the object a constructor sets up"""
        v = ent.vars.get(fi.node.args.args[0].arg) if fi.node.args.args else None
        return v.id if isinstance(v, Ref) else None

    def frame_obligations(self, s, res, fi):
        ent = self.entry
        allowed = set()
        allowed_lists = set()
        inv = {v: k for k, v in self.name_map.items()}
        for m in list(self.contract.modifies) + list(self.contract.creates):
            parts = m.split(".")
            v = ent.vars.get(self.name_map.get(parts[0], parts[0]), self.globals_vals.get(parts[0], self.ghost_vals.get(parts[0])))
            for p in parts[1:-1]:
                v = ent.heap[v.id].fields[p]
            if len(parts) > 1:
                allowed.add((v.id, parts[-1]))
                f = ent.heap[v.id].fields.get(parts[-1])
                if isinstance(f, Ref):
                    allowed_lists.add(f.id)
            else:
                allowed_lists.add(v.id)
        for i, e in ent.heap.items():
            n = s.heap[i]
            if n is e:
                continue
            if isinstance(e, ObjE):
                for k in set(e.fields) | set(n.fields):
                    if (i, k) in allowed or k not in e.fields and fi.node.name == "__init__" and i == self.self_id(ent, fi):
                        continue
                    a, b = e.fields.get(k, UNDEF), n.fields.get(k, UNDEF)
                    if a is b or isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
                        continue
                    try:
                        g = zb(self.veq(s, a, b)) if not isinstance(a, Ref) else z3.BoolVal(False)
                    except Unsupported:
                        g = z3.BoolVal(False)
                    self.oblige(s, g, f"frame: attribute {k} unchanged", fi.node)
            elif isinstance(e, ListE):
                if i in allowed_lists or n.seq is e.seq:
                    continue
                self.oblige(s, zb(self.seq_eq(s, e.seq, n.seq)), "frame: list unchanged", fi.node)
            elif i not in allowed_lists:
                self.oblige(s, z3.BoolVal(False), "frame: mapping unchanged", fi.node)
        # attributes the contract creates exist and have the type callers are told
        for m, ty in self.contract.creates.items():
            parts = m.split(".")
            v = ent.vars.get(self.name_map.get(parts[0], parts[0]), self.globals_vals.get(parts[0]))
            for p in parts[1:-1]:
                v = s.heap[v.id].fields[p]
            f = s.heap[v.id].fields
            if parts[-1] not in f:
                self.oblige(s, z3.BoolVal(False), f"attribute {m} is set", fi.node)
            elif ty is not None and not (isinstance(ty, tuple) and ty[0] == "alias"):
                self.oblige(s, z3.BoolVal(self.fits(ty, f[parts[-1]], s)), f"attribute {m} is of type {ty}", fi.node)
        # ownership: no list is reachable from two owners
        owners = {}
        roots = []
        for p, v in ent.vars.items():
            if isinstance(v, Ref):
                roots.append((p, v))
        if isinstance(res, Ref):
            roots.append(("result", res))
        seen_obj = set()
        bad = []
        for p, v in roots:
            e = s.heap[v.id]
            if isinstance(e, ObjE):
                if v.id in seen_obj:
                    continue
                seen_obj.add(v.id)
                for k, f in e.fields.items():
                    if isinstance(f, Ref) and isinstance(s.heap[f.id], ListE):
                        if f.id in owners and owners[f.id] != (v.id, k):
                            bad.append((p, k))
                        owners[f.id] = (v.id, k)
            elif isinstance(e, ListE):
                if v.id in owners and owners[v.id] != ("list", v.id) and p not in self.contract.allow_share:
                    bad.append((p, ""))
                owners[v.id] = ("list", v.id)
        if any(isinstance(s.heap[v.id], ObjE) for _, v in roots):
            self.oblige(s, z3.BoolVal(False) if bad else True, f"no storage shared between distinct owners {bad if bad else ''}", fi.node)
