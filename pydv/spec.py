"""Specification language: Python expressions evaluated purely over symbolic states, spec functions and lemmas."""
import ast
import inspect
import re
import sys
import textwrap
import z3

from .theory import Unsupported, NOCTX, IntTheory, BVTheory, isc
from .values import *
from .engine import land, lor, lnot, zb, State, Engine, Contract


class SpecFn:
    def __init__(self, fn, rec, prefix):
        self.fn, self.rec, self.prefix = fn, rec, prefix
        src = textwrap.dedent(inspect.getsource(fn))
        self.node = next(n for n in ast.parse(src).body if isinstance(n, ast.FunctionDef))
        self.name = self.node.name
        self.params = [a.arg for a in self.node.args.args]
        self.types = [a.annotation.id if isinstance(a.annotation, ast.Name) else "int" for a in self.node.args.args]
        self.ret = self.node.returns.id if isinstance(self.node.returns, ast.Name) else "int"


class Lemma:
    def __init__(self, name, params, requires, ensures, induct=None, uses=(), theory="int", gen=()):
        self.name, self.params, self.requires, self.ensures = name, params, list(requires), list(ensures)
        self.induct, self.uses, self.theory, self.gen = induct, list(uses), theory, list(gen)


class Specs:
    """registry of spec functions and lemmas"""
    def __init__(self):
        self.fns, self.lemmas, self.decls = {}, {}, {}

    def fn(self, f=None, rec=False, prefix=False):
        def deco(g):
            self.fns[g.__name__] = SpecFn(g, rec, prefix)
            return g
        return deco(f) if f is not None else deco

    def lemma(self, *a, **k):
        l = Lemma(*a, **k)
        self.lemmas[l.name] = l
        return l

    def sort_of(self, ty, th):
        return {"int": th.sort, "Arr": z3.ArraySort(th.sort, th.sort), "bool": z3.BoolSort(), "str": ValSort,
                "StrArr": z3.ArraySort(th.sort, ValSort)}[ty]

    def decl(self, sf, th):
        key = (sf.name, th.name)
        if key not in self.decls:
            self.decls[key] = z3.Function(sf.name, *[self.sort_of(t, th) for t in sf.types], self.sort_of(sf.ret, th))
        return self.decls[key]


SPECS = Specs()


@SPECS.fn(rec=True)
def shl(a, b):
    """a << b for a symbolic count: doubling b times"""
    return a if b <= 0 else 2 * shl(a, b - 1)


class PureEngine(Engine):
    """an engine used only for its operators (lemmas)"""
    def __init__(self, theory):
        super().__init__(Contract("x:y", theory=theory), {}, specs=SPECS)
        self.ghost_vals = {}
        self.entry = State()


class SpecEnv:
    def __init__(self, eng, st, old=None, params=None, contract=None, caller=None, frame=None, loop_entry=None, loc=None,
                 **kw):
        self.eng, self.st, self.old_st, self.params, self.contract = eng, st, old, params, contract
        self.caller, self.frame, self.loop_entry = caller, frame, loop_entry
        self.loc = loc or {}
        self.kw = kw
        self.th = eng.th

    def sub(self, **ch):
        e = SpecEnv(self.eng, self.st, self.old_st, self.params, self.contract, self.caller, self.frame, self.loop_entry, dict(self.loc), **self.kw)
        for k, v in ch.items():
            setattr(e, k, v)
        return e

    # ---- entry points
    _cache = {}

    def parse(self, text):
        if text not in self._cache:
            self._cache[text] = ast.parse(text.strip(), mode="eval").body
        return self._cache[text]

    def value(self, text):
        return self.ev(self.parse(text))

    def bool(self, text):
        return self.eng.truth(self.st, self.value(text))

    def hint(self, text):
        node = self.parse(text)
        if not (isinstance(node, ast.Call) and isinstance(node.func, ast.Name)):
            raise Unsupported("hint " + text)
        lem = SPECS.lemmas.get(node.func.id)
        if lem is None:
            raise Unsupported("unknown lemma " + node.func.id)
        vals = [self.ev(a) for a in node.args]
        vals = [self.eng.to_arr(self.eng.seq_of(self.st, v))[0] if ty in ("Arr", "StrArr") and not isinstance(v, z3.ExprRef) else v
                for v, ty in zip(vals, lem.params.values())]
        return lemma_instance(self.eng, lem, vals)

    def frozen(self, v, st):
        """a value as it stood in an earlier state"""
        if not isinstance(v, Ref):
            return v
        e = st.heap[v.id]
        if isinstance(e, ListE):
            return e.seq.copy_as(e.seq.kind)
        if self.st.heap.get(v.id) is not e or any(isinstance(f, Ref) and self.st.heap.get(f.id) is not st.heap[f.id] for f in getattr(e, "fields", {}).values()):
            raise Unsupported("old() of an object that has changed")
        return v

    # ---- names
    def name(self, n):
        if n in self.loc:
            return self.loc[n]
        if n in self.kw and n in ("result", "out"):
            return self.kw[n]
        eng = self.eng
        if self.params is not None:
            if n in self.params:
                return self.params[n]
            if n in self.contract.ghosts and n in eng.ghost_vals:
                return eng.ghost_vals[n]
        else:
            if n in self.st.ghosts:
                return self.st.ghosts[n]
            if n in eng.ghost_vals:
                return eng.ghost_vals[n]
            m = eng.name_map.get(n, n)
            if "result" in self.kw and eng.entry is not None:
                if m in eng.entry.vars:
                    return eng.entry.vars[m]
            if m in self.st.vars:
                v = self.st.vars[m]
                if v is UNDEF:
                    raise Unsupported(f"specification uses {n}, which is undefined here")
                return v
            for vs in reversed(self.st.stack):
                if m in vs:
                    return vs[m]
        if n in eng.ufs:
            return UF(n, eng.ufs[n])
        if self.contract is not None and n in self.contract.ufs:
            ar, rng = self.contract.ufs[n]
            th = eng.th
            eng.ufs[n] = z3.Function(n, *([th.sort] * ar), th.sort if rng == "int" else z3.BoolSort() if rng == "bool" else ValSort)
            return UF(n, eng.ufs[n])
        if n in eng.globals_vals:
            return eng.globals_vals[n]
        if self.contract is not None and not isinstance(eng, PureEngine):
            v = getattr(sys.modules.get(self.contract.module), n, None)
            if isinstance(v, re.Pattern):
                return PyObj(v)
        raise Unsupported(f"unknown name {n} in a specification")

    # ---- evaluation
    def ev(self, node):
        m = getattr(self, "s_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"specification construct {type(node).__name__}")
        return m(node)

    def s_Constant(self, node):
        if isinstance(node.value, bytes):
            return Seq("bytes", items=list(node.value))
        return self.eng.wrap(node.value)

    def s_Name(self, node):
        return self.name(node.id)

    def s_Tuple(self, node):
        return Seq("tuple", items=[self.ev(e) for e in node.elts])

    def s_List(self, node):
        return Seq("list", items=[self.ev(e) for e in node.elts])

    def s_JoinedStr(self, node):
        ps = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                ps.append(("c", v.value))
            else:
                sp = "".join(x.value for x in v.format_spec.values) if v.format_spec else ""
                x = self.ev(v.value)
                if isc(x):
                    ps.append(("c", format(x, sp)))
                elif isinstance(x, Str) and not sp:
                    ps += list(x.pieces)
                else:
                    ps.append(("fmt", sp, x))
        return Str(ps)

    def s_UnaryOp(self, node):
        v = self.ev(node.operand)
        if isinstance(node.op, ast.Not):
            return lnot(self.eng.truth(self.st, v))
        if isinstance(node.op, ast.USub):
            return -v if is_real(v) else self.th.neg(v)
        if isinstance(node.op, ast.Invert):
            return self.th.inv(v)
        return v

    def s_BinOp(self, node):
        a, b = self.ev(node.left), self.ev(node.right)
        st, v = self.eng.binop(node.op, a, b, self.st, NOCTX)
        if st is not self.st:
            raise Unsupported("sequence construction in a specification")
        return v

    def s_BoolOp(self, node):
        isand = isinstance(node.op, ast.And)
        out = []
        for v in node.values:
            t = self.eng.truth(self.st, self.ev(v))
            if t is (not isand):
                return not isand
            out.append(t)
        return land(*out) if isand else lor(*out)

    def s_Compare(self, node):
        left = self.ev(node.left)
        acc = []
        for op, rn in zip(node.ops, node.comparators):
            r = self.ev(rn)
            if isinstance(op, (ast.Eq, ast.NotEq)):
                t = self.eng.veq(self.st, left, r)
                acc.append(t if isinstance(op, ast.Eq) else lnot(t))
            else:
                outs = list(self.eng.compare(op, left, r, self.st, self.frame, node))
                if len(outs) != 1:
                    raise Unsupported("forking comparison in a specification")
                acc.append(self.eng.truth(self.st, outs[0][1]))
            left = r
        return land(*acc)

    def s_IfExp(self, node):
        t = self.eng.truth(self.st, self.ev(node.test))
        if isinstance(t, bool):
            return self.ev(node.body if t else node.orelse)
        return self.ite(t, self.ev(node.body), self.ev(node.orelse))

    def ite(self, t, a, b):
        if isinstance(t, bool):
            return a if t else b
        if is_bool(a) and is_bool(b):
            return z3.If(t, zb(a), zb(b))
        if is_int(a) and is_int(b):
            return z3.If(t, self.th.z(a), self.th.z(b))
        if is_real(a) or is_real(b):
            return z3.If(t, self.eng.real(a), self.eng.real(b))
        if isinstance(a, (Opaque, Str)) and isinstance(b, (Opaque, Str)):
            ta = self.eng.rope_term(a) if isinstance(a, Str) else a.term
            tb = self.eng.rope_term(b) if isinstance(b, Str) else b.term
            return Str([("atom", z3.If(t, ta, tb))])
        if isinstance(a, Seq) and isinstance(b, Seq) and a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return Seq(a.kind, items=[self.ite(t, x, y) for x, y in zip(a.items, b.items)], elem=a.elem)
        raise Unsupported("conditional specification value")

    def s_Subscript(self, node):
        c = self.ev(node.value)
        if isinstance(node.slice, ast.Slice):
            raise Unsupported("slice in a specification")
        i = self.ev(node.slice)
        if isinstance(c, PyObj) and isinstance(c.v, dict):
            return self.eng.wrap(c.v[i])
        if isinstance(c, Ref) and isinstance(self.st.heap.get(c.id), DictE):
            e = self.st.heap[c.id]
            if e.d is not None:
                return e.d[i.const() if isinstance(i, Str) else i]
            return e.value(self.eng.val_term(i))
        if isinstance(c, TableV):
            return Str([("atom", c.get(self.eng.val_term(i)))])
        if isinstance(c, z3.ExprRef):
            t = z3.Select(c, self.th.z(i))
            return Str([("atom", t)]) if t.sort() == ValSort else t
        seq = self.eng.seq_of(self.st, c)
        if seq.items is not None and isc(i):
            if not -len(seq.items) <= i < len(seq.items):
                return self.th.fresh("outside")      # any value at all
            x = seq.items[i]
            return self.eng.elem_value(x, "chr") if seq.kind == "str" else x
        if isc(i) and i < 0:
            i = self.th.sub(seq.length(), -i)
        if seq.elem == "rec":
            return Rec(seq, i)
        if seq.fn is not None:
            return seq.fn(i)
        arr, _ = self.eng.to_arr(seq)
        t = z3.Select(arr, self.th.z(i))
        if seq.elem in ("chr",):
            return t
        return self.eng.elem_value(t, seq.elem) if seq.elem != "int" else t

    def s_Attribute(self, node):
        o = self.ev(node.value)
        return self.eng.getattr(o, node.attr, self.st, self.frame, node)

    def s_Lambda(self, node):
        raise Unsupported("lambda outside a quantifier")

    def s_Call(self, node):
        if not isinstance(node.func, ast.Name):
            raise Unsupported("call in a specification")
        f = node.func.id
        th = self.th
        if f in ("forall", "exists"):
            lam = node.args[0]
            names = [a.arg for a in lam.args.args]
            vs = [z3.FreshConst(th.sort, n) for n in names]
            e = self.sub()
            e.loc.update(dict(zip(names, vs)))
            body = zb(e.eng.truth(self.st, e.ev(lam.body)))
            pats = []
            for kw in node.keywords:
                if kw.arg == "pat":
                    elts = kw.value.elts if isinstance(kw.value, ast.Tuple) else [kw.value]
                    ts = [self.eng.val_term(t) if isinstance(t, (Opaque, Str)) else t for t in map(e.ev, elts)]
                    ts = [usable_pattern(t, vs) for t in ts]
                    if all(t is not None for t in ts) and all(any(v.get_id() in set(all_ids(t)) for t in ts) for v in vs):
                        pats = [z3.MultiPattern(*ts)] if len(ts) > 1 else [ts[0]]
            if not pats and not any(kw.arg == "pat" for kw in node.keywords):
                pats = self.auto_patterns(body, vs)
            if f == "exists":
                return z3.Exists(vs, body)
            try:
                return z3.ForAll(vs, body, patterns=pats)
            except z3.Z3Exception:
                return z3.ForAll(vs, body)
        if f == "old":
            e = self.sub(st=self.old_st)
            if self.params is None:
                e.kw = dict(self.kw)
                e.kw["result"] = None   # names denote entry values
            return self.frozen(e.ev(node.args[0]), e.st)
        if f == "pre":
            if self.loop_entry is None:
                raise Unsupported("pre() outside a loop")
            return self.frozen(self.sub(st=self.loop_entry).ev(node.args[0]), self.loop_entry)
        if f == "cur":
            kw = dict(self.kw)
            kw.pop("result", None)
            return self.sub(kw=kw).ev(node.args[0])
        if f == "implies":
            a = self.eng.truth(self.st, self.ev(node.args[0]))
            if a is False:
                return True
            b = self.eng.truth(self.st, self.ev(node.args[1]))
            if a is True:
                return b
            return z3.Implies(a, zb(b))
        if f == "iff":
            a, b = [self.eng.truth(self.st, self.ev(x)) for x in node.args]
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return zb(a) == zb(b)
        if f == "is_none":
            v = self.ev(node.args[0])
            return v is None
        if f == "is_seq":
            v = self.ev(node.args[0])
            return isinstance(v, (Seq, Str))
        if f == "same":
            a, b = [self.ev(x) for x in node.args]
            return isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id
        if f == "has":
            d, k = [self.ev(x) for x in node.args]
            return (d if isinstance(d, TableV) else self.st.heap[d.id]).has(self.eng.val_term(k))
        if f == "atom":
            # abstract string function application: atom("name", args...)
            nm = node.args[0].value
            ts = [self.eng.val_term(self.ev(x)) for x in node.args[1:]]
            return Str([("atom", z3.Function(nm, *[ValSort] * len(ts), ValSort)(*ts))])
        args = [self.ev(a) for a in node.args]
        sf = SPECS.fns.get(f)
        if sf is not None:
            return self.apply(sf, args)
        if f == "len":
            x = args[0]
            if isinstance(x, VRange):
                d = th.sub(x.stop, x.start)
                return z3.If(zb(th.lt(0, d)), th.z(d), th.z(0))
            if isinstance(x, Ref) and isinstance(self.st.heap.get(x.id), DictE) and self.st.heap[x.id].d is not None:
                return len(self.st.heap[x.id].d)
            if isinstance(x, Str) and x.codes() is None:
                return self.eng.str_len(x)
            return self.eng.seq_of(self.st, x).length()
        if f == "index_of":      # python's str.index, in, and the tail from an index
            return self.eng.str_index(*args)
        if f == "has_text":
            return self.eng.str_has(*args)
        if f == "text_from":
            return self.eng.str_tail(*args)
        if f in ("named", "one_to_one"):    # dictionaries of names, compared loosely (UAX #44)
            d = self.names_of(args[0])
            def loose(v):
                return v.lower().replace("_", "").replace(" ", "").replace("-", "")
            if f == "named":
                return args[1] in d and loose(d[args[1]]) in [loose(a.const()) for a in args[2:]]
            return len({loose(v) for v in d.values()}) == len(d)
        if f == "text_method":   # what a method of texts gives
            return self.eng.str_function(args[0].const(), args[1], args[2:])
        if f == "call_of":       # a function value of texts
            return args[0](self.eng.val_term(args[1]))
        if f == "text_init":     # text[:-k]
            return self.eng.str_init(args[0], -args[1])
        if f in ("found", "nfound"):     # re.findall(pattern, text, flags)
            arr, n = self.eng.str_matches(args[0], args[1], args[2])
            return n if f == "nfound" else Str([("atom", arr[th.z(args[3])])])
        if f in ("path_join", "path_name", "compiled"):      # directory / text, path.name, re.compile(text)
            return getattr(self.eng, f)(*args)
        if f == "searched":      # pattern.search(text), the bounds of a group; pattern.fullmatch(text)
            return self.eng.re_search("search", args[0], args[1])
        if f == "fully":
            return self.eng.re_search("fullmatch", args[0], args[1])
        if f in ("group_start", "group_end"):
            return self.eng.re_bound(f[6:], "search", *args)
        if f == "ngroups":       # pattern.findall(text)
            return self.eng.re_count(*args)
        if f == "group":
            return self.eng.re_group(*args)
        if f == "text_slice":
            return self.eng.str_slice(*args)
        if f in ("evaluate", "evaluates"):      # eval(text, variables)
            return self.eng.evaluate(args[0], self.eng.env_term(self.st, args[1]))[f == "evaluates"]
        if f == "bind":
            return Opaque(self.eng.env_bind(self.eng.env_term(self.st, args[0]), args[1], args[2]))
        if f == "no_names":
            return Opaque(self.eng.empty_env())
        if f in ("key_of", "nkeys"):     # the keys of a mapping, in its order
            keys, n, _ = self.eng.key_order(self.st.heap[args[0].id])
            return n if f == "nkeys" else Str([("atom", keys[th.z(args[1])])])
        if f == "nparts":        # text.split(sep)
            return self.eng.str_parts(*args)[1]
        if f == "join_of":
            q = self.eng.seq_of(self.st, args[1])
            return Str([("atom", self.eng.str_join(args[0].const(), self.eng.to_arr(q)[0], q.length()))])
        if f == "part":
            return Str([("atom", self.eng.str_parts(*args[:2])[0][th.z(args[2])])])
        if f in ("number", "is_number"):    # int(text, base)
            return self.eng.str_number(*args)[f == "is_number"]
        if f in ("evaluated", "is_evaluated"):
            return self.eng.str_eval(*args)[f == "is_evaluated"]
        if f == "chr":
            return Str([("chr", args[0])])
        if f == "cat":
            return Str(sum([list(x.pieces) for x in args], []))
        if f == "code":
            x = args[0]
            if is_int(x):
                return x
            c = x.codes() if isinstance(x, Str) else None
            if c is None or len(c) != 1:
                raise Unsupported("code()")
            return c[0]
        if f in ("min", "max"):
            r = args[0]
            for x in args[1:]:
                if isc(r) and isc(x):
                    r = min(r, x) if f == "min" else max(r, x)
                else:
                    r = z3.If(zb(th.le(r, x)), th.z(r if f == "min" else x), th.z(x if f == "min" else r))
            return r
        if f == "abs":
            x = args[0]
            return z3.If(zb(th.lt(x, 0)), th.z(th.neg(x)), th.z(x))
        if f == "truthy":
            return self.eng.truth(self.st, args[0])
        if f == "div":       # exact quotient
            return self.eng.real(args[0]) / self.eng.real(args[1])
        v = self.name(f)
        if isinstance(v, UF):
            t = v.decl(*[th.z(a) for a in args])
            return t if t.sort() == th.sort or z3.is_bool(t) else Opaque(t)
        raise Unsupported(f"call of {f} in a specification")

    def names_of(self, v):
        """a concrete dictionary or list of texts as a dictionary"""
        e = self.st.heap[v.id] if isinstance(v, Ref) else v
        if isinstance(e, DictE) and e.d is not None:
            d = e.d
        elif isinstance(e, PyObj) and isinstance(e.v, dict):
            d = {k: self.eng.wrap(x) for k, x in e.v.items()}
        else:
            q = self.eng.seq_of(self.st, v)
            if q.items is None:
                raise Unsupported("names that are not constant")
            d = dict(enumerate(q.items))
        if not all(isinstance(x, Str) and x.const() is not None for x in d.values()):
            raise Unsupported("names that are not constant")
        return {k: x.const() for k, x in d.items()}

    def apply(self, sf, args):
        if sf.rec:
            d = SPECS.decl(sf, self.th)
            ts = []
            for a, ty in zip(args, sf.types):
                if ty in ("Arr", "StrArr"):
                    if isinstance(a, z3.ExprRef):
                        ts.append(a)
                    else:
                        ts.append(self.eng.to_arr(self.eng.seq_of(self.st, a))[0])
                elif ty == "bool":
                    ts.append(zb(a))
                elif ty == "str":
                    ts.append(self.eng.rope_term(a) if isinstance(a, Str) else a.term if isinstance(a, Opaque) else a)
                else:
                    ts.append(self.th.z(a))
            return Str([("atom", d(*ts))]) if sf.ret == "str" else d(*ts)
        e = self.sub(loc=dict(zip(sf.params, args)))
        if len(args) != len(sf.params):
            raise Unsupported(f"arguments of {sf.name}")
        e.kw = {}
        return e.body(sf.node.body)

    def body(self, stmts):
        for k, s in enumerate(stmts):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Return):
                return self.ev(s.value)
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                self.loc[s.targets[0].id] = self.ev(s.value)
                continue
            if isinstance(s, ast.If):
                t = self.eng.truth(self.st, self.ev(s.test))
                if isinstance(t, bool):
                    return self.sub().body((s.body if t else s.orelse) + stmts[k + 1:])
                a = self.sub().body(s.body + stmts[k + 1:])
                b = self.sub().body(s.orelse + stmts[k + 1:])
                return self.ite(t, a, b)
            raise Unsupported("statement in a spec function")
        raise Unsupported("spec function without return")

    def auto_patterns(self, body, vs):
        found = {}
        ids = {v.get_id(): v for v in vs}
        todo, seen = [body], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen or z3.is_quantifier(t):
                continue
            seen.add(t.get_id())
            if z3.is_select(t) and t.num_args() == 2 and t.arg(1).get_id() in ids and not z3.is_store(t.arg(0)):
                found.setdefault(t.arg(1).get_id(), t)
            elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.arg(0).get_id() in ids:
                found.setdefault(t.arg(0).get_id(), t)
            todo.extend(t.children())
        if len(found) == len(vs):
            ts = [found[v.get_id()] for v in vs]
            return [z3.MultiPattern(*ts)] if len(ts) > 1 else [ts[0]]
        return []


def usable_pattern(t, vs):
    """t, or the selection or call inside it that a solver can match on (patterns only steer the search), or None"""
    ids = {v.get_id() for v in vs}

    def free(u):
        return u.get_id() in ids or z3.is_app(u) and any(map(free, u.children()))

    def ok(u):
        return z3.is_app(u) and not (u.decl().kind() == z3.Z3_OP_ITE or z3.is_bool(u) and u.decl().kind() != z3.Z3_OP_UNINTERPRETED) and all(map(ok, u.children()))
    if not isinstance(t, z3.ExprRef) or not z3.is_app(t):
        return None
    if t.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and t.num_args():
        return t if ok(t) and free(t) else None
    if t.decl().kind() == z3.Z3_OP_ITE:
        return None
    for c in t.children():
        r = usable_pattern(c, vs)
        if r is not None:
            return r
    return None


def all_ids(t):
    yield t.get_id()
    for c in t.children():
        yield from all_ids(c)


def spec_unfold(app, sf, th_name):
    """defining equation of a recursive spec function application"""
    eng = pure(th_name)
    st = State()
    env = SpecEnv(eng, st, old=st, loc={})
    env.loc = dict(zip(sf.params, [Str([("atom", app.arg(i))]) if ty == "str" else app.arg(i) for i, ty in enumerate(sf.types)]))
    v = env.body(sf.node.body)
    if sf.ret == "int":
        v = eng.th.z(v)
    elif sf.ret == "str":
        v = eng.rope_term(v)
    else:
        v = zb(v)
    return app == v


_pure = {}


def pure(th_name):
    if th_name not in _pure:
        _pure[th_name] = PureEngine("int" if th_name == "int" else "bv")
    return _pure[th_name]


def lemma_env(eng, lem, vals):
    st = State()
    conv = []
    for (p, ty), v in zip(lem.params.items(), vals):
        if ty in ("Arr", "StrArr") and not isinstance(v, z3.ExprRef):
            raise Unsupported("array argument")
        conv.append(v)
    env = SpecEnv(eng, st, old=st, loc=dict(zip(lem.params, conv)))
    return env


def lemma_instance(eng, lem, vals):
    if len(vals) != len(lem.params):
        raise Unsupported(f"arguments of lemma {lem.name}")
    env = lemma_env(eng, lem, vals)
    req = [zb(env.bool(r)) for r in lem.requires]
    ens = [zb(env.bool(e)) for e in lem.ensures]
    eng.used_lemmas = getattr(eng, "used_lemmas", set())
    eng.used_lemmas.add(lem.name)
    body = z3.And(*ens) if len(ens) != 1 else ens[0]
    return [z3.Implies(z3.And(*req), body) if req else body]


def lemma_obligations(lem):
    """obligations that establish a lemma (by induction on one integer parameter when given)"""
    eng = PureEngine(lem.theory)
    th = eng.th
    vals = []
    for p, ty in lem.params.items():
        c = z3.Const("L_" + p, SPECS.sort_of(ty, th))
        vals.append(Str([("atom", c)]) if ty == "str" else c)
    env = lemma_env(eng, lem, vals)
    pcs = [zb(env.bool(r)) for r in lem.requires]
    pcs += lemma_hyp(eng, lem, vals)
    for u in lem.uses:
        pcs += [zb(f) for f in env.hint(u)]
    out = []
    for e in lem.ensures:
        out.append((f"lemma {lem.name}: {e}", pcs, zb(env.bool(e))))
    return out


def lemma_hyp(eng, lem, vals):
    if lem.induct is None:
        return []
    ps = list(lem.params)
    k = ps.index(lem.induct)
    th = eng.th
    v2 = list(vals)
    v2[k] = th.sub(vals[k], 1)
    bound = []
    for g in lem.gen:
        i = ps.index(g)
        c = z3.FreshConst(v2[i].sort(), g)
        v2[i] = c
        bound.append(c)
    env = lemma_env(eng, lem, v2)
    req = [zb(env.bool(r)) for r in lem.requires]
    ens = [zb(env.bool(e)) for e in lem.ensures]
    body = z3.Implies(z3.And(zb(th.lt(0, vals[k])), *req), z3.And(*ens))
    if bound:
        body = z3.ForAll(bound, body)
    return [body]
