"""Symbolic values of the verifier."""
import z3
from .theory import Unsupported, isc


class Undef:
    def __repr__(self): return "<undefined>"


UNDEF = Undef()


class Seq:
    """A finite sequence: list contents, tuple, bytes or str (as code points).

    items : python list of values (concrete length), or
    arr,n : z3 array (index sort -> element sort) and a length term, or
    fields: {name: type} records stored column-wise (read only), arr is then {name: array(s)}
    fn,n  : immutable integers computed from their index (a slice of other data, decoded fields)
    """
    __slots__ = ("kind", "items", "arr", "n", "elem", "fields", "cls", "parts", "fn")

    def __init__(self, kind, items=None, arr=None, n=None, elem="int", fields=None, cls=None, parts=None, fn=None):
        self.kind, self.items, self.arr, self.n, self.elem = kind, items, arr, n, elem
        self.fields, self.cls, self.parts, self.fn = fields, cls, parts, fn

    def __repr__(self):
        return f"Seq({self.kind},{self.items if self.items is not None else (self.arr, self.n)})"

    def length(self):
        return len(self.items) if self.items is not None else self.n

    def copy_as(self, kind):
        return Seq(kind, self.items, self.arr, self.n, self.elem, self.fields, self.cls, self.parts, self.fn)


class Rec:
    """Element i of a column-wise record sequence."""
    __slots__ = ("seq", "i")

    def __init__(self, seq, i):
        self.seq, self.i = seq, i


class Merged:
    """[*a, *b]: several record lists one after the other, before they are sorted"""
    __slots__ = ("parts",)

    def __init__(self, parts): self.parts = parts


class MixedM:
    """Method of an element of a list that mixes records of several classes."""
    __slots__ = ("rec", "name")

    def __init__(self, rec, name): self.rec, self.name = rec, name


class Gen:
    """A generator that has not been advanced yet: the call it comes from and the contract that describes what it yields."""
    __slots__ = ("fi", "con", "vs", "heap")

    def __init__(self, fi, con, vs, heap): self.fi, self.con, self.vs, self.heap = fi, con, vs, heap


class Str:
    """A string as a rope of pieces: ('c', text) | ('chr', int term) | ('atom', z3 term) | ('fmt', spec, term)."""
    __slots__ = ("pieces",)

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if p[0] == "c":
                if not p[1]:
                    continue
                if out and out[-1][0] == "c":
                    out[-1] = ("c", out[-1][1] + p[1])
                    continue
            if p[0] == "chr" and isc(p[1]):
                p = ("c", chr(p[1]))
                if out and out[-1][0] == "c":
                    out[-1] = ("c", out[-1][1] + p[1])
                    continue
            out.append(p)
        self.pieces = tuple(out)

    def const(self):
        if not self.pieces:
            return ""
        if len(self.pieces) == 1 and self.pieces[0][0] == "c":
            return self.pieces[0][1]
        return None

    def codes(self):
        """list of code point terms, or None."""
        r = []
        for p in self.pieces:
            if p[0] == "c":
                r += [ord(ch) for ch in p[1]]
            elif p[0] == "chr":
                r.append(p[1])
            else:
                return None
        return r

    def __repr__(self): return f"Str{self.pieces}"


class VRange:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self): return f"VRange({self.start},{self.stop},{self.step})"


class Ref:
    __slots__ = ("id",)

    def __init__(self, i): self.id = i

    def __repr__(self): return f"Ref{self.id}"

    def __eq__(self, o): return isinstance(o, Ref) and o.id == self.id

    def __hash__(self): return hash(self.id)


class ListE:
    __slots__ = ("seq",)

    def __init__(self, seq): self.seq = seq


class ObjE:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields): self.cls, self.fields = cls, fields


class DictE:
    """A mapping: concrete python dict of values (d), or abstract: z3 arrays from keys to values and to presence."""
    __slots__ = ("d", "arr", "present", "ret")

    def __init__(self, d=None, arr=None, present=None, ret="str"): self.d, self.arr, self.present, self.ret = d, arr, present, ret

    def get(self, t): return z3.Select(self.arr, t)

    def has(self, t): return z3.Select(self.present, t)

    def value(self, t):
        if isinstance(self.ret, tuple):      # a tuple of texts, tables of texts and functions of texts, read only
            name, kinds = self.ret[1:]
            f = lambda k, *sorts: z3.Function(f"{name}.{k}", ValSort, *sorts)
            return Seq("tuple", items=[Str([("atom", f(k, ValSort)(t))]) if q == "str" else
                                       TableV(f(f"{k}.get", z3.ArraySort(ValSort, ValSort))(t), f(f"{k}.has", z3.ArraySort(ValSort, z3.BoolSort()))(t)) if q == "table" else
                                       TextFn(f(k, ValSort, ValSort), t) for k, q in enumerate(kinds)])
        v = self.get(t)
        if self.ret == "texts":
            return Seq("list", arr=texts_sort(v).data(v), n=texts_sort(v).length(v), elem="str")
        return v if self.ret == "int" else Str([("atom", v)])


class EnvE:
    """A mapping of names to values that eval gets; only what it binds counts."""
    __slots__ = ("term",)

    def __init__(self, term): self.term = term


class MatchV:
    """A match of a regular expression: found by search or fullmatch in a text."""
    __slots__ = ("how", "pattern", "text")

    def __init__(self, how, pattern, text): self.how, self.pattern, self.text = how, pattern, text


class TableV:
    """A mapping of texts to texts that is not changed."""
    __slots__ = ("arr", "present")

    def __init__(self, arr, present): self.arr, self.present = arr, present

    def get(self, t): return z3.Select(self.arr, t)

    def has(self, t): return z3.Select(self.present, t)


class TextFn:
    """A function of a text that gives a text: decl(bound, text)."""
    __slots__ = ("decl", "bound")

    def __init__(self, decl, bound): self.decl, self.bound = decl, bound

    def __call__(self, x): return Str([("atom", self.decl(self.bound, x))])


class PyObj:
    """A live python object used as a constant (function, class, module, table ...)."""
    __slots__ = ("v",)

    def __init__(self, v): self.v = v

    def __repr__(self): return f"PyObj({getattr(self.v, '__name__', type(self.v).__name__)})"


class BoundM:
    __slots__ = ("obj", "func")

    def __init__(self, obj, func): self.obj, self.func = obj, func


class FileV:
    """An open file that has not been read."""
    __slots__ = ("data",)

    def __init__(self, data): self.data = data


class Super:
    """super(): the object, and the class after which attributes are looked up"""
    __slots__ = ("obj", "cls")

    def __init__(self, obj, cls): self.obj, self.cls = obj, cls


class BuiltinM:
    """Method of a builtin value."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name): self.obj, self.name = obj, name


class Closure:
    __slots__ = ("node", "vars", "fr")

    def __init__(self, node, vars, fr): self.node, self.vars, self.fr = node, vars, fr


class UF:
    """An uninterpreted function value (callable parameter)."""
    __slots__ = ("name", "decl", "ret", "star")

    def __init__(self, name, decl, ret="int", star=None):
        """star: the parameter whose keyword arguments every call passes on"""
        self.name, self.decl, self.ret, self.star = name, decl, ret, star


class Opaque:
    """A value of unknown kind (z3 term of an uninterpreted sort)."""
    __slots__ = ("term", "tag")

    def __init__(self, term, tag=""): self.term, self.tag = term, tag


ValSort = z3.DeclareSort("Val")
_texts = {}


def texts_sort(x):
    """lists of texts as values; x: the sort of their length, or a term of the sort"""
    if isinstance(x, z3.ExprRef):
        return next(d for d in _texts.values() if d == x.sort())
    k = str(x)
    if k not in _texts:
        d = z3.Datatype("Texts_" + k)
        d.declare("mk", ("data", z3.ArraySort(x, ValSort)), ("length", x))
        _texts[k] = d.create()
    return _texts[k]


def is_int(v):
    return isc(v) or (isinstance(v, z3.ExprRef) and (v.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_BV_SORT)))


def is_real(v):
    return isinstance(v, float) or (isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_REAL_SORT)


def is_bool(v):
    return isinstance(v, bool) or isinstance(v, z3.BoolRef)
