"""Trusted semantics of library functions, listed as assumptions in the evidence.

struct and sstruct: native byte order and alignment of this machine, as the formats of UnicodeData have no prefix.
Sizes and field offsets are computed by the real struct module; tools/setup.py compares the semantics with it."""
import csv
import datetime
import os
import pathlib
import re
import struct
import sys

import z3

from .theory import Unsupported, isc
from .values import *

_handlers = {}
TRUSTED = {}


def handler(v):
    if not _handlers:
        try:
            from fontTools.misc import sstruct
            extern(sstruct.unpack, "sstruct.unpack: attributes named in the format set to the fields struct.unpack gives")(sstruct_unpack)
        except ImportError:
            pass
        extern(struct.unpack, "struct.unpack: little-endian fields at native offsets, refused when the data have another length")(struct_unpack)
        extern(struct.calcsize, "struct.calcsize: the size of the format")(struct_calcsize)
        extern(int, "int(text), int(text, 16): functions of the text, defined for the texts of numbers")(int_of_text)
        extern(eval, "eval(text of a number): a function of the text")(eval_text)
        extern(re.findall, "re.findall(pattern with one group, text, flags): a function of pattern and text")(re_findall)
        extern(re.search, "re.search(pattern with one group, text, flags): found when re.findall finds something, and then its first text")(re_search_first)
        extern(re.compile, "re.compile(text): a pattern that depends on the text")(re_compile)
        extern(os.makedirs, "os.makedirs, pathlib.Path and datetime.now have no effect on what is verified; path / text and path.name are functions, times any texts")(no_effect)
        extern(datetime.datetime.now, "datetime.now: any time")(any_time)
        extern(pathlib.Path, "Path(text): a path")(path_of)
        extern(csv.reader, "csv.reader: the rows of the file it is given")(csv_rows)
        extern(open, "open(path of the data file, 'rb').read(): the bytes of that file, arbitrary; open(path, 'w'): the file at path, emptied, then holding what is written")(open_data)
    try:
        return _handlers.get(v)
    except TypeError:
        return None


def method_handler(o, name):
    if isinstance(o, FileV):
        return {"read": file_read, "close": file_none}.get(name)
    if isinstance(o, Seq) and o.kind == "bytes":
        return {"split": bytes_split}.get(name)
    if isinstance(o, Str):
        return {"split": text_split}.get(name)
    if isinstance(o, PyObj) and isinstance(o.v, re.Pattern) or isinstance(o, Opaque) and o.tag == "pattern":
        return {"search": lambda *a: pattern_search("search", *a), "fullmatch": lambda *a: pattern_search("fullmatch", *a), "findall": pattern_findall}.get(name)
    if isinstance(o, MatchV):
        return {"start": lambda *a: match_bound("start", *a), "end": lambda *a: match_bound("end", *a), "group": match_group}.get(name)
    if isinstance(o, Opaque) and o.tag == "time":
        return {"astimezone": any_time, "strftime": text_of_time}.get(name)
    if isinstance(o, Ref):
        return {"get": element_get}.get(name)
    return None


def open_data(eng, args, kw, s, fr, node):
    """the contract's ghost FILE is what the data file holds, or the file that is written"""
    if len(args) == 2 and not kw and text(args[1]) == "w" and isinstance(eng.ghost_vals.get("FILE"), Ref) and isinstance(args[0], Opaque):
        f = eng.ghost_vals["FILE"]
        s = s.copy()
        e = s.heap[f.id]
        old = s.heap[e.fields["written"].id]
        s.heap[e.fields["written"].id] = ListE(Seq("list", arr=eng.to_arr(old.seq)[0], n=eng.th.z(0), elem="str"))     # truncated
        s.heap[f.id] = ObjE(e.cls, {**e.fields, "path": args[0]})
        yield s, f
        return
    src = eng.ghost_vals.get("SOURCE")
    if (len(args) == 1 or len(args) == 2 and text(args[1]) == "r") and set(kw) <= {"newline"} and isinstance(src, Ref) and isinstance(args[0], Opaque):
        e = s.heap[src.id]
        eng.oblige(s, e.fields["path"].term == args[0].term, "the file opened is the source", node)
        yield s, src
        return
    if len(args) != 2 or kw or text(args[1]) != "rb" or not (text(args[0]) or "").endswith("/icudata.dat") or "FILE" not in eng.ghost_vals:
        raise Unsupported("open")
    yield s, FileV(eng.ghost_vals["FILE"])


def re_compile(eng, args, kw, s, fr, node):
    if len(args) != 1 or kw or not isinstance(args[0], Str):
        raise Unsupported("re.compile of these values")
    yield s, eng.compiled(args[0])


def no_effect(eng, args, kw, s, fr, node):
    yield s, None


def any_time(eng, *a):
    s = a[-3]
    yield s, Opaque(z3.FreshConst(ValSort, "time"), "time")


def text_of_time(eng, o, args, kw, s, fr, node):
    yield s, Str([("atom", z3.FreshConst(ValSort, "time"))])


def path_of(eng, args, kw, s, fr, node):
    if len(args) != 1 or kw or not isinstance(args[0], Str):
        raise Unsupported("Path of these values")
    yield s, Opaque(z3.Function("path.of", ValSort, ValSort)(eng.rope_term(args[0])), "path")


def csv_rows(eng, args, kw, s, fr, node):
    """the contract's ghost ROWS is what the source file holds"""
    if len(args) != 1 or set(kw) != {"delimiter"} or text(kw["delimiter"]) != ";" or "ROWS" not in eng.ghost_vals or args[0] is not eng.ghost_vals.get("SOURCE"):
        raise Unsupported("csv.reader of these values")
    yield s, eng.ghost_vals["ROWS"]


def file_read(eng, o, args, kw, s, fr, node):
    if args or kw:
        raise Unsupported("read of a part of a file")
    yield s, o.data


def bytes_split(eng, o, args, kw, s, fr, node):
    """the pieces between the separators: where piece k starts and ends, and that none has a separator inside"""
    sep = args[0] if len(args) == 1 and not kw else None
    if isinstance(sep, PyObj) and isinstance(sep.v, bytes):
        sep = Seq("bytes", items=list(sep.v))
    if not (isinstance(sep, Seq) and sep.kind == "bytes" and sep.items is not None and len(sep.items) == 1 and isc(sep.items[0])):
        raise Unsupported("split at something else than one byte")
    eng.used_trusted.add("bytes.split(one byte): the pieces between the separators")
    th, c, byte, n = eng.th, sep.items[0], byte_of(eng, o), eng.th.z(o.length())
    if th.sort.kind() != z3.Z3_INT_SORT:
        raise Unsupported("split in machine arithmetic")
    from .engine import bytes_sort
    d = bytes_sort(th.sort)
    S, E = eng.fresh_arr("split_start"), eng.fresh_arr("split_end")
    A, m = eng.fresh_arr("split", d), eng.fresh_int("split_n")
    k, j = z3.FreshConst(th.sort, "k"), z3.FreshConst(th.sort, "j")
    inside = z3.And(0 <= k, k < m)
    z = lambda v: th.z(v)
    piece = lambda k: z3.Implies(z3.And(0 <= k, k < m), z3.And(0 <= S[k], S[k] <= E[k], E[k] <= n, d.length(A[k]) == E[k] - S[k]))
    follow = lambda k: z3.Implies(z3.And(0 <= k, k < m - 1), z3.And(z(byte(E[k])) == c, S[k + 1] == E[k] + 1))
    plain = lambda k, j: z3.Implies(z3.And(0 <= k, k < m, S[k] <= j, j < E[k]), z(byte(j)) != c)
    facts = [m >= 1, S[0] == 0, E[m - 1] == n,
             z3.ForAll([k], piece(k), patterns=[A[k]]), z3.ForAll([k], follow(k), patterns=[A[k]]),
             z3.ForAll([k, j], plain(k, j), patterns=[z3.MultiPattern(E[k], z(byte(j)))]),
             z3.ForAll([k, j], z3.Implies(z3.And(inside, 0 <= j, j < E[k] - S[k]), d.data(A[k])[j] == z(byte(S[k] + j))), patterns=[d.data(A[k])[j]])]
    for q in range(4):      # the facts about the first pieces, at hand whether or not they are read
        facts += [piece(z3.IntVal(q)), follow(z3.IntVal(q)), z3.ForAll([j], plain(z3.IntVal(q), j), patterns=[z(byte(j))])]
    s = s.assume(*facts).copy()
    yield s, eng.alloc(s, ListE(Seq("list", arr=A, n=m, elem="bytes")))


def text_split(eng, o, args, kw, s, fr, node):
    """a list of at least one text, which depends only on the text and the separator"""
    if len(args) != 1 or kw or not isinstance(args[0], Str) or not args[0].const():
        raise Unsupported("split without a separator")
    eng.used_trusted.add("str.split(separator): a function of the text and the separator, at least one piece")
    arr, n = eng.str_parts(o, args[0])
    s = s.assume(zbool(eng.th.le(1, n))).copy()
    yield s, eng.alloc(s, ListE(Seq("list", arr=arr, n=n, elem="str")))


def re_search_first(eng, args, kw, s, fr, node):
    for s1, r in re_findall(eng, args, kw, s, fr, node):
        q = s1.heap[r.id].seq
        yes, no = s1.assume(zbool(eng.th.lt(0, q.n))), s1.assume(zbool(eng.th.le(q.n, 0)))
        if eng.feasible(yes):
            yield yes, MatchV("first", None, Str([("atom", q.arr[eng.th.z(0)])]))
        if eng.feasible(no):
            yield no, None


def re_findall(eng, args, kw, s, fr, node):
    flags = args[2] if len(args) == 3 else 0
    flags = flags.v if isinstance(flags, PyObj) else flags
    if kw or not isinstance(flags, int) or not all(isinstance(a, Str) for a in args[:2]):
        raise Unsupported("re.findall of these values")
    p = args[0].pieces[-1] if args[0].pieces else ("c", "")
    groups = "".join(q[1] for q in args[0].pieces if q[0] == "c").replace("\\(", "").count("(")
    if groups != 1 or p[0] != "c":
        raise Unsupported("re.findall of a pattern that has not one group")
    arr, n = eng.str_matches(args[0], args[1], int(flags))
    s = s.assume(zbool(eng.th.le(0, n))).copy()
    yield s, eng.alloc(s, ListE(Seq("list", arr=arr, n=n, elem="str")))


PATTERNS = "re.Pattern.search, fullmatch, findall: whether, where and how often a pattern matches is a function of the pattern and the text"


def pattern_search(how, eng, o, args, kw, s, fr, node):
    if len(args) != 1 or kw or not isinstance(args[0], Str):
        raise Unsupported(f"{how} of these values")
    eng.used_trusted.add(PATTERNS)
    c = eng.re_search(how, o, args[0])
    if how == "search" and isinstance(o, PyObj):      # findall finds the same first match
        s = s.assume(c == zbool(eng.th.lt(0, eng.re_count(o, args[0]))))
        for g in certain_groups(o):
            a, b = [eng.re_bound(w, how, o, args[0], g) for w in ("start", "end")]
            s = s.assume(z3.Implies(c, eng.rope_term(eng.str_slice(args[0], a, b)) == eng.rope_term(eng.re_group(o, args[0], 0, g))))
    yes, no = s.assume(c), s.assume(z3.Not(c))
    if eng.feasible(yes):
        yield yes, MatchV(how, o, args[0])
    if eng.feasible(no):
        yield no, None


def pattern_findall(eng, o, args, kw, s, fr, node):
    """a list of the only group, or of tuples of the groups"""
    if len(args) != 1 or kw or not isinstance(args[0], Str) or not isinstance(o, PyObj):
        raise Unsupported("findall of these values")
    eng.used_trusted.add(PATTERNS)
    n, g = eng.re_count(o, args[0]), o.v.groups
    one = lambda k, j: eng.re_group(o, args[0], k, j)
    fn = (lambda k: one(k, 0)) if g == 0 else (lambda k: one(k, 1)) if g == 1 else (lambda k: Seq("tuple", items=[one(k, j) for j in range(1, g + 1)]))
    yield s.assume(zbool(eng.th.le(0, n))), Seq("tuple", fn=fn, n=n)


def match_bound(which, eng, o, args, kw, s, fr, node):
    if o.how == "first" or len(args) > 1 or kw or args and not isc(args[0]):
        raise Unsupported("bounds of a match")
    a, b = [eng.re_bound(w, o.how, o.pattern, o.text, args[0] if args else 0) for w in ("start", "end")]
    yield s, a if which == "start" else b


def certain_groups(p):
    """the groups that take part in every match"""
    if not isinstance(p, PyObj):
        return {0}
    from re import _parser as parser
    done = {0}

    def walk(items):
        for op, av in items:
            if str(op) == "SUBPATTERN":
                done.add(av[0])
                walk(av[3])
            elif str(op) in ("MAX_REPEAT", "MIN_REPEAT") and av[0] > 0:
                walk(av[2])
    walk(parser.parse(p.v.pattern, p.v.flags))
    return done


def match_group(eng, o, args, kw, s, fr, node):
    """group g is the text between its bounds"""
    if o.how == "first" and len(args) == 1 and not kw and isc(args[0]) and args[0] == 1:
        yield s, o.text
        return
    if o.how == "first":
        raise Unsupported("group of this match")
    if len(args) > 1 or kw or args and not isc(args[0]) or args and args[0] not in certain_groups(o.pattern):
        raise Unsupported("group of a match")
    a, b = [eng.re_bound(w, o.how, o.pattern, o.text, args[0] if args else 0) for w in ("start", "end")]
    yield s, eng.str_slice(o.text, a, b)


def int_of_text(eng, args, kw, s, fr, node):
    base = args[1] if len(args) > 1 else 10
    if kw or not isinstance(args[0], Str) or not isc(base) or base not in (10, 16):
        raise Unsupported("int() of this value")
    v, ok = eng.str_number(args[0], base)
    eng.ctx(s, node).need(ok, "text of a number" if base == 10 else "text of a hexadecimal number")
    yield s, v


def eval_text(eng, args, kw, s, fr, node):
    if len(args) == 2 and not kw and isinstance(args[0], Str):
        eng.used_trusted.add("eval(text, variables): a function of the text and of what variables binds; of str(n) it is n")
        v, ok = eng.evaluate(args[0], eng.env_term(s, args[1]))
        eng.ctx(s, node).need(zbool(ok), "text evaluates to an integer")
        yield s, v
        return
    if kw or len(args) != 1 or not isinstance(args[0], Str):
        raise Unsupported("eval() of this value")
    v, ok = eng.str_eval(args[0])
    eng.ctx(s, node).need(ok, "text of a number")
    yield s, v


def element_get(eng, o, args, kw, s, fr, node):
    """Element.get(name, default) is its attrib.get(name, default)"""
    from xml.etree.ElementTree import Element
    e = s.heap[o.id]
    if not isinstance(e, ObjE) or e.cls is not Element or "attrib" not in e.fields or set(kw) - {"default"} or len(args) + len(kw) > 2:
        raise Unsupported("get() of this value")
    eng.used_trusted.add("Element.get(name, default): attrib.get(name, default)")
    yield from eng.call_method(e.fields["attrib"], "get", list(args) + list(kw.values()), {}, s, fr, node)


def file_none(eng, o, args, kw, s, fr, node):
    yield s, None


def extern(obj, note):
    def deco(f):
        def g(eng, *a):
            eng.used_trusted.add(note)
            return f(eng, *a)
        _handlers[obj] = g
        TRUSTED[getattr(obj, "__qualname__", str(obj))] = note
        return f
    return deco


SIZES = {c: struct.calcsize(c) for c in "bBhHiI"}


def text(x):
    if isinstance(x, Str) and x.const() is not None:
        return x.const()
    return None


def repeated(fmt):
    """f"{n}H": (n, "H")"""
    if isinstance(fmt, Str) and len(fmt.pieces) == 2:
        a, b = fmt.pieces
        if a[0] == "fmt" and a[1] in ("", "d") and is_int(a[2]) and b[0] == "c" and b[1] in ("B", "H", "I"):
            return a[2], b[1]
    raise Unsupported("format of struct")


def field(eng, byte, pos, code):
    """the unsigned number at byte pos"""
    th = eng.th
    r = byte(pos)
    for k in range(1, SIZES[code]):
        r = th.add(r, th.mul(byte(th.add(pos, k)), 256 ** k))
    return r


def byte_of(eng, q):
    if q.fn is not None:
        return q.fn
    if q.items is not None and all(isc(x) for x in q.items):
        return lambda k: (q.items[k] if k < len(q.items) else eng.th.fresh("outside")) if isc(k) else eng.to_arr(q)[0][eng.th.z(k)]
    arr = eng.to_arr(q)[0]
    return lambda k: arr[eng.th.z(k)]


def offsets(fmt):
    """[(code, offset)] of a format of plain fields and strings"""
    import re
    if sys.byteorder != "little" or not re.fullmatch(r"([0-9]*[BHI]|[0-9]+s)*", fmt):
        raise Unsupported(f"format {fmt!r}")
    out, done = [], ""
    for n, c in re.findall(r"([0-9]*)([BHIs])", fmt):
        if c == "s":
            out.append((n + "s", struct.calcsize(done + n + "s") - int(n)))
            done += n + "s"
            continue
        for _ in range(int(n) if n else 1):
            out.append((c, struct.calcsize(done + c) - SIZES[c]))
            done += c
    if struct.calcsize(done) != struct.calcsize(fmt):
        raise Unsupported(f"format {fmt!r}")
    return out


def struct_calcsize(eng, args, kw, s, fr, node):
    t = text(args[0])
    if t is not None:
        yield s, struct.calcsize(t)
        return
    n, c = repeated(args[0])
    eng.ctx(s, node).need(zbool(eng.th.le(0, n)), "struct.calcsize: a count that is not negative")
    yield s, eng.th.mul(n, SIZES[c])


def zbool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def data_of(eng, s, v):
    q = eng.seq_of(s, v)
    if q.kind != "bytes":
        raise Unsupported("struct.unpack of something else than bytes")
    return q


def struct_unpack(eng, args, kw, s, fr, node):
    th = eng.th
    cx = eng.ctx(s, node)
    q = data_of(eng, s, args[1])
    t = text(args[0])
    if t is not None:
        s, items = unpack_const(eng, t, q, s, cx)
        yield s, Seq("tuple", items=items)
        return
    n, c = repeated(args[0])
    cx.need(zbool(th.le(0, n)), "struct.unpack: a count that is not negative")
    size = th.mul(n, SIZES[c])
    cx.need(zbool(th.eq(q.length(), size)), "struct.unpack: data of the size of the format")
    byte = byte_of(eng, q)
    s = s.assume(zbool(th.eq(q.length(), size)))
    yield s, Seq("tuple", fn=lambda k: field(eng, byte, th.mul(k, SIZES[c]), c), n=n)


def unpack_const(eng, fmt, q, s, cx):
    th = eng.th
    size = struct.calcsize(fmt)
    cx.need(zbool(th.eq(q.length(), size)), "struct.unpack: data of the size of the format")
    s = s.assume(zbool(th.eq(q.length(), size)))
    src = byte_of(eng, q)
    items = []
    for c, o in offsets(fmt):
        if c.endswith("s"):
            items.append(Opaque(z3.FreshConst(ValSort, "bytes")))     # fixed length strings: some value
        else:
            items.append(field(eng, src, o, c))
    return s, items


def sstruct_unpack(eng, args, kw, s, fr, node):
    from fontTools.misc import sstruct
    fmt = text(args[0])
    if fmt is None or len(args) != 3 or kw:
        raise Unsupported("sstruct.unpack without a constant format or an object")
    plain, names, fixes = sstruct.getformat(fmt)
    if fixes:
        raise Unsupported("fixed point format")
    o = args[2]
    if not (isinstance(o, Ref) and isinstance(s.heap[o.id], ObjE) and not isinstance(s.heap[o.id].cls, tuple)):
        raise Unsupported("sstruct.unpack into something else than an instance")
    s, items = unpack_const(eng, plain, data_of(eng, s, args[1]), s, eng.ctx(s, node))
    if len(items) != len(names):
        raise Unsupported("sstruct format")
    s = s.copy()
    e = s.heap[o.id]
    s.heap[o.id] = ObjE(e.cls, {**e.fields, **dict(zip(names, items))})
    yield s, o
