"""Discharging obligations: z3, then cvc5; recursive spec functions are unfolded on ground terms."""
import os
import subprocess
import tempfile
import time
import z3

from .engine import has_quant

UNFOLD_ROUNDS = 2


def collect_apps(terms, names, seen, out):
    todo = list(terms)
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen[i] = t
        if z3.is_quantifier(t):
            # only ground terms are unfolded
            continue
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in names:
            out.append(t)
        todo.extend(t.children())


NUMERAL = 8


def short(app, names):
    """a prefix of known small length"""
    if not names[app.decl().name()].prefix:
        return False
    n = z3.simplify(app.arg(1))
    return z3.is_int_value(n) and n.as_long() <= NUMERAL


def texts_differ(assertions):
    """the constant texts that occur are different texts"""
    found, seen, todo = {}, set(), [a for a in assertions if isinstance(a, z3.ExprRef)]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("str!"):
                found[x.decl().name()] = x
            todo += x.children()
    return [z3.Distinct(*[found[k] for k in sorted(found)])] if len(found) > 1 else []


def axioms_for(assertions, specs, opaque=()):
    return unfoldings(assertions, specs, opaque) + texts_differ(assertions)


def unfoldings(assertions, specs, opaque=()):
    if specs is None:
        return []
    from .spec import spec_unfold
    names = {}
    for (n, thn), d in specs.decls.items():
        if n not in opaque:
            names[n] = specs.fns[n]
    if not names:
        return []
    seen, ax, done = {}, [], {}
    frontier = list(assertions)
    for rnd in range(UNFOLD_ROUNDS + NUMERAL):
        apps = []
        collect_apps(frontier, names, seen, apps)
        if rnd >= UNFOLD_ROUNDS:
            apps = [a for a in apps if short(a, names)]
        new = []
        for a in apps:
            if a.get_id() in done:
                continue
            done[a.get_id()] = a
            sf = names[a.decl().name()]
            srt = [a.arg(i).sort() for i in range(a.num_args())]
            thn = "int" if all(s.kind() != z3.Z3_BV_SORT and (s.kind() != z3.Z3_ARRAY_SORT or s.range().kind() != z3.Z3_BV_SORT) for s in srt) else "bv64"
            new.append(spec_unfold(a, sf, thn))
            if sf.prefix:
                # reads only indices below its length argument (proved as a lemma): a store at or above it is invisible
                arr, n = a.arg(0), a.arg(1)
                if z3.is_store(arr):
                    b = a.decl()(arr.arg(0), *[a.arg(i) for i in range(1, a.num_args())])
                    new.append(z3.Implies(n <= arr.arg(1), a == b))
        if not new:
            break
        ax += new
        frontier = new
    return ax


def conjuncts(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += conjuncts(c)
        return out
    if z3.is_implies(g):
        cs = conjuncts(g.arg(1))
        if len(cs) > 1:
            return [z3.Implies(g.arg(0), c) for c in cs]
    return [g]


CVC5 = "cvc5"


def run_cvc5(assertions, timeout):
    s = z3.Solver()
    s.add(*assertions)
    txt = s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + txt)
        name = f.name
    try:
        r = subprocess.run([CVC5, f"--tlimit={timeout}", name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        return r.stdout.strip().splitlines()[0] if r.stdout.strip() else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(name)


def const_of(t):
    return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def occurs(x, t, memo):
    todo, seen = [t], set()
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if u.eq(x):
            return True
        todo += u.children() if not z3.is_quantifier(u) else [u.body()]
    return False


def eliminate(assertions):
    """an equisatisfiable set without the constants that a top-level equation defines"""
    facts, k = [], 0
    for a in assertions:
        facts += conjuncts(a) if z3.is_and(a) else [a]
    while k < len(facts):
        f = facts[k]
        k += 1
        if not z3.is_eq(f):
            continue
        a, b = f.children()
        if const_of(b) and not const_of(a):
            a, b = b, a
        if not const_of(a) or z3.is_array(a) or occurs(a, b, None):
            continue
        del facts[k - 1]
        facts = [z3.substitute(x, (a, b)) for x in facts]
        k = 0
    return [z3.simplify(f) for f in facts]


def prove_one(pcs, goal, specs, timeout=8000, want_model=False, try_cvc5=True, split=3, opaque=()):
    t0 = time.time()
    if isinstance(goal, bool):
        goal = z3.BoolVal(goal)
    gs = conjuncts(goal)
    if len(gs) > 1:
        back = set()
        for g in gs:
            r = prove_one(pcs, g, specs, timeout, want_model, try_cvc5, split, opaque)
            if r[0] != "proved":
                return (r[0], time.time() - t0, r[2], r[3])
            back.add(r[2])
        return ("proved", time.time() - t0, "+".join(sorted(back)), None)
    base = list(pcs) + [z3.Not(goal)]
    ax = axioms_for(base, specs, opaque)

    def z3_try(to, seed=None, plain=None):
        s = z3.Solver()
        s.set("timeout", max(200, int(to)))
        if seed is not None:
            s.set("random_seed", seed)
        s.add(*(base + ax if plain is None else plain))
        return s.check(), s
    r, s = z3_try(min(timeout // 3, 2000))
    if r == z3.unsat:
        return ("proved", time.time() - t0, "z3", None)
    if r == z3.sat:
        return ("refuted", time.time() - t0, "z3", s.model())
    plain = eliminate(base + ax)
    if z3_try(min(timeout, 5000), plain=plain)[0] == z3.unsat:
        return ("proved", time.time() - t0, "z3", None)
    if try_cvc5 and run_cvc5(base + ax, min(timeout, 5000)) == "unsat":
        return ("proved", time.time() - t0, "cvc5", None)
    if split > 0:
        # undo a control-flow merge: prove the obligation on either side of the join
        for sel in selectors([goal] + list(reversed(pcs)))[:1]:
            back = set()
            for side in (sel, z3.Not(sel)):
                sub = [(sel, z3.BoolVal(side is sel))]
                ps = [z3.simplify(z3.substitute(p, *sub)) if isinstance(p, z3.ExprRef) else p for p in pcs]
                g = z3.simplify(z3.substitute(goal, *sub))
                r = prove_one(ps, g, specs, timeout, want_model, try_cvc5, split - 1, opaque)
                if r[0] != "proved":
                    return (r[0], time.time() - t0, r[2], r[3])
                back |= set(r[2].split("+"))
            return ("proved", time.time() - t0, "+".join(sorted(back)), None)
    if try_cvc5 and timeout > 5000 and run_cvc5(base + ax, timeout) == "unsat":
        return ("proved", time.time() - t0, "cvc5", None)
    r, s = z3_try(timeout, 7)
    if r == z3.unsat:
        return ("proved", time.time() - t0, "z3", None)
    if r == z3.sat:
        return ("refuted", time.time() - t0, "z3", s.model())
    return ("unknown", time.time() - t0, "z3+cvc5", None)


def selectors(terms):
    """path selectors introduced by control-flow joins, in order of first occurrence"""
    out, seen = [], set()
    for t in terms:
        todo = [t]
        while todo:
            x = todo.pop(0)
            if not isinstance(x, z3.ExprRef) or x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and z3.is_bool(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("path!"):
                out.append(x)
            todo += x.children()
    return out


def cover(pcs, specs, timeout=3000):
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*pcs)
    s.add(*axioms_for(list(pcs), specs))
    return s.check() != z3.unsat
