"""Verify contracts: generate obligations from the current source, discharge them, report."""
import ast
import multiprocessing as mp
import os
import pickle
import time
import traceback
import warnings
import z3

from .theory import Unsupported
from .engine import Engine, find_func
from .spec import SPECS, lemma_obligations
from .prove import prove_one, cover


class Result:
    """outcome for one function x case (picklable)"""
    def __init__(self, target, case):
        self.target, self.case = target, case
        self.obligations = []      # (desc, line, status, time, backend)
        self.unsupported = None
        self.error = None
        self.models = []
        self.used, self.trusted, self.inlined, self.lemmas = [], [], [], []
        self.shapes = []
        self.words = []
        self.lines = []
        self.wall = 0.0
        self.theory = ""
        self.reached, self.stmts = [], []      # lines executed under the preconditions; lines of the function

    @property
    def failed(self):
        return [o for o in self.obligations if o[2] not in ("proved", "covered")]

    @property
    def ok(self):
        return self.unsupported is None and self.error is None and self.obligations and not self.failed


SLOTS = None     # limits the number of busy processes


class slot:
    def __enter__(self):
        if SLOTS is not None:
            SLOTS.acquire()

    def __exit__(self, *a):
        if SLOTS is not None:
            SLOTS.release()


def fork_map(fn, n, procs):
    """[fn(0), .., fn(n-1)] computed by forked children that take the next index from a shared counter"""
    if procs <= 1 or n <= 1:
        return [fn(k) for k in range(n)]
    nxt = mp.Value("i", 0)
    kids = []
    for _ in range(min(procs, n)):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                out = []
                while True:
                    with nxt.get_lock():
                        k = nxt.value
                        nxt.value += 1
                    if k >= n:
                        break
                    out.append((k, fn(k)))
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    res = [None] * n
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if data:
            for k, v in pickle.loads(data):
                res[k] = v
    return res


DEADLINE = None      # absolute time after which no new obligation is attempted
RETRY_FACTOR = 6


def late():
    return DEADLINE is not None and time.time() > DEADLINE


def discharge(eng, contract, res):
    default = contract.timeout or 9000
    fails = mp.Value("i", 0)

    def one(k):
        o = eng.obls[k]
        with slot():
            if o.kind == "cover":
                ok = cover(o.pc, SPECS)
                return (o.desc, o.line, "covered" if ok else "vacuous", 0.0, "z3"), None
            if o.goal is True:
                return (o.desc, o.line, "proved", 0.0, "evaluation"), None
            if late():
                return (o.desc, o.line, "not attempted", 0.0, "deadline"), None
            to = default if fails.value < 3 else min(default, 2500)
            st, t, back, model = prove_one(list(o.pc), o.goal, SPECS, timeout=to, opaque=contract.opaque)
        if st != "proved":
            fails.value += 1
        m = None
        if model is not None and fails.value < 6:
            m = (o.desc, extract_inputs(eng, model))
        return (o.desc, o.line, st, t, back), m
    n = len(eng.obls)
    for k, r in enumerate(fork_map(one, n, 1 if n < 40 else 8)):
        if r is None:
            o = eng.obls[k]
            r = ((o.desc, o.line, "unknown", 0.0, "worker died"), None)
        res.obligations.append(r[0])
        if r[1] is not None and len(res.models) < 4:
            res.models.append(r[1])
    # an obligation that timed out gets a second, long attempt, unless something else has already failed for good
    if any(x[2] == "refuted" for x in res.obligations):
        return
    again = [k for k, x in enumerate(res.obligations) if x[2] == "unknown"]

    def two(j):
        k = again[j]
        o = eng.obls[k]
        with slot():
            if late():
                return (o.desc, o.line, "not attempted", 0.0, "deadline")
            st, t, back, model = prove_one(list(o.pc), o.goal, SPECS, timeout=default * RETRY_FACTOR, opaque=contract.opaque)
        return (o.desc, o.line, st, t, back)
    if again and len(again) <= 6:
        for j, r in enumerate(fork_map(two, len(again), 8)):
            if r is not None:
                res.obligations[again[j]] = r


def extract_inputs(eng, model):
    """values of the function's parameters in a counter-model (scalars and short arrays)"""
    out = {}
    for n, v in eng.entry.vars.items():
        try:
            out[n] = model_value(eng, model, v, 0)
        except Exception:
            pass
    for n, v in getattr(eng, "ghost_vals", {}).items():
        try:
            out["ghost " + n] = model_value(eng, model, v, 0)
        except Exception:
            pass
    return out


def model_value(eng, model, v, depth):
    from .values import Seq, Ref, ListE, ObjE, VRange
    from .values import is_int
    if isinstance(v, bool) or isinstance(v, int) or v is None:
        return v
    if isinstance(v, z3.BoolRef):
        return z3.is_true(model.eval(v, model_completion=True))
    if is_int(v):
        m = model.eval(v, model_completion=True)
        return m.as_signed_long() if z3.is_bv(m) else m.as_long()
    if isinstance(v, VRange):
        return ["range", model_value(eng, model, v.start, depth), model_value(eng, model, v.stop, depth)]
    if isinstance(v, Ref):
        e = eng.entry.heap[v.id]
        if isinstance(e, ListE):
            return model_value(eng, model, e.seq, depth)
        if isinstance(e, ObjE) and depth < 2:
            return {k: model_value(eng, model, f, depth + 1) for k, f in e.fields.items()}
    if isinstance(v, Seq) and v.arr is not None and not isinstance(v.arr, dict):
        n = model_value(eng, model, v.n, depth)
        return [model_value(eng, model, z3.Select(v.arr, eng.th.z(k)), depth) for k in range(min(n, 64))]
    return "?"


def verify_case(contract, case, registry):
    res = Result(contract.target + (f"#{contract.variant}" if contract.variant else ""), case.get("name", ""))
    t0 = time.time()
    eng = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            eng = Engine(contract, registry, case, SPECS)
            res.theory = eng.th.note
            with slot():
                eng.run()
            res.nexit = getattr(eng, "nexit", 0)
            discharge(eng, contract, res)
    except Unsupported as e:
        res.unsupported = str(e)
    except RecursionError:
        res.unsupported = "recursion too deep in the verifier"
    except Exception as e:
        res.error = traceback.format_exc()
    if eng is not None:
        res.used = sorted(eng.used_contracts)
        res.trusted = sorted(eng.used_trusted)
        res.inlined = sorted(eng.inlined)
        if getattr(eng, "fi", None) is not None:
            eng.plan_loops()
            res.shapes = eng.shapes
            res.words = sorted(eng.words)
            res.reached = sorted(eng.lines)
            res.stmts = sorted({x.lineno for b in eng.fi.node.body for x in ast.walk(b) if isinstance(x, ast.stmt) and
                                not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))})
        res.lemmas = sorted(getattr(eng, "used_lemmas", set()) | {n + "_ext" for (n, _) in SPECS.decls if SPECS.fns[n].prefix})
    res.wall = time.time() - t0
    return res


def verify_lemma(name):
    res = Result("lemma " + name, "")
    t0 = time.time()
    try:
        for desc, pcs, goal in lemma_obligations(SPECS.lemmas[name]):
            st, t, back, model = prove_one(pcs, goal, SPECS, timeout=15000)
            res.obligations.append((desc, 0, st, t, back))
        res.lemmas = [u.split("(")[0] for u in SPECS.lemmas[name].uses]
    except Unsupported as e:
        res.unsupported = str(e)
    except Exception:
        res.error = traceback.format_exc()
    res.wall = time.time() - t0
    return res


def unreached(results):
    """statements no case of a function's contract ever reaches: {function: [lines]}"""
    hit, all_ = {}, {}
    for r in results:
        if r.stmts and not r.unsupported and not r.error:
            hit.setdefault(r.target, set()).update(r.reached)
            all_[r.target] = r.stmts
    return {t: sorted(set(all_[t]) - hit[t]) for t in all_ if set(all_[t]) - hit[t]}


_REG = None
_TASKS = None


def _work(i):
    t = _TASKS[i]
    if t[0] == "lemma":
        return verify_lemma(t[1])
    return verify_case(t[1], t[2], _REG)


def run_tasks(tasks, registry, procs=None):
    """tasks: ("lemma", name) or ("case", contract, case). Forked workers, results in order."""
    global _REG, _TASKS, SLOTS
    _REG, _TASKS = registry, tasks
    procs = procs or min(8, os.cpu_count() or 1)
    SLOTS = mp.BoundedSemaphore(procs)
    out = fork_map(_work, len(tasks), 2 * procs)
    for k, r in enumerate(out):
        if r is None:
            t = tasks[k]
            r = Result(t[1] if t[0] == "lemma" else t[1].target, "" if t[0] == "lemma" else t[2].get("name", ""))
            r.error = "worker died"
            out[k] = r
    return out
