"""Concrete evaluation of the contracts on the real code: every call is made on the code imported from the
repository and its result is compared with an oracle that does not use that code."""
import contextlib
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import traceback

REPO = os.environ.get("REPO", "/repo")


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


class Recorder:
    MAXFAIL = 5

    def __init__(self, tier="quick", seed=1):
        self.tier, self.seed = tier, seed
        self.rng = random.Random(seed)
        self.failures, self.samples, self.notes = [], [], []
        self.evaluations = 0
        self.distinct = 0
        self.exhaustive = []          # names of finite domains enumerated completely
        self.ground = []              # ground checks of preconditions on real tables: (name, ok)
        self.known = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    @property
    def full(self):
        return len(self.failures) >= self.MAXFAIL

    def fail(self, what, inp, expected, got):
        if not self.full:
            self.failures.append({"what": what, "input": _short(inp), "expected": _short(expected), "got": _short(got)})

    def same(self, what, inp, expected, got):
        self.evaluations += 1
        if type(expected) is not type(got) and not (isinstance(expected, (int, float)) and isinstance(got, (int, float))) or expected != got:
            self.fail(what, inp, expected, got)
            return False
        return True

    def true(self, what, inp, cond, expected="holds", got="does not hold"):
        self.evaluations += 1
        if not cond:
            self.fail(what, inp, expected, got)
        return bool(cond)

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(_short(s))

    def call(self, what, inp, fn, seconds=20):
        """fn() guarded: an exception or no answer within the limit is a failure. Returns (ok, value)"""
        try:
            with limit(seconds):
                return True, fn()
        except Hang:
            self.fail(what, inp, "a result", f"no result within {seconds} s")
        except RecursionError:
            self.fail(what, inp, "a result", "RecursionError")
        except Exception as e:
            self.fail(what, inp, "a result", f"{type(e).__name__}: {e}")
        return False, None

    @contextlib.contextmanager
    def guard(self, what, inp, seconds=120):
        try:
            with limit(seconds):
                yield
        except Hang:
            self.fail(what, inp, "a result", f"no result within {seconds} s")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.fail(what, inp, "a result", f"{type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}")

    def merge(self, o):
        self.failures += o.failures
        self.samples += o.samples[:2]
        self.notes += o.notes
        self.evaluations += o.evaluations
        self.distinct += o.distinct
        self.exhaustive += o.exhaustive
        self.ground += o.ground


@contextlib.contextmanager
def limit(seconds):
    old = signal.signal(signal.SIGALRM, _alarm)
    prev = signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if prev[0]:
            signal.setitimer(signal.ITIMER_REAL, max(0.1, prev[0]))


def _short(x):
    s = x if isinstance(x, (int, str)) else repr(x)
    return s if isinstance(s, int) else (s if len(s) < 600 else s[:600] + "...")


def parallel(r, jobs, procs=8):
    """jobs: list of functions taking a Recorder; each runs in a forked child of its own, the results are merged into r"""
    tmp = tempfile.mkdtemp()
    running, done = {}, 0
    todo = list(enumerate(jobs))
    try:
        while todo or running:
            if todo and len(running) < procs:
                k, job = todo.pop(0)
                path = os.path.join(tmp, str(k))
                pid = os.fork()
                if pid == 0:
                    try:
                        sub = Recorder(r.tier, r.seed)
                        sub.rng = random.Random(r.seed * 1000003 + k)
                        with sub.guard(f"job {getattr(job, '__name__', k)}", "", 600):
                            job(sub)
                        with open(path, "wb") as f:
                            pickle.dump(sub, f)
                    except BaseException:
                        traceback.print_exc()
                        os._exit(1)
                    os._exit(0)
                running[pid] = path
                continue
            pid, status = os.wait()
            path = running.pop(pid, None)
            if path is None:
                continue
            if status == 0 and os.path.exists(path):
                with open(path, "rb") as f:
                    r.merge(pickle.load(f))
            else:
                r.fail("worker", "", "a result", "a worker of the check died (memory?)")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    del r.failures[r.MAXFAIL:]


def load(path):
    with open(path) as f:
        return json.load(f)
