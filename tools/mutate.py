"""Tests the verifier: mutate the body of every function under contract and see that a proof fails.
python3 tools/mutate.py OUT.json [target-substring] [max mutants per function] [seed]
A mutant for which every obligation of the function's own contracts is still discharged survives and is listed; it is either
equivalent under the preconditions, or a hole in the contract or in the verifier."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd],
       ast.BitXor: [ast.BitAnd], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.Div: [ast.Mult]}


def sites(fn):
    """(description, function that mutates the k-th node of a copy)"""
    out = []
    nodes = list(ast.walk(fn))
    ann = {id(y) for x in nodes if isinstance(x, (ast.AnnAssign, ast.arg)) and x.annotation is not None for y in ast.walk(x.annotation)}
    if fn.returns is not None:
        ann |= {id(y) for y in ast.walk(fn.returns)}
    for k, n in enumerate(nodes):
        if id(n) in ann or n is fn:
            continue
        line = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for alt in CMP.get(type(n.ops[0]), []):
                def f(m, alt=alt): m.ops[0] = alt()
                out.append((f"line {line}: {ast.unparse(n)}: {type(n.ops[0]).__name__} -> {alt.__name__}", k, f))
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            for alt in BIN.get(type(n.op), []):
                def f(m, alt=alt): m.op = alt()
                out.append((f"line {line}: {ast.unparse(n)}: {type(n.op).__name__} -> {alt.__name__}", k, f))
        if isinstance(n, ast.BoolOp):
            def f(m): m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            out.append((f"line {line}: and/or in {ast.unparse(n)}", k, f))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1):
                def f(m, d=d): m.value += d
                out.append((f"line {line}: constant {n.value} -> {n.value + d}", k, f))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            def f(m): m.value = not m.value
            out.append((f"line {line}: {n.value} negated", k, f))
        if isinstance(n, ast.Constant) and type(n.value) is str and n.value and line:
            def f(m): m.value = m.value + "x"
            out.append((f"line {line}: string {n.value[:20]!r} changed", k, f))
        if isinstance(n, (ast.If, ast.While)) and not (isinstance(n.test, ast.Constant)):
            def f(m): m.test = ast.UnaryOp(op=ast.Not(), operand=m.test)
            out.append((f"line {line}: test negated: {ast.unparse(n.test)}", k, f))
        if isinstance(n, ast.IfExp):
            def f(m): m.body, m.orelse = m.orelse, m.body
            out.append((f"line {line}: branches swapped: {ast.unparse(n)}", k, f))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            def f(m): m.__class__ = ast.Pass; m._fields = ()
            out.append((f"line {line}: deleted: {ast.unparse(n)}", k, f))
        if isinstance(n, (ast.Break, ast.Continue)):
            def f(m): m.__class__ = ast.Pass
            out.append((f"line {line}: {type(n).__name__} deleted", k, f))
    return out


RUN = r"""
import sys, json, os, time, warnings
warnings.simplefilter("ignore")
sys.path[:0] = [%(here)r, os.environ["REPO"]]; sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
import contracts
from pydv import driver
from pydv.engine import Engine
from pydv.spec import SPECS
from pydv.prove import prove_one
from pydv.theory import Unsupported
reg, todo = contracts.load()
out = "survived"
deadline = time.time() + 240
for c in todo:
    if c.target != %(target)r or c.trusted: continue
    for case in c.cases:
        eng = Engine(c, reg, case, SPECS)
        try:
            eng.run()
        except Unsupported as e:
            out = "unsupported: " + str(e)[:100]; break
        except Exception as e:
            out = "error: " + repr(e)[:100]; break
        order = sorted(eng.obls, key=lambda o: (not o.desc.startswith("postcondition"), o.kind == "cover"))
        for o in order:
            if o.kind == "cover" or o.goal is True: continue
            st = prove_one(list(o.pc), o.goal, SPECS, timeout=6000)[0]
            if st != "proved":
                out = "killed (" + st + "): " + o.desc[:100]; break
            if time.time() > deadline:
                out = "timeout"; break
        if out != "survived": break
    if out != "survived": break
print(json.dumps(out))
"""


def main():
    out = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    most = int(sys.argv[3]) if len(sys.argv) > 3 else 12
    rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    p = subprocess.run(["python3-vt", "-c", f"import sys; sys.path[:0]=[{HERE!r},'/repo']; sys.path.append('/opt/venv/lib/python3.12/site-packages'); sys.dont_write_bytecode=True\n"
                        "import contracts, json\n_, todo = contracts.load()\nprint(json.dumps(sorted({c.target for c in todo if not c.trusted})))"], capture_output=True, text=True)
    targets = [t for t in json.loads(p.stdout.strip().splitlines()[-1]) if pat in t]
    jobs = []
    for t in targets:
        mod, qual = t.split(":")
        path = mod.replace(".", "/") + ".py"
        if not os.path.exists(os.path.join(REPO, path)):
            path = "module_builder/" + path
        with open(os.path.join(REPO, path)) as f:
            src = f.read()
        tree = ast.parse(src)
        body, fn = tree.body, None
        for part in qual.split("."):
            fn = [s for s in body if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == part][-1]
            body = fn.body
        ss = sites(fn)
        rng.shuffle(ss)
        for desc, k, f in ss[:most]:
            fn2 = copy.deepcopy(fn)
            nodes = list(ast.walk(fn2))
            f(nodes[k])
            lines = src.split("\n")
            lo = min([fn.lineno] + [d.lineno for d in fn.decorator_list])
            ind = " " * fn.col_offset
            text = "\n".join(ind + l for l in ast.unparse(fn2).split("\n"))
            jobs.append((t, desc, path, "\n".join(lines[:lo - 1] + [text] + lines[fn.end_lineno:])))
    base = tempfile.mkdtemp(prefix="mutants-")
    free = []
    for w in range(7):
        d = os.path.join(base, str(w))
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "__pycache__", ".pytest_cache"))
        free.append(d)
    results = []

    def job(j):
        t, desc, path, text = j
        d = free.pop()
        full = os.path.join(d, path)
        try:
            with open(full) as f:
                keep = f.read()
            with open(full, "w") as f:
                f.write(text)
            try:
                r = subprocess.run(["python3-vt", "-c", RUN % {"here": HERE, "target": t}], capture_output=True, text=True, timeout=400, env=dict(os.environ, REPO=d))
                res = json.loads(r.stdout.strip().splitlines()[-1]) if r.returncode == 0 else "error: " + r.stderr.strip().splitlines()[-1][:200]
            except subprocess.TimeoutExpired:
                res = "timeout"
            finally:
                with open(full, "w") as f:
                    f.write(keep)
        finally:
            free.append(d)
        results.append({"target": t, "mutation": desc, "result": res})
        if not res.startswith("killed"):
            print(res, t, desc, flush=True)
    with ThreadPoolExecutor(7) as ex:
        list(ex.map(job, jobs))
    shutil.rmtree(base)
    with open(out, "w") as f:
        json.dump(results, f, indent=1)
    n = len(results)
    print(n, "mutants,", sum(r["result"].startswith("killed") for r in results), "killed,", sum(r["result"] == "survived" for r in results), "survived,",
          sum(r["result"].startswith(("unsupported", "error", "timeout")) for r in results), "without a verdict")


if __name__ == "__main__":
    main()
