"""Tests the concrete evaluation: mutate the functions of the repository and see that the evaluation of a property reports it.
python3 tools/mutate_refute.py OUT.json [file-substring] [max mutants per function] [seed] [workers]
A mutant nobody reports is listed; it is equivalent on the domain of the properties, or a hole in the evaluation."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import HERE, REPO, sites

WHO = {"Utilities": "C18", "Utrie2": "C05 C06", "CPTrie": "C07 C08", "CharProps": "C09 C10 C11 C12", "BidiProps": "C15", "CaseProps": "C13 C14", "Normalizer2": "C17 C16",
       "UnicodeSet": "C03 C01 C02 C04", "CharNames": "C19 C20 C21", "ICUDataFile": "C22 C21", "LayoutProps": "C22", "HeaderToPtyhon": "C25", "ModuleBuilder": "C25", "UCDReader": "C25"}
XML = "BidiProperties BinaryProperties CaseProperties CharacterData DecompProperties IndicProperties UCDProperties"


def main():
    out = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    most = int(sys.argv[3]) if len(sys.argv) > 3 else 4
    rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    workers = int(sys.argv[5]) if len(sys.argv) > 5 else 4
    who = {**WHO, **{m: "C23" for m in XML.split()}}
    jobs = []
    for m, pids in who.items():
        path = f"UnicodeData/{m}.py" if os.path.exists(f"{REPO}/UnicodeData/{m}.py") else f"module_builder/{m}.py"
        if pat not in path:
            continue
        with open(os.path.join(REPO, path)) as f:
            src = f.read()
        todo = [("", s) for s in ast.parse(src).body]
        while todo:
            pre, fn = todo.pop(0)
            if isinstance(fn, ast.ClassDef):
                todo += [(pre + fn.name + ".", s) for s in fn.body]
            if not isinstance(fn, ast.FunctionDef):
                continue
            ss = sites(fn)
            rng.shuffle(ss)
            for desc, k, f in ss[:most]:
                fn2 = copy.deepcopy(fn)
                f(list(ast.walk(fn2))[k])
                lines = src.split("\n")
                lo = min([fn.lineno] + [d.lineno for d in fn.decorator_list])
                text = "\n".join(" " * fn.col_offset + l for l in ast.unparse(fn2).split("\n"))
                jobs.append((m + "." + pre + fn.name, desc, path, pids.split(), "\n".join(lines[:lo - 1] + [text] + lines[fn.end_lineno:])))
    base = tempfile.mkdtemp(prefix="mutants-")
    free = []
    for w in range(workers):
        d = os.path.join(base, str(w))
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "__pycache__", ".pytest_cache"))
        free.append(d)
    results = []

    def job(j):
        name, desc, path, pids, text = j
        d = free.pop()
        full = os.path.join(d, path)
        with open(full) as f:
            keep = f.read()
        with open(full, "w") as f:
            f.write(text)
        res = "survived"
        for pid in pids:
            o = os.path.join(d, ".out.json")
            if os.path.exists(o):
                os.remove(o)
            try:
                subprocess.run(["/opt/venv/bin/python", "-m", "refute.run", pid, "quick", "1", o], cwd=HERE, capture_output=True, timeout=400,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE, PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", REPO=d))
                with open(o) as f:
                    r = json.load(f)
                if r["failures"]:
                    res = "reported by " + pid
                    break
                if r["error"]:
                    res = "error: " + r["error"].strip().splitlines()[-1][:150]
                    break
            except (subprocess.TimeoutExpired, FileNotFoundError) as e:
                res = "no verdict: " + type(e).__name__
                break
        with open(full, "w") as f:
            f.write(keep)
        free.append(d)
        results.append({"function": name, "mutation": desc, "result": res})
        if not res.startswith("reported"):
            print(res, "|", name, "|", desc, flush=True)
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(job, jobs))
    shutil.rmtree(base)
    with open(out, "w") as f:
        json.dump(results, f, indent=1)
    print(len(results), "mutants,", sum(r["result"].startswith("reported") for r in results), "reported")


if __name__ == "__main__":
    main()
