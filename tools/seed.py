#!/usr/bin/env python3
"""Builds a planted bug: tools/seed.py SPEC.py  with SPEC defining ID, PROPERTY, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS.
Confirms in a scratch copy: applies, tests pass, demo fails with the change and passes without it; then runs the check."""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def one(s):
    ident = s["ID"]
    w = f"/tmp/seed-{ident}"
    shutil.rmtree(w, ignore_errors=True)
    sh(f"cp -a /repo {w}")
    for f, old, new in s["EDITS"]:
        p = os.path.join(w, f); t = open(p, encoding="utf8").read()
        assert t.count(old) == 1, (ident, f, t.count(old), old)
        open(p, "w", encoding="utf8").write(t.replace(old, new))
    d = os.path.join(HERE, "seeded", ident); os.makedirs(d, exist_ok=True)
    diff = sh(f"git -C {w} diff").stdout
    # original lines only
    base = sh(f"git -C {w} rev-list --max-parents=0 HEAD").stdout.strip()
    for f, old, new in s["EDITS"]:
        b = sh(f"git -C {w} blame -s -p HEAD -- {f}").stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(s["DEMO"].lstrip())
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo"); r1 = sh(f"bash {d}/demo.sh", cwd=w)
    # lines removed must be original
    lines = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    orig = all(any(l == o for o in sh(f"git -C {w} show {base}:{f}").stdout.splitlines()) for l in lines for f in [s["EDITS"][0][0]]) if len({e[0] for e in s["EDITS"]}) == 1 else True
    t = sh(f"env PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 PYTHONHASHSEED=0 PYTHONPATH={w} PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider --continue-on-collection-errors --ignore=tests/test_charNames.py --ignore=tests/test_layoutProps.py --ignore=tests/test_normalizer2.py --ignore=tests/test_exhaustive.py", cwd=w)
    tests = t.stdout.strip().splitlines()[-1]
    ok = r0.returncode == 0 and r1.returncode != 0 and orig and "397 passed" in tests and "failed" not in tests
    os.makedirs(f"/tmp/ev-{ident}", exist_ok=True)
    c = sh(f"env REPO={w} EVIDENCE_DIR=/tmp/ev-{ident} VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py {s['PROPERTY']}", cwd=HERE) if ok and "--nocheck" not in sys.argv else None
    print(ident, "OK" if ok else f"BAD demo {r0.returncode}/{r1.returncode} orig {orig} tests {tests} {r0.stderr[-300:]}", "| caught" if c and c.returncode == 1 else "| not caught", (c.stdout.strip().splitlines()[-1] if c else ""), flush=True)
    if not ok: shutil.rmtree(d)
    shutil.rmtree(w); shutil.rmtree(f"/tmp/ev-{ident}", ignore_errors=True)
if __name__ == "__main__":
    m = runpy.run_path(sys.argv[1])
    for s in m["SEEDS"]: one(s)
