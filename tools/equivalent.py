#!/usr/bin/env python3
"""Edits that change no behaviour: tools/equivalent.py SPECS.py [ID ...]. Each spec is dict(ID, PROPS, EDITS=[(file, old, new)]).
Applies it to a scratch copy, runs the repository's tests, then the checks of the properties, which must be quiet."""
import os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def one(s):
    w = f"/tmp/eq-{s['ID']}"
    shutil.rmtree(w, ignore_errors=True)
    sh(f"cp -a /repo {w}")
    for f, old, new in s["EDITS"]:
        p = os.path.join(w, f if "/" in f else "UnicodeData/" + f)
        t = open(p, encoding="utf8").read()
        assert t.count(old) == 1, (s["ID"], f, t.count(old), old)
        open(p, "w", encoding="utf8").write(t.replace(old, new))
    t = sh(f"env PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 PYTHONPATH={w} PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider --continue-on-collection-errors --ignore=tests/test_charNames.py --ignore=tests/test_layoutProps.py --ignore=tests/test_normalizer2.py --ignore=tests/test_exhaustive.py", cwd=w)
    if "397 passed" not in t.stdout or " failed" in t.stdout.strip().splitlines()[-1]:
        print(s["ID"], "TESTS FAIL", t.stdout.strip().splitlines()[-1])
    for p in s["PROPS"].split():
        ev = f"/tmp/eqev-{s['ID']}"
        os.makedirs(ev, exist_ok=True)
        c = sh(f"env REPO={w} EVIDENCE_DIR={ev} VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py {p}", cwd=HERE)
        out = [l for l in c.stdout.splitlines() if not l.startswith("WARN")]
        verdict = "quiet" if c.returncode == 0 and "VIOLATION" not in c.stdout else "ALARM" if "no-failing-input" not in c.stdout or c.returncode != 1 else "proof alarm"
        print(s["ID"], p, verdict, c.returncode, "" if verdict == "quiet" and "outside" not in "".join(out[1:]) else "\n   ".join(o[:260] for o in out[:4]), flush=True)
        shutil.rmtree(ev)
    shutil.rmtree(w)


if __name__ == "__main__":
    for s in runpy.run_path(sys.argv[1])["SPECS"]:
        if not sys.argv[2:] or s["ID"] in sys.argv[2:]:
            one(s)
