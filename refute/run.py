"""python -m refute.run <property> <tier> <seed> <out.json> : evaluate the property on the real code"""
import importlib
import json
import os
import resource
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
from refute.common import Recorder, REPO, Hang   # noqa
sys.path.insert(0, REPO)

MODULE = {}
for mod, ids in {
        "unicodeset": "C01 C02 C03 C04", "tries": "C05 C06 C07 C08", "utilities": "C18",
        "charprops": "C09 C10 C11 C12", "cases": "C13 C14", "bidi": "C15", "normalizer": "C16 C17",
        "charnames": "C19 C20 C21", "icudata": "C22", "xmlrecords": "C23", "names": "C24", "modulebuilder": "C25"}.items():
    for i in ids.split():
        MODULE[i] = mod


def main():
    pid, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    r = Recorder(tier, seed)
    t0 = time.time()
    err = None
    try:
        mod = importlib.import_module("refute." + MODULE[pid])
        mod.run(pid, r)
    except Hang:
        r.fail("evaluation", "", "a result", "no result")
    except Exception as e:
        err = traceback.format_exc()
        # an exception raised inside the code under test is a failure of that code; elsewhere the check is broken
        tb = traceback.extract_tb(e.__traceback__)
        if tb and tb[-1].filename.startswith(REPO):
            r.fail("exception in the code under test", str(e), "a result", err[-800:])
            err = None
    with open(out, "w") as f:
        json.dump({"failures": r.failures[:r.MAXFAIL], "samples": r.samples[:8], "notes": r.notes, "evaluations": r.evaluations,
                   "distinct": r.distinct, "exhaustive": r.exhaustive, "ground": r.ground, "error": err,
                   "wall": time.time() - t0}, f)


if __name__ == "__main__":
    main()
