"""writes contracts/shapes.json: the shape of the loops, and the text operations, every contract's annotations are written for,
and contracts/texts.json: what the functions looked like when their proofs were completed"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get("REPO", "/repo")]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
import contracts
from pydv.engine import Engine, find_func
from pydv.spec import SPECS
regl, todo = contracts.load()
out = {}
for c in todo:
    if c.trusted:
        continue
    try:
        e = Engine(c, regl, c.cases[0], SPECS)
        e.fi = find_func(c.module, c.qualname)
        e.plan_loops()
        out[c.target + (f"#{c.variant}" if c.variant else "")] = {"loops": e.shapes, "words": sorted(e.words)}
    except Exception as x:
        print(c.target, repr(x)[:100])
with open(os.path.join(HERE, "contracts", "shapes.json"), "w") as f:
    json.dump(out, f, indent=0, sort_keys=True)
print(len(out), sum(bool(v["loops"]) for v in out.values()), sum(bool(v["words"]) for v in out.values()))
from pydv.texts import texts_of
with open(os.path.join(HERE, "contracts", "texts.json"), "w") as f:
    json.dump(texts_of(os.environ.get("REPO", "/repo")), f, indent=0, sort_keys=True)
