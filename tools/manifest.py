"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py",
     "checks": [{"property": i, "quick_cmd": f"python3-vt check.py {i}", "thorough_cmd": f"python3-vt check.py {i}",
                 "evidence_file": f"evidence/{i}.json", "technique": PROPS[i]["technique"], "level": PROPS[i]["level"],
                 "level_note": PROPS[i]["level_note"]} for i in ids if i in PROPS],
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet")} for i in ids if i not in PROPS],
     "notes": "No hooks: /repo carries only fix commits. known-findings.json lists the repaired defects."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [n["property"] for n in m["not_applicable"]])
