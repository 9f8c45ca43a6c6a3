import sys, warnings
warnings.simplefilter("ignore")
sys.path[:0]=['/verif',__import__('os').environ.get('REPO','/repo')]; sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.dont_write_bytecode=True
import contracts
from pydv.driver import *
mods = sys.argv[1].split(',') if len(sys.argv)>1 else None
pat = sys.argv[2] if len(sys.argv)>2 else ''
regl, todo = contracts.load(mods)
reg = {k:v for k,v in regl.items()}
tasks=[("case",c,case) for c in todo for case in c.cases if pat in c.target+"#"+c.variant]
if len(sys.argv)>3: tasks=[t for t in tasks if sys.argv[3] in t[2].get("name","")]
if pat in ("","lemma"): tasks+= [("lemma",n) for n in SPECS.lemmas]
rs = run_tasks(tasks, reg)
for r in rs:
    if __import__("os").environ.get("TB") and r.error: print(r.error)
    print(("OK " if r.ok else "BAD"), r.target, r.case, len(r.obligations), f"{r.wall:.1f}s", r.unsupported or '', (r.error or '').strip().splitlines()[-1:] )
    for o in r.failed: print("    ", o)
    import os
    if os.environ.get("SLOW"):
        for o in sorted(r.obligations,key=lambda o:-o[3])[:int(os.environ["SLOW"])]: print("       slow", o)
    for m in r.models: print("     model", m)
print("UNREACHED", unreached(rs))
