#!/usr/bin/env python3
"""python3-vt check.py <property> : verify the contracts of a property on the current tree of the repository and
evaluate the property on the real code. Exit 0: held; 1: violated (VIOLATION line); 2: the check itself is broken."""
import json
import os
import re
import signal
import subprocess
import sys
import time
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
sys.path[:0] = [HERE, REPO]
SITE = "/opt/venv/lib/python3.12/site-packages"
sys.path.append(SITE)
PY = "/opt/venv/bin/python"
T0 = time.time()
OUT = os.environ.get("EVIDENCE_DIR", os.path.join(HERE, "evidence"))


def refute(pid, tier, seed):
    """run the concrete evaluation in its own process"""
    out = os.path.join(OUT, f".{pid}.{os.getpid()}.refute.json")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE, PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")
    budget = 300 if tier == "quick" else 600
    p = subprocess.Popen([PY, "-m", "refute.run", pid, tier, str(seed), out], cwd=HERE, env=env, start_new_session=True,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    try:
        _, err = p.communicate(timeout=budget)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return {"timeout": budget}
    try:
        with open(out) as f:
            d = json.load(f)
        os.unlink(out)
        return d
    except Exception:
        return {"error": "no result; stderr: " + err.decode(errors="replace")[-1500:]}


def ground(names):
    """the well-formedness preconditions, evaluated on the shipped tables. -> [(name, clauses, false clauses)]"""
    from pydv.ground import evaluate, View
    out = []
    for name in names:
        if name not in ("utrie2", "cptrie"):
            import importlib
            out += importlib.import_module("contracts." + name).ground()
            continue
        if name == "utrie2":
            from contracts.utrie2 import WFE
            import UnicodeData.CharProps as cp, UnicodeData.CaseProps as ca, UnicodeData.BidiProps as bd
            objs = [("propsTrie", cp.propsTrie), ("propsVectorTrie", cp.propsVectorTrie), ("casePropsTrie", ca.casePropsTrie), ("bidiPropsTrie", bd.bidiPropsTrie)]
        else:
            from contracts.cptrie import WFE
            from UnicodeData.CPTrie import CPTrie
            import UnicodeData.Norm2NFCData as d
            t = CPTrie(d.norm2_nfc_data_trieIndex, d.norm2_nfc_data_trieData, d.norm2_nfc_data_type, d.norm2_nfc_data_valueWidth,
                       d.norm2_nfc_data_index3NullOffset, d.norm2_nfc_data_dataNullOffset, d.norm2_nfc_data_highStart, d.norm2_nfc_data_shifted12HighStart)
            objs = [("NFC trie", t)]
        for label, o in objs:
            v = View(o)
            d2 = (range(1024), range(getattr(o, "dataNullOffset", 0) - 1, getattr(o, "dataNullOffset", 0) + 66))
            bad = []
            for clause in WFE:
                try:
                    ok = evaluate(clause, {"self": v}, domain2=d2)
                except Exception as e:
                    ok = False
                if not ok:
                    bad.append(clause)
            out.append((label, len(WFE), bad))
    return out


def prove(cfg, budget):
    import contracts
    from pydv import driver
    from pydv.spec import SPECS
    regl, todo = contracts.load()
    want = []
    for c in todo:
        for mod, pat in cfg["contracts"]:
            if c.trusted:
                continue
            if getattr(c, "_file", mod) == mod and (pat[1:] in c.props if pat.startswith("@") else pat in c.target + "#" + c.variant):
                want.append(c)
                break
    driver.DEADLINE = time.time() + budget
    # the functions of the property, then every function whose contract they rely on
    done, results, have = set(), [], set()
    while want:
        have |= {id(c) for c in want}
        batch = driver.run_tasks([("case", c, case) for c in want for case in c.cases], regl)
        results += batch
        used = {t for r in batch for t in r.used}
        want = [c for c in todo if c.target in used and not c.trusted and id(c) not in have]
    # lemmas: those named, and whatever the functions turn out to use
    need = set(cfg["lemmas"])
    for r in results:
        need |= set(r.lemmas)
    while need - done:
        batch = sorted(need - done)
        done |= set(batch)
        rs = driver.run_tasks([("lemma", n) for n in batch], regl)
        for r in rs:
            need |= {u.split("(")[0] for u in r.lemmas}
        results += rs
    check_acyclic(SPECS)
    return results


def check_acyclic(specs):
    """no lemma may rest on itself (other than by its own induction)"""
    done, open_ = set(), []

    def go(n):
        if n in done:
            return
        if n in open_:
            raise RuntimeError("lemmas rest on each other: " + " -> ".join(open_ + [n]))
        open_.append(n)
        for u in specs.lemmas[n].uses:
            go(u.split("(")[0])
        open_.pop()
        done.add(n)
    for n in specs.lemmas:
        go(n)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from props import PROPS
    cfg = PROPS[pid]
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    conc = refute(pid, tier, seed)
    fails = conc.get("failures", [])
    conc_broken = conc.get("error")
    total = 600 if tier == "quick" else 780
    results, gr, proof_error = [], [], None
    try:
        if cfg["contracts"] or cfg["lemmas"]:
            results = prove(cfg, 60 if fails else max(60, total - (time.time() - T0)))
        gr = ground(cfg["ground"])
    except Exception as e:
        import traceback
        proof_error = traceback.format_exc()

    # loop annotations are written for loops of a certain shape: where the loops are others now, an obligation that fails says nothing
    # about the property, and the function counts as outside the verifier until it is annotated again
    shapes = load_shapes()
    for r in results:
        if r.target in shapes and any(o[2] not in ("proved", "covered") for o in r.obligations):
            loops, words = shapes[r.target]["loops"], shapes[r.target]["words"]
            if r.shapes != loops:
                r.unsupported = f"loops {r.shapes} instead of {loops}: the annotations do not apply"
                r.obligations = []
            elif r.words != words:   # text methods and patterns are uninterpreted: other ones may give the same texts
                r.unsupported = f"text operations {r.words} instead of {words}: the specification speaks of other functions of texts"[:300]
                r.obligations = []
    obls = [(r, o) for r in results for o in r.obligations]
    failed = [(r, o) for r, o in obls if o[2] in ("refuted", "unknown", "vacuous")]
    # a function as it was when its proof was completed: the solvers ran out of time, which says nothing about the code
    patient = slow_proofs([r for r, o in failed if o[2] == "unknown"])
    late = [(r, o) for r, o in obls if o[2] == "not attempted"] + [(r, o) for r, o in failed if o[2] == "unknown" and id(r) in patient]
    failed = [(r, o) for r, o in failed if o[2] != "unknown" or id(r) not in patient]
    proved = [(r, o) for r, o in obls if o[2] == "proved"]
    covers = [(r, o) for r, o in obls if o[2] == "covered"]
    outside = [r for r in results if r.unsupported or r.error]
    badground = [g for g in gr if g[2]]
    back = {}
    for r, o in proved:
        back[o[4]] = back.get(o[4], 0) + 1
    trusted = sorted({t for r in results for t in r.trusted})

    def fn(r):
        return r.target + (f" [{r.case}]" if r.case else "")
    lines, code = [], 0
    exhaustive = bool(cfg.get("finite"))
    replay = os.path.join(OUT, "replay", f"{pid}.json")
    rel = os.path.relpath(replay, HERE) if replay.startswith(HERE) else replay
    doc = {"property": pid, "tier": tier, "seed": seed, "failing_inputs": fails,
           "failed_obligations": [{"function": fn(r), "obligation": o[0], "line": o[1], "status": o[2], "verifier": o[4]} for r, o in failed],
           "counter_models": [{"function": fn(r), "models": r.models} for r in results if r.models],
           "outside_the_verifier": [{"function": fn(r), "reason": r.unsupported or r.error} for r in outside],
           "failed_table_assumptions": badground,
           "how_to_replay": f"cd {HERE} && VERIF_TIER={tier} VERIF_SEED={seed} PYTHONPATH={HERE} {PY} -m refute.run {pid} {tier} {seed} /dev/stdout"}
    known = load_known(pid)
    new = [f for f in fails if not any(k["match"] in f"{f['what']} {f['input']}" for k in known)]
    for k in known:
        if any(k["match"] in f"{f['what']} {f['input']}" for f in fails):
            lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    if new:
        code = 1
        f = new[0]
        lines.append(f"failing input: {f['what']}: input {f['input']}: expected {f['expected']}, got {f['got']}")
        lines.append(f"VIOLATION property={pid} replay={rel}")
    elif conc_broken and (proof_error or outside or late or not proved):
        code = 2
        lines.append("the check is broken: " + str(conc_broken)[-1500:])
    elif failed and not exhaustive:
        code = 1
        r, o = failed[0]
        lines.append(f"obligation not discharged: {fn(r)}: {o[0]} (line {o[1]}): {o[2]}")
        lines.append(f"VIOLATION property={pid} replay={rel} no-failing-input-found")
    if code == 1:
        with open(replay, "w") as f:
            json.dump(doc, f, indent=1, default=str)

    for what in (conc_broken and "the concrete evaluation broke off: " + str(conc_broken), proof_error and "the proofs broke off, nothing counts as proved: " + proof_error):
        if what:
            lines.append("note: " + what[-1500:])
            conc.setdefault("notes", []).append(what[-1500:])
    complete = not proof_error and bool(proved) and not failed and not outside and not late and not badground
    level = cfg["level"]
    if level == "proof" and not complete:
        level = "exploration"
    cov = {
        "obligations": len(proved) + len(failed) + len(late), "discharged": len(proved),
        "checker_cmd": f"python3-vt check.py {pid}",
        "trusted_base": ["pydv (verification condition generator, /verif/pydv)", "z3 " + _z3(), "cvc5", "CPython " + sys.version.split()[0]] + ["assumed contract: " + t for t in trusted],
        "by_back_end": back, "solver_time_s": round(sum(o[3] for r, o in obls), 2),
        "functions_under_contract": sorted({fn(r) for r in results if not r.target.startswith("lemma") and r.ok}),
        "functions_inlined": sorted({i for r in results for i in r.inlined}),
        "lemmas_proved": sorted({r.target[6:] for r in results if r.target.startswith("lemma") and r.ok}),
        "reachability_covers": len(covers),
        "statements_unreachable_under_the_preconditions": unreached(results),
        "undischarged": [{"function": fn(r), "obligation": o[0], "status": o[2]} for r, o in (failed + late)[:20]],
        "bounded_stand_ins": [{"function": fn(r), "reason": (r.unsupported or r.error or "")[-300:]} for r in outside],
        "table_assumptions_checked": [{"table": g[0], "clauses": g[1], "false": g[2]} for g in gr],
        "evaluations": conc.get("evaluations", 0), "distinct_nontrivial": conc.get("distinct", 0),
        "rule": cfg["rule"] or "see refute/", "samples": conc.get("samples", []) or ["none"],
        "finite_domains_enumerated": conc.get("exhaustive", []), "notes": conc.get("notes", []),
        "explanation": cfg["level_note"]}
    if conc.get("timeout"):
        cov["notes"] = [f"the concrete evaluation did not finish in {conc['timeout']} s"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg["assumptions"] + ["assumed contract: " + t for t in trusted],
          "wall_s": round(time.time() - T0, 2), "violations": len(new) if new else int(code == 1)}
    with open(os.path.join(OUT, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {len(proved)} of {cov['obligations']} obligations discharged {back}, {len(outside)} functions outside the verifier, "
          f"{conc.get('evaluations', 0)} evaluations, {len(new)} failing inputs, {time.time() - T0:.1f} s")
    for r in outside:
        print("  outside the verifier:", fn(r), (r.unsupported or r.error).strip().splitlines()[-1][:200])
    for r, o in (failed + late)[:5]:
        print("  not discharged:", fn(r), o[0], o[1], o[2])
    for l in lines:
        print(l)
    sys.stdout.flush()
    os._exit(code)


def unreached(results):
    from pydv import driver
    return driver.unreached(results)


def _z3():
    import z3
    return z3.get_version_string()


def load_shapes():
    with open(os.path.join(HERE, "contracts", "shapes.json")) as f:
        return json.load(f)


def slow_proofs(results):
    from pydv.texts import texts_of, untouched
    if not results:
        return set()
    with open(os.path.join(HERE, "contracts", "texts.json")) as f:
        then = json.load(f)
    now = texts_of(REPO)
    return {id(r) for r in results if r.target.startswith("lemma") or untouched([r.target.split("#")[0], *r.inlined], now, then)}


def load_known(pid):
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


if __name__ == "__main__":
    main()
