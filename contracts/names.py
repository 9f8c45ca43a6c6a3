"""Names and codes (C24): what the modules of constants hold after their statements have run, against the frozen names and codes of
Unicode 13.0 (oracle/names.json). The statements are closed: the verifier evaluates them."""
import json
import os

from pydv.engine import Contract
from refute.names import GROUPS, ORDER

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "oracle", "names.json")) as f:
    T = json.load(f)

def masks(pre):
    return [f"{pre}{n.upper()}_MASK == {1 << k}" for k, n in enumerate(ORDER)] + \
           [f"{pre}{g}_MASK == {sum(1 << ORDER.index(m) for m in ms.split())}" for g, ms in GROUPS.items()]


def names(mod):
    out = []
    for d, p in T["dicts"].get(mod, {}).items():
        want = T["names"][p]
        out += [f"named({d}, {c}, {', '.join(map(repr, ns))})" for c, ns in want.items()]
        out.append(f"len({d}) == {len(want)}")
        out.append(f"one_to_one({d})")
    return out


def constants(mod):
    import importlib
    M = importlib.import_module("UnicodeData." + mod)
    return [f"{k} == {v!r}" for k, v in T["constants"].get(mod, {}).items() if hasattr(M, k)]


MODS = sorted(set(T["dicts"]) | set(T["constants"]))
# the globals of a module are what its statements assign; imported names are read from the modules they come from
CONTRACTS = [Contract(f"UnicodeData.{m}:<module>", {}, [], (masks({"GeneralCategories": "GC_", "uchar_h": "U_GC_"}[m]) if m in ("GeneralCategories", "uchar_h") else []) +
                      names(m) + constants(m), props=["C24"]) for m in MODS]
