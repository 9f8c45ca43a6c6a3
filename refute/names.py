"""C24: value dictionaries, constants and category masks against frozen names and codes (tools/oracle_names.py)."""
import importlib
import json
import os

from .charprops import N, STEP
from .common import parallel

_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "oracle", "names.json")
# property -> (accessor module, accessor, frozen run table)
REPORT = {"gc": ("CharProps", "getGeneralCategory"), "blk": ("CharProps", "getBlock"), "sc": ("CharProps", "getScript"), "ea": ("CharProps", "getEastAsianWidth"),
          "lb": ("CharProps", "getLineBreak"), "sb": ("CharProps", "getSentenceBreak"), "wb": ("CharProps", "getWordBreak"), "gcb": ("CharProps", "getGraphemeClusterBreak"),
          "dt": ("CharProps", "getDecompType"), "nt": ("CharProps", "getNumericType"), "bc": ("BidiProps", "getCharDirection"), "jt": ("BidiProps", "getJoiningType"),
          "jg": ("BidiProps", "getJoiningGroup")}
GROUPS = {"L": "Lu Ll Lt Lm Lo", "LC": "Lu Ll Lt", "M": "Mn Me Mc", "N": "Nd Nl No", "Z": "Zs Zl Zp", "C": "Cn Cc Cf Co Cs", "P": "Pd Ps Pe Pc Po Pi Pf", "S": "Sm Sc Sk So"}
ORDER = "Cn Lu Ll Lt Lm Lo Mn Me Mc Nd Nl No Zs Zl Zp Cc Cf Co Cs Pd Ps Pe Pc Po Sm Sc Sk So Pi Pf".split()


def norm(s):
    return s.lower().replace("_", "").replace(" ", "").replace("-", "") if isinstance(s, str) else s


def tables(r):
    with open(_path) as f:
        T = json.load(f)
    for mod, ds in T["dicts"].items():
        M = importlib.import_module("UnicodeData." + mod)
        for d, p in ds.items():
            have = getattr(M, d, None)
            if have is None:
                r.fail(f"{mod}.{d}", "", "a dictionary", "missing")
                continue
            want = {int(k): v for k, v in T["names"][p].items()}
            for code, names in want.items():
                try:
                    got = have[code]
                except (KeyError, IndexError):
                    got = None
                r.true(f"{mod}.{d}[{code}]", "", norm(got) in names, names, got)
            extra = [k for k in (have if isinstance(have, dict) else range(len(have))) if k not in want]
            r.true(f"{mod}.{d} has no other codes", "", not extra, [], extra)
            vals = [norm(have[k]) for k in want if k in have] if isinstance(have, dict) else list(map(norm, have))
            r.true(f"{mod}.{d} is one to one", "", len(vals) == len(set(vals)))
            r.distinct += len(want)
    for mod, cs in T["constants"].items():
        M = importlib.import_module("UnicodeData." + mod)
        for k, v in cs.items():
            if hasattr(M, k):
                r.same(f"{mod}.{k}", "", v, getattr(M, k))
    for mod, pre in (("GeneralCategories", "GC_"), ("uchar_h", "U_GC_")):
        M = importlib.import_module("UnicodeData." + mod)
        for k, n in enumerate(ORDER):
            r.same(f"{mod}.{pre}{n.upper()}_MASK", "", 1 << k, getattr(M, f"{pre}{n.upper()}_MASK"))
        for g, ms in GROUPS.items():
            r.same(f"{mod}.{pre}{g}_MASK", "", sum(1 << ORDER.index(m) for m in ms.split()), getattr(M, f"{pre}{g}_MASK"))
    # masks as the accessor forms them
    P = importlib.import_module("UnicodeData.CharProps")
    if hasattr(P, "gcMask"):
        for k in range(30):
            r.same(f"gcMask({k})", "", 1 << k, P.gcMask(k))


def named(a):
    def job(r):
        """the name of the reported code of every code point"""
        import UnicodeData.UCDTypeDictionaries as U
        from .oracle import Runs
        with open(_path) as f:
            T = json.load(f)
        dic = {p: d for d, p in T["dicts"]["UCDTypeDictionaries"].items()}
        for p, (mod, fn) in REPORT.items():
            get = getattr(importlib.import_module("UnicodeData." + mod), fn)
            names = getattr(U, dic[p])
            acc = {int(k): v for k, v in T["names"][p].items()}
            want = Runs(p).table(a, min(a + STEP, N))
            seen = {}
            for c in range(a, min(a + STEP, N)):
                k = (get(c), want[c - a])
                if k not in seen:
                    seen[k] = 1
                    n = names.get(k[0])
                    r.true(f"name of {fn}({c:#x})", "", norm(n) in acc[k[1]], acc[k[1]], n)
            r.evaluations += len(want)
            if r.full:
                return
    return job


def run(pid, r):
    parallel(r, [named(a) for a in range(0, N, STEP)] + [tables])
    r.exhaustive.append("all codes of all dictionaries; all code points")
    r.sample("names of every value code compared with the Unicode aliases")
