#!/usr/bin/env python3
"""Freezes oracle/names.json: for every value dictionary of the package the accepted names of each code, and the values of
the integer constants. Accepted names are all aliases Unicode gives that value (oracle/perl_aliases.json: Perl 5.38's
prop_value_aliases, Unicode 15.0), matched loosely (UAX #44 LM3). The code of a value was tied to its name independently of
the dictionaries by comparing the value of every code point in Perl and Java with the frozen code of oracle/unicode13.json
(tools/oracle.py); codes no code point has were reviewed by hand against the names of ICU's constants. ISO 15924 codes that
are no Unicode script values keep their one name. Run once, at the reviewed commit."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "/repo")
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True


def norm(s):
    return s.lower().replace("_", "").replace(" ", "").replace("-", "")


DICTS = {"UCDTypeDictionaries": dict(bidiClassNames="bc", blockNames="blk", decompositionTypeNames="dt", eastAsianWidthNames="ea", generalCategoryNames="gc",
         graphemeClusterBreakNames="gcb", hangulSyllableTypeNames="hst", indicPositionalCategoryNames="InPC", indicSyllabicCategoryNames="InSC",
         joiningGroupNames="jg", joiningTypeNames="jt", lineBreakNames="lb", numberTypeNames="nt", sentenceBreakNames="sb", scriptNames="sc",
         verticalOrientationNames="vo", wordBreakNames="wb"),
         "Blocks": dict(blockNames="blk"), "Boundaries": dict(graphemeClusterBreakNames="gcb", wordBreakNames="wb", sentenceBreakNames="sb", lineBreakNames="lb"),
         "CharDirection": dict(bidiClassNames="bc"), "DecompositionType": dict(decompositionTypeNames="dt"),
         "JoiningTypesAndGroups": dict(joiningTypes="jt", joiningGroups="jg"), "LayoutTypes": dict(inpcNames="InPC", inscNames="InSC", voNames="vo"),
         "Scripts": dict(scriptCodes="sc"), "EastAsianWidth": dict(eastAsianWidthNames="ea"), "GeneralCategories": dict(generalCategories="gc")}
CONSTANTS = ["uchar_h", "uscript_h", "uprops_h", "GeneralCategories", "Blocks", "Scripts", "Boundaries", "CharDirection", "DecompositionType",
             "JoiningTypesAndGroups", "LayoutTypes", "EastAsianWidth", "Characters"]
if __name__ == "__main__":
    al = json.load(open(os.path.join(HERE, "oracle", "perl_aliases.json")))
    accept, names, consts = {}, {}, {}
    for p, t in al.items():
        groups = [{norm(x) for x in vs + [v]} for v, vs in t.items()]
        accept[p] = groups
    for mod, ds in DICTS.items():
        M = importlib.import_module("UnicodeData." + mod)
        for d, p in ds.items():
            for code, n in getattr(M, d).items():
                g = set()
                for s in accept[p]:
                    if norm(n) in s:
                        g |= s
                old = names.setdefault(p, {}).get(code)
                g = sorted(g or {norm(n)})
                assert old is None or old == g, (p, code, old, g)
                names[p][code] = g
    for p, t in names.items():
        seen = [x for g in t.values() for x in g]
        assert len(seen) == len(set(seen)), p
    for mod in CONSTANTS:
        M = importlib.import_module("UnicodeData." + mod)
        consts[mod] = {k: v for k, v in vars(M).items() if isinstance(v, int) and not k.startswith("_")}
    with open(os.path.join(HERE, "oracle", "names.json"), "w") as f:
        json.dump({"dicts": DICTS, "names": names, "constants": consts}, f)
    print({p: len(t) for p, t in names.items()}, sum(map(len, consts.values())))
