"""Sidecar contracts for the functions of UnicodeData. Nothing here is executed by UnicodeData."""
import importlib
import random
import sys

MODULES = ["utilities", "utrie2", "cptrie", "charprops", "bidi", "cases", "normalizer", "unicodeset", "charnames", "icudata", "ucd", "names", "modulebuilder"]


def scratch_modules():
    """import the modules that read an ICU data file when imported, with a scratch data file (the package ships none);
    the contracts treat everything read from it as arbitrary"""
    from refute import icubuild, normalizer, icudata
    rng = random.Random(1)
    keep = {}
    with icubuild.installed(icubuild.package(normalizer.minimal(rng) + icudata.minimal(rng) + [("unames.icu", icubuild.NameData(rng, 3, 2).bytes)])):
        for m in icubuild.MODS:
            try:
                keep["UnicodeData." + m] = importlib.import_module("UnicodeData." + m)
            except Exception as e:
                print(f"note: UnicodeData.{m} cannot be imported with a scratch data file: {type(e).__name__}: {e}", file=sys.stderr)
    import UnicodeData
    for name, mod in keep.items():
        sys.modules[name] = mod
        setattr(UnicodeData, name.split(".")[1], mod)


def load(modules=None):
    """registry: target -> [contracts]; contracts to be verified; in file order"""
    reg, todo = {}, []
    scratch = False
    for m in modules or MODULES:
        mod = importlib.import_module("contracts." + m)
        scratch = scratch or getattr(mod, "SCRATCH", False)
        for c in mod.CONTRACTS:
            c._file = m
            if not c.standalone:
                reg.setdefault(c.target, []).append(c)
            todo.append(c)
    if scratch:
        scratch_modules()
    return reg, todo
