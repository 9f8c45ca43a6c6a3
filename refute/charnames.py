"""C19-C21: character names from synthetic unames.icu data against what was encoded."""
from .common import parallel
from .icubuild import NameData, installed, package

NOT_FOUND = 0xFFFFFFFF
GC_NAMES = ["unassigned", "uppercase letter", "lowercase letter", "titlecase letter", "modifier letter", "other letter", "non spacing mark", "enclosing mark",
            "combining spacing mark", "decimal digit number", "letter number", "other number", "space separator", "line separator", "paragraph separator",
            "control", "format", "private use area", "surrogate", "dash punctuation", "start punctuation", "end punctuation", "connector punctuation",
            "other punctuation", "math symbol", "currency symbol", "modifier symbol", "other symbol", "initial punctuation", "final punctuation"]


def synthetic(r, name, fix=None):
    d = NameData(r.rng, **fix) if fix else NameData(r.rng, r.rng.choice([1, 2, 3, 20, 90]), r.rng.choice([0, 1, 2, 6, 14]))
    junk = b"\x01\x02\x03" * r.rng.randrange(4)
    return d, package([("a.icu", junk), ("unames.icu", d.bytes), ("z.icu", junk)])


def probes(r, d, n):
    cs = {0, 0x41, 0x10FFFF, 0xFFFE, 0xD800, 0xDC00, 0xDFFF} | set(d.fields)
    for m in d.msbs:
        cs |= {(m << 5) - 1, m << 5, (m << 5) + 31, (m << 5) + 32}
    for a in d.ranges:
        cs |= {a["start"] - 1, a["start"], a["end"], a["end"] + 1}
    cs |= {r.rng.randrange(0x110000) for _ in range(n)}
    return sorted(c for c in cs if 0 <= c < 0x110000)


def c19(r):
    for _ in range(12 if r.thorough else 5):
        d, data = synthetic(r, "names")
        with installed(data):
            ok, M = r.call("import of CharNames", {"tokens": len(d.tok), "groups": len(d.msbs)}, lambda: __import__("UnicodeData.CharNames", fromlist=["x"]))
            if not ok:
                return
            for c, f in d.fields.items():
                for choice, k in ((M.U_UNICODE_CHAR_NAME, 0), (M.U_UNICODE_10_CHAR_NAME, 1), (M.U_CHAR_NAME_ALIAS, 3), (M.U_ISO_COMMENT, 2)):
                    got = M.CharNames.getCharName(c, choice)
                    if not r.same(f"getCharName({c:#x}, {choice})", {"tokens": len(d.tok), "fields": f}, f[k], got):
                        return
            for c in r.rng.choices(list(d.fields), k=min(len(d.fields), 200)):      # in any order, again
                got = [M.CharNames.getCharName(c, choice) for choice in (M.U_CHAR_NAME_ALIAS, M.U_UNICODE_CHAR_NAME)]
                r.same(f"getCharName({c:#x}) again", {"tokens": len(d.tok), "fields": d.fields[c]}, [d.fields[c][3], d.fields[c][0]], got)
            for g in M.CharNames._groups if hasattr(M.CharNames, "_groups") else []:
                for k in range(32):
                    want = d.fields.get(g.charRange.start + k, [""])[0]
                    if not r.same("Group.expandName", hex(g.charRange.start + k), want, g.expandName(k, M.U_UNICODE_CHAR_NAME)):
                        return
        r.distinct += len(d.fields)
        r.sample(f"{len(d.tok)} tokens ({len(d.leads)} lead bytes), {len(d.msbs)} groups, {len(d.fields)} lines")


def c20(r):
    for _ in range(12 if r.thorough else 5):
        d, data = synthetic(r, "ranges", dict(ngroups=2, nranges=r.rng.choice([1, 5, 30])))
        with installed(data):
            ok, M = r.call("import of CharNames", {"ranges": len(d.ranges)}, lambda: __import__("UnicodeData.CharNames", fromlist=["x"]))
            if not ok:
                return
            for a in d.ranges:
                for c in range(a["start"], a["end"] + 1):
                    want = d.algorithmic(a, c)
                    info = {k: v for k, v in a.items() if k != "bytes"}
                    for choice in (M.U_UNICODE_CHAR_NAME, M.U_EXTENDED_CHAR_NAME):
                        if not r.same(f"getCharName({c:#x}, {choice})", info, want, M.CharNames.getCharName(c, choice)):
                            return
                    for choice in (M.U_UNICODE_10_CHAR_NAME, M.U_CHAR_NAME_ALIAS, M.U_ISO_COMMENT):
                        if not r.same(f"getCharName({c:#x}, {choice})", info, "", M.CharNames.getCharName(c, choice)):
                            return
                r.distinct += 1
        r.sample(f"{len(d.ranges)} algorithmic ranges, " + ", ".join(f"{a['start']:X}..{a['end']:X} type {a['type']}" for a in d.ranges[:4]))


def hangul(r):
    """the Hangul and ideograph ranges as ICU stores them"""
    import struct
    import unicodedata
    d = NameData(r.rng, 3, 0)
    from .icubuild import header
    els = [["G", "GG", "N", "D", "DD", "R", "M", "B", "BB", "S", "SS", "", "J", "JJ", "C", "K", "T", "P", "H"],
           ["A", "AE", "YA", "YAE", "EO", "E", "YEO", "YE", "O", "WA", "WAE", "OE", "YO", "U", "WEO", "WE", "WI", "YU", "EU", "YI", "I"],
           ["", "G", "GG", "GS", "N", "NJ", "NH", "D", "L", "LG", "LM", "LB", "LS", "LT", "LP", "LH", "M", "B", "BS", "S", "SS", "NG", "J", "C", "K", "T", "P", "H"]]
    body = struct.pack("<3H", 19, 21, 28) + b"HANGUL SYLLABLE \0" + b"".join(x.encode() + b"\0" for g in els for x in g)
    cjk = b"CJK UNIFIED IDEOGRAPH-\0"
    alg = struct.pack("<I", 3) + struct.pack("<IIBBH", 0x4E00, 0x9FFC, 0, 4, 12 + len(cjk)) + cjk + struct.pack("<IIBBH", 0xAC00, 0xD7A3, 1, 3, 12 + len(body)) + body \
        + struct.pack("<IIBBH", 0x20000, 0x2A6DD, 0, 5, 12 + len(cjk)) + cjk
    g = struct.pack("<H3H", 1, 0xD7A0 >> 5, 0, 0)
    s = bytes(16)
    head = struct.pack("<IIII", 18, 18, 18 + len(g), 18 + len(g) + len(s)) + struct.pack("<H", 0)
    data = package([("unames.icu", header(32) + head + g + s + alg)])
    with installed(data):
        import UnicodeData.CharNames as M
        seen = set()
        for a, b in ((0x4E00, 0x9FFC), (0xAC00, 0xD7A3), (0x20000, 0x2A6DD)):
            for c in range(a, b + 1):
                got = M.CharNames.getCharName(c)
                seen.add(got)
                if got != unicodedata.name(chr(c)):
                    r.fail("getCharName", hex(c), unicodedata.name(chr(c)), got)
                    return
        r.evaluations += len(seen)
        r.same("distinct names", "", 0x9FFD - 0x4E00 + 11172 + 0x2A6DE - 0x20000, len(seen))
        r.same("nameIterator count", "", len(seen), sum(1 for _ in M.CharNames.nameIterator()))


def c21(r):
    for _ in range(10 if r.thorough else 4):
        d, data = synthetic(r, "all")
        with installed(data):
            ok, M = r.call("import of CharNames", {"groups": len(d.msbs), "ranges": len(d.ranges)}, lambda: __import__("UnicodeData.CharNames", fromlist=["x"]))
            if not ok:
                return
            C = M.CharNames
            info = {"groups": [hex(m << 5) for m in d.msbs[:20]], "ranges": [(hex(a["start"]), hex(a["end"])) for a in d.ranges]}
            from .oracle import Runs
            gc = Runs("gc")
            for choice, k in ((M.U_UNICODE_CHAR_NAME, 0), (M.U_CHAR_NAME_ALIAS, 3)):
                want = {c: f[k] for c, f in d.fields.items() if f[k]}
                if k == 0:
                    for a in d.ranges:
                        for c in range(a["start"], a["end"] + 1):
                            want[c] = d.algorithmic(a, c)
                    want = {c: n for c, n in want.items() if n}
                ps = probes(r, d, 300)
                order = r.rng.choices(ps, k=len(ps))
                for c in ps + ps[::-1] + order:
                    if not r.same(f"getCharName({c:#x}, {choice})", info, want.get(c, ""), C.getCharName(c, choice)):
                        return
                ok, got = r.call("nameIterator", info, lambda: list(C.nameIterator(choice)))
                if not ok:
                    return
                once = dict(got)
                r.same(f"nameIterator({choice}) yields each code point once", info, len(once), len(got))
                miss = sorted(set(want) ^ set(once))[:3] or [c for c in want if want[c] != once.get(c)][:3]
                if miss and (want.get(miss[0]) or once.get(miss[0])):
                    r.fail(f"nameIterator({choice}) yields the named code points", {**info, "code points": [hex(c) for c in miss]}, want.get(miss[0]), once.get(miss[0]))
                    return
                # two iterations at a time, with lookups in between; one that is given up; lookups of the other choice
                some = got[:200]
                i1, i2 = C.nameIterator(choice), C.nameIterator(M.U_CHAR_NAME_ALIAS if k == 0 else M.U_UNICODE_CHAR_NAME)
                pairs = []
                for c, _ in some:
                    pairs.append(next(i1, None))
                    next(i2, None)
                    C.getCharName(order[len(pairs) % len(order)], choice)
                if not r.same(f"nameIterator({choice}) with lookups and another iteration in between", info, some, pairs):
                    return
                r.evaluations += len(got)
                count = {}
                for v in want.values():
                    count[v] = count.get(v, 0) + 1
                named = sorted(want)
                for c in r.rng.sample(named, min(len(named), 25)):
                    if count[want[c]] == 1:
                        if not r.same(f"charFromName({want[c]!r}, {choice})", info, c, C.charFromName(want[c], choice)):
                            return
                    else:
                        r.true(f"charFromName({want[c]!r}, {choice}) is a bearer of the name", info, want.get(C.charFromName(want[c], choice)) == want[c])
                absent = "NO SUCH NAME 7~"
                if absent not in count:
                    r.same(f"charFromName({absent!r}, {choice})", info, NOT_FOUND, C.charFromName(absent, choice))
                r.distinct += len(count)
            alias = {f[3]: c for c, f in d.fields.items() if f[3]}
            for n in r.rng.sample(sorted(alias), min(len(alias), 10)):      # one choice after the other
                if sum(f[3] == n for f in d.fields.values()) == 1:
                    r.same(f"charFromName({n!r}, alias)", info, alias[n], C.charFromName(n, M.U_CHAR_NAME_ALIAS))
                if not any(f[0] == n for f in d.fields.values()) and not any(n == d.algorithmic(a, c) for a in d.ranges for c in range(a["start"], a["end"] + 1)):
                    r.same(f"charFromName({n!r})", info, NOT_FOUND, C.charFromName(n))
            for c in ps:
                if d.range_of(c):
                    continue
                cat = "noncharacter" if c & 0xFFFE == 0xFFFE or 0xFDD0 <= c <= 0xFDEF else "lead surrogate" if 0xD800 <= c <= 0xDBFF else "trail surrogate" if 0xDC00 <= c <= 0xDFFF else GC_NAMES[gc[c]]
                r.same(f"getCharName({c:#x}, extended)", info, f"<{cat}-{c:04X}>", C.getCharName(c, M.U_EXTENDED_CHAR_NAME))
        r.sample(info)


def categories(r):
    """extended names of all code points"""
    from .oracle import Runs
    gc = Runs("gc").table()
    d, data = NameData(r.rng, 2, 0), None
    with installed(package([("unames.icu", d.bytes)])):
        import UnicodeData.CharNames as M
        for c in range(0x110000):
            cat = "noncharacter" if c & 0xFFFE == 0xFFFE or 0xFDD0 <= c <= 0xFDEF else "lead surrogate" if 0xD800 <= c <= 0xDBFF else "trail surrogate" if 0xDC00 <= c <= 0xDFFF else GC_NAMES[gc[c]]
            got = M.CharNames.getCharName(c, M.U_EXTENDED_CHAR_NAME)
            if got != f"<{cat}-{c:04X}>":
                r.fail("extended name", hex(c), f"<{cat}-{c:04X}>", got)
                return
        r.evaluations += 0x110000


def run(pid, r):
    n = 96 if r.thorough else 32
    jobs = {"C19": [c19] * n, "C20": [hangul] + [c20] * n, "C21": [categories] + [c21] * n}[pid]
    parallel(r, jobs)
