"""C16, C17: decompositions from the shipped NFC data and from synthetic normalization data, hard coded and from a file."""
import struct

from .common import parallel
from .icubuild import header, installed, package
from .triebuild import cptrie, serialize_cptrie

N = 0x110000


def hangul(c):
    s = c - 0xAC00
    return chr(0x1100 + s // 588) + chr(0x1161 + s % 588 // 28) + (chr(0x11A7 + s % 28) if s % 28 else "")


def raw_hangul(c):
    s = c - 0xAC00
    return chr(0x1100 + s // 588) + chr(0x1161 + s % 588 // 28) if s % 28 == 0 else chr(c - s % 28) + chr(0x11A7 + s % 28)


def units(text):
    b = text.encode("utf-16-le")
    return list(struct.unpack(f"<{len(b) // 2}H", b))


def char(rng):
    return chr(rng.choice([0x61, 0x300, rng.randrange(0x20, 0xD800), rng.randrange(0xE000, 0x10000), rng.randrange(0x10000, N)]))


def text(rng, most):
    s = ""
    n = rng.choice([0, 1, 1, 2, 2, 3, 6, 18, 31])
    while len(units(s)) < n:
        s += char(rng)
    while len(units(s)) > most:
        s = s[:-1]
    return s


class NormData:
    """random normalization data: table maps a code point to (kind, decomposition, raw decomposition)"""

    def __init__(self, rng):
        self.rng = rng
        self.extra = [rng.randrange(65536) for _ in range(rng.choice([2, 10, 300]))]
        self.entries = []                                     # (norm16, mapping, raw)
        ix = [0] * 20
        ix[10] = 2 * len(self.extra)                          # minYesNo; its unit stands for Hangul LV
        yes_yes = ix[10]
        self.extra.append(0x5555)
        self.region(rng.choice([1, 12]))
        ix[14] = 2 * len(self.extra)                          # minYesNoMappingsOnly, Hangul LVT
        self.extra.append(0x5555)
        self.region(rng.choice([1, 30]))
        for k in (11, 15, 16):
            ix[k] = 2 * len(self.extra)
            self.region(rng.choice([0, 1, 25]))
        ix[17] = 2 * len(self.extra)
        if rng.random() < 0.5:
            self.extra.append(0)
            self.entries.append((2 * len(self.extra) - 2 | 1, "", ""))
        ix[12] = limit = 2 * len(self.extra)
        low = limit + 8 * 0x90
        low += -low % 8
        ix[13] = mmy = rng.choice([low, 0xFC00, low + 8 * rng.randrange((0xFC00 - low) // 8)])
        self.center = (mmy >> 3) - 0x41
        front = [rng.randrange(65536) for _ in range((0xFC00 - mmy) >> 1)]
        # assignment of norm16 values to code points
        v = [1] * N
        kind = {}
        plain = [1, 2, 0xFE00, 0xFE02, 0xFFFE, mmy, 0xFC00, 0xFC00 + 2 * 230] + [k & ~1 for k in (3, yes_yes - 1)]
        plain = [x for x in plain if x < yes_yes or x >= mmy]
        for _ in range(300):
            a = rng.choice([rng.randrange(N), rng.randrange(0x3000), rng.randrange(0xD800, 0xDC00), N - 1])
            for c in range(a, min(N, a + rng.choice([1, 1, 5, 70]))):
                v[c] = rng.choice(plain)
        decomposing = []
        for e in self.entries * rng.choice([1, 3]):
            a = rng.choice([rng.randrange(0xA0, N), rng.randrange(0xA0, 0x3000), rng.randrange(0xD7F0, 0xDD00)])
            for c in range(a, min(N, a + rng.choice([1, 1, 1, 3]))):
                v[c] = e[0]
                kind[c] = ("mapping", e[1], e[2])
        for c in range(0xAC00, 0xD7A4):
            v[c] = ix[10] if (c - 0xAC00) % 28 == 0 else ix[14] | 1
            kind[c] = ("hangul", hangul(c), raw_hangul(c))
        # algorithmic mappings to a code point nearby
        for _ in range(200):
            c = rng.choice([rng.randrange(0xA0, N), rng.choice(list(kind))]) + rng.choice([-3, 0, 2])
            t = c + rng.choice([-0x40, 0x40, rng.randrange(-0x40, 0x41)])
            if not (0xA0 <= c < N and 0 <= t < N) or 0xAC00 <= c < 0xD7A4 or 0xD800 <= t < 0xDC00:
                continue
            if t in kind and kind[t][0] == "mapping" and kind[t][1] == "" or kind.get(t, ("",))[0] == "delta" or t == c or v[t] >= mmy:
                continue
            if any(kind.get(s, ("",))[0] == "delta" and kind[s][3] == c for s in range(c - 0x41, c + 0x42)):
                continue
            n16 = (t - c + self.center) << 3 | rng.choice([0, 2, 4]) | rng.randrange(2)
            assert limit <= n16 < mmy
            v[c] = n16
            kind[c] = ("delta", kind[t][1] if t in kind else chr(t), chr(t), t)
        # a later entry may have replaced the target of a delta
        for c, k in list(kind.items()):
            if k[0] == "delta":
                kind[c] = ("delta", kind[k[3]][1] if k[3] in kind else chr(k[3]), k[2], k[3])
        self.kind = kind
        live = [c for c in kind if not 0xD800 <= c < 0xDC00]
        ix[8] = rng.choice([min(live), max(0, min(live) - 20)])
        ix[9], ix[18] = rng.choice([0xC0, 0x300]), 0x300
        hv = 1
        last = max((c for c in range(N) if v[c] != 1), default=0)
        hs = min(N, max(0x10000, (last // 512 + 1) * 512))
        self.trie = cptrie(v, 1, hs, hv, 0x1, fast=rng.random() < 0.8, overlap=False)
        self.v, self.ix, self.all = v, ix, front + self.extra

    def region(self, n):
        rng = self.rng
        for _ in range(n):
            m = text(rng, 31)
            if not m:
                m = "ab"
            mu = units(m)
            first, before, raw = len(mu), [], m
            how = rng.randrange(4)
            if how == 1:                                       # raw mapping stored in full
                raw = text(rng, 31) or "x"
                ru = units(raw)
                before = ru + [len(ru)]
                first |= 0x40
            elif how == 2 and len(mu) >= 2:                    # raw mapping: the first two units replaced by one
                r0 = rng.choice([rng.randrange(0x20, 0xD800), rng.randrange(0xE000, 0x10000)])
                rest = mu[2:]
                if rest and 0xDC00 <= rest[0] <= 0xDFFF:
                    r0 = rng.randrange(0xD800, 0xDC00)
                raw = struct.pack(f"<{len(rest) + 1}H", r0, *rest).decode("utf-16-le")
                before = [r0]
                first |= 0x40
            if rng.random() < 0.4:
                before = before + [rng.randrange(65536)]
                first |= 0x80
            first |= rng.randrange(2) << 5 | rng.randrange(256) << 8
            self.extra += before
            self.entries.append((2 * len(self.extra) | rng.randrange(2), m, raw))
            self.extra.append(first)
            self.extra += mu
            if rng.random() < 0.2:
                self.extra += [rng.randrange(65536)] * rng.randrange(5)

    def file(self):
        t = serialize_cptrie(self.trie, 0)
        t += b"\0" * (-len(t) % 4)
        ix = list(self.ix)
        ix[0] = 80
        ix[1] = ix[0] + len(t)
        ix[2] = ix[1] + 2 * len(self.all)
        for k in (3, 4, 5, 6, 7):
            ix[k] = ix[2] + 256
        self.fileix = ix
        return header(self.rng.choice([24, 32, 64]), b"Nrm2") + struct.pack("<20I", *ix) + t + struct.pack(f"<{len(self.all)}H", *self.all) + bytes(range(256))

    def expected(self, c):
        """(decomposition, raw decomposition)"""
        if 0xD800 <= c < 0xDC00 or c not in self.kind:
            return None, None
        k = self.kind[c]
        return k[1], k[2] or None


def minimal(rng):
    """items of a data file from which Normalizer2 can be imported"""
    while True:
        d = NormData(rng)
        if d.trie["fits"]:
            return [("nfkc.nrm", d.file()), ("nfkc_cf.nrm", d.file())]


def check(r, d, M, trie, label, cs):
    for c in cs:
        want, raw = d.expected(c)
        info = {"code point": hex(c), "norm16": hex(d.v[c]), "entry": d.kind.get(c), "data": label}
        for f, w in (("getDecomposition", want), ("getRawDecomposition", raw)):
            try:
                got = getattr(trie, f)(c)
            except Exception as e:
                got = f"{type(e).__name__}: {e}"
            if not r.same(f, info, w, got):
                return False
    return True


def predicates(r, trie, d):
    """what each kind of norm16 value is, from the thresholds of the data"""
    lim, yes, lvt, maybe = d.ix[12], d.ix[10], d.ix[14], d.ix[13]
    values = set(d.v) | {x + k for x in (1, 2, 0xFE00, 0xFE02, 0xFC00, lim, yes, lvt, maybe) for k in (-1, 0, 1)}
    for n in sorted(x for x in values if 0 <= x <= 0xFFFF):
        want = {"isInert": n == 1, "isJamoL": n == 2, "isJamoVT": n == 0xFE00, "isHangulLV": n == yes, "isHangulLVT": n == lvt | 1,
                "isDecompYes": n < yes or n >= maybe, "isDecompNoAlgorithmic": n >= lim, "isMaybeOrNonZeroCC": n >= maybe,
                "mapAlgorithmic": 0x5000 + (n >> 3) - ((maybe >> 3) - 65), "getMappingIndex": n >> 1}
        for f, w in want.items():
            if not hasattr(trie, f):
                continue
            a = (0x5000, n) if f == "mapAlgorithmic" else (n,)
            ok, got = r.call(f, {"norm16": hex(n)}, lambda: getattr(trie, f)(*a))
            if not ok or not r.same(f, {"norm16": hex(n)}, w, got):
                return


def synthetic(r):
    for _ in range(3 if r.thorough else 1):
        d, d2 = NormData(r.rng), NormData(r.rng)
        if not d.trie["fits"] or not d2.trie["fits"]:
            r.notes.append("a synthetic trie did not fit the format")
            continue
        import UnicodeData.Norm2NFCData as D
        t = d.trie
        for name, val in {"trieIndex": t["index"], "trieData": t["data"], "type": t["type"], "valueWidth": 0, "index3NullOffset": t["index3NullOffset"],
                          "dataNullOffset": t["dataNullOffset"], "highStart": t["highStart"], "shifted12HighStart": t["highStart"] + 0xFFF >> 12,
                          "indexes": d.ix, "extraData": d.all, "indexLength": len(t["index"]), "dataLength": len(t["data"])}.items():
            setattr(D, "norm2_nfc_data_" + name, val)
        junk = [("a", b"")] * r.rng.randrange(3)
        with installed(package(junk + [("nfkc.nrm", d.file()), ("nfkc_cf.nrm", d2.file())], headsize=r.rng.choice([32, 48]))):
            ok, M = r.call("import of Normalizer2", {"indexes": d.fileix}, lambda: __import__("UnicodeData.Normalizer2", fromlist=["x"]))
            if not ok:
                return
            cs = set(d.kind) | set(d2.kind) | {c + k for c in list(d.kind)[:400] for k in (-1, 1) if 0 <= c + k < N} | {r.rng.randrange(N) for _ in range(3000)} | {0, N - 1}
            for trie, dd, label in ((M.nfcTrie, d, "hard coded"), (M.nfkcTrie, d, "file"), (M.nfkc_cfTrie, d2, "file")):
                check(r, dd, M, trie, label, sorted(cs))
                predicates(r, trie, dd)
        kinds = {}
        for k in list(d.kind.values()) + list(d2.kind.values()):
            kinds[k[0]] = kinds.get(k[0], 0) + 1
        r.distinct += len(d.entries) + len(d2.entries) + kinds.get("delta", 0)
        r.sample(kinds)


def shipped(r):
    from .oracle import mapping
    d = NormData(r.rng)
    with installed(package([("nfkc.nrm", d.file()), ("nfkc_cf.nrm", d.file())])):
        import UnicodeData.Normalizer2 as M
        t = M.nfcTrie
        dm, raw = mapping("dm"), mapping("raw")
        for c in range(N):
            if 0xAC00 <= c <= 0xD7A3:
                w, wr = hangul(c), raw_hangul(c)
            else:
                w = "".join(map(chr, dm[c])) if c in dm else None
                wr = "".join(map(chr, raw[c])) if c in raw else None
            for f, x in (("getDecomposition", w), ("getRawDecomposition", wr)):
                got = getattr(t, f)(c)
                if got != x:
                    r.fail(f, hex(c), x, got)
            if r.full:
                return
        r.evaluations += 2 * N
        for c in range(0xAC00, 0xD7A4):
            x = t.getDecomposition(c)
            l, v, k = ord(x[0]) - 0x1100, ord(x[1]) - 0x1161, ord(x[2]) - 0x11A7 if len(x) > 2 else 0
            r.same("composition of the decomposed syllable", hex(c), c, 0xAC00 + (l * 21 + v) * 28 + k)
            y = t.getRawDecomposition(c)
            if len(x) == 3:
                r.same("full decomposition is the raw one decomposed", hex(c), x, (t.getRawDecomposition(ord(y[0])) or y[0]) + y[1])
        for f, a in (("isJamoL", {*range(0x1100, 0x1113)}), ("isJamoVT", {*range(0x1161, 0x1176), *range(0x11A8, 0x11C3)}),
                        ("isHangulLV", {*range(0xAC00, 0xD7A4, 28)}), ("isHangulLVT", {c for c in range(0xAC00, 0xD7A4) if (c - 0xAC00) % 28})):
            if not hasattr(t, f):
                continue
            ok, got = r.call(f, "every code point of the shipped data", lambda: {c for c in range(N) if getattr(t, f)(t.getNorm16(c))})
            if ok and got != a:
                c = min(got ^ a)
                r.fail(f, hex(c), c in a, c in got)
        r.distinct += len(dm) + len(raw) + 11172
        r.exhaustive.append("all code points of the shipped NFC data")


def run(pid, r):
    if pid == "C16":
        parallel(r, [shipped])
    else:
        parallel(r, [synthetic] * (32 if r.thorough else 12))
