"""Builders of ICU data files, written from the ICU format documentation, and imports of the modules that read them."""
import contextlib
import importlib
import os
import shutil
import struct
import sys
import tempfile


def header(size, fmt=b"Test", versions=(1, 2, 3, 4, 5, 6, 7, 8), fields=None):
    """a data header of `size` bytes (at least 24)"""
    f = dict(magic1=0xDA, magic2=0x27, infoSize=20, reservedWord=0, isBigEndian=0, charsetFamily=0, sizeofUChar=2, reservedByte=0)
    f.update(fields or {})
    h = struct.pack("<HBBHHBBBB4s8B", size, f["magic1"], f["magic2"], f["infoSize"], f["reservedWord"], f["isBigEndian"], f["charsetFamily"],
                    f["sizeofUChar"], f["reservedByte"], fmt, *versions)
    return h + b" Copyright (C) test"[:max(0, size - 24)].ljust(size - 24, b"\0")


def package(items, prefix="icudt67l", headsize=32, gap=lambda: 0, order=None, filler=b"\xAA"):
    """bytes of a common data file; items: [(name, bytes)]. names and items follow in the given orders"""
    n = len(items)
    toc = 4 + 8 * n
    names, nameoff = b"", []
    for name, _ in items:
        nameoff.append(toc + len(names))
        names += f"{prefix}/{name}".encode("latin-1") + b"\0" + filler * gap()
    body, dataoff = b"", [0] * n
    start = toc + len(names)
    while start % 16:
        start, names = start + 1, names + filler
    for k in order or range(n):
        body += filler * gap()
        dataoff[k] = start + len(body)
        body += items[k][1]
    t = struct.pack("<I", n) + b"".join(struct.pack("<II", a, b) for a, b in zip(nameoff, dataoff))
    return header(headsize, b"CmnD") + t + names + body


MODS = ["ICUDataFile", "CharNames", "LayoutProps", "Normalizer2"]


@contextlib.contextmanager
def installed(data):
    """a scratch data file with the given contents, read by the modules imported inside"""
    tmp = tempfile.mkdtemp()
    try:
        path = os.path.join(tmp, "icudata.dat")
        with open(path, "wb") as f:
            f.write(data)
        for m in MODS:
            sys.modules.pop("UnicodeData." + m, None)
        import UnicodeData
        for m in MODS:
            if hasattr(UnicodeData, m):
                delattr(UnicodeData, m)
        idf = importlib.import_module("UnicodeData.ICUDataFile")
        idf._dataFilePath = path
        yield idf
    finally:
        for m in MODS:
            sys.modules.pop("UnicodeData." + m, None)
        shutil.rmtree(tmp, ignore_errors=True)


def nibbles(lengths):
    out, half = bytearray(), None

    def put(x):
        nonlocal half
        if half is None:
            half = x
        else:
            out.append(half << 4 | x)
            half = None
    for n in lengths:
        if n < 12:
            put(n)
        else:
            put(12 + (n - 12 >> 4))
            put(n - 12 & 15)
    if half is not None:
        put(0)
    return bytes(out)


class NameData:
    """random contents of unames.icu and what they mean"""

    def __init__(self, rng, ngroups, nranges, top=0x110000 >> 5):
        self.rng = rng
        self.tokens()
        self.fields = {}                              # code -> [name, 1.0 name, comment, alias]
        lines, msbs = {}, []
        self.ranges = self.make_ranges(nranges)
        msbs = sorted(rng.sample(range(top), ngroups)) if rng.random() < 0.5 else sorted({min(top - 1, max(0, rng.randrange(top) if k % 9 == 0 else (rng.randrange(16, 4000)))) for k in range(ngroups)})
        if rng.random() < 0.3:                        # groups next to each other, and with small gaps
            at, msbs = rng.randrange(top - 4 * ngroups), []
            for _ in range(ngroups):
                msbs.append(at)
                at += rng.choice([1, 1, 1, 2, 3])
        if self.ranges and rng.random() < 0.7:        # groups that touch the ends of the algorithmic ranges
            for a in self.ranges[:4]:
                msbs += [a["start"] >> 5, a["end"] >> 5]
            msbs = sorted(set(msbs))
        groups, strings = b"", b""
        sty = rng.randrange(4)
        for msb in msbs:
            off = len(strings)
            ls = []
            for k in range(32):
                c = msb << 5 | k
                if any(a["start"] <= c <= a["end"] for a in self.ranges) or rng.random() < (0.1, 0.5, 0.9, 0.0)[sty]:
                    ls.append(b"")
                    continue
                raw, fields = self.line()
                ls.append(raw)
                self.fields[c] = fields
            strings += nibbles([len(x) for x in ls]) + b"".join(ls)
            groups += struct.pack("<HHH", msb, off >> 16, off & 0xFFFF)
        groups = struct.pack("<H", len(msbs)) + groups
        self.msbs = msbs
        alg = struct.pack("<I", len(self.ranges)) + b"".join(a["bytes"] for a in self.ranges)
        t0 = 16
        t1 = t0 + 2 + 2 * len(self.tok)
        g0 = t1 + len(self.strings)
        s0 = g0 + len(groups)
        a0 = s0 + len(strings)
        a0 += -a0 % 4
        body = struct.pack("<IIII", t1, g0, s0, a0) + struct.pack(f"<H{len(self.tok)}H", len(self.tok), *self.tok) + self.strings + groups + strings
        self.bytes = header(rng.choice([24, 32, 48, 26]), b"unam") + body.ljust(a0, b"\0") + alg

    def text(self, n):
        return bytes(self.rng.choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ -0123456789") for _ in range(n))

    def tokens(self):
        rng = self.rng
        n = rng.choice([0, 1, 40, 59, 60, 200, 256, 256 * 3, 256 * 40, 0xFFFF])
        strs, offs = b"", []
        for _ in range(rng.choice([1, 10, 300])):
            offs.append(len(strs))
            strs += self.text(rng.choice([0, 1, 2, 3, 9, 40])) + b"\0"
        self.strings = strs
        tok = [0xFFFF] * n
        for k in range(min(n, 256)):
            if k != 0x3B and rng.random() < 0.6:
                tok[k] = rng.choice(offs)
        leads = []
        for k in range(1, (n + 255) // 256):
            if (rng.random() < 0.5 or k == 255) and k != 0x3B:
                tok[k] = 0xFFFE
                leads.append(k)
                for j in range(min(256, n - (k << 8))):
                    tok[k << 8 | j] = rng.choice(offs)
        self.tok, self.leads = tok, leads
        self.singles = [k for k in range(min(n, 256)) if tok[k] < 0xFFFE]
        self.literals = [k for k in range(256) if k != 0x3B and (k >= n or tok[k] == 0xFFFF)]

    def string(self, tokidx):
        e = self.strings.index(0, tokidx)
        return self.strings[tokidx:e].decode("latin-1")

    def field(self, room):
        rng = self.rng
        raw, text = b"", ""
        for _ in range(rng.choice([0, 1, 2, 5, 15, 70])):
            kind = rng.randrange(3)
            if kind == 0 and self.singles:
                b = rng.choice(self.singles)
                nr, nt = bytes([b]), self.string(self.tok[b])
            elif kind == 1 and self.leads:
                a, b = rng.choice(self.leads[:1] + self.leads[-1:] + rng.choices(self.leads, k=3)), rng.choice([0, 1, 255, rng.randrange(256)])
                if b == 0x3B or (a << 8 | b) >= len(self.tok):
                    continue
                nr, nt = bytes([a, b]), self.string(self.tok[a << 8 | b])
            else:
                b = rng.choice(self.literals)
                nr, nt = bytes([b]), chr(b)
            if len(raw) + len(nr) > room:
                break
            raw, text = raw + nr, text + nt
        return raw, text

    def line(self):
        """(encoded line, the four fields)"""
        n = self.rng.choice([1, 1, 1, 2, 3, 4, 4])
        raws, texts, room = [], [], 75 - 3
        for k in range(n):
            a, b = self.field(room) if k != 1 or self.rng.random() < 0.3 else (b"", "")
            raws.append(a)
            texts.append(b)
            room -= len(a)
        return b";".join(raws), texts + [""] * (4 - n)

    def make_ranges(self, n):
        rng = self.rng
        pts = sorted(rng.sample(range(0x110000), 2 * n))
        out = []
        for k in range(n):
            s, e = pts[2 * k], pts[2 * k + 1]
            if rng.random() < 0.3:
                s = e = s
            e = min(e, s + rng.choice([0, 5, 40, 900]))
            prefix = self.text(rng.choice([0, 5, 25]))
            if rng.random() < 0.5:
                digits = rng.choice([4, 5, 6])
                body = prefix + b"\0"
                a = dict(start=s, end=e, type=0, digits=digits, prefix=prefix.decode())
                variant, typ = digits, 0
            else:
                f = [rng.choice([1, 2, 3, 7, 28]) for _ in range(rng.choice([1, 2, 3, 4, 4, 6, 8]))]
                if len(f) > 4:
                    f = [rng.choice([1, 2, 2, 3]) for _ in f]
                while True:
                    p = 1
                    for x in f:
                        p *= x
                    if p >= e - s + 1:
                        break
                    f[rng.randrange(len(f))] += rng.choice([1, 10, 50])
                if p <= 3000 and rng.random() < 0.8:
                    e = min(pts[2 * k + 1], s + p - 1)              # every digit combination, where there is room
                els = [[self.text(rng.choice([0, 1, 2, 3])) for _ in range(x)] for x in f]
                body = struct.pack(f"<{len(f)}H", *f) + prefix + b"\0" + b"".join(x + b"\0" for g in els for x in g)
                a = dict(start=s, end=e, type=1, factors=f, elements=[[x.decode() for x in g] for g in els], prefix=prefix.decode())
                variant, typ = len(f), 1
            size = 12 + len(body)
            if typ == 0:
                body += b"\0" * (-size % 4)
                size += -size % 4
            a["bytes"] = struct.pack("<IIBBH", s, e, typ, variant, size) + body
            if size < 65536:
                out.append(a)
        return out

    def algorithmic(self, a, c):
        if a["type"] == 0:
            return a["prefix"] + format(c, "X").rjust(a["digits"], "0")
        k, parts = c - a["start"], []
        for f, els in reversed(list(zip(a["factors"][1:], a["elements"][1:]))):
            k, d = divmod(k, f)
            parts.append(els[d])
        parts.append(a["elements"][0][k])
        return a["prefix"] + "".join(reversed(parts))

    def range_of(self, c):
        for a in self.ranges:
            if a["start"] <= c <= a["end"]:
                return a
        return None
