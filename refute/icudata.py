"""C22: synthetic ICU data files, and layout properties from a synthetic ulayout.icu."""
import struct

from .common import parallel
from .icubuild import header, installed, package
from .triebuild import CODES, cptrie, runs_of, serialize_cptrie, value_map
from .tries import pieces

FIELDS = ["magic1", "magic2", "infoSize", "reservedWord", "isBigEndian", "charsetFamily", "sizeofUChar", "reservedByte"]
VERS = ["fvMajor", "fvMinor", "fvMilli", "fvMicro", "dvMajor", "dvMinor", "dvMilli", "dvMicro"]


def files(r):
    rng = r.rng
    for turn in range(60 if r.thorough else 25):
        n = rng.choice([1, 1, 2, 7, 40])
        items, expect = [], []
        names = set()
        while len(names) < n:
            names.add("".join(rng.choice("abcXYZ0189_-./") for _ in range(rng.choice([1, 3, 12, 30]))).strip("/") + rng.choice([".icu", ".nrm", ".res", ""]) or "q")
        names.discard("")
        for k, name in enumerate(sorted(names)):
            size = rng.choice([24, 32, 64, 40, rng.randrange(24, 300), 256, 511])
            f = dict(magic1=rng.randrange(256), magic2=rng.randrange(256), infoSize=rng.randrange(65536), reservedWord=rng.randrange(65536),
                     isBigEndian=rng.randrange(256), charsetFamily=rng.randrange(256), sizeofUChar=rng.randrange(256), reservedByte=rng.randrange(256))
            fmt = bytes(rng.randrange(1, 256) for _ in range(4))
            vs = [rng.randrange(256) for _ in VERS]
            body = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 30, 400])))
            if turn % 5 == 0 and k == 0:
                body += rng.randbytes(rng.choice([0x10000, 0x10000 - size, 0x12345, 0x30000]))
            items.append((name, header(size, fmt, vs, f) + body))
            expect.append((name, size, f, fmt, vs, body))
        order = list(range(len(items)))
        rng.shuffle(order)
        head = rng.choice([24, 32, 26, 160, 1000])
        text = "".join(chr(rng.randrange(1, 256)) for _ in range(rng.choice([0, 1, 50])))
        items.append(("strings", text.encode("latin-1") + b"\0junk"))
        order.append(len(items) - 1)
        prefix = rng.choice(["icudt67l", "x", "icudt67l-long-prefix", ""])
        data = package(items, prefix, head, lambda: rng.choice([0, 0, 1, 5]), order)
        info = {"items": [(e[0], e[1], len(e[5])) for e in expect], "header": head, "prefix": prefix}
        where = {}
        for k, (name, b) in enumerate(items):              # read back from the table of contents by hand
            a, o = struct.unpack_from("<II", data, head + 4 + 8 * k)
            where[name] = head + o
        with installed(data) as idf:
            ok, d = r.call("ICUData()", info, lambda: idf.ICUData())
            if not ok:
                return
            C = idf.ICUData
            held = []
            for name, size, f, fmt, vs, body in expect:
                ok, off = r.call(f"getDataOffset({name!r})", info, lambda: d.getDataOffset(name))
                if not ok or not r.same(f"getDataOffset({name!r})", info, where[name], off):
                    return
                ok, res = r.call(f"getDataOffsetAndHeader({name!r})", info, lambda: d.getDataOffsetAndHeader(name))
                if not ok:
                    return
                off, h = res
                held.append(h)
                r.same(f"offset of {name!r}", info, where[name], off)
                for fld, v in [("headerLength", size), *f.items(), *zip(VERS, vs)]:
                    if not r.same(f"{name!r}.{fld}", info, v, getattr(h, fld)):
                        return
                got = h.dataFormat if isinstance(h.dataFormat, bytes) else str(h.dataFormat).encode("latin-1")
                r.same(f"{name!r}.dataFormat", info, fmt, got)
                r.same(f"data of {name!r}", info, body, d.getData(off + h.headerLength, off + h.headerLength + len(body)))
                a, b = sorted((rng.randrange(len(data) + 1), rng.randrange(len(data) + 1)))
                r.same(f"getData({a}, {b})", info, data[a:b], d.getData(a, b))
            for (name, size, f, fmt, vs, body), h in zip(expect, held):
                # a header that was handed out stays the header of its item
                for fld, v in [("headerLength", size), *f.items(), *zip(VERS, vs)]:
                    if not r.same(f"{name!r}.{fld}, held", info, v, getattr(h, fld)):
                        return
            for off in [rng.randrange(len(data)) for _ in range(40)] + [o for x in (rng.randrange(len(data)),) for o in (x, x + 0x10000, x + 0x100, x + 1) if o < len(data)]:
                end = data.find(b"\0", off)
                if end >= 0:
                    r.same(f"getString({off})", info, data[off:end].decode("latin-1"), d.getString(off))
            off = d.getDataOffset("strings")
            r.same("getString", {**info, "text": text}, text, d.getString(off))
            if len(text) > 1:
                r.same("getString from within", {**info, "text": text}, text[1:], d.getString(off + 1))
            again = idf.ICUData()
            for e in expect:
                r.same(f"second ICUData(): getDataOffset({e[0]!r})", info, where[e[0]], again.getDataOffset(e[0]))
        r.distinct += len(expect)
        r.sample(info)
        if r.full:
            return


def layout_file(rng):
    """ulayout.icu, and per property the value map, the error value and the index words; None when a trie does not fit the format"""
    ts, vs = [], []
    for k in range(3):
        hs = rng.choice([0x10000, 0x11C00 // 512 * 512, 0x20000, 0x110000])
        iv, maxv = 0, rng.choice([3, 15, 40, 255])
        err = 0
        hv = rng.choice([0, 1])
        v = value_map(iv, pieces(rng, hs, maxv), hs, hv)
        t = cptrie(v, iv, hs, hv, err, fast=rng.random() < 0.3, overlap=False)
        if not t["fits"]:
            return None
        b = serialize_cptrie(t, rng.choice([0, 1, 2]))
        ts.append(b + b"\0" * (-len(b) % 16))
        vs.append((v, err))
    n = rng.choice([12, 16])
    ix = [0] * n
    ix[0] = n
    off = 4 * n
    for k in range(3):
        off += len(ts[k])
        ix[1 + k] = off
    ix[4] = ix[5] = ix[6] = ix[7] = off
    ix[9] = 0x0F0F0303
    return header(rng.choice([24, 32, 48]), b"Layo") + struct.pack(f"<{n}I", *ix) + b"".join(ts) + b"tail", vs, ix


def minimal(rng):
    while True:
        f = layout_file(rng)
        if f:
            return [("ulayout.icu", f[0])]


def layout(r):
    rng = r.rng
    for _ in range(4 if r.thorough else 1):
        f = layout_file(rng)
        if f is None:
            r.notes.append("a synthetic trie did not fit the format")
            continue
        body, vs, ix = f
        with installed(package([("q.icu", b"xyz" * rng.randrange(9)), ("ulayout.icu", body), ("zz.icu", b"1")])):
            ok, M = r.call("import of LayoutProps", ix, lambda: __import__("UnicodeData.LayoutProps", fromlist=["x"]))
            if not ok:
                return
            for fn, (v, err) in zip(("getInPC", "getInSC", "getVO"), vs):
                get = getattr(M, fn)
                for c in range(0, CODES, 1 if r.thorough else 7):
                    if get(c) != v[c]:
                        r.fail(f"{fn}({c:#x})", ix, v[c], get(c))
                        return
                r.evaluations += CODES // (1 if r.thorough else 7)
                r.same(f"{fn}(0x110000)", ix, err, get(0x110000))
                r.distinct += len(set(v))


def run(pid, r):
    parallel(r, [files] * 8 + [layout] * 12)
