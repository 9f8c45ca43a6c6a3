"""C05-C08: UTrie2 and CPTrie against value maps (synthetic tries) and against a direct reading of the shipped arrays."""
import struct

from .triebuild import CODES, value_map, compress, clip, utrie2, cptrie, serialize_cptrie

EDGES = [0, 0x20, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF,
         0x10000, 0x107FF, 0x10800, 0x1FFFF, 0x20000, 0xE0000, 0xE07FF, 0xE0800, 0x10F7FF, 0x10F800, 0x10FFFE, 0x10FFFF]
OUTSIDE = [0x110000, 0x110001, 0x11FFFF, 0x200000, 0x10000000, 0xFFFFFFFF, 1 << 40]


def pieces(rng, hs, maxv, n=None):
    out = []
    for _ in range(n or rng.randrange(0, 14)):
        a = rng.choice(EDGES + [rng.randrange(CODES)] * 10 + [rng.randrange(0x3000)] * 6)
        a = max(0, min(CODES - 1, a + rng.choice([0, 0, 0, 1, -1, 16, 31, 32])))
        if rng.randrange(3) == 0:
            a -= a % rng.choice([16, 32, 64, 512, 2048])
        ln = rng.choice([1, 2, 15, 16, 17, 32, 33, 64, 100, 512, 513, 2048, 5000, 65536, 0x20000])
        b = min(CODES, a + ln)
        vals = [rng.choice([0, 1, 2, 3, maxv, rng.randrange(maxv + 1)]) for _ in range(rng.choice([1, 1, 1, 2, 3, 5, 16, 32, 40]))]
        out.append((a, b, vals))
        if rng.randrange(3) == 0:
            # equal neighbouring blocks whose values change close to one of their ends
            size = rng.choice([16, 32, 32, 64, 512, 2048])
            k = rng.choice([1, 1, 2, size // 2, size - 2, size - 1, size - 1])
            x, y = rng.sample(range(min(maxv, 9) + 1), 2)
            a -= a % size
            out.append((a, min(CODES, a + size * rng.choice([2, 3, 5])), [x] * k + [y] * (size - k)))
    return out


FUNCS = [("none", None, {}), ("mod 2", lambda v: v % 2, {}), ("constant", lambda v: 7, {}), ("pair", lambda v: (v, -v), {}),
         ("text", lambda v, tag="x": f"{tag}{v % 3}", {"tag": "y"})]


def ranges(rng, n):
    out = [(0, CODES), (0, 0), (5, 5), (0x10FFFF, CODES), (0, 1), (CODES, CODES), (300, 200)]
    for _ in range(n):
        a = rng.choice(EDGES + [rng.randrange(CODES), rng.randrange(0x2000)])
        a += rng.choice([0, 0, 1, -1, 7])
        a = max(0, min(CODES - 1, a))
        if rng.randrange(2):
            b = a + rng.choice([1, 2, 15, 16, 17, 31, 32, 33, 64, 100, 511, 512, 600, 2048, 2049, 5000])
        else:
            b = rng.choice(EDGES + [rng.randrange(CODES)]) + rng.choice([0, 1, 2])
        out.append((a, max(0, min(CODES, b))))
    return out


def check_get(r, t, v, err, label, probes):
    with r.guard(f"{label}: get", "", 120):
        get = t.get
        for c in probes:
            got = get(c)
            if got != v[c]:
                r.fail(f"{label}: get({c:#x})", hex(c), v[c], got)
                return
        # the same lookups in another order: a lookup depends on nothing that was looked up before it
        again = r.rng.choices(probes, k=min(len(probes), 4000)) + OUTSIDE
        again += [x for c in r.rng.choices(probes, k=300) for x in (c, c ^ 0x400, c & 0xFFFF, c | 0x10000 & CODES - 1) if 0 <= x < CODES]
        r.rng.shuffle(again)
        for c in again:
            got, want = get(c), v[c] if c < CODES else err
            if got != want:
                r.fail(f"{label}: get({c:#x}) after other lookups", hex(c), want, got)
                return
        r.evaluations += len(probes) + len(again)
        for c in OUTSIDE:
            r.same(f"{label}: get({c:#x}), above U+10FFFF", hex(c), err, get(c))


def check_enum(r, t, runs, label, rng, n, funcs):
    for a, b in ranges(rng, n):
        name, f, kw = rng.choice(funcs)
        want = clip(runs, a, b, (lambda x: f(x, **kw)) if f else None)
        inp = {"trie": label, "start": hex(a), "limit": hex(b), "valueFunction": name}

        def go():
            out = []
            it = t.enumerator(a, b) if f is None and not funcs[1:] else t.enumerator(a, b, f, **kw) if f else t.enumerator(a, b)
            for rg, x in it:
                out.append((rg.start, rg.stop, x) if rg.step == 1 else rg)
                if len(out) > len(want) + 4:
                    break
            return out
        ok, got = r.call(f"{label}: enumerator", inp, go, 60)
        if not ok:
            return
        r.evaluations += 1
        r.distinct += len(want) > 1
        if got != want:
            k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
            r.fail(f"{label}: enumerator", inp, "piece %d: %r" % (k, want[k:k + 3]), got[k:k + 3])
            return
    # traversals of one trie that are under way at the same time, and lookups between their steps, do not disturb each other
    live = []
    pairs = [(a, b, rng.choice(funcs)) for a, b in rng.sample(ranges(rng, 12), 2) + [(0, CODES)]]
    for a, b, (name, f, kw) in pairs + pairs:          # each twice: one runs some steps ahead of the other
        want = clip(runs, a, b, (lambda x, f=f, kw=kw: f(x, **kw)) if f else None)
        live.append([t.enumerator(a, b, f, **kw) if f else t.enumerator(a, b), want, 0, {"trie": label, "start": hex(a), "limit": hex(b), "valueFunction": name}])
    with r.guard(f"{label}: interleaved enumerators", "", 60):
        while live:
            e = rng.choice(live)
            for _ in range(rng.choice([1, 1, 1, 1, 2, 5])):
                got = next(e[0], None)
                got = got and (got[0].start, got[0].stop, got[1])
                want = e[1][e[2]] if e[2] < len(e[1]) else None
                e[2] += 1
                if got != want:
                    r.fail(f"{label}: enumerator interleaved with others, piece {e[2] - 1}", e[3], want, got)
                    return
                if got is None:
                    live.remove(e)
                    break
            t.get(rng.randrange(CODES))
        r.evaluations += 5


def snapshot(t):
    return {k: (list(x) if isinstance(x, (list, tuple)) else x) for k, x in vars(t).items()}


def utrie2_jobs(pid, r):
    from UnicodeData.Utrie2 import UTrie2

    def synthetic(rec):
        rng = rec.rng
        for k in range(6 if not rec.thorough else 40):
            if rec.full:
                return
            hs = rng.choice([0x10000, 0x10800, 0x11000, 0x20000, 0x30000, 0xE0800, 0x10F800, 0x110000, 0x110000, 0x8000, 0xD800, 0xE000, rng.randrange(0x20, 0x220) * 2048])
            iv = 0
            hv = rng.choice([0, 0, 1, 9, 0xFFFF])
            v = value_map(iv, pieces(rng, hs, 0xFFFF), hs, hv)
            err = rng.choice([0, 0xABC, 0xFFFF])
            built = utrie2(v, iv, hs, hv, err, units=rng.choice([0, 7]), null2=rng.randrange(3) > 0, overlap=rng.randrange(2) == 0)
            index = built[0]
            if max(index) > 0xFFFF or len(index) > 0x3FFFC:
                continue
            label = f"synthetic trie {rec.seed}/{k} highStart={hs:#x} highValue={hv} errorValue={err}"
            t = UTrie2(list(index), *built[1:])
            rec.sample(label)
            before = snapshot(t)
            if pid == "C05":
                probes = set(EDGES) | {rng.randrange(CODES) for _ in range(3000)}
                rs = compress(v)
                for a, b, _ in rs[:3000]:
                    probes |= {a, b - 1}
                for b in (0xD800, 0xDC00, 0xE000, 0x10000, hs):
                    probes |= {c for c in range(b - 70, b + 70) if 0 <= c < CODES}
                check_get(rec, t, v, err, label, sorted(probes))
                rec.distinct += 1
                if k == 0:
                    check_get(rec, t, v, err, label, range(CODES))
            else:
                check_enum(rec, t, compress(v), label, rng, 25, FUNCS)
            rec.true(label + ": the trie is not modified", "", {k: x for k, x in snapshot(t).items() if k in before} == before)

    def shipped(name, get):
        def job(rec):
            t, arr, il, hs, hvi = get()
            label = "shipped " + name

            def direct(c):
                if c <= 0xFFFF:
                    i2 = c // 32
                    if 0xD800 <= c <= 0xDBFF:
                        i2 = 0x800 + (c - 0xD800) // 32
                    return arr[arr[i2] * 4 + c % 32]
                if c >= hs:
                    return arr[hvi]
                return arr[arr[arr[2112 + (c - 0x10000) // 2048] + c // 32 % 64] * 4 + c % 32]
            v = [direct(c) for c in range(CODES)]
            if pid == "C05":
                check_get(rec, t, v, arr[il + 128], label, range(CODES))
                rec.exhaustive.append(f"{label}: all {CODES} code points")
            else:
                check_enum(rec, t, compress(v), label, rec.rng, 60, FUNCS)
        job.__name__ = "shipped " + name
        return job

    def get_of(mod, trie, pre):
        def get():
            import importlib
            m = importlib.import_module("UnicodeData." + mod)
            t = getattr(m, trie)
            d = importlib.import_module("UnicodeData." + mod + "Data")
            arr = next(getattr(d, n) for n in (pre + "Index", pre + "_index") if hasattr(d, n))
            def val(suffix):
                return getattr(d, pre + suffix)
            return t, arr, val("_index_length"), val("_high_start"), val("_high_value_index")
        return get
    jobs = [synthetic] * 8
    for mod, trie, pre in (("CharProps", "propsTrie", "propsTrie"), ("CharProps", "propsVectorTrie", "propsVectorsTrie"),
                           ("CaseProps", "casePropsTrie", "ucase_props_trie"), ("BidiProps", "bidiPropsTrie", "ubidi_props_trie")):
        jobs.append(shipped(trie, get_of(mod, trie, pre)))
    return jobs


def cptrie_jobs(pid, r):
    from UnicodeData.CPTrie import CPTrie

    def synthetic(rec):
        rng = rec.rng
        for k in range(12 if not rec.thorough else 50):
            if rec.full:
                return
            fast = rng.randrange(2) == 0
            lim = 0x10000 if fast else 0x1000
            width = rng.randrange(3)
            maxv = (0xFFFF, 0xFFFFFFFF, 0xFF)[width]
            hs = max(lim, rng.choice([lim, lim + 512, 0x10200, 0x11000, 0x1FC00, 0x20000, 0x2FC00, 0x30000, 0xE0200, 0x10FE00, 0x110000, rng.randrange(8, 0x880) * 512]))
            nv = rng.choice([0, 0, 1, maxv])
            hv = rng.choice([nv, nv, 0, 5, maxv])
            edge = []
            if rng.randrange(2):
                # the first short block is the beginning of the last long one, whose values change further on
                x, y = rng.sample(range(min(maxv, 200)), 2)
                k = rng.choice([16, 16, 17, 32, 47, 48])
                edge = [(lim - 64, lim, [x] * k + [y] * (64 - k)), (lim, lim + rng.choice([16, 16, 32, 512, 1024]), [x])]
            v = value_map(nv, pieces(rng, hs, maxv) + edge, hs, hv)
            err = rng.choice([0, 3, maxv])
            b = cptrie(v, nv, hs, hv, err, fast, null3=rng.randrange(3) > 0, nulldata=rng.randrange(4) > 0,
                       long3=rng.randrange(3) == 0, overlap=rng.randrange(2) == 0, pad=rng.choice([0, 0, 0, 70000, 140000]))
            if not b["fits"]:
                continue
            label = f"synthetic trie {rec.seed}/{k} {'fast' if fast else 'small'} highStart={hs:#x} nullValue={nv} highValue={hv} errorValue={err} valueWidth={width} dataLength={len(b['data'])}"
            rec.sample(label)
            ok, t = rec.call("createFromData", label, lambda: CPTrie.createFromData(serialize_cptrie(b, width) + b"\x11" * rng.randrange(5)))
            if not ok:
                return
            if pid == "C07":
                for f, want in (("index", b["index"]), ("data", b["data"]), ("trieType", b["type"]), ("valueWidth", width), ("indexLength", len(b["index"])),
                                ("dataLength", len(b["data"])), ("index3NullOffset", b["index3NullOffset"]), ("dataNullOffset", b["dataNullOffset"] & 0xFFFFF),
                                ("highStart", hs), ("shifted12HighStart", (hs + 0xFFF) >> 12)):
                    got = getattr(t, f, "missing")
                    if isinstance(want, list):
                        rec.true(f"{label}: createFromData field {f}", "", list(got) == want)
                    else:
                        rec.same(f"{label}: createFromData field {f}", "", want, got)
            before = snapshot(t)
            if pid == "C07":
                probes = set(EDGES) | {rng.randrange(CODES) for _ in range(3000)}
                for a, bb, _ in compress(v)[:3000]:
                    probes |= {a, bb - 1}
                for x in (0x80, 0x1000, 0x10000, hs):
                    probes |= {c for c in range(x - 70, x + 70) if 0 <= c < CODES}
                check_get(rec, t, v, err, label, sorted(probes))
                rec.distinct += 1
                if k == 0:
                    check_get(rec, t, v, err, label, range(CODES))
            else:
                check_enum(rec, t, compress(v), label, rng, 25, FUNCS[:1])
            rec.true(label + ": the trie is not modified", "", {k: x for k, x in snapshot(t).items() if k in before} == before)

    def norm(rec):
        import UnicodeData.Norm2NFCData as d
        i, a, hs, n = d.norm2_nfc_data_trieIndex, d.norm2_nfc_data_trieData, d.norm2_nfc_data_highStart, len(d.norm2_nfc_data_trieData)
        t = CPTrie(i, a, d.norm2_nfc_data_type, d.norm2_nfc_data_valueWidth, d.norm2_nfc_data_index3NullOffset, d.norm2_nfc_data_dataNullOffset,
                   d.norm2_nfc_data_highStart, d.norm2_nfc_data_shifted12HighStart)

        def direct(c):
            if c <= 0xFFFF:
                return a[i[c // 64] + c % 64]
            if c >= hs:
                return a[n - 2]
            e = i[i[1024 + (c - 0x10000) // 16384] + c // 512 % 32]
            j = c // 16 % 32
            if e < 0x8000:
                blk = i[e + j]
            else:
                g = e - 0x8000 + j // 8 * 9
                blk = (i[g] >> (14 - 2 * (j % 8)) & 3) << 16 | i[g + 1 + j % 8]
            return a[blk + c % 16]
        v = [direct(c) for c in range(CODES)]
        if pid == "C07":
            check_get(rec, t, v, a[n - 1], "shipped NFC trie", range(CODES))
            rec.exhaustive.append("shipped NFC trie: all code points")
        else:
            check_enum(rec, t, compress(v), "shipped NFC trie", rec.rng, 60, FUNCS[:1])
    return [synthetic] * 8 + [norm]


def run(pid, r):
    from .common import parallel
    jobs = utrie2_jobs(pid, r) if pid in ("C05", "C06") else cptrie_jobs(pid, r)
    parallel(r, jobs)
