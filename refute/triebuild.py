"""Builders of UTrie2 and UCPTrie structures from a value map, written from the ICU format documentation."""
import bisect
import struct

CODES = 0x110000


def value_map(iv, pieces, hs, hv):
    """list of CODES values: iv, then the pieces (a, b, values cycled) in order, then hv from hs"""
    v = [iv] * CODES
    for a, b, vals in pieces:
        n = len(vals)
        if n == 1:
            v[a:b] = [vals[0]] * (b - a)
        else:
            v[a:b] = [vals[k % n] for k in range(b - a)]
    v[hs:] = [hv] * (CODES - hs)
    return v


def runs_of(v, start, limit, f=None):
    """maximal runs of equal f(value) in start..limit-1"""
    out = []
    p = start
    while p < limit:
        x = v[p]
        q = p + 1
        while q < limit and v[q] == x:
            q += 1
        y = f(x) if f else x
        if out and out[-1][2] == y:
            out[-1] = (out[-1][0], q, y)
        else:
            out.append((p, q, y))
        p = q
    return out


def compress(v):
    out = []
    p, n = 0, len(v)
    while p < n:
        x = v[p]
        q = min(n, p + 1)
        # gallop
        step = 64
        while q < n and v[q] == x:
            if v[q:q + step] == [x] * len(v[q:q + step]):
                q = min(n, q + step)
                step = min(step * 2, 65536)
            else:
                step = 1
                q += 1
                while q < n and v[q] == x:
                    q += 1
        out.append((p, q, x))
        p = q
    return out


def clip(runs, start, limit, f=None):
    out = []
    for a, b, x in runs:
        a, b = max(a, start), min(b, limit)
        if a < b:
            y = f(x) if f else x
            if out and out[-1][2] == y:
                out[-1] = (out[-1][0], b, y)
            else:
                out.append((a, b, y))
    return out


class Data:
    """data array with block sharing"""
    def __init__(self, gran, overlap):
        self.a, self.gran, self.overlap, self.seen = [], gran, overlap, {}

    def add(self, vals, share=True):
        key = tuple(vals)
        if share and key in self.seen:
            return self.seen[key]
        while len(self.a) % self.gran:
            self.a.append(0)
        pos = len(self.a)
        if self.overlap:
            for k in range(self.gran * (len(vals) // self.gran), 0, -self.gran):
                if k <= len(self.a) and self.a[-k:] == list(vals[:k]):
                    pos -= k
                    break
        self.a[pos:] = list(vals)
        self.seen[key] = pos
        return pos


def utrie2(v, iv, hs, hv, err=0xFFFF, units=7, null2=True, overlap=True):
    """(index, indexLength, index2NullOffset, dataNullOffset, highStart, highValueIndex)"""
    assert hs % 2048 == 0
    d = Data(4, overlap)
    for b in range(4):
        d.add(v[b * 32:b * 32 + 32], share=False) if not d.a else d.a.extend(v[b * 32:b * 32 + 32])
    d.seen = {}
    assert len(d.a) == 128
    d.a += [err] * 64
    null = len(d.a)
    d.a += [iv] * 32
    d.seen[tuple([iv] * 32)] = null
    assert null == 0xC0

    def block(b):
        return d.add(v[b * 32:b * 32 + 32])
    i2 = []
    for b in range(0x800):
        if b < 4:
            i2.append(b * 32)
        elif 0xD800 // 32 <= b < 0xDC00 // 32:
            i2.append(d.add([units] * 32))       # values for lead surrogate code units, not code points
        else:
            i2.append(block(b))
    for b in range(0xD800 // 32, 0xDC00 // 32):
        i2.append(block(b))
    for c in range(0, 0x800, 64):
        i2.append(i2[c // 32])                   # UTF-8 two-byte index: not used by code point lookup
    assert len(i2) == 2112
    n1 = (hs - 0x10000) // 2048 if hs > 0x10000 else 0
    base2 = 2112 + n1
    i1, blocks, where = [], [], {}
    nullblk = tuple([null] * 64)
    for k in range(n1):
        blk = tuple(block((0x10000 + k * 2048) // 32 + j) for j in range(64))
        if blk not in where:
            where[blk] = base2 + 64 * len(blocks)
            blocks.append(blk)
        i1.append(where[blk])
    n2null = 0xFFFF
    if null2:
        if nullblk in where:
            n2null = where[nullblk]
        # null index-2 block inside the linear BMP index, when 64 consecutive entries there are null
        elif i2[0x400:0x440] == list(nullblk):
            n2null = 0x400
    i2len = base2 + 64 * len(blocks)
    while i2len % 4:
        i2len += 1
    flat = i2 + [None] * n1 + [x for b in blocks for x in b]
    flat += [0] * (i2len - len(flat))
    while len(d.a) % 4:
        d.a.append(iv)
    hvi = len(d.a)
    d.a += [hv] * 4
    index = []
    for k, x in enumerate(flat):
        if 2112 <= k < 2112 + n1:
            index.append(i1[k - 2112])
        else:
            index.append((x + i2len) >> 2 if k < base2 + 64 * len(blocks) else 0)
            assert k >= base2 + 64 * len(blocks) or (x + i2len) % 4 == 0
    # padding entries point at the null block
    for k in range(base2 + 64 * len(blocks), i2len):
        index[k] = (null + i2len) >> 2
    return index + d.a, i2len, n2null, null + i2len, hs, hvi + i2len


def cptrie(v, nv, hs, hv, err, fast=True, null3=True, nulldata=True, long3=False, overlap=True, pad=0):
    """dict: index, data, type, index3NullOffset, dataNullOffset, highStart.
    v: value list; nv: null value; long3: use 18-bit index-3 blocks throughout; pad: unused data words before the
    multi-stage blocks, so that offsets exceed 16 bits"""
    assert hs % 512 == 0
    d = Data(1, overlap)
    d.a = list(v[:128])
    d.seen = {}
    fastlim = 0x10000 if fast else 0x1000
    nullpos = None
    if nulldata:
        nullpos = len(d.a)
        d.a += [nv] * 64
    idx = []
    for b in range(fastlim // 64):
        if b < 2:
            idx.append(b * 64)
        else:
            blk = v[b * 64:b * 64 + 64]
            idx.append(nullpos if nulldata and blk == [nv] * 64 else d.add(blk))
    d.seen = {}
    if overlap:   # short blocks are found inside the long ones
        for p in range(len(d.a) // 16 * 16 - 16, -1, -16):
            d.seen[tuple(d.a[p:p + 16])] = p
    d.a += [0xAB & 0xFF] * pad
    start1 = 0x10000 if fast else 0
    n1 = max(0, (hs - start1 + 16383) // 16384) if hs > fastlim else 0
    i1pos = len(idx)
    idx += [0] * n1
    need = []
    for k in range(n1):
        ents = []
        for j in range(32):
            c = start1 + k * 16384 + j * 512
            if c >= hs:
                ents.append("pad")
                continue
            offs = []
            for m in range(32):
                blk = v[c + 16 * m:c + 16 * m + 16]
                offs.append(nullpos if nulldata and blk == [nv] * 16 else d.add(blk))
            ents.append(tuple(offs))
        need.append(ents)
    where = {}
    n3null = 0x7FFF
    seq = []
    for ents in need:
        for e in ents:
            if e == "pad" or e in where:
                continue
            isnull = nulldata and e == tuple([nullpos] * 32)
            big = max(e) > 0xFFFF
            if isnull and null3 or not (long3 or big):
                pos = len(idx)
                idx += list(e)
                where[e] = pos
                if isnull and null3:
                    n3null = pos
            else:
                pos = len(idx)
                for g in range(4):
                    hi = 0
                    for m in range(8):
                        hi |= (e[g * 8 + m] >> 16 & 3) << (14 - 2 * m)
                    idx.append(hi)
                    idx += [x & 0xFFFF for x in e[g * 8:g * 8 + 8]]
                where[e] = pos | 0x8000
    last = next(iter(where.values()), 0)
    blocks2 = {}
    for k, ents in enumerate(need):
        blk = tuple(where[e] if e != "pad" else last for e in ents)
        if blk not in blocks2:
            blocks2[blk] = len(idx)
            idx += list(blk)
        idx[i1pos + k] = blocks2[blk]
    if len(idx) % 2:
        idx.append(0)
    data = d.a + [hv, err]
    return {"index": idx, "data": data, "type": 0 if fast else 1, "index3NullOffset": n3null,
            "dataNullOffset": nullpos if nulldata else 0xFFFFF, "highStart": hs, "fits": max(idx) <= 0xFFFF and len(data) < 0xFFFFF and (not blocks2 or max(blocks2.values()) < 0x8000) and all(x < 0x8000 or x & 0x8000 for x in where.values())}


def serialize_cptrie(t, width):
    """bytes of the serialized form; width 0: 16, 1: 32, 2: 8 bits"""
    n = len(t["data"])
    dn = t["dataNullOffset"]
    options = (n >> 16 & 15) << 12 | (dn >> 16 & 15) << 8 | t["type"] << 6 | width
    head = struct.pack("=IHHHHHH", 0x54726933, options, len(t["index"]), n & 0xFFFF, t["index3NullOffset"], dn & 0xFFFF, t["highStart"] >> 9)
    return head + struct.pack(f"={len(t['index'])}H", *t["index"]) + struct.pack(f"={n}{'HIB'[width]}", *t["data"])
