"""C13, C14: case mappings against records encoded here and against the frozen Unicode 13.0 mappings."""
from .charprops import N, STEP, direct, slots
from .common import parallel

NONE, LOWER, UPPER, TITLE = range(4)


class Rec:
    """what one data word says: type, and either a delta or exception slots"""

    def __init__(self, rng):
        self.type = rng.randrange(4)
        self.low = self.type | rng.randrange(2) << 2 | rng.randrange(8) << 4
        self.exc = None
        if rng.random() < 0.4:
            self.delta = rng.choice([0, 1, -1, 255, -256, rng.randrange(-256, 256)])
            self.low &= 0x7F
            return
        self.exc = True
        self.low = self.type | rng.randrange(2) << 2
        self.double = rng.random() < 0.35
        top = 0x10FFFF if self.double else 0xFFFF
        self.slot = {}
        for k in range(7):
            if rng.random() < 0.45:
                self.slot[k] = rng.choice([0x41, rng.randrange(top + 1), top, 0xFFFF]) if k != 4 else rng.choice([1, 2, 0x400, 7264, 0xABCD if not self.double else 0x10ABC])
        if 6 in self.slot:
            self.slot[6] = self.slot[6] & 15
        self.strings = None
        if rng.random() < 0.55:
            self.strings = [[rng.choice([0x61, 0x300, rng.randrange(0xD800), rng.randrange(0xE000, 0x10000)]) for _ in range(rng.choice([0, 0, 1, 2, 3, 15]))] for _ in range(4)]
        self.negative = rng.random() < 0.5
        self.conditional = rng.random() < 0.15
        self.noise = rng.randrange(2) << 9 | rng.randrange(2) << 11 | rng.randrange(4) << 12 | rng.randrange(2) << 15

    def encode(self, out):
        """appends to the exceptions and gives the 16 bit word, None if it does not fit"""
        if not self.exc:
            return self.low | (self.delta & 0x1FF) << 7
        index = len(out)
        if index > 0xFFF:
            return None
        word = self.noise | (0x100 if self.double else 0) | (0x400 if self.negative else 0) | (0x4000 if self.conditional else 0)
        vals = dict(self.slot)
        if self.strings is not None:
            vals[7] = sum(len(s) << 4 * k for k, s in enumerate(self.strings))
        for k in vals:
            word |= 1 << k
        out.append(word)
        for k in sorted(vals):
            if self.double:
                out.append(vals[k] >> 16)
            out.append(vals[k] & 0xFFFF)
        for s in self.strings or []:
            out.extend(s)
        out.extend(range(7, 7 + self.slot.get(6, 0)))
        return self.low | 8 | index << 4

    def simple(self, c, which):
        cased = self.type in (UPPER, TITLE) if which == "lower" else self.type == LOWER
        if not self.exc:
            return c + self.delta if cased else c
        if 4 in self.slot and cased:
            return c - self.slot[4] if self.negative else c + self.slot[4]
        for k in {"lower": [0], "upper": [2], "title": [3, 2]}[which]:
            if k in self.slot:
                return self.slot[k]
        return c

    def full(self, c, which):
        if self.exc:
            if self.conditional:
                if c == 0x130 and which == "lower":
                    return "i\u0307"
                if c == 0x587 and which != "lower":
                    return {"upper": "\u0535\u0552", "title": "\u0535\u0582"}[which]
            elif self.strings is not None:
                s = self.strings[{"lower": 0, "upper": 2, "title": 3}[which]]
                if s:
                    return "".join(map(chr, s))
        d = self.simple(c, which)
        return chr(d) if 0 <= d < N else None


def synthetic(full):
    def job(r):
        import UnicodeData.CasePropsData as D
        rng = r.rng
        tri, exc = D.ucase_props_trieIndex, D.ucase_props_exceptions
        if not (isinstance(tri, list) and isinstance(exc, list)):
            r.notes.append("case tables are not lists: no synthetic case data")
            return
        pos = direct(tri, 0, D.ucase_props_trie_high_start, D.ucase_props_trie_high_value_index)
        where = slots(tri, pos)
        del exc[:]
        pool, words = [], []
        while len(pool) < 700:
            rec = Rec(rng)
            w = rec.encode(exc)
            if w is None:
                break
            pool.append(rec)
            words.append(w)
        assign = {}
        for p in where:
            k = rng.randrange(len(pool))
            assign[p] = k
            tri[p] = words[k]
        import UnicodeData.CaseProps as P
        cs = list(where.values()) + [0x130, 0x587, 0x10FFFF, 0, 0xD800, 0xFFFF, 0x10000] + [rng.randrange(N) for _ in range(3000)]
        for c in cs:
            rec = pool[assign[pos(c)]]
            d = {"type": rec.type, "delta": getattr(rec, "delta", None), **({"slots": rec.slot, "double": rec.double, "negative": rec.negative, "strings": rec.strings, "conditional": rec.conditional} if rec.exc else {})}
            for which in ("lower", "upper", "title"):
                if not full:
                    if not r.same(f"to{which.capitalize()}({c:#x})", d, rec.simple(c, which), getattr(P, "to" + which.capitalize())(c)):
                        break
                else:
                    want = rec.full(c, which)
                    if want is None:
                        continue
                    if not r.same(f"toFull{which.capitalize()}({c:#x})", d, want, getattr(P, "toFull" + which.capitalize())(c)):
                        break
            if r.full:
                return
        r.distinct += len(set(assign.values()))
        r.sample(f"{len(pool)} synthetic case records, {len(exc)} exception words")
    return job


def shipped(full, a):
    def job(r):
        import UnicodeData.CaseProps as P
        from .oracle import mapping
        m = {w: mapping({"lower": "slc", "upper": "suc", "title": "stc"}[w] if not full else {"lower": "lc", "upper": "uc", "title": "tc"}[w]) for w in ("lower", "upper", "title")}
        for c in range(a, min(a + STEP, N)):
            for w, t in m.items():
                if full:
                    v = t.get(c)
                    want = chr(c) if v is None else "".join(map(chr, v))
                    got = getattr(P, "toFull" + w.capitalize())(c)
                else:
                    v = t.get(c)
                    want = c if v is None else v[0] if isinstance(v, (list, tuple)) else v
                    got = getattr(P, "to" + w.capitalize())(c)
                if want != got or type(want) is not type(got):
                    r.fail(f"to{'Full' if full else ''}{w.capitalize()}", hex(c), want, got)
            r.evaluations += 3
            if r.full:
                return
        if a == 0:
            r.distinct += sum(len(t) for t in m.values())
    return job


def run(pid, r):
    full = pid == "C14"
    n = 40 if r.thorough else 8
    parallel(r, [shipped(full, a) for a in range(0, N, STEP)] + [synthetic(full) for _ in range(n)])
    r.exhaustive.append("all code points of the shipped data")
