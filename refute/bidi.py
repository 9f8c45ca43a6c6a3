"""C15: bidi data words, mirror table and joining group arrays against the packed data and the frozen Unicode 13.0 values."""
from .charprops import N, STEP, direct, slots
from .common import parallel


def random_words(r):
    import UnicodeData.BidiPropsData as D
    rng = r.rng
    tri, mir, ix = D.ubidi_props_trieIndex, D.ubidi_props_mirrors, D.ubidi_props_indexes
    if not all(isinstance(x, list) for x in (tri, mir, ix)):
        r.notes.append("bidi tables are not lists: no synthetic bidi data")
        return
    pos = direct(tri, 0, D.ubidi_props_trie_high_start, D.ubidi_props_trie_high_value_index)
    where = slots(tri, pos)
    for p in where:
        tri[p] = rng.getrandbits(16) if rng.random() < 0.8 else (1 << rng.randrange(16)) ^ rng.choice([0, 0xFFFF])
    # mirror table: pairs of code points, sorted by source, each entry holding the index of its partner
    srcs = sorted(rng.sample(range(N), rng.choice([2, 40, 200])) + rng.choice([[], [N - 1, 0]]))
    srcs = sorted(set(srcs))[:2 * (len(set(srcs)) // 2)]
    order = list(range(len(srcs)))
    rng.shuffle(order)
    partner = {}
    for a, b in zip(order[::2], order[1::2]):
        partner[a], partner[b] = b, a
    mir[:] = [s | partner[k] << 21 for k, s in enumerate(srcs)]
    mirror = {s: srcs[partner[k]] for k, s in enumerate(srcs)}
    # joining group arrays
    for lo, arr, base in ((4, D.ubidi_props_jgArray, rng.randrange(0, 0x3000)), (6, D.ubidi_props_jgArray2, rng.randrange(0x10000, 0x11000))):
        arr[:] = [rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 5, 300]))]
        ix[lo], ix[lo + 1] = base, base + len(arr)
    import UnicodeData.BidiProps as P
    cs = list(where.values()) + srcs + [s + d for s in srcs for d in (-1, 1) if 0 <= s + d < N]
    cs += [c for k in (4, 6) for c in (ix[k] - 1, ix[k], ix[k + 1] - 1, ix[k + 1]) if c >= 0] + [rng.randrange(N) for _ in range(2000)]
    for c in cs:
        w = tri[pos(c)]
        delta = (w >> 13) - 8 if w >> 15 else w >> 13
        m = mirror.get(c, c) if delta == -4 else c + delta
        jg = 0
        for k, arr in ((4, D.ubidi_props_jgArray), (6, D.ubidi_props_jgArray2)):
            if ix[k] <= c < ix[k + 1]:
                jg = arr[c - ix[k]]
        want = {"getCharDirection": w & 31, "isMirrored": bool(w & 0x1000), "getMirror": m, "isBidiControl": bool(w & 0x800), "isJoinControl": bool(w & 0x400),
                "getJoiningType": w >> 5 & 7, "getJoiningGroup": jg, "getPairedBracketType": w >> 8 & 3, "getPairedBracket": m if w & 0x300 else c}
        for f, v in want.items():
            got = getattr(P, f)(c)
            if isinstance(v, bool) and isinstance(got, int):
                got = bool(got)
            if not r.same(f"{f}({c:#x})", {"word": hex(w), "mirrors": len(srcs)}, v, got):
                return
    r.distinct += len(where)
    r.sample(f"{len(where)} random bidi words, {len(srcs)} mirror pairs, joining group ranges {[hex(ix[k]) for k in (4, 5, 6, 7)]}")


def shipped(a):
    def job(r):
        import UnicodeData.BidiProps as P
        from .oracle import Runs, mapping
        tabs = {f: Runs(n).table(a, min(a + STEP, N)) for f, n in {"getCharDirection": "bc", "isMirrored": "bidi_m", "isBidiControl": "bidi_c", "isJoinControl": "join_c",
                                                         "getJoiningType": "jt", "getJoiningGroup": "jg", "getPairedBracketType": "bpt"}.items()}
        bmg, bpb = mapping("bmg"), mapping("bpb")
        for c in range(a, min(a + STEP, N)):
            for f, t in tabs.items():
                got, want = getattr(P, f)(c), t[c - a]
                if got != want:
                    r.fail(f, hex(c), want, got)
            for f, t in (("getMirror", bmg), ("getPairedBracket", bpb)):
                got = getattr(P, f)(c)
                if got != t.get(c, c):
                    r.fail(f, hex(c), t.get(c, c), got)
                elif got != c and getattr(P, f)(got) != c:
                    r.fail(f"{f} is an involution", hex(c), c, getattr(P, f)(got))
            b = P.getPairedBracketType(c)
            if b and P.getPairedBracketType(P.getPairedBracket(c)) != 3 - b:
                r.fail("bracket types of a pair are opposite", hex(c), 3 - b, P.getPairedBracketType(P.getPairedBracket(c)))
            if r.full:
                return
        r.evaluations += 12 * min(STEP, N - a)
        if a == 0:
            r.distinct += len(bmg) + len(bpb)
    return job


def run(pid, r):
    n = 40 if r.thorough else 8
    parallel(r, [shipped(a) for a in range(0, N, STEP)] + [random_words] * n)
    r.exhaustive.append("all code points of the shipped data")
