"""C01-C04: UnicodeSet against sets of code points represented as bit masks (Python integers of 0x110000 bits)."""
import itertools

import bisect
import operator

HIGH = 0x110000


class Pts:
    """a set of code points as its maximal runs; the algebra evaluates membership on every elementary segment"""
    __slots__ = ("runs", "flat", "key")

    def __init__(self, runs):
        self.runs = tuple(runs)
        self.flat = [x for ab in self.runs for x in ab]

    def has(self, p):
        return bisect.bisect_right(self.flat, p) % 2 == 1

    def comb(self, o, f):
        cuts = sorted({0, HIGH, *self.flat, *o.flat})
        out = []
        for a, b in zip(cuts, cuts[1:]):
            if f(self.has(a), o.has(a)):
                if out and out[-1][1] == a:
                    out[-1] = (out[-1][0], b)
                else:
                    out.append((a, b))
        return Pts(out)

    def __or__(self, o):
        return self.comb(o, lambda x, y: x or y)

    def __and__(self, o):
        return self.comb(o, lambda x, y: x and y)

    def __sub__(self, o):
        return self.comb(o, lambda x, y: x and not y)

    def __xor__(self, o):
        return self.comb(o, lambda x, y: x != y)

    def __eq__(self, o):
        return isinstance(o, Pts) and self.runs == o.runs

    def __hash__(self):
        return hash(self.runs)

    def count(self):
        return sum(b - a for a, b in self.runs)


def mask(a, b):
    """code points a..b"""
    return Pts([(a, b + 1)] if a <= b else [])


EMPTY = Pts([])
FULL = mask(0, HIGH - 1)


def of(points):
    m = EMPTY
    for p in points:
        m = m | mask(p, p)
    return m


def runs(m):
    return m.runs


ATOMS = [(0, 0), (1, 1), (2, 0x40), (0x41, 0xFFFF), (0x10000, 0x10FFFD), (0x10FFFE, 0x10FFFE), (0x10FFFF, 0x10FFFF)]
POINTS = sorted({p for a, b in ATOMS for p in (a, b)} | {3, 0x30, 0x100})


def value(s):
    """mask of the set as its ranges describe it, or a text that says what is wrong with the form"""
    out, last = [], -1
    for rg in s.getRanges():
        a, b = rg.start, rg.stop
        if rg.step != 1 or type(a) is not int or type(b) is not int:
            return f"odd range {rg!r}"
        if not (0 <= a < b <= HIGH):
            return f"empty or out of range: {rg!r}"
        if a <= last:
            return f"ranges not ascending, disjoint and non-adjacent: {s.getRanges()!r}"[:400]
        out.append((a, b))
        last = b
    return Pts(out)


def show(m):
    return m if isinstance(m, str) else ["%X..%X" % (a, b - 1) for a, b in runs(m)[:12]]


class H:
    def __init__(self, r):
        from UnicodeData import UnicodeSet as mod
        self.US, self.r, self.mod = mod.UnicodeSet, r, mod
        self.forms = {}

    def make(self, m):
        """a fresh set holding m, built through the public interface (ascending addRange)"""
        s = self.US()
        for a, b in runs(m):
            s.addRange(a, b - 1)
        return s

    def expect(self, s, m, what, inp, deep=False):
        r = self.r
        got = value(s)
        if got != m:
            r.fail(what, inp, show(m), show(got))
            return False
        r.evaluations += 1
        # equal sets have the same text form and compare equal
        form = self.forms.get(m)
        if form is None:
            c = self.make(m)
            v = value(c)
            if v != m:
                r.fail("addRange in ascending order", show(m), show(m), show(v))
                return False
            form = self.forms[m] = (str(c), c)
            if len(self.forms) > 3000:
                self.forms.clear()
        if str(s) != form[0]:
            r.fail(what + ": text form differs from that of an equal set", inp, form[0], str(s))
            return False
        if not (s == form[1]) or (s != form[1]):
            r.fail(what + ": does not compare equal to an equal set", inp, True, False)
            return False
        if deep:
            self.queries(s, m, what, inp)
        return True

    def queries(self, s, m, what, inp):
        r = self.r
        rs = runs(m)
        before = str(s)
        pts = set(POINTS)
        for a, b in rs[:40]:
            pts |= {a - 1, a, b - 1, b}
        for p in sorted(pts):
            if p < 0:
                continue
            want = p < HIGH and m.has(p)
            r.same(what + f" / contains({p:#x})", inp, want, s.contains(p))
            r.same(what + f" / {p:#x} in set", inp, want, p in s)
            r.same(what + f" / indexOf({p:#x})", inp, sum(min(b, p) - a for a, b in rs if a < p) if want else None, s.indexOf(p))
        for p in (-1, -5, HIGH, HIGH + 1, 1 << 40):
            r.same(what + f" / contains({p})", inp, False, s.contains(p))
            r.same(what + f" / indexOf({p})", inp, None, s.indexOf(p))
        n = m.count()
        r.same(what + " / size", inp, n, s.size())
        r.same(what + " / getRangeCount", inp, len(rs), s.getRangeCount())
        for k in range(min(len(rs), 40)):
            r.same(what + f" / getRangeStart({k})", inp, rs[k][0], s.getRangeStart(k))
            r.same(what + f" / getRangeEnd({k})", inp, rs[k][1] - 1, s.getRangeEnd(k))
        ids = {0, 1, n - 1, n, n + 1, -1, -2}
        acc = 0
        for a, b in rs[:40]:
            ids |= {acc - 1, acc, acc + b - a - 1, acc + b - a}
            acc += b - a
        for k in sorted(ids):
            want = None
            if 0 <= k < n:
                rest = k
                for a, b in rs:
                    if rest < b - a:
                        want = a + rest
                        break
                    rest -= b - a
            got = s.charAt(k)
            r.same(what + f" / charAt({k})", inp, want, got)
            if want is not None and got is not None:
                r.same(what + f" / indexOf(charAt({k}))", inp, k, s.indexOf(got))
        for a in sorted(pts):
            for b in (a, a + 1, a + 63, 0x40, 0xFFFF, 0x10FFFE, 0x10FFFF):
                if 0 <= a <= b < HIGH:
                    r.same(what + f" / contains(range({a:#x}, {b + 1:#x}))", inp, any(x <= a and b < y for x, y in rs), s.contains(range(a, b + 1)))
        if str(s) != before or value(s) != m:
            r.fail(what + ": a query changed the set", inp, before, str(s))


def fam(extra=()):
    out = []
    for bits in range(1 << len(ATOMS)):
        m = EMPTY
        for k, (a, b) in enumerate(ATOMS):
            if bits >> k & 1:
                m = m | mask(a, b)
        out.append(m)
    return out


def rand_mask(rng, dense=False):
    if rng.randrange(20) == 0:
        rr, pos = [], rng.randrange(3)
        top = rng.choice([200, 5000, HIGH])
        for _ in range(rng.randrange(10, 400)):
            n = rng.randrange(1, 2 + top // 400)
            if pos + n > HIGH:
                break
            rr.append((pos, pos + n))
            pos += n + rng.randrange(1, 2 + top // 400)
        return Pts(rr)
    m = EMPTY
    for _ in range(rng.randrange(1, 9)):
        kind = rng.randrange(4)
        a = rng.choice(POINTS + [rng.randrange(HIGH), rng.randrange(256)])
        if kind == 0:
            b = a
        elif kind == 1:
            b = min(HIGH - 1, a + rng.randrange(4))
        elif kind == 2:
            b = min(HIGH - 1, a + rng.randrange(0x2000))
        else:
            b = HIGH - 1 if rng.randrange(4) == 0 else min(HIGH - 1, a + rng.randrange(40))
        m = m | mask(a, b)
    if rng.randrange(6) == 0:
        m = m ^ FULL
    return m


def small_masks(n):
    """all subsets of 0..n-1 placed at the bottom, plus the same with the top mirrored"""
    return [of(p for p in range(n) if bits >> p & 1) for bits in range(1 << n)]


BIN = {
    "union": lambda a, b: a | b, "intersection": lambda a, b: a & b, "difference": lambda a, b: a - b,
    "symmetric_difference": lambda a, b: a ^ b}
OPS = {"union": ("__or__", "__ior__", "addAll"), "intersection": ("__and__", "__iand__", "retainAll"),
       "difference": ("__sub__", "__isub__", "removeAll"), "symmetric_difference": ("__xor__", "__ixor__", "complementAll")}
OPERATORS = {"union": (operator.or_, operator.ior), "intersection": (operator.and_, operator.iand),
             "difference": (operator.sub, operator.isub), "symmetric_difference": (operator.xor, operator.ixor)}


def algebra(h, ma, mb, deep=False):
    r = h.r
    for name, f in BIN.items():
        want = f(ma, mb)
        inp = {"A": show(ma), "B": show(mb)}
        for how in (0, 1, 2, 3):
            A, B = h.make(ma), h.make(mb)
            if how == 0:
                label = f"A.{name}(B)"
                C = getattr(A, name)(B)
            elif how == 1:
                label = f"operator of {name}"
                C = OPERATORS[name][0](A, B)
            elif how == 2:
                label = f"A.{OPS[name][2]}(B)"
                C = getattr(A, OPS[name][2])(B)
            else:
                label = f"in-place operator of {name}"
                C = OPERATORS[name][1](A, B)
            ok = h.expect(C, want, label, inp, deep and how == 0)
            if how < 2:
                ok = ok and r.true(label + ": result is a new set", inp, C is not A and C is not B)
                ok = ok and h.expect(A, ma, label + ": left operand unchanged", inp)
            else:
                ok = ok and r.true(label + ": returns the receiver", inp, C is A)
            ok = ok and h.expect(B, mb, label + ": right operand unchanged", inp)
            # no shared storage afterwards
            if ok and how in (0, 2):
                before = value(C)
                B.complement(), B.add(5)
                if how == 0:
                    A.complement(), A.remove(1)
                r.true(label + ": result shares storage with an operand", inp, value(C) == before)
                C.complement(range(0, 3))
                if how == 0:
                    A2 = value(A)
                    C.complement()
                    r.true(label + ": operand shares storage with the result", inp, value(A) == A2)
            if r.full:
                return


PRODUCERS = [("UnicodeSet(A)", lambda A, B: type(A)(A))] + [
    (f"A.{n}(B)", lambda A, B, n=n: getattr(A, n)(B)) for n in BIN] + [
    (f"operator of {n}", lambda A, B, n=n: OPERATORS[n][0](A, B)) for n in BIN] + [
    (f"A.{OPS[n][2]}(B)", lambda A, B, n=n: getattr(A, OPS[n][2])(B)) for n in BIN]
CHANGES = [lambda s: s.add(5), lambda s: s.add(0x10FFFF), lambda s: s.add(2), lambda s: s.addRange(0x10FFF0, 0x10FFF5), lambda s: s.addRange(3, 6),
           lambda s: s.complement(), lambda s: s.complement(4), lambda s: s.remove(1), lambda s: s.removeRange(0, 0x10FFFF), lambda s: s.clear()]


def sharing(h, ma, mb):
    """every set made from A and B stays as it is when another one is changed, whichever way"""
    r = h.r
    for label, make in PRODUCERS:
        for k, change in enumerate(CHANGES):
            inp = {"A": show(ma), "B": show(mb), "change": k}
            A, B = h.make(ma), h.make(mb)
            C = make(A, B)
            for who, other in ((C, (A, B)), (A, (C, B)), (B, (C, A))):
                other = [o for o in other if o is not who]
                before = [value(o) for o in other]
                change(who)
                if not r.true(label + ": sets share storage afterwards", inp, [value(o) for o in other] == before):
                    return


def self_ops(h, m):
    r = h.r
    for name, f in BIN.items():
        want = f(m, m)
        inp = {"A": show(m), "B": "the same object"}
        A = h.make(m)
        C = getattr(A, name)(A)
        h.expect(C, want, f"A.{name}(A)", inp)
        h.expect(A, m, f"A.{name}(A): operand unchanged", inp)
        r.true("result is new", inp, C is not A)
        D = OPERATORS[name][0](A, A)
        h.expect(D, want, f"operator of {name} on (A, A)", inp)
        E = getattr(A, OPS[name][2])(A)
        r.true("returns the receiver", inp, E is A)
        h.expect(E, want, f"A.{OPS[name][2]}(A)", inp)
        A = h.make(m)
        A2 = A
        A2 = OPERATORS[name][1](A2, A)
        r.true("returns the receiver", inp, A2 is A)
        h.expect(A2, want, f"in-place operator of {name} on (A, A)", inp)


def complement_all(h, m):
    A = h.make(m)
    C = A.complement()
    h.r.true("complement returns the receiver", show(m), C is A)
    h.expect(A, m ^ FULL, "A.complement()", show(m))
    A.complement()
    h.expect(A, m, "A.complement().complement()", show(m))
    A = h.make(m)
    A.complement(None)
    h.expect(A, m ^ FULL, "A.complement(None)", show(m))


def pin(p):
    return max(0, min(HIGH - 1, p))


def pinned(a, b):
    """mask addressed by the range a..b: nothing when it is empty, else with both ends pinned"""
    return mask(pin(a), pin(b)) if a <= b else EMPTY


MUT1 = {"add": lambda m, x: m | x, "remove": lambda m, x: m - x, "retain": lambda m, x: m & x, "complement": lambda m, x: m ^ x}
MUT2 = {"addRange": MUT1["add"], "removeRange": MUT1["remove"], "retainRange": MUT1["retain"], "complementRange": MUT1["complement"]}


def mutate1(h, m, cp, deep=False):
    r = h.r
    for name, f in MUT1.items():
        A = h.make(m)
        inp = {"set": show(m), "cp": cp}
        C = getattr(A, name)(cp)
        if r.true(f"{name} returns the receiver", inp, C is A, "the receiver", repr(C)[:80]):
            h.expect(A, f(m, pinned(cp, cp)), f"{name}({cp:#x})", inp, deep)
        if r.full:
            return


def mutate2(h, m, a, b, deep=False):
    r = h.r
    x = pinned(a, b)
    for name, f in MUT2.items():
        A = h.make(m)
        inp = {"set": show(m), "start": a, "end": b}
        C = getattr(A, name)(a, b)
        if r.true(f"{name} returns the receiver", inp, C is A, "the receiver", repr(C)[:80]):
            h.expect(A, f(m, x), f"{name}({a:#x}, {b:#x})", inp, deep)
    A = h.make(m)
    C = A.complement(range(a, b + 1))
    inp = {"set": show(m), "range": (a, b + 1)}
    if r.true("complement(range) returns the receiver", inp, C is A, "the receiver", repr(C)[:80]):
        h.expect(A, m ^ x, f"complement(range({a:#x}, {b + 1:#x}))", inp)


ARGS = [-2, -1, 0, 1, 2, 3, 0x40, 0x41, 0xFFFF, 0x10000, 0x10FFFA, 0x10FFFB, 0x10FFFC, 0x10FFFD, 0x10FFFE, 0x10FFFF, 0x110000, 0x110001]


def run(pid, r):
    from .common import parallel
    import UnicodeData.UnicodeSet  # noqa
    N = 8
    fams = fam()
    tiny = small_masks(7) + [Pts((a + 0x10FFFA, b + 0x10FFFA) for a, b in m.runs) for m in small_masks(6)]
    scale = 8 if r.thorough else 1
    jobs = []

    def job(fn):
        def j(rec):
            h = H(rec)
            fn(h, rec)
        j.__name__ = fn.__name__
        jobs.append(j)
    for p in range(N):
        def part(seq, p=p):
            return itertools.islice(seq, p, None, N)
        if pid == "C01":
            def atoms(h, rec, part=part):
                for ma, mb in part(itertools.product(fams, fams)):
                    if rec.full:
                        return
                    algebra(h, ma, mb)
                    rec.distinct += 1
            def tinies(h, rec, part=part):
                for ma, mb in part(itertools.product(tiny, tiny)):
                    if rec.full:
                        return
                    algebra(h, ma, mb)
                    rec.distinct += 1
            def rands(h, rec, part=part):
                for k in range(500 * scale):
                    if rec.full:
                        return
                    ma = rand_mask(rec.rng)
                    mb = rand_mask(rec.rng) if rec.rng.randrange(5) else ma ^ rand_mask(rec.rng)
                    algebra(h, ma, mb, deep=k % 10 == 0)
                    rec.distinct += 1
                    rec.sample({"A": show(ma), "B": show(mb)})
            def selfs(h, rec, part=part):
                for m in part(fams + tiny):
                    self_ops(h, m)
                    complement_all(h, m)
                    rec.distinct += 1
            def shared(h, rec, part=part):
                few = [EMPTY, FULL] + fams[::11] + tiny[::9]
                for ma, mb in part(itertools.product(few, few)):
                    if rec.full:
                        return
                    sharing(h, ma, mb)
            for f in (atoms, tinies, rands, selfs, shared):
                job(f)
        if pid == "C02":
            def histories(h, rec, part=part):
                for _ in range(200 * scale):
                    if rec.full:
                        return
                    history(h, rec)
            def forms(h, rec, part=part):
                for ma, mb in part(itertools.product(fams, tiny)):
                    if rec.full:
                        return
                    A, B = h.make(ma), h.make(mb)
                    rec.same("A == B exactly when the same code points", {"A": show(ma), "B": show(mb)}, ma == mb, bool(A == B))
                    rec.same("A != B exactly when different code points", {"A": show(ma), "B": show(mb)}, ma != mb, bool(A != B))
                    rec.distinct += 1
            def neighbours(h, rec, part=part):
                """sets of n ranges against the sets that differ from them in one code point at one boundary"""
                for n in part([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 33, 64, 65, 100, 129, 257, 300, 1000]):
                    rr = [(7 * k + 2, 7 * k + 5) for k in range(n)]
                    m = Pts(rr)
                    A = h.make(m)
                    for k in sorted({0, 1, 2, n // 3, n // 2, n - 3, n - 2, n - 1} & set(range(n))):
                        for da, db in ((-1, 0), (1, 0), (0, -1), (0, 1), (1, 1), (-1, -1), (None, None)):
                            if rec.full:
                                return
                            mb = Pts(rr[:k] + ([] if da is None else [(rr[k][0] + da, rr[k][1] + db)]) + rr[k + 1:])
                            B = h.make(mb)
                            inp = {"A": f"{n} ranges of 3 code points, 7 apart", "B": f"A with range {k} moved by {(da, db)} (None: left out)"}
                            for X, Y in ((A, B), (B, A)):
                                rec.same("A == B exactly when the same code points", inp, False, bool(X == Y))
                                rec.same("A != B exactly when different code points", inp, True, bool(X != Y))
                            rec.distinct += 1
            def ways(h, rec, part=part):
                for m in part(fams + tiny):
                    if rec.full:
                        return
                    built(h, rec, m)
                    rec.distinct += 1
            def points(h, rec, part=part):
                for m in part(fams + tiny):
                    for cp in ARGS:
                        if rec.full:
                            return
                        mutate1(h, m, cp)
            def ranges(h, rec, part=part):
                for m in part(fams):
                    for a in ARGS:
                        for b in ARGS:
                            if rec.full:
                                return
                            if a <= b + 1:
                                mutate2(h, m, a, b)
            def pairs(h, rec, part=part):
                for ma, mb in part(itertools.product(fams[::3], fams[1::3])):
                    if rec.full:
                        return
                    algebra(h, ma, mb)
            for f in (histories, forms, neighbours, ways, points, ranges, pairs):
                job(f)
        if pid == "C03":
            def singles(h, rec, part=part):
                for m in part(fams + tiny):
                    for cp in ARGS + [4, 5, 6, 7, -100, 1 << 32]:
                        if rec.full:
                            return
                        mutate1(h, m, cp)
                        rec.distinct += 1
            def doubles(h, rec, part=part):
                for m in part(fams):
                    for a in ARGS + [1 << 33]:
                        for b in ARGS:
                            if rec.full:
                                return
                            mutate2(h, m, a, b)
                            rec.distinct += 1
            def tinyd(h, rec, part=part):
                for m in part(tiny):
                    for a, b in [(x, y) for x in range(-1, 9) for y in range(-2, 9)] + [(x, y) for x in range(HIGH - 8, HIGH + 2) for y in range(HIGH - 9, HIGH + 2)]:
                        if True:
                            if rec.full:
                                return
                            mutate2(h, m, a, b)
                            rec.distinct += 1
            def rnd(h, rec, part=part):
                for k in range(500 * scale):
                    if rec.full:
                        return
                    m = rand_mask(rec.rng)
                    a = rec.rng.choice([rec.rng.randrange(HIGH), rec.rng.choice(ARGS)])
                    b = rec.rng.choice([a, a + 1, rec.rng.randrange(HIGH), rec.rng.choice(ARGS)])
                    mutate1(h, m, a, k % 8 == 0)
                    mutate2(h, m, a, b, k % 8 == 0)
                    rec.sample({"set": show(m), "start": a, "end": b})
            def ctor(h, rec, part=part):
                for a in part(ARGS + [100, 1 << 33, -7]):
                    h.expect(h.US(a), pinned(a, a), f"UnicodeSet({a})", a, True)
                    for b in ARGS:
                        h.expect(h.US(range(a, b)), pinned(a, b - 1), f"UnicodeSet(range({a}, {b}))", (a, b), True)
                h.expect(h.US(), EMPTY, "UnicodeSet()", "", True)
                for m in part(fams + tiny):
                    A = h.make(m)
                    B = h.US(A)
                    h.expect(B, m, "UnicodeSet(set)", show(m))
                    B.complement()
                    h.expect(A, m, "copy is independent", show(m))
                    C = A.clear()
                    rec.true("clear returns the receiver", show(m), C is A, "the receiver", repr(C))
                    h.expect(A, EMPTY, "clear", show(m), True)
                    h.expect(B, m ^ FULL, "clear of the original leaves the copy", show(m))
            def hist(h, rec, part=part):
                for _ in range(60 * scale):
                    if rec.full:
                        return
                    history(h, rec)
            for f in (singles, doubles, tinyd, rnd, ctor, hist):
                job(f)
        if pid == "C04":
            def qa(h, rec, part=part):
                for m in part(fams + tiny):
                    if rec.full:
                        return
                    h.expect(h.make(m), m, "queries", show(m), True)
                    rec.distinct += 1
            def qr(h, rec, part=part):
                for _ in range(60 * scale):
                    if rec.full:
                        return
                    m = rand_mask(rec.rng)
                    h.expect(h.make(m), m, "queries", show(m), True)
                    rec.sample(show(m))
                    rec.distinct += 1
            def it(h, rec, part=part):
                tiny = small_masks(7)
                masks = tiny + [Pts((a + d, b + d) for a, b in m.runs) for d in (0x10FFF9, 0xFFFD) for m in tiny]
                for m in part(masks):
                    s = h.make(m)
                    want = [p for a, b in runs(m) for p in range(a, b)]
                    got = list(itertools.islice(iter(s), len(want) + 5))
                    rec.same("iteration", show(m), want, got)
                    rec.same("iteration again", show(m), want, list(itertools.islice(iter(s), len(want) + 5)))
                    it1, it2 = iter(s), iter(s)
                    rec.same("two iterators", show(m), [x for w in want for x in (w, w)],
                             [x for _ in want for x in (next(it1), next(it2))])
                    rec.true("iteration leaves the set", show(m), value(s) == m)
                    for k, p in enumerate(want):
                        rec.same("charAt", (show(m), k), p, s.charAt(k))
                        rec.same("indexOf", (show(m), p), k, s.indexOf(p))
                    rec.distinct += 1
            def big(h, rec, part=part):
                for k in range(2 * scale):
                    if rec.full:
                        return
                    rr = []
                    pos = 0
                    for _ in range(rec.rng.randrange(10, 300)):
                        pos += rec.rng.randrange(1, 3000)
                        n = rec.rng.randrange(1, 50)
                        if pos + n > HIGH:
                            break
                        rr.append((pos, pos + n))
                        pos += n
                    m = Pts(rr)
                    s = h.make(m)
                    want = [p for a, b in runs(m) for p in range(a, b)]
                    rec.same("iteration", "large random set", want, list(s))
                    for q in range(300):
                        c = rec.rng.randrange(HIGH)
                        rec.same(f"contains({c})", show(m), m.has(c), s.contains(c))
                    for q in range(200):
                        c = rec.rng.randrange(len(want) + 2)
                        rec.same(f"charAt({c})", show(m), want[c] if c < len(want) else None, s.charAt(c))
                    for q in range(200):
                        kk = rec.rng.randrange(len(want))
                        rec.same(f"indexOf({want[kk]})", show(m), kk, s.indexOf(want[kk]))
                    # every boundary
                    for a, b in runs(m):
                        for c in (a - 1, a, b - 1, b):
                            if 0 <= c:
                                rec.same(f"contains({c})", show(m), c < HIGH and m.has(c), s.contains(c))
            def changed(h, rec, part=part):
                for _ in range(40 * scale):
                    if rec.full:
                        return
                    history(h, rec, True)
            for f in (qa, qr, it, big, changed):
                job(f)
    parallel(r, jobs)
    r.exhaustive.append({"C01": f"all pairs of the 2^{len(ATOMS)} unions of the atoms {ATOMS}", "C02": "unions of the atoms x arguments",
                         "C03": "unions of the atoms x arguments", "C04": "unions of the atoms"}[pid])


def built(h, rec, m):
    """the same set built in different ways"""
    inp = show(m)
    rs = runs(m)
    A = h.US()
    for a, b in reversed(rs):
        A.addRange(a, b - 1)
    h.expect(A, m, "addRange in descending order", inp)
    A = h.US()
    for a, b in rs[::2] + rs[1::2]:
        A.addAll(h.US(range(a, b)))
    h.expect(A, m, "addAll of ranges", inp)
    A = h.US(range(0, HIGH))
    for a, b in runs(m ^ FULL):
        A.removeRange(a, b - 1)
    h.expect(A, m, "removeRange from everything", inp)
    A = h.make(m ^ FULL).complement()
    h.expect(A, m, "complement of the complement", inp)
    if m.count() < 200:
        pts = [p for a, b in rs for p in range(a, b)]
        for order in (pts, pts[::-1], pts[::2] + pts[1::2]):
            A = h.US()
            for p in order:
                A.add(p)
            h.expect(A, m, "add one by one", inp)
    A = h.US()
    for a, b in rs:
        mid = (a + b) // 2
        A.complementRange(a, mid)
        if mid + 1 < b:
            A.complementRange(mid + 1, b - 1)
    h.expect(A, m, "complementRange piecewise", inp)


def history(h, rec, asked=False):
    """one set through many changes; asked: every query is put after every change"""
    rng = rec.rng
    m = EMPTY
    s = h.US()
    log = []
    near = []
    for _ in range(rng.randrange(2, 25)):
        base = rng.choice(near) if near and rng.randrange(3) else rng.choice(POINTS + [rng.randrange(HIGH), rng.randrange(128)])
        a = base + rng.randrange(-2, 3)
        b = a + rng.choice([-1, 0, 0, 1, 2, 5, 100, 0x10000])
        near += [a, b]
        op = rng.randrange(14)
        if op < 4:
            name = list(MUT1)[op]
            log.append((name, a))
            out = getattr(s, name)(a)
            m = MUT1[name](m, pinned(a, a))
        elif op < 8:
            name = list(MUT2)[op - 4]
            log.append((name, a, b))
            out = getattr(s, name)(a, b)
            m = MUT2[name](m, pinned(a, b))
        elif op == 8:
            log.append(("complement",))
            out = s.complement()
            m = m ^ FULL
        elif op < 13:
            mo = rand_mask(rng)
            name = list(BIN)[op - 9]
            o = h.make(mo)
            log.append((name, show(mo)))
            if rng.randrange(2):
                out = getattr(s, OPS[name][2])(o)
            else:
                out = s = getattr(s, name)(o)
            m = BIN[name](m, mo)
        else:
            log.append(("copy",))
            out = s = h.US(s)
        if not rec.true("returns the receiver", log[-1], out is s, "the receiver", repr(out)[:80]):
            return
        if not h.expect(s, m, "history", log[-8:], asked):
            return
        if asked and m.count() < 3000:
            rec.same("history / iteration", log[-8:], [p for a, b in runs(m) for p in range(a, b)], list(itertools.islice(iter(s), 3001)))
    h.expect(s, m, "history", log[-8:], True)
    rec.distinct += 1
