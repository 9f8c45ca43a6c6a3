"""C18: the utilities over their whole (finite) domains where enumerable, and over boundaries and random values otherwise."""


def run(pid, r):
    from UnicodeData import Utilities as U
    rng = r.rng
    for c in range(0x110000):
        e = chr(c).encode("utf-16-be", "surrogatepass")
        if c >= 0x10000:
            lead, trail = int.from_bytes(e[:2], "big"), int.from_bytes(e[2:], "big")
            got = U.surrogatesFromChar(c)
            if tuple(got) != (lead, trail) or U.charFromSurrogates(lead, trail) != c:
                r.fail("surrogates", hex(c), (lead, trail), (got, U.charFromSurrogates(lead, trail)))
                break
    r.evaluations += 2 * 0x100000
    r.exhaustive.append("surrogatesFromChar / charFromSurrogates: all 0x100000 supplementary code points and pairs")
    for c in list(range(0x110000)) + [0x110000, 0x11FFFE, 0x11FFFF, 0x20FFFE, 0x1FFFFF, 0x10D800, 0x80D800, 0xFFFFFFFE, 0xFFFFFFFF, 0x10000FDD0, 0x100000D800, 0x1FFFFFFFE]:
        sur, lead, trail = 0xD800 <= c < 0xE000, 0xD800 <= c < 0xDC00, 0xDC00 <= c < 0xE000
        non = c < 0x110000 and (0xFDD0 <= c < 0xFDF0 or c % 0x10000 in (0xFFFE, 0xFFFF))
        bad = None
        if bool(U.isUnicodeNoncharacter(c)) != non:
            bad = "isUnicodeNoncharacter"
        elif c <= 0xFFFFFFFF and bool(U.isSurrogate(c)) != sur:
            bad = "isSurrogate"
        elif c <= 0xFFFFFFFF and (bool(U.isLead(c)) != lead or bool(U.isTrail(c)) != trail):
            bad = "isLead/isTrail"
        elif sur and (bool(U.isSurrogateLead(c)) != lead or bool(U.isSurrogateTrail(c)) != trail):
            bad = "isSurrogateLead/isSurrogateTrail"
        if bad:
            r.fail(bad, hex(c), {"surrogate": sur, "lead": lead, "trail": trail, "noncharacter": non}, "otherwise")
            break
    r.evaluations += 5 * 0x110000
    r.exhaustive.append("classifiers: all code points")

    def signed(value, w, f):
        bits = value >> (w - f) & ((1 << f) - 1)
        return bits - (1 << f) if bits >> (f - 1) else bits
    for w in range(1, 65):
        for f in range(1, w + 1):
            vals = {0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << w) - (1 << (w - f)), 1 << (w - f)} | {rng.randrange(1 << w) for _ in range(6)}
            for v in vals:
                if v >> w:
                    continue
                r.same("arithmeticShift", (v, w, f), signed(v, w, f), U.arithmeticShift(v, w, f))
    for w in (8, 13, 16):
        for f in (1, 3, w - 1, w):
            for v in range(1 << w):
                if U.arithmeticShift(v, w, f) != signed(v, w, f):
                    r.fail("arithmeticShift", (v, w, f), signed(v, w, f), U.arithmeticShift(v, w, f))
                    break
            r.evaluations += 1 << w
    r.same("highBit", 0, None, U.highBit(0))
    for b in range(64):
        for v in {1 << b, (1 << b + 1) - 1, 1 << b | rng.randrange(1 << b), 1 << b | 1} | {1 << b | 1 << k for k in range(b)}:
            r.same("highBit", hex(v), v.bit_length() - 1, U.highBit(v))
    for v in range(1, 1 << 18):
        if U.highBit(v) != v.bit_length() - 1:
            r.fail("highBit", v, v.bit_length() - 1, U.highBit(v))
            break
    r.evaluations += 1 << 18
    digits = "0123456789ABCDEF"

    def hexa(c):
        s = ""
        while c:
            s = digits[c % 16] + s
            c //= 16
        return s.rjust(4, "0")
    for codes in [[], [0], [0x41], [0xFFFF], [0x10000, 0x10FFFF], [1, 2, 3], [0xABC, 0xABCD, 0xABCDE, 0xABCDEF]] + [[rng.randrange(0x110000) for _ in range(rng.randrange(6))] for _ in range(300)]:
        want = ""
        for k, c in enumerate(codes):
            want += (", " if k else "") + hexa(c)
        r.same("listOfCodes", codes, want, U.listOfCodes(list(codes)))
    r.distinct = r.evaluations
    r.sample({"surrogatesFromChar": "0x10FFFF", "got": U.surrogatesFromChar(0x10FFFF)})
