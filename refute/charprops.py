"""C09-C12: property accessors against the packed words, the numeric encoding and the frozen Unicode 13.0 values."""
from fractions import Fraction

from .common import parallel

N = 0x110000
STEP = 0x11000
# layout of the property vector words (ICU uprops.h, format version 7.8): accessor -> (column, mask)
FIELDS = {"getBlock": (0, 0x0001FF00), "getEastAsianWidth": (0, 0x000E0000), "getLineBreak": (2, 0x03F00000), "getSentenceBreak": (2, 0x000F8000),
          "getWordBreak": (2, 0x00007C00), "getGraphemeClusterBreak": (2, 0x000003E0), "getDecompType": (2, 0x0000001F)}
VEC = {"blockFromVecIndex": "getBlock", "eastAsianWidthFromVecIndex": "getEastAsianWidth", "lineBreakFromVecIndex": "getLineBreak",
       "sentenceBreakFromVecIndex": "getSentenceBreak", "wordBreakFromVecIndex": "getWordBreak",
       "graphemeClusterBreakFromVecIndex": "getGraphemeClusterBreak", "decompTypeFromVecIndex": "getDecompType"}
EMOJI = {"isExtendedPictograph": 26, "isEmojiComponent": 27, "isEmoji": 28, "isEmojiPresentation": 29, "isEmojiModifier": 30, "isEmojiModifierBase": 31}
BINARY = ["WHITE_SPACE", "DASH", "HYPHEN", "QUOTATION_MARK", "TERMINAL_PUNCTUATION", "MATH", "HEX_DIGIT", "ASCII_HEX_DIGIT", "ALPHABETIC", "IDEOGRAPHIC",
          "DIACRITIC", "EXTENDER", "NONCHARACTER_CODE_POINT", "GRAPHEME_EXTEND", "GRAPHEME_LINK", "IDS_BINARY_OPERATOR", "IDS_TRINARY_OPERATOR", "RADICAL",
          "UNIFIED_IDEOGRAPH", "DEFAULT_IGNORABLE_CODE_POINT", "DEPRECATED", "LOGICAL_ORDER_EXCEPTION", "XID_START", "XID_CONTINUE", "ID_START",
          "ID_CONTINUE", "GRAPHEME_BASE", "S_TERM", "VARIATION_SELECTOR", "PATTERN_SYNTAX", "PATTERN_WHITE_SPACE", "PREPENDED_CONCATENATION_MARK"]


def field(word, mask):
    while not mask & 1:
        mask >>= 1
        word >>= 1
    return word & mask


def direct(arr, index_length, high_start, high_value):
    """the 16 bit value a UTrie2 array holds for c, and its position"""
    def pos(c):
        if c <= 0xFFFF:
            i2 = c // 32 if not 0xD800 <= c <= 0xDBFF else 0x800 + (c - 0xD800) // 32
            return arr[i2] * 4 + c % 32
        if c >= high_start:
            return high_value
        return arr[arr[2112 + (c - 0x10000) // 2048] + c // 32 % 64] * 4 + c % 32
    return pos


def slots(arr, pos):
    """one code point for each distinct data position"""
    out = {}
    for c in range(N):
        out.setdefault(pos(c), c)
    return out


def script_of(word, ext):
    code = (word & 0x00300000) >> 12 | word & 0xFF
    kind = word >> 22 & 3
    return code if kind == 0 else 0 if kind == 1 else 1 if kind == 2 else ext[code]


def check_words(r, P, D, c, vi, words, ext):
    """every accessor for code point c whose three property words are given"""
    for name, (col, mask) in FIELDS.items():
        if not r.same(f"{name}({c:#x})", {"words": [hex(w) for w in words]}, field(words[col], mask), getattr(P, name)(c)):
            return
    age = words[0] >> 24
    if not r.same(f"getAge({c:#x})", hex(words[0]), [age >> 4, age & 15, 0, 0], list(P.getAge(c))):
        return
    held = P.getAge(c)
    P.getAge(0x41), P.getAge(0x378), P.getAge(c ^ 1)
    if not r.same(f"getAge({c:#x}), held", hex(words[0]), [age >> 4, age & 15, 0, 0], list(held)):
        return
    r.same(f"getScript({c:#x})", hex(words[0]), script_of(words[0], ext), P.getScript(c))
    for f, bit in EMOJI.items():
        r.same(f"{f}({c:#x})", hex(words[2]), bool(words[2] >> bit & 1), bool(getattr(P, f)(c)))
    for s, name in enumerate(BINARY):
        got = P.getBinaryProp(c, getattr(P, "UPROPS_" + name, s))
        if bool(got) != bool(words[1] >> s & 1):
            r.fail(f"getBinaryProp({c:#x}, UPROPS_{name})", hex(words[1]), bool(words[1] >> s & 1), got)
    for col in (0, 2):
        for s in range(32):
            if bool(P.getBinaryProp(c, s, col)) != bool(words[col] >> s & 1):
                r.fail(f"getBinaryProp({c:#x}, {s}, {col})", hex(words[col]), bool(words[col] >> s & 1), "the opposite")
    r.evaluations += 96
    r.same(f"isAlphabetic({c:#x})", hex(words[1]), bool(words[1] >> 8 & 1), bool(P.isAlphabetic(c)))
    r.same(f"isUWhiteSpace({c:#x})", hex(words[1]), bool(words[1] & 1), bool(P.isUWhiteSpace(c)))
    for col in range(3):
        r.same(f"getUnicodeProperties({c:#x}, {col})", [hex(w) for w in words], words[col], P.getUnicodeProperties(c, col))


def fields(randomize):
    def job(r):
        import UnicodeData.CharPropsData as D
        rng = r.rng
        vec, ext, tri = D.propsVectors, D.scriptExtensions, D.propsTrie_index
        if randomize:
            if not (isinstance(vec, list) and isinstance(tri, list) and isinstance(ext, list)):
                r.notes.append("property tables are not lists: no random words")
                return
            mode = rng.randrange(3)
            for k in range(len(ext)):
                ext[k] = rng.randrange(1 << 15)
            for k in range(len(vec)):
                w = rng.getrandbits(32) if mode == 0 else 1 << rng.randrange(32) if mode == 1 else 0xFFFFFFFF ^ 1 << rng.randrange(32)
                if k % 3 == 0 and w >> 22 & 3 == 3:
                    code = rng.randrange(len(ext))
                    w = w & ~0x3000FF | (code & 0x300) << 12 | code & 0xFF
                vec[k] = w
            for k in range(D.propsTrie_index_length, len(tri)):
                tri[k] = rng.getrandbits(16)
        import UnicodeData.CharProps as P
        ppos = direct(tri, 0, D.propsTrie_high_start, D.propsTrie_high_value_index)
        varr = D.propsVectorsTrie_index
        vpos = direct(varr, 0, D.propsVectorsTrie_high_start, D.propsVectorsTrie_high_value_index)
        vs = {}
        for p, c in slots(varr, vpos).items():
            vs.setdefault(varr[p], []).append(c)
        for vi, cs in vs.items():
            if r.full:
                return
            for c in {cs[0], cs[-1], rng.choice(cs)}:
                check_words(r, P, D, c, vi, vec[vi:vi + 3], ext)
            r.distinct += 1
            for f, name in VEC.items():
                if hasattr(P, f):
                    col, mask = FIELDS[name]
                    r.same(f"{f}({vi})", hex(vec[vi + col]), field(vec[vi + col], mask), getattr(P, f)(vi))
            for f, want in (("scriptFromVecIndex", script_of(vec[vi], ext)), ("unicodePropertiesFromVecIndex", None)):
                if want is not None and hasattr(P, f):
                    r.same(f"{f}({vi})", hex(vec[vi]), want, getattr(P, f)(vi))
        for c in {0, 0x41, 0x378, 0xD800, 0xDBFF, 0xDC00, 0xFFFF, 0x10000, 0x10FFFF} | {rng.randrange(N) for _ in range(200)}:
            for col in (3, 4, 5, 6, 100):
                r.same(f"getUnicodeProperties({c:#x}, {col})", "no such column", 0, P.getUnicodeProperties(c, col))
                for s in (0, 5, 31):
                    r.true(f"getBinaryProp({c:#x}, {s}, {col})", "no such column", not P.getBinaryProp(c, s, col))
            for s in (32, 33, 40, 64):
                r.true(f"getBinaryProp({c:#x}, {s})", "no such property", not P.getBinaryProp(c, s))
        for c in (0x110000, 0x110001, 0x1FFFFF, 0xFFFFFFFF):
            r.same(f"getScript({c:#x})", "above U+10FFFF", -1, P.getScript(c))
        for p, c in slots(tri, ppos).items():
            if P.getGeneralCategory(c) != tri[p] & 31:
                r.fail(f"getGeneralCategory({c:#x})", hex(tri[p]), tri[p] & 31, P.getGeneralCategory(c))
                break
            r.evaluations += 1
        if not randomize:
            r.sample({"code point": "0x41", "words": [hex(w) for w in vec[varr[vpos(0x41)]:][:3]], "getBlock": P.getBlock(0x41), "getLineBreak": P.getLineBreak(0x41)})
    job.__name__ = "fields with " + ("random" if randomize else "shipped") + " words"
    return job


def numeric(ntv):
    """ICU uprops.h: type (0 none, 1 decimal, 2 digit, 3 numeric) and value of a numeric type-value"""
    if ntv == 0:
        return 0, None
    if ntv < 0x0B:
        return 1, Fraction(ntv - 1)
    if ntv < 0x15:
        return 2, Fraction(ntv - 0x0B)
    if ntv < 0xB0:
        return 3, Fraction(ntv - 0x15)
    if ntv < 0x1E0:
        return 3, Fraction((ntv >> 4) - 12, (ntv & 15) + 1)
    if ntv < 0x300:
        return 3, Fraction(((ntv >> 5) - 14) * 10 ** ((ntv & 31) + 2))
    if ntv < 0x324:
        return 3, Fraction(((ntv >> 2) - 0xBF) * 60 ** ((ntv & 3) + 1))
    if ntv < 0x33C:
        k = ntv - 0x324
        return 3, Fraction(2 * (k & 3) + 1, 20 << (k >> 2))
    if ntv < 0x34C:
        k = ntv - 0x33C
        return 3, Fraction(2 * (k & 3) + 1, 32 << (k >> 2))
    return 3, None


def same_number(r, what, inp, want, got):
    r.evaluations += 1
    if want is None or got is None:
        ok = want is None and got is None
    else:
        ok = isinstance(got, (int, float)) and not isinstance(got, bool)
        if ok:
            ok = abs(Fraction(got) - want) <= abs(want) / (1 << 50)
            if want.denominator == 1 and abs(want) < 1 << 53:
                ok = Fraction(got) == want
    if not ok:
        r.fail(what, inp, None if want is None else str(want), got)
    return ok


def check_numeric(r, P, c, word):
    t, v = numeric(word >> 6)
    ok = r.same(f"getNumericType({c:#x})", f"props word {word:#x}", t, P.getNumericType(c))
    ok = same_number(r, f"getNumericValue({c:#x})", f"props word {word:#x}", v, P.getNumericValue(c)) and ok
    return r.same(f"digitValue({c:#x})", f"props word {word:#x}", int(v) if t == 1 else -1, P.digitValue(c)) and ok


def c10(r):
    def encoded(r):
        import UnicodeData.CharProps as P
        for w in range(0x10000):
            if r.full:
                return
            t, v = numeric(w >> 6)
            if hasattr(P, "numericTypeFromProps"):
                r.same("numericTypeFromProps", hex(w), t, P.numericTypeFromProps(w))
            if hasattr(P, "numericValueFromProps"):
                same_number(r, "numericValueFromProps", hex(w), v, P.numericValueFromProps(w))
            if hasattr(P, "numericTypeValueFromProps"):
                r.same("numericTypeValueFromProps", hex(w), w >> 6, P.numericTypeValueFromProps(w))
        r.distinct += 1024
        r.exhaustive.append("all 65536 property words")

    def random_words(r):
        import UnicodeData.CharPropsData as D
        arr = D.propsTrie_index
        if not isinstance(arr, list):
            return
        for k in range(D.propsTrie_index_length, len(arr)):
            arr[k] = (k * 7 + r.seed) % 1024 << 6 | r.rng.randrange(64)
        import UnicodeData.CharProps as P
        for p, c in slots(arr, direct(arr, 0, D.propsTrie_high_start, D.propsTrie_high_value_index)).items():
            if r.full:
                return
            check_numeric(r, P, c, arr[p])
        r.exhaustive.append("all 1024 numeric type-values, looked up through the trie")

    def shipped(a):
        def job(r):
            import UnicodeData.CharProps as P
            from .oracle import Runs
            nt, nv = Runs("nt").table(a, a + STEP), Runs("nv").table(a, a + STEP)
            for c in range(a, a + STEP):
                t, v = nt[c - a], nv[c - a]
                g = P.getNumericValue(c)
                if P.getNumericType(c) != t or P.digitValue(c) != (v if t == 1 else -1):
                    r.fail(f"numeric type / digit value of {c:#x}", hex(c), (t, v if t == 1 else -1), (P.getNumericType(c), P.digitValue(c)))
                    return
                if (v is None) != (g is None) or v is not None and abs(g - v) > abs(v) * 1e-13:
                    r.fail(f"numeric value of {c:#x}", hex(c), v, g)
                    return
            r.evaluations += 3 * STEP
        job.__name__ = f"numeric values from {a:#x}"
        return job
    parallel(r, [encoded, random_words] + [shipped(a) for a in range(0, N, STEP)])
    r.exhaustive.append("Numeric_Type, Numeric_Value and digit value of Unicode 13.0 for all code points")


SHIPPED = {"gc": "getGeneralCategory", "blk": "getBlock", "sc": "getScript", "ea": "getEastAsianWidth", "lb": "getLineBreak", "sb": "getSentenceBreak",
           "wb": "getWordBreak", "gcb": "getGraphemeClusterBreak", "dt": "getDecompType"}


def c11(r):
    def job_for(a):
        def job(r):
            import UnicodeData.CharProps as P
            from .oracle import Runs
            for prop, f in SHIPPED.items():
                want, get = Runs(prop).table(a, a + STEP), getattr(P, f)
                for c in range(a, a + STEP):
                    if get(c) != want[c - a]:
                        r.fail(f"{f}({c:#x})", hex(c), want[c - a], get(c))
                        break
                r.evaluations += STEP
            age = Runs("age").table(a, a + STEP)
            for c in range(a, a + STEP):
                if list(P.getAge(c)) != [age[c - a] >> 4, age[c - a] & 15, 0, 0]:
                    r.fail(f"getAge({c:#x})", hex(c), age[c - a], P.getAge(c))
                    break
            r.evaluations += STEP
            want = Runs("binary").table(a, a + STEP)
            for s, name in enumerate(BINARY):
                n, get = getattr(P, "UPROPS_" + name), P.getBinaryProp
                for c in range(a, a + STEP):
                    if bool(get(c, n)) != bool(want[c - a] >> s & 1):
                        r.fail(f"getBinaryProp({c:#x}, UPROPS_{name})", hex(c), bool(want[c - a] >> s & 1), get(c, n))
                        break
                r.evaluations += STEP
            want = Runs("emoji").table(a, a + STEP)
            for f, s in EMOJI.items():
                get = getattr(P, f)
                for c in range(a, a + STEP):
                    if bool(get(c)) != bool(want[c - a] >> s & 1):
                        r.fail(f"{f}({c:#x})", hex(c), bool(want[c - a] >> s & 1), get(c))
                        break
                r.evaluations += STEP
        job.__name__ = f"shipped values from {a:#x}"
        return job
    parallel(r, [job_for(a) for a in range(0, N, STEP)])
    r.exhaustive.append("10 enumerated and 38 binary properties for all 0x110000 code points")
    import UnicodeData.CharProps as P
    r.distinct = r.evaluations
    r.sample({"getLineBreak(0x2060)": P.getLineBreak(0x2060), "getScript(0x10FFFF)": P.getScript(0x10FFFF)})


# ICU uchar.cpp: which categories (numbers of the UCharCategory enumeration) and which other code points
CAT = {n: k for k, n in enumerate("Cn Lu Ll Lt Lm Lo Mn Me Mc Nd Nl No Zs Zl Zp Cc Cf Co Cs Pd Ps Pe Pc Po Sm Sc Sk So Pi Pf".split())}


def cats(text):
    out = set()
    for t in text.split():
        out |= {k for n, k in CAT.items() if n == t or len(t) == 1 and n[0] == t}
    return out


def c12(r):
    hexd = set(range(0x41, 0x47)) | set(range(0x61, 0x67)) | set(range(0xFF21, 0xFF27)) | set(range(0xFF41, 0xFF47))
    iso = set(range(0x20)) | set(range(0x7F, 0xA0))
    ctrlsp = set(range(9, 14)) | set(range(0x1C, 0x20))
    ign = {c for c in iso if c not in ctrlsp}
    sets = {"isLower": cats("Ll"), "isUpper": cats("Lu"), "isTitle": cats("Lt"), "isDigit": cats("Nd"), "isalpha": cats("L"), "isalnum": cats("L Nd"),
            "isDefined": cats("L M N Z P S Cc Cf Co Cs"), "isbase": cats("L N Mc Me"), "iscntrl": cats("Cc Cf Zl Zp"), "isspace": cats("Z"),
            "isJavaSpaceChar": cats("Z"), "isPrint": cats("L M N Z P S"), "isgraph": cats("L M N P S Co"), "ispunct": cats("P"), "isIDStart": cats("L Nl"),
            "isJavaIDStart": cats("L Sc Pc"), "isGraphPOSIX": cats("L M N P S Cf Co"), "isPrintPOSIX": cats("L M N P S Cf Co Zs"), "isHexDigit": cats("Nd"),
            "isWhiteSpace": cats("Z"), "isBlank": cats("Zs"), "isIDPart": cats("Nd Nl L Pc Mc Mn"), "isJavaIDPart": cats("Nd Nl L Sc Pc Mc Mn"), "isISOControl": set(),
            "isIDIgnorable": cats("Cf")}

    def want(f, c, g):
        base = g in sets[f]
        if f == "isHexDigit":
            return base or c in hexd
        if f == "isspace":
            return base or c in ctrlsp or c == 0x85
        if f == "isWhiteSpace":
            return c not in (0xA0, 0x2007, 0x202F) and (base or c in ctrlsp)
        if f == "isBlank":
            return c in (9, 0x20) if c <= 0x9F else base
        if f == "isISOControl":
            return c in iso
        if f == "isIDIgnorable":
            return c in ign if c <= 0x9F else base
        if f in ("isIDPart", "isJavaIDPart"):
            return base or (c in ign if c <= 0x9F else g == CAT["Cf"])
        return base

    def job_for(a):
        def job(r):
            import UnicodeData.CharProps as P
            import UnicodeData.CharPropsData as D
            arr = D.propsTrie_index
            pos = direct(arr, 0, D.propsTrie_high_start, D.propsTrie_high_value_index)
            varr, vec = D.propsVectorsTrie_index, D.propsVectors
            vpos = direct(varr, 0, D.propsVectorsTrie_high_start, D.propsVectorsTrie_high_value_index)
            gcs = [arr[pos(c)] & 31 for c in range(a, a + STEP)]
            for f in sets:
                get = getattr(P, f)
                for c in range(a, a + STEP):
                    if bool(get(c)) != want(f, c, gcs[c - a]):
                        r.fail(f"{f}({c:#x})", {"code point": hex(c), "general category": gcs[c - a]}, want(f, c, gcs[c - a]), get(c))
                        break
                r.evaluations += STEP
            for c in range(a, a + STEP):
                w = vec[varr[vpos(c)] + 1]
                for f, e in (("isAlphabetic", w >> 8 & 1), ("isUWhiteSpace", w & 1), ("isalnumPOSIX", w >> 8 & 1 or gcs[c - a] == 9)):
                    if bool(getattr(P, f)(c)) != bool(e):
                        r.fail(f"{f}({c:#x})", hex(c), bool(e), getattr(P, f)(c))
                        return
            r.evaluations += 3 * STEP
        job.__name__ = f"predicates from {a:#x}"
        return job

    def random_categories(r):
        """every category at code points of every range the predicates treat specially"""
        import UnicodeData.CharPropsData as D
        arr = D.propsTrie_index
        if not isinstance(arr, list):
            return
        for k in range(D.propsTrie_index_length, len(arr)):
            arr[k] = r.rng.randrange(30) | r.rng.getrandbits(11) << 5
        import UnicodeData.CharProps as P
        pos = direct(arr, 0, D.propsTrie_high_start, D.propsTrie_high_value_index)
        for c in list(range(0x400)) + list(range(0x2000, 0x2100)) + list(range(0xFF00, 0xFF80)) + [0x85, 0xA0, 0x2007, 0x202F] + list(slots(arr, pos).values())[::7]:
            g = arr[pos(c)] & 31
            for f in sets:
                if bool(getattr(P, f)(c)) != want(f, c, g):
                    r.fail(f"{f}({c:#x})", {"code point": hex(c), "general category (table entry replaced)": g}, want(f, c, g), getattr(P, f)(c))
            if r.full:
                return
            r.evaluations += len(sets)
        r.distinct += 1
    parallel(r, [random_categories] * 6 + [job_for(a) for a in range(0, N, STEP)])
    r.exhaustive.append("28 predicates for all 0x110000 code points")
    r.distinct += 28


def c09(r):
    parallel(r, [fields(False)] + [fields(True)] * (7 if not r.thorough else 40))


def run(pid, r):
    {"C09": c09, "C10": c10, "C11": c11, "C12": c12}[pid](r)
