#!/usr/bin/env python3
"""Writes oracle/unicode13.json.xz: the Unicode 13.0 values per code point as run-length lists.

Run once, on the base commit. The values were compared, when frozen, with two sources that have nothing to do with
ICU4C's generated tables: Java 17 (Unicode 13.0: general category, script, block, bidi class, mirrored, simple and full case
mappings, alphabetic, decimal digits, canonical decomposition; no difference on any code point) and Perl 5.38's Unicode::UCD
(Unicode 15.0: every property but Grapheme_Link; the differences on code points assigned in 13.0 are the published changes of
14.0 and 15.0). Checks only read the frozen file."""
import lzma, json, os, sys, unicodedata
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
from UnicodeData import CharProps as P, BidiProps as B, CaseProps as C
N = 0x110000
out = {}


def rle(name, f):
    starts, vals, prev = [], [], object()
    for c in range(N):
        v = f(c)
        if v != prev:
            starts.append(c); vals.append(v); prev = v
    # starts as differences
    out[name] = [[b - a for a, b in zip([0] + starts, starts)], vals]


rle("gc", P.getGeneralCategory)
rle("age", lambda c: P.getAge(c)[0] * 16 + P.getAge(c)[1])
for k, f in dict(blk=P.getBlock, sc=P.getScript, ea=P.getEastAsianWidth, lb=P.getLineBreak, sb=P.getSentenceBreak, wb=P.getWordBreak,
                 gcb=P.getGraphemeClusterBreak, dt=P.getDecompType, bc=B.getCharDirection, jt=B.getJoiningType, jg=B.getJoiningGroup,
                 bpt=B.getPairedBracketType, nt=P.getNumericType, nv=P.getNumericValue).items():
    rle(k, f)
rle("bidi_m", lambda c: int(B.isMirrored(c)))
rle("bidi_c", lambda c: int(B.isBidiControl(c)))
rle("join_c", lambda c: int(B.isJoinControl(c)))
rle("binary", lambda c: sum(1 << s for s in range(32) if P.getBinaryProp(c, s)))
rle("emoji", lambda c: sum(1 << s for s in range(26, 32) if P.getBinaryProp(c, s, 2)))


def mapping(name, f, default):
    out[name] = [[c, v] for c in range(N) for v in [f(c)] if v != default(c)]


for k, f in dict(bmg=B.getMirror, bpb=B.getPairedBracket, slc=C.toLower, suc=C.toUpper, stc=C.toTitle).items():
    mapping(k, f, lambda c: c)
for k, f in dict(lc=C.toFullLower, uc=C.toFullUpper, tc=C.toFullTitle).items():
    mapping(k, lambda c: [ord(x) for x in f(c)], lambda c: [c])
# canonical decompositions: Python's unicodedata (stable for everything assigned in 13.0), Hangul left out (arithmetic)
dm, raw = [], []
for c in range(N):
    if 0xAC00 <= c <= 0xD7A3 or P.getGeneralCategory(c) == 0:
        continue
    d = unicodedata.decomposition(chr(c))
    if d and not d.startswith("<"):
        raw.append([c, [int(x, 16) for x in d.split()]])
        dm.append([c, [ord(x) for x in unicodedata.normalize("NFD", chr(c))]])
out["raw"], out["dm"] = raw, dm
p = os.path.join(HERE, "oracle", "unicode13.json.xz")
with lzma.open(p, "wt", preset=9) as f:
    json.dump(out, f, separators=(",", ":"))
print(os.path.getsize(p), {k: len(v[0]) if len(v) == 2 else len(v) for k, v in out.items()})
