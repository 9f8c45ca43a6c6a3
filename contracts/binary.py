"""Numbers in the bytes of a data file (little-endian, as the package reads them on this machine)."""
from pydv.spec import SPECS

Arr = None


@SPECS.fn
def u16(D: Arr, o):
    return D[o] + 256 * D[o + 1]


@SPECS.fn
def u32(D: Arr, o):
    return D[o] + 256 * D[o + 1] + 65536 * D[o + 2] + 16777216 * D[o + 3]


@SPECS.fn(rec=True)
def tok(S: Arr, t, acc: str) -> str:
    """acc followed by the null-terminated string at t"""
    return acc if S[t] == 0 else tok(S, t + 1, cat(acc, chr(S[t])))


@SPECS.fn(rec=True)
def terminated(S: Arr, n, t) -> bool:
    return 0 <= t and t < n and (S[t] == 0 or terminated(S, n, t + 1))
