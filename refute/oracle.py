"""the frozen Unicode 13.0 values (tools/oracle.py says where they come from)"""
import bisect
import json
import lzma
import os

N = 0x110000
_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "oracle", "unicode13.json.xz")
with lzma.open(_path, "rt") as f:
    RAW = json.load(f)


class Runs:
    def __init__(self, name):
        d, self.vals = RAW[name]
        self.starts, p = [], 0
        for x in d:
            p += x
            self.starts.append(p)

    def __getitem__(self, c):
        return self.vals[bisect.bisect_right(self.starts, c) - 1]

    def runs(self):
        return zip(self.starts, self.starts[1:] + [N], self.vals)

    def table(self, a=0, b=N):
        out = []
        for s, e, v in self.runs():
            s, e = max(s, a), min(e, b)
            if s < e:
                out += [v] * (e - s)
        return out


def mapping(name):
    return {c: v for c, v in RAW[name]}
