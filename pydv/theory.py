"""Integer theories: mathematical integers, or bit-vectors with no-overflow side obligations.

A value is a Python int (concrete) or a z3 term of the theory's sort.
All operations follow Python semantics (floor division, arithmetic shift).
"""
import z3


class Unsupported(Exception):
    """The construct is outside the verifier's subset."""


def isc(v):
    return isinstance(v, int) and not isinstance(v, bool)


class Ctx:
    """Receives side obligations raised while building a term (None = spec mode, ignored)."""
    def __init__(self, engine=None, state=None, node=None):
        self.engine, self.state, self.node = engine, state, node

    def need(self, cond, what):
        if self.engine is not None:
            self.engine.oblige(self.state, cond, what, self.node)

    def provable(self, cond):
        if self.state is not None and self.engine is not None:
            return self.engine.quick(self.state, cond)
        return False

    def provable_full(self, cond):
        if self.state is not None and self.engine is not None:
            return self.engine.quick_full(self.state, cond)
        return False


NOCTX = Ctx()


def lowzeros(t):
    """number of low zero bits t has by construction"""
    if z3.is_int_value(t):
        v = t.as_long()
        return 99 if v == 0 else (v & -v).bit_length() - 1
    if z3.is_mul(t):
        return sum(lowzeros(c) for c in t.children())
    if z3.is_add(t) or z3.is_sub(t):
        return min(lowzeros(c) for c in t.children())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return min(lowzeros(t.arg(1)), lowzeros(t.arg(2)))
    return 0


def quotient(t, d):
    """t / d for a positive constant d; (x / m) / d is x / (m * d)"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
        return t.arg(0) / z3.IntVal(t.arg(1).as_long() * d)
    return t / z3.IntVal(d)


class IntTheory:
    name = "int"
    note = "Python integers as mathematical integers (exact)"

    def __init__(self):
        self.sort = z3.IntSort()

    def z(self, v):
        if isinstance(v, bool):
            return z3.IntVal(1 if v else 0)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, z3.ArithRef):
            return v
        raise Unsupported(f"not an integer: {v!r}")

    def fresh(self, name):
        return z3.FreshConst(self.sort, name)

    def const(self, name):
        return z3.Const(name, self.sort)

    def add(self, a, b, cx=NOCTX):
        return a + b if isc(a) and isc(b) else self.z(a) + self.z(b)

    def sub(self, a, b, cx=NOCTX):
        return a - b if isc(a) and isc(b) else self.z(a) - self.z(b)

    def mul(self, a, b, cx=NOCTX):
        return a * b if isc(a) and isc(b) else self.z(a) * self.z(b)

    def neg(self, a, cx=NOCTX):
        return -a if isc(a) else -self.z(a)

    def inv(self, a, cx=NOCTX):
        return ~a if isc(a) else -self.z(a) - 1

    def div(self, a, b, cx=NOCTX):
        if isc(a) and isc(b) and b != 0:
            return a // b
        za, zb = self.z(a), self.z(b)
        if isc(b) and b > 0:
            return quotient(za, b)
        cx.need(zb != 0, "division by zero")
        if cx.provable(zb > 0):
            return za / zb
        return z3.If(zb > 0, za / zb, (-za) / (-zb))

    def mod(self, a, b, cx=NOCTX):
        if isc(a) and isc(b) and b != 0:
            return a % b
        za, zb = self.z(a), self.z(b)
        if isc(b) and b > 0:
            return za % zb
        cx.need(zb != 0, "modulo by zero")
        if cx.provable(zb > 0):
            return za % zb
        return z3.If(zb > 0, za % zb, -((-za) % (-zb)))

    def shl(self, a, b, cx=NOCTX):
        if isc(a) and isc(b) and 0 <= b < 4096:
            return a << b
        if isc(b):
            if b < 0:
                cx.need(z3.BoolVal(False), "negative shift count")
                return 0
            return self.z(a) * (1 << b)
        zb = self.z(b)
        cx.need(zb >= 0, "negative shift count")
        if cx.engine is not None and cx.provable(zb < 8):
            r = self.z(a) * 128
            for k in range(6, -1, -1):
                r = z3.If(zb == k, self.z(a) * (1 << k), r)
            return r
        from .spec import SPECS
        return SPECS.decl(SPECS.fns["shl"], self)(self.z(a), zb)   # defined by recursion in spec.py

    def shr(self, a, b, cx=NOCTX):
        if isc(a) and isc(b) and b >= 0:
            return a >> b
        if isc(b) and b >= 0:
            return quotient(self.z(a), 1 << b)
        zb = self.z(b)
        cx.need(zb >= 0, "negative shift count")
        cx.need(zb < 64, "shift count below 64 (verifier limit)")
        r = self.z(a) / (1 << 63)
        for k in range(62, -1, -1):
            r = z3.If(zb == k, self.z(a) / (1 << k), r)
        return r

    @staticmethod
    def _segs(m):
        segs, k = [], 0
        while m >> k:
            if (m >> k) & 1:
                lo = k
                while (m >> k) & 1:
                    k += 1
                segs.append((lo, k))
            else:
                k += 1
        return segs

    def and_(self, a, b, cx=NOCTX):
        if isc(a) and isc(b):
            return a & b
        if isc(a):
            a, b = b, a
        if not isc(b):
            raise Unsupported("& of two symbolic integers in the integer theory")
        x = self.z(a)
        if b < 0:
            return x - self.z(self.and_(x, ~b, cx))
        if b == 0:
            return 0
        tot = None
        for lo, hi in self._segs(b):
            t = quotient(x, 1 << lo) if lo else x
            t = t % (1 << (hi - lo))
            if lo:
                t = t * (1 << lo)
            tot = t if tot is None else tot + t
        return tot

    def bit(self, x, k):
        x = self.z(x)
        return ((x / (1 << k)) if k else x) % 2

    def or_(self, a, b, cx=NOCTX):
        if isc(a) and isc(b):
            return a | b
        if isc(a):
            a, b = b, a
        if isc(b):
            if b < 0:
                raise Unsupported("| with a negative constant in the integer theory")
            return self.z(a) + b - self.z(self.and_(a, b, cx))
        za, zb = self.z(a), self.z(b)
        for k in (1, 2, 3, 4, 5, 6, 8, 10, 12, 14, 16, 18, 20, 24, 28, 32):
            for p, q in ((za, zb), (zb, za)):
                if cx.provable(z3.And(p % (1 << k) == 0, q >= 0, q < (1 << k))):
                    return p + q
        if cx.engine is not None:
            # one side is a multiple of 2**k by construction: the other must be below 2**k (an obligation)
            for p, q in ((za, zb), (zb, za)):
                k = min(lowzeros(p), 40)
                if k > 0 and lowzeros(q) < k:
                    cx.need(z3.And(q >= 0, q < (1 << k)), f"operands of | have no common bits (low part below 2**{k})")
                    return p + q
        raise Unsupported("| of two integers not provably disjoint in the integer theory")

    def xor(self, a, b, cx=NOCTX):
        if isc(a) and isc(b):
            return a ^ b
        if isc(a):
            a, b = b, a
        if not isc(b) or b < 0:
            raise Unsupported("^ of two symbolic integers in the integer theory")
        r = self.z(a)
        k = 0
        while b >> k:
            if (b >> k) & 1:
                r = r + (1 << k) * (1 - 2 * self.bit(a, k))
            k += 1
        return r

    def lt(self, a, b): return a < b if isc(a) and isc(b) else self.z(a) < self.z(b)
    def le(self, a, b): return a <= b if isc(a) and isc(b) else self.z(a) <= self.z(b)
    def eq(self, a, b): return a == b if isc(a) and isc(b) else self.z(a) == self.z(b)


class BVTheory:
    def __init__(self, width=64):
        self.w = width
        self.name = f"bv{width}"
        self.note = f"Python integers as {width}-bit two's complement vectors, every +,-,*,<< with a no-overflow obligation"
        self.sort = z3.BitVecSort(width)

    def z(self, v):
        if isinstance(v, bool):
            return z3.BitVecVal(1 if v else 0, self.w)
        if isinstance(v, int):
            if not -(1 << (self.w - 1)) <= v < (1 << (self.w - 1)):
                raise Unsupported(f"constant {v:#x} outside the {self.w}-bit theory")
            return z3.BitVecVal(v, self.w)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, self.w), z3.BitVecVal(0, self.w))
        if isinstance(v, z3.BitVecRef):
            return v
        raise Unsupported(f"not an integer: {v!r}")

    def fresh(self, name): return z3.FreshConst(self.sort, name)
    def const(self, name): return z3.Const(name, self.sort)

    def add(self, a, b, cx=NOCTX):
        if isc(a) and isc(b): return a + b
        a, b = self.z(a), self.z(b)
        cx.need(z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), "no overflow in +")
        return a + b

    def sub(self, a, b, cx=NOCTX):
        if isc(a) and isc(b): return a - b
        a, b = self.z(a), self.z(b)
        cx.need(z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), "no overflow in -")
        return a - b

    def mul(self, a, b, cx=NOCTX):
        if isc(a) and isc(b): return a * b
        a, b = self.z(a), self.z(b)
        cx.need(z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)), "no overflow in *")
        return a * b

    def neg(self, a, cx=NOCTX):
        if isc(a): return -a
        a = self.z(a)
        cx.need(z3.BVSNegNoOverflow(a), "no overflow in unary -")
        return -a

    def inv(self, a, cx=NOCTX):
        return ~a if isc(a) else ~self.z(a)

    def _nonneg(self, a, b, cx):
        cx.need(z3.And(a >= 0, b > 0), "operands of // and % nonnegative (verifier limit)")

    def div(self, a, b, cx=NOCTX):
        if isc(a) and isc(b) and b: return a // b
        a, b = self.z(a), self.z(b)
        self._nonneg(a, b, cx)
        return z3.UDiv(a, b)

    def mod(self, a, b, cx=NOCTX):
        if isc(a) and isc(b) and b: return a % b
        a, b = self.z(a), self.z(b)
        self._nonneg(a, b, cx)
        return z3.URem(a, b)

    def shl(self, a, b, cx=NOCTX):
        if isc(a) and isc(b) and b >= 0: return a << b
        a, b = self.z(a), self.z(b)
        r = a << b
        cx.need(z3.And(b >= 0, b < self.w, (r >> b) == a), "no overflow in <<")
        return r

    def shr(self, a, b, cx=NOCTX):
        if isc(a) and isc(b) and b >= 0: return a >> b
        a, b = self.z(a), self.z(b)
        cx.need(b >= 0, "nonnegative shift count")
        return a >> b

    def and_(self, a, b, cx=NOCTX):
        if isc(a) and isc(b): return a & b
        return self.z(a) & self.z(b)

    def or_(self, a, b, cx=NOCTX):
        if isc(a) and isc(b): return a | b
        return self.z(a) | self.z(b)

    def xor(self, a, b, cx=NOCTX):
        if isc(a) and isc(b): return a ^ b
        return self.z(a) ^ self.z(b)

    def bit(self, x, k):
        return (self.z(x) >> k) & 1

    def lt(self, a, b): return a < b if isc(a) and isc(b) else self.z(a) < self.z(b)
    def le(self, a, b): return a <= b if isc(a) and isc(b) else self.z(a) <= self.z(b)
    def eq(self, a, b): return a == b if isc(a) and isc(b) else self.z(a) == self.z(b)
