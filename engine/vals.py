"""Symbolic values.  Integers are python ints while concrete, z3 bit-vectors
otherwise; i1 are python bools / z3 Bools; pointers are guarded sets of
(object, offset); floating values keep an IEEE term and/or their bits."""
import struct
import z3

RNE = z3.RNE()
S32 = z3.Float32()
S64 = z3.Float64()
S80 = z3.FPSort(15, 64)


class Unsupported(Exception):
    pass


def mask(w):
    return (1 << w) - 1


def is_c(x):
    return type(x) is int or type(x) is bool


def bv(x, w):
    t = type(x)
    if t is int:
        return z3.BitVecVal(x, w)
    if t is bool:
        return z3.BitVecVal(1 if x else 0, w)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x


def zb(x):
    t = type(x)
    if t is bool:
        return z3.BoolVal(x)
    if t is int:
        return z3.BoolVal(bool(x & 1))
    return x


def norm_bv(e, w):
    """fold a z3 bit vector numeral into a python int"""
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def norm_b(e):
    if type(e) is bool:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def simp_b(e):
    if type(e) is bool:
        return e
    e = z3.simplify(e)
    return norm_b(e)


def simp(e):
    if is_c(e) or not z3.is_expr(e):
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def b_and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return z3.And(a, b)


def b_or(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return z3.Or(a, b)


def b_not(a):
    if type(a) is bool:
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_ands(l):
    r = []
    for x in l:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return z3.And(*r)


def b_ors(l):
    r = []
    for x in l:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return z3.Or(*r)


def b_eq(a, b):
    if type(a) is bool and type(b) is bool:
        return a == b
    if type(a) is bool:
        a, b = b, a
    if b is True:
        return a
    if b is False:
        return b_not(a)
    if a.eq(b):
        return True
    return a == b


def same(a, b):
    """syntactic identity"""
    if a is b:
        return True
    if is_c(a) or is_c(b):
        return is_c(a) and is_c(b) and a == b
    if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if len(a.alts) != len(b.alts):
            return False
        for (g, o, f), (g2, o2, f2) in zip(a.alts, b.alts):
            if o != o2 or not same(f, f2) or not same(g, g2):
                return False
        return True
    if isinstance(a, FV) and isinstance(b, FV):
        if a._b is not None and b._b is not None:
            return same(a._b, b._b)
        if a._f is not None and b._f is not None:
            return a._f.eq(b._f)
        return False
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


class Ptr:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Ptr' + repr([(g if g is True else '?', o, f if is_c(f) else '~') for g, o, f in self.alts])


NULL = Ptr([(True, 0, 0)])


class FV:
    """a float value of width w: _f (z3 FP) and/or _b (bits: int or BV)"""
    __slots__ = ('w', '_f', '_b')

    def __init__(self, w, f=None, b=None):
        self.w = w
        self._f = f
        self._b = b

    def f(self):
        if self._f is None:
            b = self._b
            s = S32 if self.w == 32 else S64 if self.w == 64 else None
            if s is None:
                raise Unsupported('bits of f%d' % self.w)
            if type(b) is int:
                self._f = z3.simplify(z3.fpBVToFP(z3.BitVecVal(b, self.w), s))
            else:
                self._f = z3.fpBVToFP(b, s)
        return self._f

    def isconst(self):
        if self._b is not None and type(self._b) is int:
            return True
        if self._f is not None:
            return isinstance(self._f, z3.FPNumRef)
        return False

    def cbits(self):
        """concrete bits or None"""
        if type(self._b) is int:
            return self._b
        if self._f is not None and isinstance(self._f, z3.FPNumRef):
            f = self._f
            if f.isNaN():
                b = 0x7fc00000 if self.w == 32 else 0x7ff8000000000000
            else:
                e = z3.simplify(z3.fpToIEEEBV(f))
                if not z3.is_bv_value(e):
                    return None
                b = e.as_long()
            self._b = b
            return b
        return None


class Vec(list):
    pass


class Agg(list):
    pass


def fsort(w):
    return {32: S32, 64: S64, 80: S80}[w]


def fconst(v, w):
    if w == 32:
        try:
            b = struct.unpack('<I', struct.pack('<f', v))[0]
        except OverflowError:
            b = 0x7f800000 if v > 0 else 0xff800000
        return FV(32, b=b)
    if w == 64:
        return FV(64, b=struct.unpack('<Q', struct.pack('<d', v))[0])
    return FV(w, f=z3.FPVal(v, fsort(w)))


def fpy(fv):
    """python float of a concrete FV (32/64 bit)"""
    b = fv.cbits()
    if b is None:
        return None
    if fv.w == 32:
        return struct.unpack('<f', struct.pack('<I', b))[0]
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def congruence(e, depth=0):
    """(g, r): value == r (mod g); g == 0 means the constant r.  64-bit modular, g power of two or
    a stride that does not wrap (sizes are far below 2**63)."""
    from math import gcd
    if type(e) is int:
        return (0, e)
    if z3.is_bv_value(e):
        return (0, e.as_long())
    if depth > 40:
        return (1, 0)
    k = e.decl().kind()
    if k == z3.Z3_OP_BADD:
        g, r = congruence(e.arg(0), depth + 1)
        for i in range(1, e.num_args()):
            g2, r2 = congruence(e.arg(i), depth + 1)
            g = gcd(g, g2)
            r = r + r2
            if g:
                r %= g
        return (g, r)
    if k == z3.Z3_OP_BMUL:
        g, r = congruence(e.arg(0), depth + 1)
        for i in range(1, e.num_args()):
            g2, r2 = congruence(e.arg(i), depth + 1)
            if g2 == 0:
                g, r = g * r2, r * r2
            elif g == 0:
                g, r = g2 * r, r2 * r
            else:
                ng = gcd(gcd(g * g2, g * r2), g2 * r)
                g, r = ng, (r * r2)
            if g:
                r %= g
        return (g, r)
    if k == z3.Z3_OP_BSHL:
        g2, r2 = congruence(e.arg(1), depth + 1)
        if g2 == 0 and r2 < 64:
            g, r = congruence(e.arg(0), depth + 1)
            return (g << r2, r << r2)
        return (1, 0)
    if k == z3.Z3_OP_ITE:
        g, r = congruence(e.arg(1), depth + 1)
        g2, r2 = congruence(e.arg(2), depth + 1)
        g = gcd(gcd(g, g2), abs(r - r2))
        return (g, r % g if g else r)
    if k == z3.Z3_OP_CONCAT:
        lo = e.arg(e.num_args() - 1)
        if z3.is_bv_value(lo):
            return (1 << lo.size(), lo.as_long())
        g, r = congruence(lo, depth + 1)
        if g & (g - 1) == 0 and g:
            return (g, r)
        # high part zero => value is lo
        hz = all(z3.is_bv_value(e.arg(i)) and e.arg(i).as_long() == 0 for i in range(e.num_args() - 1))
        if hz:
            return (g, r)
        return (1, 0)
    if k == z3.Z3_OP_ZERO_EXT:
        return congruence(e.arg(0), depth + 1)
    if k == z3.Z3_OP_BAND:
        for i in range(e.num_args()):
            a = e.arg(i)
            if z3.is_bv_value(a):
                m = a.as_long()
                if m:
                    return (m & -m, 0)
        return (1, 0)
    return (1, 0)
