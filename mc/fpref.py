"""Boring reference model of binary floating point, on exact rationals.

A value is one of
    ('nan',)            ('inf', s)          ('num', s, m)
with s in {0,1} and m a non-negative Fraction (m == 0 is a signed zero).
Nothing here imports hwtypes or gmpy2.
"""
from fractions import Fraction as F
from math import isqrt

RNE, RNA, RTP, RTN, RTZ, AWAY = 'RNE', 'RNA', 'RTP', 'RTN', 'RTZ', 'AWAY'
NAN = ('nan',)


def inf(s):
    return ('inf', s)


def num(s, m):
    return ('num', s, m)


def is_nan(v):
    return v[0] == 'nan'


def is_inf(v):
    return v[0] == 'inf'


def is_zero(v):
    return v[0] == 'num' and v[2] == 0


def sgn(v):
    return v[1]


def exact(v):
    """signed Fraction of a finite value"""
    return -v[2] if v[1] else v[2]


class Format:
    """eb exponent bits, mb mantissa bits; subnormals iff ieee."""

    def __init__(self, eb, mb, ieee):
        self.eb, self.mb, self.ieee = eb, mb, ieee
        self.bias = (1 << (eb - 1)) - 1
        self.emax = (1 << eb) - 2 - self.bias      # exponent of the largest binade
        self.emin = 1 - self.bias                  # exponent of the smallest normal
        self.size = 1 + eb + mb
        self.max = (2 - F(1, 1 << mb)) * pow2(self.emax)
        self.min_normal = pow2(self.emin)
        self.min_sub = pow2(self.emin - mb)

    # -- bit patterns ------------------------------------------------------
    def decode(self, bits):
        mb, eb = self.mb, self.eb
        man = bits & ((1 << mb) - 1)
        ex = (bits >> mb) & ((1 << eb) - 1)
        s = bits >> (mb + eb)
        if ex == (1 << eb) - 1:
            return inf(s) if man == 0 else NAN
        if ex == 0:
            if not self.ieee:
                return num(s, F(0))
            return num(s, man * self.min_sub)
        return num(s, (1 + F(man, 1 << mb)) * pow2(ex - self.bias))

    def encode(self, v):
        """bit pattern of a representable value; None for NaN"""
        mb, eb = self.mb, self.eb
        if is_nan(v):
            return None
        top = v[1] << (mb + eb)
        if is_inf(v):
            return top | (((1 << eb) - 1) << mb)
        m = v[2]
        if m == 0:
            return top
        e = floor_log2(m)
        if e < self.emin:
            man = m / self.min_sub
            assert man.denominator == 1 and man < (1 << mb)
            return top | int(man)
        man = (m / pow2(e) - 1) * (1 << mb)
        assert man.denominator == 1, m
        assert e <= self.emax
        return top | ((e + self.bias) << mb) | int(man)

    def values(self):
        """every bit pattern that denotes a value of the format, NaN once"""
        out, nan_seen = [], False
        for b in range(1 << self.size):
            v = self.decode(b)
            if is_nan(v):
                if nan_seen:
                    continue
                nan_seen = True
            if not self.ieee:
                man = b & ((1 << self.mb) - 1)
                ex = (b >> self.mb) & ((1 << self.eb) - 1)
                if ex == 0 and man:
                    continue
                if is_nan(v):
                    continue
            out.append(b)
        return out

    # -- rounding ----------------------------------------------------------
    def round(self, s, m, mode, cmp=None):
        """Round the positive real of magnitude m and sign s.

        m is a Fraction; when the real is irrational (sqrt), m is any Fraction
        in the same open interval between adjacent grid half-points.
        """
        assert m > 0
        e = floor_log2(m)
        if e < self.emin:
            if self.ieee:
                lo = (m // self.min_sub) * self.min_sub
                step = self.min_sub
            else:
                lo = F(0)
                step = self.min_normal
        else:
            step = pow2(e - self.mb)
            lo = (m // step) * step
        lo = F(lo)
        if lo == m:
            r = m
        else:
            hi = lo + step
            if mode == RTZ:
                r = lo
            elif mode == AWAY:
                r = hi
            elif mode == RTP:
                r = lo if s else hi
            elif mode == RTN:
                r = hi if s else lo
            else:
                d = (m - lo) - (hi - m)
                if d < 0:
                    r = lo
                elif d > 0:
                    r = hi
                elif mode == RNA:
                    r = hi
                elif not self.ieee and lo == 0:
                    r = lo
                else:
                    r = lo if (lo / step) % 2 == 0 else hi
        if r > self.max:
            # overflow: the exact value lies above the largest finite value
            to_inf = (mode in (RNE, RNA, AWAY) or (mode == RTP and not s)
                      or (mode == RTN and s))
            return inf(s) if to_inf else num(s, self.max)
        return num(s, r)

    def round_exact(self, q, mode, zero_sign):
        if q == 0:
            return num(zero_sign, F(0))
        return self.round(1 if q < 0 else 0, abs(q), mode)

    # -- operations --------------------------------------------------------
    def neg(self, a, mode=None):
        if is_nan(a):
            return NAN
        return (a[0], 1 - a[1]) + a[2:]

    def abs(self, a, mode=None):
        if is_nan(a):
            return NAN
        return (a[0], 0) + a[2:]

    def add(self, a, b, mode):
        if is_nan(a) or is_nan(b):
            return NAN
        if is_inf(a) or is_inf(b):
            if is_inf(a) and is_inf(b):
                return a if a[1] == b[1] else NAN
            return a if is_inf(a) else b
        q = exact(a) + exact(b)
        return self.round_exact(q, mode, self._sum_zero(a[1], b[1], mode))

    @staticmethod
    def _sum_zero(s1, s2, mode):
        if s1 == s2:
            return s1
        return 1 if mode == RTN else 0

    def sub(self, a, b, mode):
        return self.add(a, self.neg(b), mode)

    def mul(self, a, b, mode):
        if is_nan(a) or is_nan(b):
            return NAN
        s = a[1] ^ b[1]
        if is_inf(a) or is_inf(b):
            return NAN if is_zero(a) or is_zero(b) else inf(s)
        return self.round_exact(exact(a) * exact(b), mode, s)

    def div(self, a, b, mode):
        if is_nan(a) or is_nan(b):
            return NAN
        s = a[1] ^ b[1]
        if is_inf(a):
            return NAN if is_inf(b) else inf(s)
        if is_inf(b):
            return num(s, F(0))
        if is_zero(b):
            return NAN if is_zero(a) else inf(s)
        return self.round_exact(exact(a) / exact(b), mode, s)

    def fma(self, a, b, c, mode):
        if is_nan(a) or is_nan(b) or is_nan(c):
            return NAN
        s = a[1] ^ b[1]
        if is_inf(a) or is_inf(b):
            if is_zero(a) or is_zero(b):
                return NAN
            if is_inf(c) and c[1] != s:
                return NAN
            return inf(s)
        if is_inf(c):
            return c
        q = exact(a) * exact(b) + exact(c)
        return self.round_exact(q, mode, self._sum_zero(s, c[1], mode))

    def sqrt(self, a, mode):
        if is_nan(a):
            return NAN
        if is_zero(a):
            return a
        if a[1]:
            return NAN
        if is_inf(a):
            return a
        q = a[2]
        # scale so that isqrt has far more precision than the format
        k = 2 * (self.mb + 8) + 2 * max(0, -floor_log2(q))
        k += k & 1
        n = (q.numerator << k)
        d = q.denominator
        r = isqrt(n // d)
        if r * r * d == n:
            m = F(r, 1 << (k // 2))
        else:
            m = (F(r) + F(1, 2)) / (1 << (k // 2))
        return self.round(0, m, mode)

    def rem(self, a, b, mode):
        if is_nan(a) or is_nan(b) or is_inf(a) or is_zero(b):
            return NAN
        if is_inf(b):
            return a
        n = rne_int(exact(a) / exact(b))
        q = exact(a) - n * exact(b)
        return self.round_exact(q, mode, a[1])

    def rint(self, a, mode):
        if is_nan(a) or is_inf(a) or is_zero(a):
            return a
        n = round_int(exact(a), mode)
        if n == 0:
            return num(a[1], F(0))
        return self.round_exact(F(n), mode, a[1])

    def min(self, a, b, mode=None):
        return self._minmax(a, b, lambda x, y: x <= y)

    def max_(self, a, b, mode=None):
        return self._minmax(a, b, lambda x, y: x >= y)

    def _minmax(self, a, b, pick):
        if is_nan(a):
            return b
        if is_nan(b):
            return a
        if is_zero(a) and is_zero(b):          # -0 is less than +0
            return a if pick(-a[1], -b[1]) else b
        return a if pick(key(a), key(b)) else b

    # -- predicates --------------------------------------------------------
    def is_subnormal(self, a):
        return a[0] == 'num' and 0 < a[2] < self.min_normal

    def is_normal(self, a):
        return a[0] == 'num' and a[2] >= self.min_normal


def key(v):
    """order embedding of non-NaN values (zeros of both signs are equal)"""
    if is_inf(v):
        return (1 if not v[1] else -1, F(0))
    return (0, exact(v))


def lt(a, b):
    return not is_nan(a) and not is_nan(b) and key(a) < key(b)


def le(a, b):
    return not is_nan(a) and not is_nan(b) and key(a) <= key(b)


def eq(a, b):
    return not is_nan(a) and not is_nan(b) and key(a) == key(b)


def pow2(e):
    return F(1 << e) if e >= 0 else F(1, 1 << -e)


def floor_log2(m):
    e = m.numerator.bit_length() - m.denominator.bit_length()
    if pow2(e) > m:
        e -= 1
    assert pow2(e) <= m < pow2(e + 1)
    return e


def rne_int(q):
    lo = q.numerator // q.denominator
    d = q - lo
    if d > F(1, 2) or (d == F(1, 2) and lo % 2):
        return lo + 1
    return lo


def trunc_int(q):
    n = abs(q.numerator) // q.denominator
    return -n if q < 0 else n


def round_int(q, mode):
    lo = q.numerator // q.denominator
    if lo == q:
        return lo
    if mode == RTN:
        return lo
    if mode == RTP:
        return lo + 1
    if mode == RTZ:
        return trunc_int(q)
    if mode == AWAY:
        return lo if q < 0 else lo + 1
    d = q - lo
    if mode == RNE or d != F(1, 2):
        return rne_int(q)
    return lo if q < 0 else lo + 1   # RNA tie
