"""Boring reference model of fixed width bit vectors: plain Python ints.

A vector of width n is an int in [0, 2**n).  Nothing here imports hwtypes.
"""


def mask(n):
    return (1 << n) - 1


def wrap(n, x):
    return x % (1 << n)


def signed(n, x):
    return x - (1 << n) if n and x >> (n - 1) & 1 else x


def bit(x, i):
    return x >> i & 1


# -- binary, result of the same width --------------------------------------

def bvand(n, a, b):
    return sum((bit(a, i) & bit(b, i)) << i for i in range(n))


def bvor(n, a, b):
    return sum((bit(a, i) | bit(b, i)) << i for i in range(n))


def bvxor(n, a, b):
    return sum((bit(a, i) ^ bit(b, i)) << i for i in range(n))


if True:    # same functions, fast; self-tested against the above in selftest()
    def bvand_(n, a, b):
        return a & b

    def bvor_(n, a, b):
        return a | b

    def bvxor_(n, a, b):
        return a ^ b


def bvnand(n, a, b):
    return mask(n) - (a & b)


def bvnor(n, a, b):
    return mask(n) - (a | b)


def bvxnor(n, a, b):
    return mask(n) - (a ^ b)


def bvshl(n, a, b):
    return wrap(n, a << b) if b < n else 0


def bvlshr(n, a, b):
    return a >> b if b < n else 0


def bvashr(n, a, b):
    s = signed(n, a)
    if b >= n:
        return mask(n) if s < 0 else 0
    return wrap(n, s >> b)


def bvrol(n, a, b):
    b %= n
    return wrap(n, a << b) | a >> (n - b)


def bvror(n, a, b):
    b %= n
    return a >> b | wrap(n, a << (n - b))


def bvadd(n, a, b):
    return wrap(n, a + b)


def bvsub(n, a, b):
    return wrap(n, a - b)


def bvmul(n, a, b):
    return wrap(n, a * b)


def bvudiv(n, a, b):
    return mask(n) if b == 0 else a // b


def bvurem(n, a, b):
    return a if b == 0 else a % b


def bvsdiv_floor(n, a, b):
    """hwtypes' concrete signed division: rounds towards minus infinity"""
    a, b = signed(n, a), signed(n, b)
    return mask(n) if b == 0 else wrap(n, a // b)


def bvsrem_floor(n, a, b):
    """hwtypes' concrete signed remainder: sign of the divisor"""
    if b == 0:
        return a
    return wrap(n, signed(n, a) % signed(n, b))


def bvsdiv_smt(n, a, b):
    """SMT-LIB bvsdiv: truncates"""
    sa, sb = signed(n, a), signed(n, b)
    if sb == 0:
        return 1 if sa < 0 else mask(n)
    q = abs(sa) // abs(sb)
    return wrap(n, q if (sa < 0) == (sb < 0) else -q)


def bvsrem_smt(n, a, b):
    """SMT-LIB bvsrem: sign of the dividend"""
    sa, sb = signed(n, a), signed(n, b)
    if sb == 0:
        return a
    r = abs(sa) % abs(sb)
    return wrap(n, -r if sa < 0 else r)


# -- unary ------------------------------------------------------------------

def bvnot(n, a):
    return mask(n) - a


def bvneg(n, a):
    return wrap(n, -a)


# -- predicates ---------------------------------------------------------------

def bveq(n, a, b):
    return int(a == b)


def bvne(n, a, b):
    return int(a != b)


def bvult(n, a, b):
    return int(a < b)


def bvule(n, a, b):
    return int(a <= b)


def bvugt(n, a, b):
    return int(a > b)


def bvuge(n, a, b):
    return int(a >= b)


def bvslt(n, a, b):
    return int(signed(n, a) < signed(n, b))


def bvsle(n, a, b):
    return int(signed(n, a) <= signed(n, b))


def bvsgt(n, a, b):
    return int(signed(n, a) > signed(n, b))


def bvsge(n, a, b):
    return int(signed(n, a) >= signed(n, b))


# name -> (model, result kind); kind: 'v' same width, 'b' Bit, '1' vector[1]
BINARY = {
    'bvand': (bvand_, 'v'), 'bvor': (bvor_, 'v'), 'bvxor': (bvxor_, 'v'),
    'bvnand': (bvnand, 'v'), 'bvnor': (bvnor, 'v'), 'bvxnor': (bvxnor, 'v'),
    'bvshl': (bvshl, 'v'), 'bvlshr': (bvlshr, 'v'), 'bvashr': (bvashr, 'v'),
    'bvrol': (bvrol, 'v'), 'bvror': (bvror, 'v'),
    'bvadd': (bvadd, 'v'), 'bvsub': (bvsub, 'v'), 'bvmul': (bvmul, 'v'),
    'bvudiv': (bvudiv, 'v'), 'bvurem': (bvurem, 'v'),
    'bvsdiv': (bvsdiv_floor, 'v'), 'bvsrem': (bvsrem_floor, 'v'),
    'bvcomp': (bveq, '1'),
    'bveq': (bveq, 'b'), 'bvne': (bvne, 'b'),
    'bvult': (bvult, 'b'), 'bvule': (bvule, 'b'), 'bvugt': (bvugt, 'b'), 'bvuge': (bvuge, 'b'),
    'bvslt': (bvslt, 'b'), 'bvsle': (bvsle, 'b'), 'bvsgt': (bvsgt, 'b'), 'bvsge': (bvsge, 'b'),
}
UNARY = {'bvnot': bvnot, 'bvneg': bvneg}

# operator symbol -> method, for unsigned and for signed types
UNSIGNED_OPS = {
    '&': 'bvand', '|': 'bvor', '^': 'bvxor', '<<': 'bvshl', '>>': 'bvlshr',
    '+': 'bvadd', '-': 'bvsub', '*': 'bvmul', '//': 'bvudiv', '%': 'bvurem',
    '==': 'bveq', '!=': 'bvne', '<': 'bvult', '<=': 'bvule', '>': 'bvugt', '>=': 'bvuge',
}
SIGNED_OPS = dict(UNSIGNED_OPS, **{
    '>>': 'bvashr', '//': 'bvsdiv', '%': 'bvsrem',
    '<': 'bvslt', '<=': 'bvsle', '>': 'bvsgt', '>=': 'bvsge',
})
UNARY_OPS = {'~': 'bvnot', '-': 'bvneg'}


def operators(is_signed):
    """symbol -> (model, kind)"""
    return {s: BINARY[m] for s, m in (SIGNED_OPS if is_signed else UNSIGNED_OPS).items()}


# -- operand alphabets --------------------------------------------------------

def corner_values(n, rich=True):
    """the boundary alphabet of width n (everything, when n is small)"""
    if n <= 4:
        return list(range(1 << n))
    m = mask(n)
    msb = 1 << (n - 1)
    vs = [0, 1, 2, 3, m, m - 1, m - 2, msb, msb - 1, msb + 1, msb >> 1, (msb >> 1) - 1,
          n - 1, n, n + 1, 2 * n, m - n + 1]
    if rich:
        a = int('0123456789abcdef' * (n // 64 + 1), 16)
        vs += [m // 3, m - m // 3, wrap(n, a), wrap(n, ~a), msb + msb // 2,
               wrap(n, 0x5bd1e995 * 0x1b873593), 5, 7, 10]
        for k in (7, 8, 15, 16, 31, 32, 33, 63, 64):
            if k < n:
                vs += [1 << k, (1 << k) - 1]
                vs += [m - (1 << k)]
    out = []
    for v in vs:
        v = wrap(n, v)
        if v not in out:
            out.append(v)
    return out


def selftest():
    for n in (1, 3, 4):
        for a in range(1 << n):
            for b in range(1 << n):
                assert bvand(n, a, b) == bvand_(n, a, b)
                assert bvor(n, a, b) == bvor_(n, a, b)
                assert bvxor(n, a, b) == bvxor_(n, a, b)
                r = bvrol(n, a, b)
                for i in range(n):
                    assert bit(r, (i + b) % n) == bit(a, i)
                assert bvror(n, bvrol(n, a, b), b) == a
                if b:
                    assert wrap(n, bvudiv(n, a, b) * b + bvurem(n, a, b)) == a
                    assert wrap(n, bvsdiv_smt(n, a, b) * b + bvsrem_smt(n, a, b)) == a
                    assert wrap(n, bvsdiv_floor(n, a, b) * b + bvsrem_floor(n, a, b)) == a


if __name__ == '__main__':
    selftest()
    print('ok')
