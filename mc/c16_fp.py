"""C16: floating point arithmetic is correctly rounded.

Every operation on every tuple of operands of small formats, in every mode,
with and without subnormals, against exact rational arithmetic rounded once
(fpref); boundary operands of the usual formats; conversions at every grid
point, midpoint and their neighbourhoods.
"""
import itertools as it
import operator
import warnings
from fractions import Fraction

import fpref as R
from core import Job
from hwtypes import Bit, BitVector, FPVector, RoundingMode, SIntVector

PROP = 'C16'
SPACE = {
    'quick': '5 modes x ieee/non-ieee x formats (exponent, mantissa) (2,1) (2,2) (3,1) (3,2) (4,1) (2,4): every operand pair for the binary '
             'operations, every value for the unary ones, every triple for fma up to (3,1) (and of the non-negative first operand at (3,2)); '
             'the same 14 numbers in 50 to 60 formats in turn in one process, 8 orders; all pairs of about 25 boundary values and all fma triples of 11 for half, bfloat16, single and double; conversions of all ints '
             '-520..520, of floats and fraction strings at every value, midpoint and +-1/64, +-2^-40 of a step, and of every value of the other formats',
    'thorough': 'as quick with (4,3) and (5,2) pairs, every fma triple at (3,2), boundary lists of 40 and fma triples of 24',
}
ASSUMPTIONS = ['fpref: exact rational reference (fractions.Fraction), validated against the hardware doubles of this machine at start',
               '-0 is less than +0 for fp_min and fp_max (as MPFR documents); which infinity a NaN becomes in a non-IEEE format is not fixed',
               'the operands are made and the results read with reinterpret_from_bv and reinterpret_as_bv, which C17 checks by themselves']

MODES = {m.name: m for m in RoundingMode}
KEY = 'RNA rounds away from zero instead of to nearest'
UN = ('fp_neg', 'fp_abs', 'fp_sqrt', 'fp_round_to_integral')
BIN = {'fp_add': 'add', 'fp_sub': 'sub', 'fp_mul': 'mul', 'fp_div': 'div', 'fp_rem': 'rem', 'fp_min': 'min', 'fp_max': 'max_'}
UNREF = {'fp_neg': 'neg', 'fp_abs': 'abs', 'fp_sqrt': 'sqrt', 'fp_round_to_integral': 'rint'}
OPS = {'fp_add': lambda a, b: a + b, 'fp_sub': lambda a, b: a - b, 'fp_mul': lambda a, b: a * b, 'fp_div': lambda a, b: a / b,
       'fp_rem': lambda a, b: a % b, 'fp_neg': lambda a: -a, 'fp_abs': abs}
AUG = {'fp_add': operator.iadd, 'fp_sub': operator.isub, 'fp_mul': operator.imul, 'fp_div': operator.itruediv, 'fp_rem': operator.imod}


class Cfg:
    def __init__(self, eb, mb, mode, ieee):
        self.T = FPVector[eb, mb, MODES[mode], ieee]
        self.f = R.Format(eb, mb, ieee)
        self.mode = mode
        self.ieee = ieee
        self.name = f'({eb},{mb},{mode},{"ieee" if ieee else "flush"})'

    def mk(self, bits):
        return self.T.reinterpret_from_bv(BitVector[self.f.size](bits))

    def read(self, x):
        """the value of a result, in fpref's notation"""
        return self.f.decode(int(x.reinterpret_as_bv().as_uint()))

    def same(self, got, want):
        if want == R.NAN and not self.ieee:
            return got[0] == 'inf'
        return got == want

    def verdict(self, ctx, x, ref, what, detail):
        """ref: mode -> expected value"""
        ctx.transitions += 1
        if type(x) is not self.T:
            ctx.fail('type of the result', f'{detail()}: {type(x)}')
            return
        got = self.read(x)
        want = ref(self.mode)
        if not self.same(got, want):
            key = None
            if self.mode == 'RNA' and self.same(got, ref(R.AWAY)):
                key = KEY
            ctx.fail(what, f'{detail()}: expected {show(want)}, got {show(got)}' if key is None or key not in ctx.known_hits else '', key)


def show(v):
    if v[0] == 'nan':
        return 'NaN'
    s = '-' if v[1] else '+'
    if v[0] == 'inf':
        return s + 'inf'
    m = v[2]
    if m.denominator < 1 << 12 and m < 1 << 20:
        return s + str(m)
    e = R.floor_log2(m)
    return s + (repr(float(m)) if -1000 < e < 1000 and m.numerator.bit_length() < 54 else f'{float(m / R.pow2(e)).hex()}*2^{e} (exactly {m})' if m.numerator.bit_length() < 300 else f'about 2^{e}')


def unary(ctx, c, bits):
    for a in bits:
        x, va = c.mk(a), c.f.decode(a)
        for op in UN:
            ref = lambda m: getattr(c.f, UNREF[op])(va, m)
            d = lambda: f'{c.name} {op}({show(va)})'
            c.verdict(ctx, getattr(x, op)(), ref, op, d)
            if op in OPS:
                c.verdict(ctx, OPS[op](x), ref, f'operator of {op}', d)


def binary(ctx, c, lefts, rights):
    f = c.f
    ys = [(c.mk(b), f.decode(b)) for b in rights]
    for a in lefts:
        x, va = c.mk(a), f.decode(a)
        for y, vb in ys:
            for op, name in BIN.items():
                refop = getattr(f, name)
                ref = lambda m: refop(va, vb, m)
                d = lambda: f'{c.name} {op}({show(va)}, {show(vb)})'
                c.verdict(ctx, getattr(x, op)(y), ref, op, d)
                if op in OPS:
                    c.verdict(ctx, OPS[op](x, y), ref, f'operator of {op}', d)
                if op in AUG:
                    c.verdict(ctx, AUG[op](x, y), ref, f'augmented assignment of {op}', d)


def ternary(ctx, c, A, B, C):
    f = c.f
    ys = [(c.mk(b), f.decode(b)) for b in B]
    zs = [(c.mk(b), f.decode(b)) for b in C]
    for a in A:
        x, va = c.mk(a), f.decode(a)
        for y, vb in ys:
            for z, vc in zs:
                c.verdict(ctx, x.fp_fma(y, z), lambda m: f.fma(va, vb, vc, m), 'fp_fma', lambda: f'{c.name} fma({show(va)}, {show(vb)}, {show(vc)})')


def small(ctx, eb, mb, mode, ieee, what, part=0, of=1):
    c = Cfg(eb, mb, mode, ieee)
    vals = c.f.values()
    for b in vals:
        ctx.state((eb, mb, mode, ieee, b))
    if what == 'pairs':
        if part == 0:
            unary(ctx, c, vals)
        binary(ctx, c, vals[part::of], vals)
    elif what == 'fma':
        ternary(ctx, c, vals[part::of], vals, vals)
    else:
        # the sign of the first operand only flips the product's sign
        ternary(ctx, c, [b for b in vals if b < 1 << (eb + mb)][part::of], vals, vals)
    ctx.traces += 1
    if part == 0:
        ctx.sample(f'{c.name} {what}: {len(vals)} values')


def boundary(f, n):
    """bit patterns around every special place of the format"""
    mb, eb = f.mb, f.eb
    one = f.bias << mb
    mags = [0, one, 1, one + 1, 1 << mb, ((1 << eb) - 1) << mb, (((1 << eb) - 1) << mb) - 1, one - 1, (1 << mb) - 1, one | (1 << (mb - 1)),
            (((1 << eb) - 1) << mb) | 1, one + (1 << mb), one | ((1 << mb) // 3), (1 << mb) + 1, (f.bias + mb) << mb, ((f.bias + mb) << mb) + 1,
            ((1 << eb) - 2) << mb, (f.bias - 1) << mb, 3, (f.bias // 2) << mb | 5 % (1 << mb), ((f.bias + mb + 1) << mb) | 1, (one + (2 << mb)) - 1,
            (((1 << eb) - 1) << mb) - 2, (1 << mb) - 2, 2, (f.bias // 2 + 1) << mb, (f.bias + 1) << mb | (1 << mb) // 5, (mb + 1) << mb, (mb << mb) | 1]
    out = []
    for m in mags:
        for s in ((0, 1) if m < (((1 << eb) - 1) << mb) + 1 else (0,)):
            b = m | s << (mb + eb)
            v = f.decode(b)
            if not f.ieee and (R.is_nan(v) or v[0] == 'num' and v[2] == 0 and m):
                continue
            if b not in out:
                out.append(b)
    return out[:n]


def big(ctx, eb, mb, mode, ieee, n, n3):
    c = Cfg(eb, mb, mode, ieee)
    bits = boundary(c.f, n)
    for b in bits:
        ctx.state((eb, mb, mode, ieee, b))
    unary(ctx, c, bits)
    binary(ctx, c, bits, bits)
    t = bits[:n3]
    ternary(ctx, c, t, t, t)
    ctx.traces += 1
    ctx.sample(f'{c.name}: {len(bits)} boundary values')


def in_turn(ctx, cfgs, reals, n3, away=False):
    """the same numbers in many formats in turn, in one process"""
    for eb, mb, mode, ieee in cfgs:
        c = Cfg(eb, mb, mode, ieee)
        if away and mode == 'RNA':
            c.mode = R.AWAY         # what C16 records about this mode is not repeated
        bits = []
        for q in reals:
            v = c.f.round_exact(q, 'RNE', 0)
            if v[0] == 'num' and R.exact(v) == q:
                bits.append(c.f.encode(v))
        bits += [0, c.f.encode(R.inf(0))]
        for b in bits:
            ctx.state((eb, mb, mode, ieee, b))
        unary(ctx, c, bits)
        binary(ctx, c, bits, bits)
        ternary(ctx, c, bits[:n3], bits[:n3], bits[:n3])
        ctx.traces += 1
    ctx.sample(f'{len(cfgs)} formats in turn, last {c.name}: {len(bits)} values')


REALS = [Fraction(n, d) * s for n, d, s in ((1, 1, 1), (11, 1, 1), (1, 4, 1), (3, 1, -1), (2, 1, 1), (5, 4, 1), (7, 1, 1), (1, 8, 1), (15, 1, 1), (3, 8, -1), (13, 2, 1), (9, 4, 1))]


def turns():
    near = [(3, 4), (4, 4), (8, 4), (4, 5), (8, 5), (3, 5)]
    far = [(8, 23), (11, 23), (8, 24), (11, 52), (8, 4)]
    for sizes in (near, far):
        by_mode = [(eb, mb, m, i) for eb, mb in sizes for i in (True, False) for m in MODES]
        by_size = [(eb, mb, m, i) for m in MODES for i in (False, True) for eb, mb in sizes]
        for cfgs in (by_mode, by_mode[::-1], by_size, by_size[::-1]):
            yield cfgs


# ------------------------------------------------------------- conversions

def near(f):
    """rationals at, between and around the values of a small format"""
    pos = sorted({f.decode(b)[2] for b in f.values() if f.decode(b)[0] == 'num' and b < 1 << (f.eb + f.mb)})
    pos.append(pos[-1] * 2 - pos[-2] if len(pos) > 1 else pos[-1] * 2)
    out = set()
    for lo, hi in zip(pos, pos[1:]):
        st = hi - lo
        for q in (lo, lo + st / 2, lo + st / 4):
            for d in (0, st / 64, -st / 64, st / (1 << 40), -st / (1 << 40)):
                out.add(q + d)
    top = pos[-1]
    out |= {top, top * 2, top * 1000, pos[1] / 1000, top + Fraction(1, 1 << 30)}
    out = {q for q in out if q > 0}
    return sorted(out | {-q for q in out})


class HasFloat:
    def __init__(self, v):
        self.v = v

    def __float__(self):
        return self.v


def conversions(ctx, eb, mb, mode, ieee):
    c = Cfg(eb, mb, mode, ieee)
    f, T = c.f, c.T
    rnd = lambda q, zs=0: (lambda m: f.round_exact(Fraction(q), m, zs))
    ints = list(range(-520, 521)) + [s * ((1 << k) + d) for k in (10, 31, 52, 53, 54, 63, 64, 200, 1100) for d in (-1, 0, 1) for s in (1, -1)]
    for i in ints:
        c.verdict(ctx, T(i), rnd(i), 'from int', lambda: f'{c.name}({i})')
        ctx.state(('int', i))
        if abs(i) < 64:
            c.verdict(ctx, T(str(i)), rnd(i), 'from string', lambda: f'{c.name}({str(i)!r})')
            c.verdict(ctx, T(HasFloat(float(i))), rnd(i), 'from an object with __float__', lambda: f'{c.name} {i}')
            if i >= 0:
                c.verdict(ctx, T(BitVector[8](i)), rnd(i), 'from a vector', lambda: f'{c.name} {i}')
            c.verdict(ctx, T(SIntVector[8](i)), rnd(i), 'from a vector', lambda: f'{c.name} {i}')
    for b in (True, False):
        c.verdict(ctx, T(b), rnd(int(b)), 'from bool', lambda: f'{c.name}({b})')
    for q in near(f):
        ctx.state(('q', q))
        c.verdict(ctx, T(f'{q.numerator}/{q.denominator}'), rnd(q), 'from fraction string', lambda: f'{c.name}({str(q)!r})')
        x = float(q)
        if Fraction(x) == q:
            c.verdict(ctx, T(x), rnd(q), 'from float', lambda: f'{c.name}({x!r})')
            if q.denominator in (1, 2, 4, 8, 16):
                c.verdict(ctx, T(repr(x)), rnd(q), 'from decimal string', lambda: f'{c.name}({x!r} as text)')
    for x in (1e308, 5e-324, 2.0 ** -1022, 1.7976931348623157e308, 0.1, 1 / 3, 2.0 ** 127, 2.0 ** -149, 2.0 ** -150, 65504.0, 65520.0):
        for s in (1, -1):
            c.verdict(ctx, T(s * x), rnd(Fraction(s * x)), 'from float', lambda: f'{c.name}({s * x!r})')
    for p, q in it.product(range(-9, 10), (1, 3, 5, 7, 10, 300)):
        c.verdict(ctx, T(f'{p}/{q}'), rnd(Fraction(p, q)), 'from fraction string', lambda: f"{c.name}('{p}/{q}')")
    special = [('inf', R.inf(0)), ('-inf', R.inf(1)), ('nan', R.NAN), (float('inf'), R.inf(0)), (float('-inf'), R.inf(1)), (float('nan'), R.NAN),
               (0.0, R.num(0, Fraction(0))), (-0.0, R.num(1, Fraction(0))), ('-0', R.num(1, Fraction(0))), ('0', R.num(0, Fraction(0))), (0, R.num(0, Fraction(0)))]
    for v, want in special:
        c.verdict(ctx, T(v), lambda m: want, 'special value', lambda: f'{c.name}({v!r})')
    for bad in ('x', '1/0x', '1/2/3', None, [], object(), 1j):
        ctx.raises((TypeError, ValueError), lambda: T(bad), 'bad value accepted', lambda: f'{c.name}({bad!r})')
    # every value of every other format
    for eb2, mb2 in ((2, 1), (2, 2), (3, 2), (4, 3), (5, 2), (2, 5)):
        for ieee2 in (True, False):
            c2 = Cfg(eb2, mb2, 'RNE', ieee2)
            for b in c2.f.values():
                v = c2.f.decode(b)
                ref = (lambda m: v) if v[0] != 'num' or v[2] == 0 else (lambda m: f.round_exact(R.exact(v), m, v[1]))
                c.verdict(ctx, T(c2.mk(b)), ref, 'from another format', lambda: f'{c.name}({c2.name} {show(v)})')
    for eb2, mb2 in ((5, 10), (8, 23), (11, 52)):
        c2 = Cfg(eb2, mb2, 'RTZ', True)
        for b in boundary(c2.f, 40):
            v = c2.f.decode(b)
            ref = (lambda m: v) if v[0] != 'num' or v[2] == 0 else (lambda m: f.round_exact(R.exact(v), m, v[1]))
            c.verdict(ctx, T(c2.mk(b)), ref, 'from another format', lambda: f'{c.name}({c2.name} {show(v)})')
    ctx.traces += 1
    ctx.sample(f'{c.name}: conversions')


def steps(f, bits):
    """rationals at, halfway to and just around the value after each given one"""
    out = set()
    for b in bits:
        v, w = f.decode(b), f.decode(b + 1)
        if v[0] != 'num' or w[0] != 'num' or v[1] or v[2] >= w[2]:
            continue
        st = w[2] - v[2]
        for q in (v[2] + st / 2, v[2] + st / 4, v[2]):
            out |= {q, q + st / 1024, q - st / 1024, q + st / (1 << 80), q - st / (1 << 80)}
    out |= {f.max + f.max / (1 << (f.mb + 2)), f.max * 2, f.min_sub / 2, f.min_sub / 3, f.min_normal - f.min_sub / 2}
    return sorted(q for q in out if q > 0)


def text(q):
    """an exact decimal numeral of a rational with a power of two below, or None"""
    k = q.denominator.bit_length() - 1
    if q.denominator != 1 << k or k > 300:
        return None
    n = abs(q.numerator) * 5 ** k
    s = str(n).rjust(k + 1, '0')
    s = s[:-k] + '.' + s[-k:] if k else s
    return '-' + s if q < 0 else s


def wide_conversions(ctx, eb, mb, mode, ieee):
    """ints, floats, numerals and other formats around every place where a wide format rounds"""
    c = Cfg(eb, mb, mode, ieee)
    f, T = c.f, c.T
    rnd = lambda q: (lambda m: f.round_exact(Fraction(q), m, 0))
    ints = set()
    for k in sorted({8, 24, 31, 32, 52, 53, 54, 55, 58, 60, 63, 64, 65, 100, 127, 128, mb - 1, mb, mb + 1, mb + 2, mb + 3, mb + 8, mb + 40, 1023, 1025}):
        if k > 0:
            for d in (-3, -2, -1, 0, 1, 2, 3):
                ints |= {(1 << k) + d, (3 << k) + d, (1 << k) + (1 << max(0, k - mb)) + d, (1 << k) + (1 << max(0, k - mb - 1)) + d}
            ints |= {(1 << k) // 3, (1 << k) * 2 // 3, (1 << k) // 7}
    for i in sorted(ints):
        for j in (i, -i):
            ctx.state(('int', j))
            c.verdict(ctx, T(j), rnd(j), 'from int', lambda: f'{c.name}({j})')
            c.verdict(ctx, T(str(j)), rnd(j), 'from string', lambda: f'{c.name}({str(j)!r})')
            c.verdict(ctx, T(f'{j}/3'), rnd(Fraction(j, 3)), 'from fraction string', lambda: f"{c.name}('{j}/3')")
            x = float(j) if abs(j) < 1 << 1000 else 0.0
            c.verdict(ctx, T(x), rnd(Fraction(x)), 'from float', lambda: f'{c.name}({x!r})')
            for w in (64, 200):
                if abs(j) < 1 << (w - 1):
                    for V in (BitVector, SIntVector):
                        if j >= 0 or V is SIntVector:
                            c.verdict(ctx, T(V[w](j)), rnd(j), 'from a vector', lambda: f'{c.name}({V[w](j)!r})')
    bits = [b for b in boundary(f, 99) if b < 1 << (eb + mb)]
    for q in steps(f, bits):
        for q in (q, -q):
            ctx.state(('q', q))
            if q.denominator.bit_length() < 2000 and q.numerator.bit_length() < 2000:
                c.verdict(ctx, T(f'{q.numerator}/{q.denominator}'), rnd(q), 'from fraction string', lambda: f'{c.name}({str(q)!r})')
            t = text(q)
            if t and len(t) < 600:
                c.verdict(ctx, T(t), rnd(q), 'from decimal string', lambda: f'{c.name}({t!r})')
            if -1060 < R.floor_log2(abs(q)) < 1000:
                x = float(q)
                c.verdict(ctx, T(x), rnd(Fraction(x)), 'from float', lambda: f'{c.name}({x!r})')
    for eb2, mb2 in ((5, 10), (8, 7), (8, 23), (11, 52), (11, 60), (6, 70), (15, 112)):
        for ieee2 in (True, False):
            c2 = Cfg(eb2, mb2, 'RTZ', ieee2)
            for b in boundary(c2.f, 99):
                v = c2.f.decode(b)
                if R.is_nan(v) and not c2.ieee:
                    continue
                ref = (lambda m: v) if v[0] != 'num' or v[2] == 0 else (lambda m: f.round_exact(R.exact(v), m, v[1]))
                c.verdict(ctx, T(c2.mk(b)), ref, 'from another format', lambda: f'{c.name}({c2.name} {show(v)})')
    ctx.traces += 1
    ctx.sample(f'{c.name}: wide conversions, {2 * len(ints)} ints')


def reference(ctx):
    """fpref against this machine's doubles, and FPVector's double against both"""
    import math
    import struct
    f = R.Format(11, 52, True)

    def dec(x):
        return f.decode(struct.unpack('<Q', struct.pack('<d', x))[0])

    def enc(v):
        return float('nan') if R.is_nan(v) else struct.unpack('<d', struct.pack('<Q', f.encode(v)))[0]
    xs = [enc(f.decode(b)) for b in boundary(f, 40)]
    for a, b in it.product(xs, repeat=2):
        va, vb = dec(a), dec(b)
        for name, op in (('add', lambda: a + b), ('sub', lambda: a - b), ('mul', lambda: a * b), ('div', lambda: a / b if b else None),
                         ('rem', lambda: math.remainder(a, b) if b and not math.isinf(a) else None)):
            w = op()
            if w is not None:
                got = getattr(f, name)(va, vb, 'RNE')
                ctx.check(got, dec(w), 'the reference disagrees with hardware', f'{name}({a!r}, {b!r})')
    for a in xs:
        if not (a < 0) and not math.isnan(a):
            ctx.check(f.sqrt(dec(a), 'RNE'), dec(math.sqrt(a)), 'the reference disagrees with hardware', f'sqrt({a!r})')
        if not math.isnan(a) and not math.isinf(a):
            ctx.check(f.rint(dec(a), 'RNE'), dec(math.copysign(float(round(a)), a)), 'the reference disagrees with hardware', f'rint({a!r})')
    ctx.traces += 1


def jobs(tier):
    deep = tier == 'thorough'
    out = [Job('reference against hardware', reference)]
    warnings.simplefilter('ignore')
    for k, cfgs in enumerate(turns()):
        out.append(Job(f'formats in turn, order {k + 1}', in_turn, cfgs, REALS, 7 if deep else 4, weight=60))
    for mode in MODES:
        for ieee in (True, False):
            tag = f'{mode} {"ieee" if ieee else "flush"}'
            for eb, mb in ((2, 1), (2, 2), (3, 1), (3, 2), (4, 1), (2, 4)) + (((4, 3), (5, 2)) if deep else ()):
                of = 4 if eb + mb >= 6 else 1
                for p in range(of):
                    out.append(Job(f'pairs ({eb},{mb}) {tag} {p}', small, eb, mb, mode, ieee, 'pairs', p, of, weight=1 << (eb + mb)))
            for eb, mb in ((2, 1), (2, 2), (3, 1)):
                out.append(Job(f'fma ({eb},{mb}) {tag}', small, eb, mb, mode, ieee, 'fma', weight=20))
            for p in range(4):
                out.append(Job(f'fma (3,2) {tag} {p}', small, 3, 2, mode, ieee, 'fma' if deep else 'half fma', p, 4, weight=50))
            for eb, mb in ((8, 23), (11, 52), (11, 60), (6, 70), (15, 112), (3, 40)) if deep else ((8, 23), (11, 52), (11, 60), (6, 70)):
                out.append(Job(f'wide conversions ({eb},{mb}) {tag}', wide_conversions, eb, mb, mode, ieee, weight=40))
            for eb, mb in ((11, 60), (6, 70), (15, 64), (3, 40)):
                out.append(Job(f'boundary ({eb},{mb}) {tag}', big, eb, mb, mode, ieee, 24 if deep else 14, 12 if deep else 6, weight=30))
            for eb, mb in ((5, 10), (8, 7), (8, 23), (11, 52)):
                out.append(Job(f'boundary ({eb},{mb}) {tag}', big, eb, mb, mode, ieee, 40 if deep else 25, 24 if deep else 11, weight=30))
            for eb, mb in ((2, 1), (3, 2), (4, 3), (5, 10), (8, 23)) if deep else ((2, 1), (3, 2), (4, 3)):
                out.append(Job(f'conversions ({eb},{mb}) {tag}', conversions, eb, mb, mode, ieee, weight=30 if eb < 5 else 400))
    return out
