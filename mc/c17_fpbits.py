"""C17: floating point bit patterns, classes and comparisons agree with IEEE-754.

Every bit pattern (and every pair of values) of small formats, every pattern of
half and bfloat16, and boundary patterns of single and double, against exact
rationals.
"""
import itertools as it
from fractions import Fraction

import fpref as R
from c16_fp import KEY, MODES, boundary, show
from core import Job
from hwtypes import Bit, BitVector, FPVector, SIntVector

PROP = 'C17'
SPACE = {
    'quick': 'formats with 2-4 exponent and 1-4 mantissa bits, ieee and not, 5 modes: every pattern (conversion, classes, float, to_ubv and '
             'to_sbv at 7 widths) and, up to 7 bits, every pair of values under the 12 comparisons; every pattern of half and bfloat16 (one '
             'mode each); about 55 boundary patterns of half, bfloat16, single, double, (2,30), (15,3), (3,53), (4,52), (4,64), (11,60), (6,70), (15,112), and all their pairs',
    'thorough': 'as quick for formats up to 6+6 bits, pairs up to 9 bits, half and bfloat16 in every mode',
}
ASSUMPTIONS = ['fpref: exact rational reference', 'the payload and sign of a NaN, and the sign of the infinity that replaces it in a non-IEEE format, are not fixed',
               'warnings for flushed subnormals and NaNs are ignored']
CMP = {'fp_lt': lambda a, b: R.lt(a, b), 'fp_leq': lambda a, b: R.le(a, b), 'fp_gt': lambda a, b: R.lt(b, a), 'fp_geq': lambda a, b: R.le(b, a), 'fp_eq': R.eq}
OPS = {'<': (lambda x, y: x < y, CMP['fp_lt']), '<=': (lambda x, y: x <= y, CMP['fp_leq']), '>': (lambda x, y: x > y, CMP['fp_gt']),
       '>=': (lambda x, y: x >= y, CMP['fp_geq']), '==': (lambda x, y: x == y, R.eq), '!=': (lambda x, y: x != y, lambda a, b: not R.eq(a, b))}
DOUBLE = R.Format(11, 52, True)
WIDTHS = (1, 2, 3, 5, 8, 16, 70)


def one(ctx, T, f, b, widths=WIDTHS):
    """everything about a single pattern"""
    eb, mb, ieee = f.eb, f.mb, f.ieee
    size = f.size
    man, ex = b & ((1 << mb) - 1), (b >> mb) & ((1 << eb) - 1)
    sign = b >> (eb + mb)
    v = f.decode(b)                       # subnormals of flushed formats decode as zero
    if R.is_nan(v) and not ieee:
        v = None                          # an infinity of either sign
    d = lambda: f'FPVector[{eb},{mb},{T.mode.name},{ieee}] pattern {b:0{size}b}'
    given = BitVector[size](b)
    x = T.reinterpret_from_bv(given)
    ctx.check((type(x) is T, given.as_uint()), (True, b), 'type', d)
    y = x.reinterpret_as_bv()
    ctx.check(type(y) is BitVector[size], True, 'type', d)
    back = int(y.as_uint())
    if v is None:
        want = {((1 << eb) - 1) << mb, ((1 << eb) - 1) << mb | 1 << (eb + mb)}
        ctx.check(back in want, True, 'pattern of a flushed NaN', d)
        v = f.decode(back)
    elif R.is_nan(v):
        ctx.check(R.is_nan(f.decode(back)), True, 'pattern of NaN', d)
    elif not ieee and ex == 0 and man:
        ctx.check(back, sign << (eb + mb), 'pattern of a flushed subnormal', d)
    else:
        ctx.check(back, b, 'pattern', d)
    again = T.reinterpret_from_bv(y).reinterpret_as_bv()
    ctx.check(R.is_nan(f.decode(int(again.as_uint()))) if R.is_nan(v) else int(again.as_uint()), True if R.is_nan(v) else back, 'second round trip', d)
    # the caller changes the vectors it gave and got
    for o in (given, y, again):
        for i in {0, mb, size - 2, size - 1}:
            o[i] = not o[i]
    z = x.reinterpret_as_bv()
    ctx.check(R.is_nan(f.decode(int(z.as_uint()))) if R.is_nan(v) else int(z.as_uint()), True if R.is_nan(v) else back, 'pattern after an earlier one was changed', d)
    got = {n: getattr(x, f'fp_is_{n}')() for n in ('normal', 'subnormal', 'zero', 'infinite', 'NaN', 'positive', 'negative')}
    want = dict(normal=f.is_normal(v), subnormal=f.is_subnormal(v), zero=R.is_zero(v), infinite=R.is_inf(v), NaN=R.is_nan(v),
                positive=not R.is_nan(v) and not R.is_zero(v) and v[1] == 0, negative=not R.is_nan(v) and not R.is_zero(v) and v[1] == 1)
    ctx.check([type(g) is Bit for g in got.values()], [True] * 7, 'type of a class test', d)
    ctx.check({k: bool(g) for k, g in got.items()}, want, 'class', lambda: f'{d()} ({show(v)})')
    fl = float(x)
    if R.is_nan(v):
        ctx.check(fl != fl, True, 'float', d)
    elif R.is_inf(v):
        ctx.check(fl, float('-inf') if v[1] else float('inf'), 'float', d)
    elif eb <= 11 and mb <= 52:
        ctx.check(Fraction(fl) == R.exact(v) and (v[2] != 0 or (str(fl)[0] == '-') == bool(v[1])), True, 'float', lambda: f'{d()}: {fl!r}')
    elif -1000 < R.floor_log2(R.exact(v) if not v[1] else -R.exact(v)) < 1000 if v[0] == 'num' and v[2] else False:
        # rounded to double in the type's mode
        m = T.mode.name
        want, away = (float(R.exact(DOUBLE.round_exact(R.exact(v), k, 0))) for k in (m, R.AWAY if m == 'RNA' else m))
        ctx.check(fl, want, 'float', lambda: f'{d()} ({show(v)})', KEY if fl == away != want else None)
    if v[0] == 'num':
        mode = T.mode.name
        n, away = (R.round_int(R.exact(v), m) for m in (mode, R.AWAY if mode == 'RNA' else mode))
        for w in widths:
            u, s = x.to_ubv(w), x.to_sbv(w)
            for name, g, fam in (('to_ubv', u, BitVector), ('to_sbv', s, SIntVector)):
                known = n != away and int(g.as_uint()) == away % (1 << w)
                ctx.check((type(g) is fam[w], int(g.as_uint())), (True, n % (1 << w)), name, lambda: f'{d()} ({show(v)}) to {w} bits',
                          KEY if known else None)
            before = u.as_uint(), s.as_uint()
            u[0], s[0] = not u[0], not s[w - 1]
            ctx.check((x.to_ubv(w).as_uint(), x.to_sbv(w).as_uint()), before, 'conversion after an earlier result was changed', d)
    return x, v


def patterns(ctx, eb, mb, mode, ieee, part=0, of=1):
    T, f = FPVector[eb, mb, MODES[mode], ieee], R.Format(eb, mb, ieee)
    small = f.size <= 9
    for b in range(part, 1 << f.size, of):
        ctx.state((eb, mb, mode, ieee, b))
        one(ctx, T, f, b, WIDTHS if small else (11,))
    for s in (f.size - 1, f.size + 1, 1):
        ctx.raises(TypeError, lambda: T.reinterpret_from_bv(BitVector[s](0)), 'pattern of another width', f'{T} {s}')
    ctx.traces += 1


def compare(ctx, T, vals, d0):
    for (x, a), (y, b) in it.product(vals, repeat=2):
        ctx.transitions += 11
        for n, ref in CMP.items():
            g = getattr(x, n)(y)
            if type(g) is not Bit or bool(g) is not ref(a, b):
                ctx.fail(n, f'{d0} {show(a)}, {show(b)}: expected {ref(a, b)}, got {g!r}')
        for n, (op, ref) in OPS.items():
            g = op(x, y)
            if type(g) is not Bit or bool(g) is not ref(a, b):
                ctx.fail(f'operator {n}', f'{d0} {show(a)}, {show(b)}: expected {ref(a, b)}, got {g!r}')


def pairs(ctx, eb, mb, mode, ieee):
    T, f = FPVector[eb, mb, MODES[mode], ieee], R.Format(eb, mb, ieee)
    vals = [one(ctx, T, f, b, (4,)) for b in f.values()]
    compare(ctx, T, vals, f'({eb},{mb},{mode},{ieee})')
    ctx.traces += 1


def wide(ctx, eb, mb, mode, ieee):
    T, f = FPVector[eb, mb, MODES[mode], ieee], R.Format(eb, mb, ieee)
    bits = set(boundary(f, 99)) | {1, (1 << mb) - 1, ((1 << eb) - 1) << mb | 1, ((1 << eb) - 1) << mb | 1 << (mb - 1)}
    bits |= {(f.bias + k) << mb | m for k in (0, 1, 2, 7, min(63, f.bias), min(64, f.bias)) if k <= f.bias for m in (0, 1, (1 << mb) - 1)}
    bits = {b for b in bits if b < 1 << f.size}
    bits |= {b | 1 << (eb + mb) for b in bits}
    vals = []
    for b in sorted(bits):
        ctx.state((eb, mb, mode, ieee, b))
        vals.append(one(ctx, T, f, b, WIDTHS + (33, 64, 1200)))
    compare(ctx, T, vals, f'({eb},{mb},{mode},{ieee})')
    ctx.traces += 1
    ctx.sample(f'({eb},{mb},{mode},{ieee}): {len(vals)} patterns')


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    top = 6 if deep else 4
    for eb, mb, mode, ieee in it.product(range(2, top + 1), range(1, top + 1), MODES, (True, False)):
        out.append(Job(f'patterns ({eb},{mb},{mode},{ieee})', patterns, eb, mb, mode, ieee, weight=eb + mb))
        if 1 + eb + mb <= (9 if deep else 7):
            out.append(Job(f'pairs ({eb},{mb},{mode},{ieee})', pairs, eb, mb, mode, ieee, weight=2 * (eb + mb)))
    for (eb, mb), mode in zip(it.cycle(((5, 10), (8, 7))), ('RNE', 'RTZ') if not deep else [m for m in MODES for _ in (0, 1)]):
        for ieee in (True, False):
            for p in range(8):
                out.append(Job(f'patterns ({eb},{mb},{mode},{ieee}) {p}', patterns, eb, mb, mode, ieee, p, 8, weight=50))
    for (eb, mb), mode, ieee in it.product(((5, 10), (8, 7), (8, 23), (11, 52), (2, 30), (15, 3), (11, 60), (6, 70), (15, 112), (3, 53), (4, 52), (4, 64)), MODES, (True, False)):
        if (eb > 11 or mb > 63) and mode != 'RNE' and not deep:
            continue
        out.append(Job(f'boundary ({eb},{mb},{mode},{ieee})', wide, eb, mb, mode, ieee, weight=20))
    return out
