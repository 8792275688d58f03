"""C27: random() draws every value, and only values of its type.

The source of randomness is the environment's nondeterminism, so it is explored
like a scheduler: each draw (an integer below n, k random bits, a fraction) is a
branching point, and the real random() is run once for every outcome of every
draw, with the exact probability of each run.  Wide types have too many
outcomes; there every combination of extreme outcomes is run, and the number of
outcomes of all draws together is compared with the number of values.
"""
import itertools as it
import random
import sys
from collections import Counter
from fractions import Fraction

import gmpy2

import fpref as R
from c16_fp import MODES
from core import Job, show
from hwtypes import Bit, BitVector, FPVector, SIntVector, UIntVector

PROP = 'C27'
SPACE = {
    'quick': 'every outcome of every draw of Bit.random, of random(n) of 3 vector types and of user subclasses of them, n in 1..10; of '
             'FPVector.random of every format of 2-4 exponent and 1-3 mantissa bits, 5 modes, compliant or not, infinities allowed or not; '
             'every combination of extreme outcomes (least, greatest, their neighbours, the middle) for n up to 257 and 7 wide formats; '
             'random vectors of 2 and 3 draws in a row',
    'thorough': 'as quick with n in 1..14, 2-5 exponent and 1-5 mantissa bits',
}
ASSUMPTIONS = ['randomness comes from the random module (or a generator of its class) or from gmpy2.mpfr_random / mpz_random / mpz_urandomb, '
               'whose outcomes are taken as equally likely']
GRID = 5        # bits of a random.random() fraction
FULL = 1 << 12  # draws of more outcomes are explored at their ends


class Source:
    """replays a prefix of choices, then takes the first outcome; DFS over the rest"""

    def __init__(self):
        self.on = False
        self.prefix, self.trace = [], []
        self.exact = True
        self.full = True

    def below(self, n):
        assert n >= 1
        i = len(self.trace)
        if self.full and n <= FULL:
            opts = n
        else:
            opts = sorted({0, 1 % n, n // 2, n - 1, max(n - 2, 0)})
        k = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((k, opts if isinstance(opts, int) else len(opts), n))
        return k if isinstance(opts, int) else opts[k]


S = Source()


def _hook(orig, new):
    def f(*a, **k):
        return new(*a, **k) if S.on else orig(*a, **k)
    return f


def _frac(*_):
    S.exact = False
    return S.below(1 << GRID) / (1 << GRID)


_random_state, _real_mpfr_random = gmpy2.random_state, gmpy2.mpfr_random
_unseeded = []


def _state(*seed):
    st = _random_state(*seed)
    if not seed:
        _unseeded.append(st)
    return st


def _mpfr_random(state):
    if any(state is s for s in _unseeded):
        return _real_mpfr_random(state)     # always the same numbers
    p = gmpy2.get_context().precision
    k = S.below(1 << p)
    return gmpy2.mpfr(gmpy2.mpq(k, 1 << p))


def install():
    Rnd = random.Random
    new = {'getrandbits': lambda k: S.below(1 << k), 'random': _frac}
    below, bits, frac = Rnd._randbelow, Rnd.getrandbits, Rnd.random
    Rnd._randbelow = lambda self, n: S.below(n) if S.on else below(self, n)
    Rnd.getrandbits = lambda self, k: S.below(1 << k) if S.on else bits(self, k)
    Rnd.random = lambda self: _frac() if S.on else frac(self)
    swap = {}

    def put(mod, name, fn):
        o = getattr(mod, name)
        swap[id(o)] = (o, _hook(o, fn))
        setattr(mod, name, swap[id(o)][1])
    for name, fn in new.items():
        put(random, name, fn)
    put(gmpy2, 'random_state', _state)
    put(gmpy2, 'mpfr_random', _mpfr_random)
    put(gmpy2, 'mpz_random', lambda state, n: gmpy2.mpz(S.below(int(n))))
    put(gmpy2, 'mpz_urandomb', lambda state, k: gmpy2.mpz(S.below(1 << k)))
    # names already imported by the code
    for m in [m for k, m in sys.modules.items() if k.split('.')[0] == 'hwtypes']:
        for k, v in list(vars(m).items()):
            if id(v) in swap and swap[id(v)][0] is v:
                setattr(m, k, swap[id(v)][1])


def runs(fn, full=True):
    """every run of fn: (value, probability, outcomes of its draws)"""
    S.prefix, S.full, S.exact = [], full, True
    while True:
        S.trace, S.on = [], True
        _unseeded.clear()
        try:
            v = fn()
        finally:
            S.on = False
        total = 1
        for _, _, n in S.trace:
            total *= n
        yield v, total, [(k, o) for k, o, _ in S.trace]
        t = [(k, o) for k, o, _ in S.trace]
        while t and t[-1][0] == t[-1][1] - 1:
            t.pop()
        if not t:
            return
        S.prefix = [k for k, _ in t[:-1]] + [t[-1][0] + 1]


class MyBV(BitVector):
    pass


class MySV(SIntVector):
    pass


class MyBit(Bit):
    pass


def job_bits(ctx):
    install()
    for B in (Bit, MyBit):
        p = Counter()
        for v, n, t in runs(B.random):
            ctx.transitions += 1
            ctx.check(type(v) is B, True, 'type', lambda: f'{B.__name__}.random() gave {show(v)}')
            p[bool(v)] += Fraction(1, n)
        ctx.state((B,))
        ctx.traces += 1
        if S.exact:
            ctx.check(dict(p), {False: Fraction(1, 2), True: Fraction(1, 2)}, 'distribution', f'{B.__name__}.random()')


def job_vectors(ctx, widths):
    install()
    for T, W in ((BitVector, BitVector), (UIntVector, UIntVector), (SIntVector, SIntVector), (MyBV, BitVector), (MySV, SIntVector)):
        for n in widths:
            name = f'{T.__name__}.random({n})'
            full = n <= 14
            p, seen = Counter(), {}
            totals = set()
            for v, total, t in runs(lambda: T.random(n), full):
                # a subclass that does not define random has its base's vectors
                if not ctx.check(isinstance(v, W[n]) and v.size == n, True, 'type', lambda: f'{name} gave {show(v)}'):
                    break
                totals.add(total)
                p[v.as_uint()] += Fraction(1, total)
                if v.as_uint() in seen and seen[v.as_uint()] != t and total == 1 << n and S.exact:
                    ctx.fail('distribution', f'{name}: draws {seen[v.as_uint()]} and {t} (outcome, of) both give {show(v)}')
                seen[v.as_uint()] = t
                ctx.state((T, n, v.as_uint()))
            ctx.traces += 1
            if full:
                ctx.check(sorted(set(range(1 << n)) - set(p)), [], 'unreachable values', name)
                if S.exact:
                    ctx.check({k: str(q) for k, q in p.items() if q != Fraction(1, 1 << n)}, {}, 'distribution', f'{name}, equally likely values')
            elif S.exact and len(totals) == 1:
                # all runs are equally likely: as many for each value
                ctx.check(totals.pop() % (1 << n), 0, 'distribution', f'{name}: number of equally likely runs modulo 2**{n}')
            if full:
                ctx.sample(f'{name}: {len(seen)} values, each with probability 1/{1 << n}')


def job_twice(ctx):
    """draws in a row are independent"""
    install()
    for k, n in ((2, 3), (3, 2)):
        for T in (BitVector, UIntVector, SIntVector):
            p = Counter()
            for v, total, _ in runs(lambda: tuple(T.random(n) for _ in range(k))):
                p[tuple(x.as_uint() for x in v)] += Fraction(1, total)
                ctx.transitions += 1
            ctx.state((T, k, n))
            ctx.traces += 1
            ctx.check(sorted(set(it.product(range(1 << n), repeat=k)) - set(p)), [], 'dependent draws', f'{k} draws of {T.__name__}.random({n})')
    T = FPVector[3, 2, MODES['RNE'], True]
    vs = {(x.reinterpret_as_bv().as_uint(), y.reinterpret_as_bv().as_uint())
          for (x, y), _, _ in runs(lambda: (T.random(allow_inf=False), T.random(allow_inf=False)))}
    one = {x for x, _ in vs}
    ctx.transitions += 1
    ctx.check(len(vs), len(one) ** 2, 'dependent draws', '2 draws of FPVector[3,2].random(allow_inf=False): number of pairs')


def fp_value(x):
    return x.reinterpret_as_bv().as_uint()


def job_fp(ctx, eb, mb):
    install()
    for (mname, mode), ieee, inf in it.product(MODES.items(), (True, False), (True, False)):
        T = FPVector[eb, mb, mode, ieee]
        f = R.Format(eb, mb, ieee)
        name = f'FPVector[{eb},{mb},{mname},{"ieee" if ieee else "flush"}].random(allow_inf={inf})'
        ones = (1 << eb) - 1
        seen = set()
        for v, total, t in runs(lambda: T.random(allow_inf=inf) if not inf else T.random()):
            if not ctx.check(type(v) is T, True, 'type', lambda: f'{name} gave {show(v)}'):
                break
            bits = fp_value(v)
            e = bits >> mb & ones
            m = bits & (1 << mb) - 1
            ctx.check(e == ones and (m != 0 or not inf), False, 'value', lambda: f'{name}, draws {t} (outcome, of): {show(v)}')
            ctx.state((eb, mb, mname, ieee, inf, bits))
            seen.add(bits)
        ctx.traces += 1
        normals = {s << eb + mb | e << mb | m for s in (0, 1) for e in range(1, ones) for m in range(1 << mb)}
        miss = normals - seen
        ctx.check(len(miss), 0, 'unreachable values', lambda: f'{name}: normal values never drawn, e.g. {show(T.reinterpret_from_bv(BitVector[T.size](min(miss))))}; number')
    ctx.sample(f'FPVector[{eb},{mb}].random: {len(normals)} normal values, all drawn, no NaN')


WIDE = ((8, 2), (11, 1), (5, 10), (8, 23), (11, 52), (15, 112), (2, 30))


def job_fp_wide(ctx, eb, mb):
    install()
    for (mname, mode), ieee, inf in it.product(MODES.items(), (True, False), (True, False)):
        T = FPVector[eb, mb, mode, ieee]
        name = f'FPVector[{eb},{mb},{mname},{"ieee" if ieee else "flush"}].random(allow_inf={inf})'
        ones = (1 << eb) - 1
        totals, seen = set(), set()
        for v, total, t in runs(lambda: T.random(allow_inf=inf), full=eb <= 8 and mb <= 2):
            if not ctx.check(type(v) is T, True, 'type', lambda: f'{name} gave {show(v)}'):
                break
            totals.add(total)
            bits = fp_value(v)
            e = bits >> mb & ones
            m = bits & (1 << mb) - 1
            ctx.check(e == ones and (m != 0 or not inf), False, 'value', lambda: f'{name}, draws {t} (outcome, of): {show(v)}')
            ctx.state((eb, mb, mname, ieee, inf, bits))
            seen.add(bits)
        ctx.traces += 1
        if S.exact:
            ctx.check(max(totals) >= 2 * (ones - 1) << mb, True, 'unreachable values', f'{name}: as many runs ({max(totals)}) as normal values')
        ctx.check({b >> eb + mb for b in seen}, {0, 1}, 'unreachable values', f'{name}: signs')


def jobs(tier):
    big = tier == 'thorough'
    js = [Job('Bit', job_bits), Job('draws in a row', job_twice)]
    for n in range(1, 15 if big else 11):
        js.append(Job(f'vectors of {n} bits', job_vectors, (n,), weight=1 << n >> 6))
    js.append(Job('wide vectors', job_vectors, (15, 16, 17, 31, 32, 33, 53, 54, 63, 64, 65, 100, 128, 129, 256, 257)))
    for eb in range(2, 6 if big else 5):
        for mb in range(1, 6 if big else 4):
            js.append(Job(f'format ({eb},{mb})', job_fp, eb, mb, weight=eb + mb))
    for eb, mb in WIDE:
        js.append(Job(f'wide format ({eb},{mb})', job_fp_wide, eb, mb, weight=5))
    return js
