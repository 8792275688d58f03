"""C18: floating point types do not disturb each other or the gmpy2 context.

Histories of operations over several formats, under several ambient gmpy2
contexts, with failing and re-entrant operations in between: every result
against the exact reference for its own format, every other value and the
ambient context unchanged.  Two threads are interleaved line by line under a
controlled scheduler.
"""
import itertools as it
import operator
from fractions import Fraction

import gmpy2

import fpref as R
import sched
from c16_fp import MODES, REALS, in_turn, show, turns
from core import Job
from hwtypes import AbstractFPVector as AbstractFP, Bit, BitVector, FPVector, SIntVector

PROP = 'C18'
SPACE = {
    'quick': 'histories of depth 3 over 36 actions (4 types differing in one parameter each; value, conversion, comparison, failing and '
             're-entrant actions) under 5 ambient contexts, of depth 4 over 18 actions (2 types) under 2; every ordered pair of 11 types under 12 operations '
             '(TypeError or result); the same 14 numbers under all operations in 50 to 60 formats in turn, 8 orders; 13 kinds of plain operand under 13 operations for 14 formats; every method on every pattern (pair, triple for fma) of 3 formats and on the special values of 4 more in every mode, operands read back; all 2-thread schedules of 10 pairs of '
             'operations with at most 2 preemptions before lines of fp_vector.py, 1 before any line of hwtypes',
    'thorough': 'depth 4 over all actions, depth 5 over 18, schedules with at most 3 and 2 preemptions',
}
ASSUMPTIONS = ['fpref: exact rational reference', 'threads switch between lines of hwtypes code only (gmpy2 calls are atomic under the GIL)',
               'the context is compared by its settings and flags']
FIELDS = ('precision', 'real_prec', 'imag_prec', 'round', 'real_round', 'imag_round', 'emax', 'emin', 'subnormalize', 'trap_underflow', 'underflow',
          'trap_overflow', 'overflow', 'trap_inexact', 'inexact', 'trap_invalid', 'invalid', 'trap_erange', 'erange', 'trap_divzero', 'divzero',
          'allow_complex', 'rational_division', 'allow_release_gil')
GET = operator.attrgetter(*FIELDS)
BINREF = {'fp_add': 'add', 'fp_sub': 'sub', 'fp_mul': 'mul', 'fp_div': 'div', 'fp_rem': 'rem', 'fp_min': 'min', 'fp_max': 'max_'}
CMP = {'fp_lt': R.lt, 'fp_leq': R.le, 'fp_gt': lambda a, b: R.lt(b, a), 'fp_geq': lambda a, b: R.le(b, a), 'fp_eq': R.eq}


def snap(c=None):
    c = gmpy2.get_context() if c is None else c
    return GET(c)


def undisturbed(ctx, before, d):
    now = snap()
    if now != before:
        ctx.fail('ambient context', f'{d() if callable(d) else d}: {[(k, a, b) for k, a, b in zip(FIELDS, before, now) if a != b]}')


class Fmt:
    def __init__(self, eb, mb, mode, ieee):
        self.T = FPVector[eb, mb, MODES[mode], ieee]
        self.f, self.mode, self.name = R.Format(eb, mb, ieee), mode, f'({eb},{mb},{mode},{"ieee" if ieee else "flush"})'
        # 1.5, then two inexact operands
        self.bits = [self.bit(Fraction(3, 2)), self.bit(Fraction(5, 4)), self.bit(Fraction(-1, 3))]
        self.k = [self.make(b) for b in self.bits]

    def bit(self, q):
        return self.f.encode(self.f.round_exact(q, R.AWAY if self.mode == 'RNA' else self.mode, 0))

    def make(self, bits):
        return self.T.reinterpret_from_bv(BitVector[self.f.size](bits))

    def read(self, x):
        return self.f.decode(int(x.reinterpret_as_bv().as_uint()))

    @property
    def m(self):
        return self.mode

    def conv(self, q):
        return self.f.round_exact(Fraction(q), self.mode, 0)


CONTEXTS = {
    'default': lambda: gmpy2.context(),
    'narrow': lambda: gmpy2.context(precision=2, round=gmpy2.RoundUp, emin=-3, emax=3, subnormalize=True),
    'traps': lambda: gmpy2.context(precision=7, round=gmpy2.RoundDown, trap_inexact=True, trap_overflow=True, trap_underflow=True,
                                   trap_divzero=True, trap_invalid=True, trap_erange=True),
    'complex': lambda: gmpy2.context(precision=200, allow_complex=True, rational_division=True, round=gmpy2.RoundToZero),
    'flags': lambda: dirty(gmpy2.context(precision=24)),
}


def dirty(c):
    c.inexact = c.overflow = c.divzero = True
    return c


class Nested:
    """a plain number whose conversion runs operations of another type"""

    def __init__(self, fmt, q, boom=False):
        self.fmt, self.q, self.boom = fmt, q, boom

    def __float__(self):
        x, y = self.fmt.k[1], self.fmt.k[2]
        x + y
        x / y
        if self.boom:
            raise ZeroDivisionError('from __float__')
        return float(self.q)


def actions(fmts, which):
    """[(name, fn(world), ref(world))]; the world has an accumulator per type.
    fn returns ('acc', i, value) | ('obs', value); ref the same from the model"""
    out = []

    def acc(name, i, op, ref):
        out.append((f'{name}{fmts[i].name}', i, op, ref))

    for i, F in enumerate(fmts):
        f, m = F.f, F.mode
        k, v = F.k, [f.decode(b) for b in F.bits]
        o = fmts[(i + 1) % len(fmts)]
        if 'arith' in which:
            acc('div', i, lambda a, k=k: a.fp_div(k[1]), lambda a, f=f, m=m, v=v: f.div(a, v[1], m))
            acc('fma', i, lambda a, k=k: a.fp_fma(k[1], k[2]), lambda a, f=f, m=m, v=v: f.fma(a, v[1], v[2], m))
        if 'plain' in which:
            acc('plus 0.1', i, lambda a: a + 0.1, lambda a, f=f, m=m, F=F: f.add(a, F.conv(0.1), m))
        if 'from' in which:
            # the other type's constant becomes a value of this type
            acc('from other', i, lambda a, F=F, o=o: F.T(o.k[2]),
                lambda a, f=f, m=m, o=o: f.round_exact(R.exact(o.f.decode(o.bits[2])), m, 0))
        if 'fail' in which:
            acc('TypeError', i, (TypeError, lambda a, o=o: a.fp_mul(o.k[0])), None)
            acc('ValueError', i, (ValueError, lambda a: a + 'zero'), None)
        if 'nest' in which:
            acc('nested', i, lambda a, o=o: a * Nested(o, 0.7), lambda a, f=f, m=m, F=F: f.mul(a, F.conv(0.7), m))
            acc('nested raise', i, (ZeroDivisionError, lambda a, o=o: a * Nested(o, 0.7, True)), None)
        if 'obs' in which:
            acc('sqrt', i, lambda a: abs(a).fp_sqrt(), lambda a, f=f, m=m: f.sqrt(f.abs(a), m))
    return out


def same(F, got, want):
    if want == R.NAN and not F.f.ieee:
        return got[0] == 'inf'
    return got == want


def histories(ctx, params, which, depth, cname, part, of):
    ambient = CONTEXTS[cname]()
    gmpy2.set_context(ambient)
    fmts = [Fmt(*p) for p in params]
    types_before = [snap(F.T._ctx_) if hasattr(F.T, '_ctx_') else None for F in fmts]
    acts = actions(fmts, which)
    before = snap()

    def step(world, model, act, path):
        name, i, op, ref = act
        F = fmts[i]
        d = lambda: f'{cname}: {" ; ".join(path + [name])}'
        ctx.transitions += 1
        if isinstance(op, tuple):
            ctx.raises(op[0], lambda: op[1](world[i]), 'failing operation', d)
        else:
            r = op(world[i])
            if type(r) is not F.T:
                ctx.fail('type', f'{d()}: {type(r)}')
            want = ref(model[i])
            got = F.read(r)
            if not same(F, got, want):
                ctx.fail('result', f'{d()}: {name} of {show(model[i])}: expected {show(want)}, got {show(got)}')
            world = world[:i] + (r,) + world[i + 1:]
            model = model[:i] + (got,) + model[i + 1:]
        undisturbed(ctx, before, d)
        return world, model

    def reread(world, model, path):
        # values are immutable: every live value still reads as in the model
        for F, x, v in zip(fmts, world, model):
            ctx.transitions += 1
            if not same(F, F.read(x), v):
                ctx.fail('a value changed', f'{cname}: {" ; ".join(path)}: {F.name} {show(v)} reads {show(F.read(x))}')

    def dfs(world, model, left, path, lead):
        ctx.state((tuple(path)))
        if left == 0:
            reread(world, model, path)
            ctx.traces += 1
            return
        todo = acts if not lead else [acts[j] for j in range(part, len(acts), of)]
        for act in todo:
            w, m = step(world, model, act, path)
            dfs(w, m, left - 1, path + [act[0]], False)
    world = tuple(F.k[0] for F in fmts)
    model = tuple(F.f.decode(F.bits[0]) for F in fmts)
    dfs(world, model, depth, [], True)
    for F in fmts:
        for x, b in zip(F.k, F.bits):
            ctx.check(F.read(x), F.f.decode(b), 'a constant changed', F.name)
    ctx.check([snap(F.T._ctx_) if hasattr(F.T, '_ctx_') else None for F in fmts], types_before, 'context of a type changed', cname)
    if part == 0:
        ctx.sample(f'{cname}: {len(acts)} actions, depth {depth}, e.g. {" ; ".join(a[0] for a in acts[:depth])}')


TYPES = [(3, 2, 'RNE', True), (3, 2, 'RTZ', True), (3, 2, 'RNE', False), (4, 2, 'RNE', True), (3, 3, 'RNE', True), (3, 2, 'RTP', True), (3, 2, 'RTN', True),
         (3, 2, 'RNA', True), (2, 3, 'RNE', True), (8, 23, 'RNE', True), (5, 10, 'RTN', False)]


def bindings(ctx, cname):
    """operands of every pair of types: TypeError unless the bindings agree"""
    gmpy2.set_context(CONTEXTS[cname]())
    before = snap()
    fmts = [Fmt(*p) for p in TYPES]

    class Sub(fmts[0].T):
        pass

    class Sub2(fmts[9].T):
        pass
    extra = [(Sub, 0), (Sub2, 9)]
    typed = [(F, F.T) for F in fmts] + [(fmts[i], T) for T, i in extra]
    for (F, T), (G, U) in it.product(typed, repeat=2):
        x = T.reinterpret_from_bv(BitVector[F.f.size](F.bits[0]))
        y = U.reinterpret_from_bv(BitVector[G.f.size](G.bits[1]))
        vx, vy = F.f.decode(F.bits[0]), G.f.decode(G.bits[1])
        d = f'{cname}: {T} {U}'
        ctx.state((T, U))
        for n in [*BINREF, *CMP, 'operators', 'fma1', 'fma2']:
            if n == 'operators':
                fns = [lambda: x + y, lambda: x - y, lambda: x * y, lambda: x / y, lambda: x % y, lambda: x == y, lambda: x != y,
                       lambda: x < y, lambda: x <= y, lambda: x > y, lambda: x >= y]
            elif n == 'fma1':
                fns = [lambda: x.fp_fma(y, x)]
            elif n == 'fma2':
                fns = [lambda: x.fp_fma(x, y)]
            else:
                fns = [lambda: getattr(x, n)(y)]
            for j, fn in enumerate(fns):
                if F is not G:
                    ctx.raises(TypeError, fn, 'operand of a different binding', f'{d} {n} {j}')
                else:
                    r = fn()
                    ctx.transitions += 1
                    if n in CMP:
                        ctx.check(bool(r), CMP[n](vx, vy), 'comparison', f'{d} {n}')
                    elif n in BINREF:
                        want = getattr(F.f, BINREF[n])(vx, vy, R.AWAY if F.mode == 'RNA' else F.mode)
                        ctx.check((type(r) is T, F.read(r)), (True, want), 'result', f'{d} {n}')
                undisturbed(ctx, before, f'{d} {n}')
        ctx.check((F.read(x), G.read(y)), (vx, vy), 'operands changed', d)
        ctx.traces += 1


class Flt:
    def __init__(self, v):
        self.v = v

    def __float__(self):
        return float(self.v)


class Int:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


def plain(ctx, eb, mb, mode, ieee, cname):
    """a plain number is converted to the operand's own format first"""
    gmpy2.set_context(CONTEXTS[cname]())
    F = Fmt(eb, mb, mode, ieee)
    f = F.f
    step = R.pow2(-mb)
    tie = 1 + step / 2          # half way between two values of the format
    nums = [0.1, -0.7, 3, -1, 1 << 60, True, 1e300, -1e-300, float(tie), float(tie + R.pow2(-40)), float(-tie)]
    ops = [(x, Fraction(x)) for x in nums]
    ops += [(gmpy2.mpz(5), Fraction(5)), (gmpy2.mpq(1, 3), Fraction(1, 3)), ('1/3', Fraction(1, 3)), ('0.375', Fraction(3, 8)),
            (Flt(0.3), Fraction(0.3)), (Int(-9), Fraction(-9)), (SIntVector[6](-5), None)]
    if cname in ('default',):
        ops.append((gmpy2.mpfr('0.3'), Fraction(float('0.3'))))
    lefts = [b for b in (F.bits + [f.encode(f.round_exact(Fraction(1), 'RTZ', 0)), f.encode(R.num(0, f.max)), f.encode(R.num(0, f.min_normal)), 0])]
    rnd = R.AWAY if mode == 'RNA' else mode
    before = snap()
    for b in lefts:
        x, vx = F.make(b), f.decode(b)
        for p, q in ops:
            if q is None:
                continue
            vp = f.round_exact(q, rnd, 0)
            d = lambda: f'{cname} {F.name}: {show(vx)} with {p if not isinstance(p, (Flt, Int)) else p.v!r} ({type(p).__name__})'
            ctx.state((b, str(p), type(p)))
            for n, ref in BINREF.items():
                r = getattr(x, n)(p)
                want = getattr(f, ref)(vx, vp, rnd)
                got = F.read(r)
                ok = same(F, got, want) or (n in ('fp_min', 'fp_max') and R.is_zero(got) and R.is_zero(want))
                ctx.check((type(r) is F.T, ok), (True, True), n, lambda: f'{d()}: {show(got)} for {show(want)}')
            for n, ref in CMP.items():
                ctx.check(bool(getattr(x, n)(p)), ref(vx, vp), n, d)
            one = f.decode(F.bits[1])
            ctx.check(same(F, F.read(x.fp_fma(F.k[1], p)), f.fma(vx, one, vp, rnd)), True, 'fma offset', d)
            ctx.check(same(F, F.read(x.fp_fma(p, F.k[1])), f.fma(vx, vp, one, rnd)), True, 'fma coefficient', d)
            ctx.check(F.read(x), vx, 'operand changed', d)
            undisturbed(ctx, before, d)
        for p in ([], None, object(), 'x', {}, (1,)):
            for n in [*BINREF, *CMP]:
                ctx.raises((TypeError, ValueError), lambda: getattr(x, n)(p), 'not a number', f'{F.name} {n} {p!r}')
            undisturbed(ctx, before, f'{cname} {p!r}')
    ctx.traces += 1


UNARY = {n: (lambda x, n=n: getattr(x, n)()) for n in ('fp_abs', 'fp_neg', 'fp_sqrt', 'fp_round_to_integral', 'fp_is_normal', 'fp_is_subnormal', 'fp_is_zero',
                                                       'fp_is_infinite', 'fp_is_NaN', 'fp_is_negative', 'fp_is_positive', 'reinterpret_as_bv')}
UNARY.update({'neg': operator.neg, 'abs': abs, 'float': float, 'repr': repr, 'str': str, 'to_ubv 4': lambda x: x.to_ubv(4), 'to_sbv 9': lambda x: x.to_sbv(9),
              'to_ubv 64': lambda x: x.to_ubv(64), 'copy': lambda x: type(x)(x), 'hash': hash})
BINARY = {n: (lambda x, y, n=n: getattr(x, n)(y)) for n in [*BINREF, *CMP]}
BINARY.update({n: getattr(operator, n) for n in ('add', 'sub', 'mul', 'truediv', 'mod', 'eq', 'ne', 'lt', 'le', 'gt', 'ge')})
INPLACE = {n: getattr(operator, n) for n in ('iadd', 'isub', 'imul', 'itruediv', 'imod')}


def operands(ctx, eb, mb, mode, ieee, full):
    """no operation changes an operand: every method on every pattern, the
    operand read back each time, and the same result from the same call again"""
    gmpy2.set_context(CONTEXTS['default']())
    before = snap()
    F = Fmt(eb, mb, mode, ieee)
    f, n = F.f, F.f.size
    top = 1 << (n - 1)
    if full:
        pats = list(range(1 << n))
    else:
        one = f.encode(f.round_exact(Fraction(1), 'RTZ', 0))
        pos = {0, 1, 2, 3, (1 << mb) - 1, 1 << mb, (1 << mb) + 1, one, one + 1, one - 1, f.encode(f.round_exact(Fraction(5, 2), 'RTZ', 0)),
               f.encode(f.round_exact(Fraction(3), 'RTZ', 0)), f.encode(f.round_exact(Fraction(1, 2), 'RTZ', 0)), ((1 << eb) - 1) << mb,
               (((1 << eb) - 1) << mb) - 1, (((1 << eb) - 1) << mb) | (1 << (mb - 1)) | 1, *F.bits}
        pats = sorted({q | s for q in pos for s in (0, top)})

    def bits(x):
        return int(x.reinterpret_as_bv().as_uint())

    def plain(r):
        if isinstance(r, AbstractFP):
            v = F.read(r)
            # which infinity stands for NaN in a non-IEEE format is not fixed
            return type(r), 'inf' if not ieee and v[0] == 'inf' else bits(r)
        if isinstance(r, (Bit, BitVector)):
            return type(r), int(r)
        return type(r), repr(r)

    def once(name, fn, xs):
        try:
            r = fn(*xs)
        except Exception as e:
            return name, type(e)
        return name, plain(r)

    def both(name, fn, ps, xs):
        ctx.states += 1
        a = once(name, fn, xs)
        now = [bits(x) for x in xs]
        if now != [read[q] for q in ps]:
            ctx.fail('operand changed', f'{F.name}: {name} of patterns {ps}: {[read[q] for q in ps]} became {now}')
            for q, x in zip(ps, xs):
                objs[q] = F.make(q)
        b = once(name, fn, xs)
        ctx.transitions += 1
        if a != b:
            ctx.fail('two results of one call', f'{F.name}: {name} of patterns {ps}: {a} then {b}')
    objs = {q: F.make(q) for q in pats}
    read = {q: bits(objs[q]) for q in pats}
    for q in pats:
        for name, fn in UNARY.items():
            both(name, fn, [q], [objs[q]])
        undisturbed(ctx, before, q)
    for p, q in it.product(pats, repeat=2):
        for name, fn in BINARY.items():
            both(name, fn, [p, q], [objs[p], objs[q]])
        for name, fn in INPLACE.items():
            # an in-place operator binds the name to a new value
            both(name, fn, [p, q], [objs[p], objs[q]])
        both('fp_fma', lambda x, y: x.fp_fma(y, x), [p, q], [objs[p], objs[q]])
        both('fp_fma of plain', lambda x, y: x.fp_fma(0.3, y), [p, q], [objs[p], objs[q]])
    few = pats if len(pats) <= 16 else pats[::max(1, len(pats) // 12)]
    for ps in it.product(few, repeat=3):
        both('fp_fma', lambda x, y, z: x.fp_fma(y, z), list(ps), [objs[q] for q in ps])
    for q in pats:
        ctx.check(bits(objs[q]), read[q], 'operand changed', lambda: f'{F.name} {q}')
    undisturbed(ctx, before, F.name)
    ctx.traces += 1


TRAPS = ('trap_underflow', 'trap_overflow', 'trap_inexact', 'trap_invalid', 'trap_erange', 'trap_divzero')


def near(ctx, eb, mb, mode, ieee, full):
    """ambient contexts that agree with the type's own precision and exponent
    range and differ from it in a few settings: results as in a fresh context"""
    gmpy2.set_context(gmpy2.context())
    F = Fmt(eb, mb, mode, ieee)
    f, n = F.f, F.f.size
    if full:
        pats = list(range(1 << n))
    else:
        one = f.encode(f.round_exact(Fraction(1), 'RTZ', 0))
        pos = {0, 1, (1 << mb) - 1, (1 << mb) + 1, one, one + 1, (((1 << eb) - 1) << mb) - 1, ((1 << eb) - 1) << mb, *F.bits[1:]}
        pats = sorted({(q ^ s) & ((1 << n) - 1) for q in pos for s in (0, 1 << (n - 1))})

    def plain(r):
        if isinstance(r, AbstractFP):
            v = F.read(r)
            return 'inf' if not ieee and v[0] == 'inf' else int(r.reinterpret_as_bv().as_uint())
        return int(r) if isinstance(r, (Bit, BitVector)) else repr(r)

    def once(fn, *xs):
        try:
            return plain(fn(*xs))
        except Exception as e:
            return type(e)

    def everything():
        objs = [F.make(q) for q in pats]
        for q, x in zip(pats, objs):
            for name, fn in UNARY.items():
                if name not in ('copy', 'hash'):
                    yield (name, q), once(fn, x)
        for q, r in ((1, 3), (-2, 7), (10, 1), (1, 1 << 20)):
            yield ('T', q, r), once(lambda: F.T(q / r))
            yield ('T', q, r, 'fraction'), once(lambda: F.T(Fraction(q, r)))
        for (p, x), (q, y) in it.product(zip(pats, objs), repeat=2):
            for name, fn in BINARY.items():
                yield (name, p, q), once(fn, x, y)
            yield ('fma', p, q), once(lambda: x.fp_fma(y, x))
    want = list(everything())
    prec, top = mb + 1, 1 << (eb - 1)
    low = 4 - top - prec if ieee else 3 - top
    own = dict(precision=prec, emax=top, emin=low, subnormalize=ieee, round=gmpy2.RoundToNearest)
    variants = [dict(own, round=r) for r in (gmpy2.RoundToNearest, gmpy2.RoundToZero, gmpy2.RoundUp, gmpy2.RoundDown, gmpy2.RoundAwayZero)]
    variants += [dict(v, subnormalize=not ieee) for v in variants]
    variants += [dict(own, **{t: True}) for t in TRAPS]
    variants += [dict(own, allow_complex=True), dict(own, rational_division=True), dict(own, precision=prec + 1), dict(own, emax=top + 1),
                 dict(own, emin=low - 1), dict(own, emin=low + 1), dict(own, emin=3 - top if ieee else 4 - top - prec)]
    if prec > 1:
        variants.append(dict(own, precision=prec - 1))
    for v in variants:
        gmpy2.set_context(gmpy2.context(**v))
        before = snap()
        for (k, w), (_, g) in zip(want, everything()):
            ctx.transitions += 1
            if g != w:
                ctx.fail('result depends on the ambient context', f'{F.name} {k} under {v}: expected {w}, got {g}')
        undisturbed(ctx, before, lambda: f'{F.name} under {v}')
        ctx.states += 1
        ctx.traces += 1


def threads(ctx, a, b, bound, where):
    fmts = [Fmt(*TYPES[0]), Fmt(*TYPES[1]), Fmt(*TYPES[9]), Fmt(*TYPES[10])]
    F, G = fmts[0], fmts[1]
    H, K = fmts[2], fmts[3]

    def run(op, P, Q):
        f, m = P.f, P.mode
        v = [f.decode(x) for x in P.bits]
        if op == 'div':
            return (lambda: P.k[0] / P.k[2]), f.div(v[0], v[2], m)
        if op == 'plain':
            return (lambda: P.k[0] + 0.1), f.add(v[0], P.conv(0.1), m)
        if op == 'raise':
            def fn():
                try:
                    P.k[0] + Q.k[0]
                except TypeError:
                    return P.k[0] * P.k[1]
            return fn, f.mul(v[0], v[1], m)
        if op == 'pattern':
            return (lambda: P.make(P.bits[2])), v[2]
        raise KeyError(op)

    def scenario(P, Q):
        (fa, wa), (fb, wb) = run(a, P, Q), run(b, Q, P)

        def body(fn):
            def go():
                gmpy2.set_context(gmpy2.context(precision=9))
                c0 = snap()
                r = fn()
                return r, c0 == snap()
            return go

        def verdict(results, schedule):
            for X, want, r in ((P, wa, results[0]), (Q, wb, results[1])):
                ctx.transitions += 1
                if r[0] != 'ok':
                    ctx.fail('thread raised', f'{a}|{b} {P.name} {Q.name} schedule {schedule}: {r[1]}')
                elif not r[1][1]:
                    ctx.fail('ambient context of a thread', f'{a}|{b} {P.name} {Q.name} schedule {schedule}')
                elif not same(X, X.read(r[1][0]), want):
                    ctx.fail('result in a thread', f'{a}|{b} {P.name} {Q.name} schedule {schedule}: expected {show(want)}, got {show(X.read(r[1][0]))}')
            ctx.traces += 1
        n = sched.explore([body(fa), body(fb)], verdict, bound, where)
        ctx.states += n
        ctx.count('schedules', n)
    scenario(F, G)
    scenario(H, K)


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    six = TYPES[:6]
    full = ('arith', 'plain', 'from', 'fail', 'nest', 'obs')
    parts = 9
    for cname in CONTEXTS:
        sets = [(six[:4], full, 3)] if not deep else [(six[:4], full, 4)]
        for ps, w, depth in sets:
            for p in range(parts):
                out.append(Job(f'histories {cname} depth {depth} part {p}', histories, ps, w, depth, cname, p, parts, weight=60))
    for cname in ('default', 'traps'):
        depth = 5 if deep else 4
        for j, ps in enumerate(((six[0], six[5]), (six[4], six[2]))):
            for p in range(4):
                out.append(Job(f'deep histories {cname} {j} depth {depth} part {p}', histories, ps, full, depth, cname, p, 4, weight=50))
    for cname in CONTEXTS:
        out.append(Job(f'bindings {cname}', bindings, cname, weight=20))
        for t in [*TYPES, (11, 52, 'RTP', True), (2, 1, 'RTZ', True), (8, 7, 'RNE', True)]:
            out.append(Job(f'plain operands {t} {cname}', plain, *t, cname, weight=5))
    for t in (*TYPES[:4], (2, 1, 'RTZ', True), (2, 1, 'RNE', False), (4, 3, 'RTZ', True), (5, 10, 'RTP', True), (8, 23, 'RNE', True)):
        out.append(Job(f'near contexts {t}', near, *t, 1 + t[0] + t[1] <= (6 if deep else 4), weight=10))
    for k, cfgs in enumerate(turns()):
        out.append(Job(f'formats in turn, order {k + 1}', in_turn, cfgs, REALS, 3, True, weight=60))
    for i, (mode, ieee) in enumerate(it.product(MODES, (True, False))):
        if deep or i % 3 == 0:
            for eb, mb in ((2, 1), (2, 2), (3, 1)) + (((3, 2), (2, 3)) if deep else ()):
                out.append(Job(f'operands ({eb},{mb}) {mode} {ieee}', operands, eb, mb, mode, ieee, True, weight=10))
            for eb, mb in ((3, 2), (5, 10), (8, 23), (11, 52)):
                out.append(Job(f'special operands ({eb},{mb}) {mode} {ieee}', operands, eb, mb, mode, ieee, False, weight=10))
    ops = ('div', 'plain', 'raise', 'pattern')
    for a, b in it.combinations_with_replacement(ops, 2):
        out.append(Job(f'threads {a} | {b}', threads, a, b, 3 if deep else 2, lambda n: n.endswith('fp_vector.py'), weight=100))
        out.append(Job(f'threads {a} | {b}, all lines', threads, a, b, 2 if deep else 1, sched.in_dir('hwtypes'), weight=100))
    return out
