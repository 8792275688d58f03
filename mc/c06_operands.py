"""C06: operand sizes are checked, ints and bit sequences coerced on both sides."""
import itertools as it
import operator

import bvref
import smteval
from core import Job
from hwtypes import (Bit, BitVector, SIntVector, SMTBit, SMTBitVector, SMTSIntVector, SMTUIntVector, UIntVector)
from hwtypes.bit_vector_abc import InconsistentSizeError

PROP = 'C06'
SPACE = {
    'quick': 'concrete: every ordered pair of different widths 0-4 with every pair of values and of 8 wide widths with '
             'boundary values, 25 family pairs (two of them user-derived), 16 operators, their augmented forms, 29 methods and adc; every value at '
             'widths 0-4 against every int in -2^n-2..2^(n+1)+2, bool, bit list/tuple, float, Fraction and __int__ object on '
             'either side; unconvertible operands; the same ints at 12 widths and 9 families in turn in one process; '
             'sized types of one name; pysmt with concrete operands of every other width; Bits against every operand form.  pysmt: the same with variables and '
             'constants at widths 1-4',
    'thorough': 'as quick with widths to 5 and 24 wide widths',
}
CONC = (BitVector, UIntVector, SIntVector)
SMT = (SMTBitVector, SMTUIntVector, SMTSIntVector)


class Word(BitVector):
    """a user's own family"""


class Count(SIntVector):
    pass


class SWord(SMTBitVector):
    pass


class SCount(SMTSIntVector):
    pass


class Alias:
    """types of one name derived from sized vectors: Alias(B)[n]"""
    def __init__(self, base, name='W'):
        self.base, self.__name__, self.made = base, name, {}

    def __getitem__(self, n):
        if n not in self.made:
            self.made[n] = type(self.__name__, (self.base[n],), {'__module__': 'user'})
        return self.made[n]

    def __getattr__(self, attr):
        return getattr(self.base, attr)


USER = (Word, Count)
SUSER = (SWord, SCount)
OPS = {'&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift,
       '>>': operator.rshift, '+': operator.add, '-': operator.sub, '*': operator.mul,
       '//': operator.floordiv, '%': operator.mod, '==': operator.eq, '!=': operator.ne,
       '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
AUG = {'&=': operator.iand, '|=': operator.ior, '^=': operator.ixor, '<<=': operator.ilshift, '>>=': operator.irshift,
       '+=': operator.iadd, '-=': operator.isub, '*=': operator.imul, '//=': operator.ifloordiv, '%=': operator.imod}


class HasInt:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v

    def __repr__(self):
        return f'HasInt({self.v})'


def everything(T, rot=True):
    out = dict(OPS)
    out.update(AUG)
    for m in bvref.BINARY:
        if rot or m not in ('bvrol', 'bvror'):
            out[m] = getattr(T, m)
    out['adc'] = lambda x, y: x.adc(y, 0)
    return out


def mismatch(ctx, types, n, m, vals, rot):
    """every operation on vectors of widths n != m raises"""
    for T in types:
        ops = everything(T, rot)
        for V in types:
            for a in vals(n):
                for b in vals(m):
                    ctx.states += 1
                    x = T[n]() if a is None else T[n](a)
                    y = V[m]() if b is None else V[m](b)
                    for name, f in ops.items():
                        ctx.transitions += 1
                        try:
                            r = f(x, y)
                        except InconsistentSizeError:
                            continue
                        except Exception as e:
                            r = e
                        ctx.fail('sizes not checked', f'{T.__name__}[{n}]({a}) {name} {V.__name__}[{m}]({b}): '
                                 f'expected InconsistentSizeError, got {r!r}')
                    if m != 1 and not isinstance(T, Alias):
                        z = T[n](x)
                        ctx.raises(InconsistentSizeError, lambda: x.adc(z, y), 'carry size not checked',
                                   lambda: f'{T.__name__}[{n}].adc(_, {V.__name__}[{m}]({b}))')
            ctx.traces += 1
    ctx.sample(f'widths {n} and {m}: {len(everything(types[0], rot))} operations, {len(types)}^2 family pairs')


def mixed(ctx, n, m, vals):
    """a pysmt and a concrete vector of widths n != m: nothing is cut or padded silently"""
    for T, V, errors in [(T, V, InconsistentSizeError) for T in SMT + SUSER[:1] for V in CONC + USER[:1]] \
            + [(V, T, (InconsistentSizeError, TypeError)) for T in SMT[:1] for V in CONC]:
        ops = everything(T, False)
        for a in vals:
            for b in vals:
                ctx.states += 1
                x, y = T[n](a % (1 << n)), V[m](b % (1 << m))
                what = f'{T.__name__}[{n}]({a % (1 << n)}), {V.__name__}[{m}]({b % (1 << m)})'
                for name, f in ops.items():
                    ctx.raises(errors, lambda: f(x, y), 'sizes not checked', lambda: f'{name} of {what}')
                if m != 1:
                    ctx.raises(errors, lambda: x.adc(x, y), 'carry size not checked', lambda: what)
        ctx.traces += 1


def forms(n, k):
    """operands that convert to k modulo 2^n"""
    yield k
    yield HasInt(k)
    yield float(k)
    if k in (0, 1):
        yield bool(k)
        yield Bit(k)


def seqs(n):
    for k in range(n + 1):
        for s in it.product((0, 1), repeat=k):
            v = sum(b << i for i, b in enumerate(s))
            yield v, list(s)
            yield v, tuple(bool(b) for b in s)
            yield v, [Bit(b) for b in s]


def coercion(ctx, n, wide=False):
    vals = bvref.corner_values(n, rich=False) if wide else range(1 << n)
    if wide:
        m = (1 << n) - 1
        ints = vals + [-1, -2, -m, -m - 1, m + 1, m + 2, 2 * m + 1, -n]
        ints += [s * (1 << e) + d for e in (n + 1, n + 31, n + 63, n + 64, n + 65, 2 * n + 70, 1024) for s, d in ((1, 1), (-1, 3))]
        cases = [(k, k) for k in ints] + [(k, HasInt(k)) for k in ints[:4]]
    else:
        cases = [(k, c) for k in range(-(1 << n) - 2, (1 << n + 1) + 3) for c in forms(n, k)]
        cases += list(seqs(n))
        cases += [(k, k) for e in (31, 32, 63, 64, 65, 100, 128, 1024) for k in ((1 << e) + 1, -(1 << e) - 1, (1 << e) - 1)]
    for T in CONC + USER:
        signed = issubclass(T, SIntVector)
        ops = [(s, OPS[s], bvref.operators(signed)[s]) for s in OPS]
        meths = [(m, getattr(T, m), bvref.BINARY[m]) for m in bvref.BINARY if n or m not in ('bvrol', 'bvror')]
        for k, c in cases:
            kk = bvref.wrap(n, k)
            for v in vals:
                x = T[n](v)
                ctx.states += 1
                for name, f, (model, kind) in ops + meths:
                    want_t = {'v': T[n], 'b': Bit, '1': T[1]}[kind]
                    r = f(x, c)
                    ctx.transitions += 1
                    want = model(n, v, kk)
                    if type(r) is not want_t or (r.as_uint() if kind != 'b' else int(r)) != want:
                        ctx.fail('right operand coercion', f'{T.__name__}[{n}]({v}) {name} {c!r}: expected {want}, got {r!r}')
                for name, f, (model, kind) in ops:
                    if type(c) is Bit:
                        continue          # a Bit on the left is Bit's operator
                    if type(c) is float and n > 50:
                        continue
                    r = f(c, x)
                    ctx.transitions += 1
                    want = model(n, kk, v)
                    want_t = {'v': T[n], 'b': Bit}[kind]
                    if type(r) is not want_t or (r.as_uint() if kind != 'b' else int(r)) != want:
                        ctx.fail('left operand coercion', f'{c!r} {name} {T.__name__}[{n}]({v}): expected {want}, got {r!r}')
                if type(c) is not Bit:
                    for name, f in AUG.items():
                        model, kind = bvref.operators(signed)[name[:-1]]
                        r = f(x, c)
                        ctx.check((type(r), r.as_uint()), (T[n], model(n, v, kk)), 'augmented assignment',
                                  lambda: f'{T.__name__}[{n}]({v}) {name} {c!r}')
                if x.as_uint() != v:
                    ctx.fail('operand changed', f'{T.__name__}[{n}]({v}) with {c!r}')
            ctx.traces += 1
    ctx.sample(f'width {n}: {len(cases)} convertible operands on both sides of {len(vals)} values')


BAD = [None, object(), {}, {1: 2}, set(), int, len]


def unconvertible(ctx, n):
    for T in CONC + SMT + USER + SUSER:
        x = T[n](1 if n else 0)
        for bad in BAD:
            ctx.state((T, repr(bad)[:20]))
            d = lambda: f'{T.__name__}[{n}] with {bad!r}'
            ctx.raises(TypeError, lambda: T[n](bad), 'unconvertible value', d)
            for name, f in OPS.items():
                if name == '==':
                    # Python's own fallback: identity
                    ctx.check(x == bad, False, '== with a foreign object', d)
                    ctx.check(bad == x, False, '== with a foreign object', d)
                elif name == '!=':
                    ctx.check(x != bad, True, '!= with a foreign object', d)
                    ctx.check(bad != x, True, '!= with a foreign object', d)
                else:
                    ctx.raises(TypeError, lambda: f(x, bad), 'unconvertible right operand', lambda: f'{d()} {name}')
                    ctx.raises(TypeError, lambda: f(bad, x), 'unconvertible left operand', lambda: f'{d()} {name}')
            for name, f in AUG.items():
                ctx.raises(TypeError, lambda: f(x, bad), 'unconvertible operand', lambda: f'{d()} {name}')
            for m in bvref.BINARY:
                ctx.raises(TypeError, lambda: getattr(x, m)(bad), 'unconvertible operand', lambda: f'{d()} {m}')
            ctx.raises(TypeError, lambda: x.adc(bad, 0), 'unconvertible operand', lambda: f'{d()} adc')
            ctx.raises(TypeError, lambda: x.adc(x, bad), 'unconvertible carry', lambda: f'{d()} adc')
            ctx.raises(TypeError, lambda: x.concat(bad), 'unconvertible operand', lambda: f'{d()} concat')
        ctx.traces += 1


BITOPS = {s: OPS[s] for s in ('&', '|', '^', '==', '!=')}


def bits(ctx):
    model = {'&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b,
             '==': lambda a, b: int(a == b), '!=': lambda a, b: int(a != b)}
    smt = lambda r: smteval.evaluate(r.value, {})
    for B, read in ((Bit, int), (SMTBit, smt)):
        for k in list(range(-20, 0)) + list(range(2, 70)) + [1 << 32, 1 << 64, -(1 << 64), (1 << 64) + 1]:
            ctx.state((B, k))
            ctx.raises(ValueError, lambda: B(k), 'int other than 0 or 1', f'{B.__name__}({k})')
            for v in (0, 1):
                for name, f in BITOPS.items():
                    ctx.raises(ValueError, lambda: f(B(v), k), 'int other than 0 or 1', f'{B.__name__}({v}) {name} {k}')
                    ctx.raises(ValueError, lambda: f(k, B(v)), 'int other than 0 or 1', f'{k} {name} {B.__name__}({v})')
        for a in (0, 1):
            for b in (0, 1):
                ctx.state((B, a, b))
                for c in (b, bool(b), B(b), Bit(b)):
                    for name, f in BITOPS.items():
                        r = f(B(a), c)
                        ctx.check((type(r), read(r)), (B, model[name](a, b)), 'Bit operator', f'{B.__name__}({a}) {name} {c!r}')
                        if type(c) is not Bit or B is Bit:
                            r = f(c, B(a))
                            ctx.check((type(r), read(r)), (B, model[name](b, a)), 'Bit operator', f'{c!r} {name} {B.__name__}({a})')
                for f in (B, lambda c: B(bool(c)), lambda c: B(B(c))):
                    ctx.check(read(f(b)), b, 'Bit construction', f'{B.__name__}({b})')
        for bad in ('a', object, (lambda: 0), len):
            if hasattr(bad, '__bool__'):
                continue
            ctx.raises(TypeError, lambda: B(bad), 'unconvertible', f'{B.__name__}({bad!r})')
            for name in ('&', '|', '^'):
                ctx.raises(TypeError, lambda: OPS[name](B(1), bad), 'unconvertible', f'{B.__name__}(1) {name} {bad!r}')
                ctx.raises(TypeError, lambda: OPS[name](bad, B(1)), 'unconvertible', f'{bad!r} {name} {B.__name__}(1)')
        ctx.traces += 1


def smt_coercion(ctx, n):
    nm = lambda v: v.value.symbol_name()
    for T in SMT + SUSER:
        x = T[n]()
        signed = issubclass(T, SMTSIntVector)
        cases = [(k, k) for k in range(-(1 << n) - 1, (1 << n + 1) + 1)] + [(k, HasInt(k)) for k in (-1, 0, 1, 1 << n)]
        cases += [(k, bool(k)) for k in (0, 1)] + [(k, V[n](k)) for k in range(1 << n) for V in CONC + USER]
        for s in it.product((0, 1), repeat=n):
            v = sum(b << i for i, b in enumerate(s))
            cases += [(v, list(s)), (v, tuple(map(bool, s))), (v, [SMTBit(b) for b in s])]
        for k, c in cases:
            kk = bvref.wrap(n, k)
            for name, f in OPS.items():
                model, kind = bvref.operators(signed)[name]
                if name in ('//', '%') and signed:
                    model = bvref.bvsdiv_smt if name == '//' else bvref.bvsrem_smt
                want_t = {'v': T[n], 'b': SMTBit}[kind]
                for l, r, flip in ((x, c, False), (c, x, True)):
                    t = f(l, r)
                    d = lambda: (f'{c!r} {name} {T.__name__}[{n}]' if flip else f'{T.__name__}[{n}] {name} {c!r}')
                    ctx.check(type(t), want_t, 'coercion type', d)
                    g = smteval.compile_term(t.value)[1]
                    for a in range(1 << n):
                        ctx.states += 1
                        ctx.check(g({nm(x): a}), model(n, kk, a) if flip else model(n, a, kk), 'pysmt coercion',
                                  lambda: f'{d()}, x={a}')
            ctx.traces += 1


def one_name(ctx, n, every):
    """sized types of one name: only those of one size go together"""
    A, B, C = Alias(BitVector), Alias(BitVector), Alias(SIntVector)
    for m in range(6):
        if m != n:
            mismatch(ctx, (A, B, C), n, m, every, n > 0 and m > 0)
    for P, Q in ((A, B), (B, A), (A, A)):
        for a in every(n):
            for b in every(n):
                x, y = P[n](a), Q[n](b)
                for name, f in OPS.items():
                    model, kind = bvref.operators(False)[name]
                    r = f(x, y)
                    ctx.check((type(r), int(r)), (Bit if kind == 'b' else P[n], model(n, a, b)), 'types of one name',
                              lambda: f'W({a}) {name} W({b}), two types of size {n}')
        ctx.traces += 1


def history(ctx, orders):
    """the same ints with vectors of many widths and families, in turn"""
    ks = (-9, -4, -3, -2, -1, 0, 1, 2, 3, 4, 7, 8, 100, 255, 256, 1 << 40, True, False)
    for types, widths in orders:
        for n in widths:
            for T in types:
                signed = issubclass(T, SIntVector)
                for v in (1, 2, (1 << n) - 1):
                    v &= (1 << n) - 1
                    x = T[n](v)
                    for k in ks:
                        ctx.state((T, n, v, k))
                        for name, f in OPS.items():
                            model, kind = bvref.operators(signed)[name]
                            want_t = {'v': T[n], 'b': Bit}[kind]
                            for r, want, d in ((f(x, k), model(n, v, bvref.wrap(n, k)), 'right'),
                                               (f(k, x), model(n, bvref.wrap(n, k), v), 'left')):
                                ctx.transitions += 1
                                if type(r) is not want_t or (r.as_uint() if kind == 'v' else int(r)) != want:
                                    ctx.fail(f'{d} operand coercion', f'{T.__name__}[{n}]({v}) {name}, int {k} on the {d}, after other '
                                             f'widths and types: expected {want_t.__name__}({want}), got {r!r} of {type(r)}')
        ctx.traces += 1


def word_twin():
    class Word(SIntVector):
        pass
    return Word


def jobs(tier):
    deep = tier == 'thorough'
    N = 5 if deep else 4
    out = [Job('Bit operands', bits)]
    every = lambda n: list(range(1 << n))
    spread = [1, 2, 3, 4, 5, 8, 12, 16, 32, 33, 64, 65]
    types = CONC + USER + (word_twin(), Alias(BitVector), Alias(UIntVector), Alias(BitVector))
    out.append(Job('many widths and types in turn', history, [(types, spread), (types[::-1], spread[::-1])], weight=4))
    out.append(Job('many widths and types in turn, backwards', history, [(types[::-1], spread), (types, spread[::-1])], weight=4))
    for n in range(N + 1):
        for m in range(N + 1):
            if n != m:
                out.append(Job(f'widths {n}, {m}', mismatch, CONC + USER, n, m, every, n > 0, weight=n + m))
                if n and m:
                    out.append(Job(f'pysmt widths {n}, {m}', mismatch, SMT + SUSER, n, m, lambda n: [None, 0, 1], False))
                    out.append(Job(f'pysmt and concrete, widths {n}, {m}', mixed, n, m, (0, 1, -1)))
        out.append(Job(f'coercion, width {n}', coercion, n, weight=3 * n))
        out.append(Job(f'types of one name, width {n}', one_name, n, every))
        out.append(Job(f'unconvertible, width {n + 1}', unconvertible, n + 1))
        if n:
            out.append(Job(f'pysmt coercion, width {n}', smt_coercion, n, weight=2 * n))
    wide = (7, 8, 16, 31, 32, 33, 64, 65) if not deep else (6, 7, 8, 9, 15, 16, 17, 24, 30, 31, 32, 33, 48, 62, 63, 64, 65, 66, 96, 127, 128, 129, 256, 257)
    corner = lambda n: bvref.corner_values(n, rich=False)[:4]
    for n in wide:
        out.append(Job(f'coercion, boundary, width {n}', coercion, n, True, weight=2))
        for m in wide + (1, 2):
            if n != m:
                out.append(Job(f'widths {n}, {m}', mismatch, CONC + USER, n, m, corner, True))
                out.append(Job(f'pysmt widths {n}, {m}', mismatch, SMT + SUSER, n, m, lambda n: [None, 1], False))
                out.append(Job(f'pysmt and concrete, widths {n}, {m}', mixed, n, m, (1, -1)))
    return out
