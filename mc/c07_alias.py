"""C07: vectors never share mutable state.

Histories: two vectors, an operation producing more vectors, then every item
assignment of every live vector (and its undoing), then a second operation
over everything alive, then every item assignment again.  After every single
step every live object is compared with its own cell in the model, which only
an item assignment on that very object may change.  A second set of histories
interleaves assignments with storing and reading vectors in ADT values, where
the model has references to cells.
"""
import functools
import itertools as it
import operator

import bvref
import smteval
import c02_struct
from core import Job
from hwtypes.adt import AnonymousProduct
from hwtypes import (Bit, BitVector, Product, SIntVector, SMTBit, SMTBitVector, SMTSIntVector,
                     SMTUIntVector, Sum, TaggedUnion, Tuple, UIntVector)
from hwtypes.bit_vector_util import BitVectorProtocol, BitVectorProtocolMeta
from hwtypes.z3_bit_vector import z3Bit, z3BitVector, z3SIntVector, z3UIntVector

PROP = 'C07'
SPACE = {
    'quick': 'from every pair of values at widths 1-3 and boundary pairs at 33, 64: every one of about 75 operations, then every '
             'item assignment of every live object and its undoing; from 7 of those pairs also every second operation over '
             'everything alive and an assignment to each live object; 3 families and mixed families; the same for pysmt and z3 '
             'vectors; '
             'every reading repeated and its list altered around item assignments; every result a new object at all values of width 4 and boundary values of 14 widths to 128; ADT histories: every sequence of 4 of 20 actions',
    'thorough': 'as quick with the second operation from every pair at widths 1-2 and all family pairs, and ADT histories of '
                '5 actions',
}

OPS2 = {'&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift,
        '>>': operator.rshift, '+': operator.add, '-': operator.sub, '*': operator.mul,
        '//': operator.floordiv, '%': operator.mod, '==': operator.eq, '<': operator.lt, '>=': operator.ge}
AUG = {'&=': operator.iand, '|=': operator.ior, '^=': operator.ixor, '<<=': operator.ilshift, '>>=': operator.irshift,
       '+=': operator.iadd, '-=': operator.isub, '*=': operator.imul, '//=': operator.ifloordiv, '%=': operator.imod}


class BoxMeta(BitVectorProtocolMeta):
    def _bitvector_t_(cls):
        return cls.T


@functools.lru_cache(None)
def box(T):
    return BoxMeta('Box', (BitVectorProtocol,), dict(
        T=T, __init__=lambda s, v: setattr(s, 'v', v), _from_bitvector_=classmethod(lambda c, v: c(v)),
        _to_bitvector_=lambda s: s.v))


def unary(be, n):
    """name -> fn(x) giving vectors (or tuples of them)"""
    T0 = be.types
    u = {
        '~': operator.invert, 'neg': operator.neg, 'bvnot': lambda x: x.bvnot(), 'bvneg': lambda x: x.bvneg(),
        'copy': lambda x: type(x)(x), 'slice all': lambda x: x[:] if be.tag == 'concrete' else x[0:len(x)],
        'slice low': lambda x: x[:max(1, len(x) - 1)], 'slice high': lambda x: x[len(x) - 1:len(x)],
        'zext 0': lambda x: x.zext(0), 'ext 0': lambda x: x.ext(0), 'zext': lambda x: x.zext(1),
        'sext 0': lambda x: x.sext(0), 'sext': lambda x: x.sext(1), 'ext': lambda x: x.ext(1),
        'repeat 1': lambda x: x.repeat(1), 'repeat 2': lambda x: x.repeat(2), 'concat self': lambda x: x.concat(x),
        'x op 0': lambda x: [f(x, 0) for f in OPS2.values()], '0 op x': lambda x: [f(0, x) for f in OPS2.values()] if be.refl else [],
        'x op 1': lambda x: [f(x, 1) for f in OPS2.values()], 'x op -1': lambda x: [f(x, -1) for f in OPS2.values()],
        'x op x': lambda x: [f(x, x) for f in OPS2.values()],
        'select x x': lambda x: [be.bit(0).ite(x, x), be.bit(1).ite(x, x), be.bit(1).ite((x, x), (x, x))],
        'x.ite': lambda x: x.ite(x, x),
        'adc 0': lambda x: [*x.adc(0, 0), *x.adc(x, 1), *x.adc(0, be.bit(0))],
        'families': lambda x: [V[len(x)](x) for V in T0] + [V[len(x) + 1](x) for V in T0] + [V[1](x) for V in T0],
        'make_constant': lambda x: type(x).make_constant(1),
        'protocol': lambda x: be.bit(1).ite(box(type(x))(x), box(type(x))(x)).v,
        'as bits': lambda x: type(x)(list(x)),
        'rotates': lambda x: [x.bvrol(k) for k in (0, 1, len(x))] + [x.bvror(k) for k in (0, 1, len(x))] if be.rot else [],
    }
    if be.tag == 'concrete':
        u['reads'] = lambda x: [x.as_uint(), x.as_sint(), int(x), bool(x), x.bits().clear(), x.as_bool_list().clear(), hash(x), str(x), repr(x), len(x)]
        u['stride'] = lambda x: [x[::-1], x[::2], x[len(x):]]
    if be.tag == 'z3':       # scalars only
        del u['protocol'], u['select x x']
    return u


def binary(be):
    b = {}
    for k in OPS2:
        b[k] = OPS2[k]
    for k in AUG:
        b[k] = AUG[k]
    for m in bvref.BINARY:
        if m in ('bvrol', 'bvror') and be.tag == 'pysmt':
            continue
        b[m] = lambda x, y, m=m: getattr(x, m)(y)
    b['adc'] = lambda x, y: [*x.adc(y, 0), *x.adc(y, be.bit(1))]
    b['concat'] = lambda x, y: x.concat(y) if isinstance(y, type(x).unsized_t) else None
    b['ite'] = lambda x, y: [be.bit(0).ite(x, y), be.bit(1).ite(x, y), x.ite(y, x)] if type(x) is type(y) else None
    b['ite tuple'] = lambda x, y: [be.bit(1).ite((x, (y,)), (x, (y,))), be.bit(0).ite((x, (y,)), (x, (y,)))]
    b['protocol'] = lambda x, y: [be.bit(s).ite(box(type(x))(x), box(type(x))(y)).v for s in (0, 1)] if type(x) is type(y) else None
    b['T(y)'] = lambda x, y: type(x)(y)
    if be.tag == 'z3':
        del b['protocol'], b['ite tuple']
    return b


class Conc:
    tag = 'concrete'
    types = (BitVector, UIntVector, SIntVector)
    bit = Bit
    refl = rot = True

    @staticmethod
    def read(x):
        return type(x), x.as_uint()

    @staticmethod
    def same(a, b):
        return a == b


class Py(Conc):
    tag = 'pysmt'
    types = (SMTBitVector, SMTUIntVector, SMTSIntVector)
    bit = SMTBit

    @staticmethod
    def read(x):
        return type(x), x.value

    @staticmethod
    def same(a, b):
        return a[0] is b[0] and a[1] is b[1]


class Z3(Conc):
    tag = 'z3'
    types = (z3BitVector, z3UIntVector, z3SIntVector)
    bit = z3Bit
    refl = rot = False

    @staticmethod
    def read(x):
        return type(x), x.value

    @staticmethod
    def same(a, b):
        return a[0] is b[0] and a[1].eq(b[1])


def vectors(ctx, be, r, out, hist):
    """collect the vectors of a result; each is a new object"""
    if isinstance(r, (list, tuple)):
        for x in r:
            vectors(ctx, be, x, out, hist)
    elif isinstance(r, be.types):
        for i, o in enumerate(out):
            if r is o:
                ctx.fail(f'{be.tag}: a result is an existing object', f'after {" ; ".join(hist())}: a result is object {i} itself')
                return out
        out.append(r)
    return out


def check_all(ctx, be, live, snap, hist, what):
    ctx.transitions += 1
    for i, (x, s) in enumerate(zip(live, snap)):
        if not be.same(be.read(x), s):
            ctx.fail(f'{be.tag}: {what}', f'after {" ; ".join(hist())}: object {i} was {s[0].__name__} {s[1]}, now {be.read(x)[1]}')
            snap[i] = be.read(x)


def flips(ctx, be, live, snap, hist, p, once=False):
    """assign every (or for long vectors some) bit of every live object"""
    for i, x in enumerate(live):
        n = len(x)
        if n == 0:
            continue
        for k in (i % n,) if once else range(n) if n <= 4 else (0, n - 1):
            if be.tag == 'concrete':
                old = snap[i][1] >> k & 1
                steps = (1 - old,) if once else (1 - old, bool(old))
            else:
                steps = (p,)
            for b in steps:
                x[k] = b
                if be.tag == 'concrete':
                    snap[i] = (snap[i][0], snap[i][1] & ~(1 << k) | int(b) << k)
                else:
                    snap[i] = be.read(x)
                check_all(ctx, be, live, snap, lambda: hist() + [f'object{i}[{k}] = {b!r}'], 'an item assignment changed another object')


def two_ops(ctx, be, T, V, n, pairs, depth2, firsts=None):
    un, bi = unary(be, n), binary(be)
    acts1 = [(nm, f, (i,)) for nm, f in un.items() for i in range(2)]
    acts1 += [(nm, f, ij) for nm, f in bi.items() for ij in ((0, 1), (1, 0))]
    if firsts:
        acts1 = acts1[firsts[0]::firsts[1]]
    p = be.bit() if be.tag != 'concrete' else None
    for a, b in pairs:
        def start():
            mk = lambda W, v: W[n]() if v is None else W[n](v)
            return [mk(T, a), mk(V, b)]
        for n1, f1, i1 in acts1:
            live = start()
            snap = [be.read(x) for x in live]
            h0 = [f'object0 = {T.__name__}[{n}]({a})', f'object1 = {V.__name__}[{n}]({b})']
            hist = lambda: h0 + [f'{n1} of {i1}']
            r = f1(*(live[i] for i in i1))
            check_all(ctx, be, live, snap, hist, 'an operation changed an existing object')
            ctx.states += 1
            n0 = len(live)
            vectors(ctx, be, r, live, hist)
            fresh = live[n0:]
            snap += [be.read(x) for x in fresh]
            flips(ctx, be, live, snap, hist, p)
            ctx.traces += 1
            if not depth2:
                continue
            # second operation over the results of width n, from the same start
            cand = [i for i in range(len(live)) if len(live[i]) == n][:5]
            for n2, f2, k2 in [(nm, f, 1) for nm, f in un.items()] + [(nm, f, 2) for nm, f in bi.items()]:
                for i2 in it.product(cand, repeat=k2):
                    if k2 == 2 and i2[0] == i2[1]:
                        continue
                    if be.tag != 'concrete':
                        if not any(i > 1 for i in i2):
                            continue
                    hist2 = lambda: hist() + [f'flips', f'{n2} of {i2}']
                    r2 = f2(*(live[i] for i in i2))
                    check_all(ctx, be, live, snap, hist2, 'an operation changed an existing object')
                    more = [x for x in vectors(ctx, be, r2, list(live), hist2)[len(live):]]
                    live2, snap2 = live + more[:6], snap + [be.read(x) for x in more[:6]]
                    # touch the new objects, then the old ones
                    flips(ctx, be, live2, snap2, hist2, p, True)
                    snap[:] = snap2[:len(snap)]
                    ctx.states += 1
                    ctx.traces += 1
    ctx.sample(f'{T.__name__}, {V.__name__} width {n}: {n1} of {i1}, assignments, second operation, assignments; {len(pairs)} starts')


def readings(ctx, T, n, values):
    """no reading method changes a vector, whatever the caller does with what it returned;
    after an item assignment every reading gives the new value"""
    for v in values:
        for i in sorted({0, 1, n // 2, n - 1} & set(range(n))):
            for b in (0, 1):
                x, y, z = T(v), T(v), T(T(v))
                bs = c02_struct.to_bits(n, v)
                d = f'{T.__name__}({v}), x[{i}] = {b}'
                t = Tuple[T, T](x, y)
                for o in (x, y, z, t[0], t[1]):
                    c02_struct.observe(ctx, o, T.unsized_t, bs, d)
                hash(x), hash(t)
                x[i] = b
                new = bs[:i] + [b] + bs[i + 1:]
                for o, w in ((x, new), (y, bs), (z, bs), (t[0], new), (t[1], bs), (y + 0, bs), (x & x, new)):
                    c02_struct.observe(ctx, o, T.unsized_t, w, d)
                f = T(c02_struct.from_bits(new))
                u = Tuple[T, T](f, T(v))
                ctx.check((bool(x == f), hash(x) == hash(f), t == u, hash(t) == hash(u)), (True,) * 4, 'equality and hash after an assignment', d)
                ctx.states += 1
        ctx.traces += 1


def fresh(ctx, be, T, n, pairs):
    """every operation from many values: its results are new objects, none of
    them given out before (all results of the exploration stay alive)"""
    un, bi = unary(be, n), binary(be)
    given = {}
    keep = []

    def walk(r, d):
        if isinstance(r, (list, tuple)):
            for x in r:
                walk(x, d)
        elif isinstance(r, be.types):
            if id(r) in given:
                ctx.fail(f'{be.tag}: a result is an existing object', f'{d}: the very object of {given[id(r)]}')
            given[id(r)] = d
            keep.append(r)
    seen = set()
    for a, b in pairs:
        x, y = T[n](a), T[n](b)
        walk([x, y], f'{T.__name__}[{n}] of {a}, {b}')
        old = be.read(x), be.read(y)
        if a not in seen:
            seen.add(a)
            for nm, f in un.items():
                if nm == 'select x x' or nm == 'x.ite':
                    f(x)
                    continue
                walk(f(x), f'{nm} of {T.__name__}[{n}]({a})')
        for nm, f in bi.items():
            if nm in ('protocol', 'ite', 'ite tuple'):
                continue
            walk(f(x, y), f'{nm} of {T.__name__}[{n}]({a}), ({b})')
        ctx.states += 1
        ctx.transitions += len(bi)
        if not (be.same(be.read(x), old[0]) and be.same(be.read(y), old[1])):
            ctx.fail(f'{be.tag}: an operation changed an existing object', f'{T.__name__}[{n}] of {a}, {b}')
        if len(keep) > 200000:
            keep.clear()
            given.clear()
    ctx.traces += len(pairs)


# -- vectors inside ADT values ------------------------------------------------

def adt_histories(ctx, depth, first, n=2):
    B2 = BitVector[n]
    Tup = Tuple[B2, B2]

    class P(Product):
        a = B2
        b = B2

    AP = AnonymousProduct[{'a': B2, 'b': B2}]
    S = Sum[B2, Bit]

    class TU(TaggedUnion):
        a = B2
        b = Bit

    # real state: dict of slots; model: slots hold Cell objects or lists of cells
    class Cell:
        __slots__ = ('v',)

        def __init__(self, v):
            self.v = v

    def setbit(s):
        def real(R):
            R[s][0] = 1 - (R[s].as_uint() & 1)

        def model(M):
            M[s].v ^= 1
        return real, model

    def lit(fn_real, fn_model):
        return fn_real, fn_model

    def rset(slot, fn):
        def g(R):
            R[slot] = fn(R)
        return g

    acts = {
        'x[0] ^= 1': setbit('x'), 'y[0] ^= 1': setbit('y'), 'z[0] ^= 1': setbit('z'),
        'x = x + y': (rset('x', lambda R: R['x'] + R['y']), rset('x', lambda M: Cell(bvref.wrap(n, M['x'].v + M['y'].v)))),
        'z += y': (rset('z', lambda R: operator.iadd(R['z'], R['y'])), rset('z', lambda M: Cell(bvref.wrap(n, M['z'].v + M['y'].v)))),
        'y = T(x)': (rset('y', lambda R: B2(R['x'])), rset('y', lambda M: Cell(M['x'].v))),
        'z = x[:]': (rset('z', lambda R: R['x'][:]), rset('z', lambda M: Cell(M['x'].v))),
        'z = 1.ite(x,y)': (rset('z', lambda R: Bit(1).ite(R['x'], R['y'])), rset('z', lambda M: Cell(M['x'].v))),
        't = Tuple(x,y)': (rset('t', lambda R: Tup(R['x'], R['y'])), rset('t', lambda M: [M['x'], M['y']])),
        't = P(x,z)': (rset('t', lambda R: P(R['x'], R['z'])), rset('t', lambda M: [M['x'], M['z']])),
        't = AP(b=x,a=y)': (rset('t', lambda R: AP(b=R['x'], a=R['y'])), rset('t', lambda M: [M['y'], M['x']])),
        't = from_values': (rset('t', lambda R: type(R['t']).from_values(R['t'].value_dict)), rset('t', lambda M: list(M['t']))),
        't[0] = z': (lambda R: R['t'].__setitem__(0, R['z']), lambda M: M['t'].__setitem__(0, M['z'])),
        't[1] = x': (lambda R: R['t'].__setitem__(1, R['x']), lambda M: M['t'].__setitem__(1, M['x'])),
        't.b = y': (lambda R: setattr(R['t'], 'b', R['y']) if not type(R['t']) is Tup else R['t'].__setitem__(1, R['y']),
                    lambda M: M['t'].__setitem__(1, M['y'])),
        'z = t[0]': (rset('z', lambda R: R['t'][0]), rset('z', lambda M: M['t'][0])),
        'x = t[1]': (rset('x', lambda R: R['t'][1]), rset('x', lambda M: M['t'][1])),
        's = Sum(x)': (rset('s', lambda R: S(R['x'])), rset('s', lambda M: M['x'])),
        's = TU(a=z)': (rset('s', lambda R: TU(a=R['z'])), rset('s', lambda M: M['z'])),
        'y = s.value': (rset('y', lambda R: R['s'][B2].value if type(R['s']) is S else R['s'].a.value), rset('y', lambda M: M['s'])),
    }

    def look(R):
        s = R['s'][B2] if type(R['s']) is S else R['s'].a
        return (R['x'].as_uint(), R['y'].as_uint(), R['z'].as_uint(), R['t'][0].as_uint(), R['t'][1].as_uint(),
                [int(v) for v in R['t'].value_dict.values()], s.match, s.value.as_uint())

    def mlook(M):
        return (M['x'].v, M['y'].v, M['z'].v, M['t'][0].v, M['t'][1].v, [c.v for c in M['t']], True, M['s'].v)

    names = list(acts)
    for rest in it.product(names, repeat=depth - 1):
        h = (first,) + rest
        x, y, z = B2(1), B2(2), B2(3)
        R = dict(x=x, y=y, z=z, t=P(B2(0), B2(1)), s=S(B2(2)))
        M = dict(x=Cell(1), y=Cell(2), z=Cell(3), t=[Cell(0), Cell(1)], s=Cell(2))
        for k, a in enumerate(h):
            real, model = acts[a]
            real(R)
            model(M)
            ctx.transitions += 1
            got, want = look(R), mlook(M)
            if got != want:
                ctx.fail('ADT history', f'{" ; ".join(h[:k + 1])}: expected {want}, got {got}')
                break
        ctx.traces += 1
        ctx.state((repr(want), tuple(type(R[k]).__name__ for k in 'ts')))
    ctx.sample(' ; '.join(h))


N_ADT = 20


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    T3 = Conc.types
    for n in (1, 2, 3, 4, 8, 65, 130):
        for T in T3:
            out.append(Job(f'readings of {T.__name__}[{n}]', readings, T[n], n, range(1 << n) if n < 5 else sorted(set(bvref.corner_values(n)[:8])), weight=3))
    for n, pairs2 in ((1, ((0, 1), (1, 0), (1, 1))), (2, ((2, 0), (1, 2), (3, 3))), (3, ((5, 0),))):
        pairs = [(a, b) for a in range(1 << n) for b in range(1 << n)]
        for T in T3:
            out.append(Job(f'concrete {T.__name__}[{n}], one operation', two_ops, Conc, T, T, n, pairs, False, weight=5))
            for V in T3 if n == 2 and deep else (T,):
                for part in range(6):
                    out.append(Job(f'concrete {T.__name__}[{n}] {V.__name__} {part}', two_ops, Conc, T, V, n,
                                   pairs if deep and n < 3 else pairs2, True, (part, 6), weight=10))
    for T, V in it.permutations(T3, 2):
        out.append(Job(f'concrete, mixed {T.__name__} {V.__name__}', two_ops, Conc, T, V, 2,
                       [(a, b) for a in range(4) for b in range(4)], False, weight=3))
    for n in (33, 64):
        for T in T3:
            out.append(Job(f'concrete {T.__name__}[{n}]', two_ops, Conc, T, T, n,
                           [(a, b) for a in (0, 1, 5) for b in (0, 1, (1 << n) - 1)], False, weight=3))
    for be in (Py, Z3):
        for T in be.types:
            for n in (1, 2) + ((3,) if deep else ()):
                for part in range(4):
                    out.append(Job(f'{be.tag} {T.__name__}[{n}] {part}', two_ops, be, T, T, n,
                                   [(None, None), (None, 0), (0, 1)] if deep else [(None, 0)], deep or n == 2 and T is be.types[0], (part, 4), weight=12))
    for T in T3:
        for n in (4, 5, 6) if deep else (4,):
            out.append(Job(f'new objects, {T.__name__}[{n}]', fresh, Conc, T, n, [(a, b) for a in range(1 << n) for b in range(1 << n)], weight=10))
        for n in (5, 6, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 100, 128):
            vs = bvref.corner_values(n, rich=deep)
            out.append(Job(f'new objects, boundary, {T.__name__}[{n}]', fresh, Conc, T, n, [(a, b) for a in vs for b in vs[:6]], weight=5))
    for be in (Py, Z3):
        for T in be.types:
            for n in (4, 8, 32, 64):
                vs = bvref.corner_values(n, rich=False)[:8]
                out.append(Job(f'new objects, {be.tag} {T.__name__}[{n}]', fresh, be, T, n, [(a, b) for a in vs for b in vs], weight=5))
    d = 5 if deep else 4
    probe = ['x[0] ^= 1', 'y[0] ^= 1', 'z[0] ^= 1', 'x = x + y', 'z += y', 'y = T(x)', 'z = x[:]', 'z = 1.ite(x,y)',
             't = Tuple(x,y)', 't = P(x,z)', 't = AP(b=x,a=y)', 't = from_values', 't[0] = z', 't[1] = x', 't.b = y',
             'z = t[0]', 'x = t[1]', 's = Sum(x)', 's = TU(a=z)', 'y = s.value']
    assert len(probe) == N_ADT
    for a in probe:
        out.append(Job(f'ADT histories from {a}', adt_histories, d, a, weight=5))
    return out
