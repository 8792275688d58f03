"""C08: ite, for scalars, polymorphic results, tuples and protocol objects.

Model: the selected branch itself.  Operators on a result of mixed type must
give what the same operator gives on the selected branch in its own type.
"""
import gc
import itertools as it
import operator

import bvref
import smteval
from core import Job
from hwtypes import Bit, BitVector, SIntVector, SMTBit, SMTBitVector, SMTSIntVector, SMTUIntVector, UIntVector
from hwtypes.bit_vector import NumVector
from hwtypes.bit_vector_util import BitVectorProtocol, BitVectorProtocolMeta

PROP = 'C08'
SPACE = {
    'quick': 'concrete and pysmt: every select and pair of branch values at widths 1-3, 5 types (two of them user subclasses) in '
             'either branch; every operator and bv method on mixed results against every right operand, ints on the left, '
             'a second operator on each result at width 2; every nesting of three selects over 3 types; every pair of branches '
             'over 9 tuple shapes with <= 3 leaves of 11 kinds; vectors as selects; every pair of selects (8 pysmt ones, two alike to a '
             'depth) among 3 pairs of user types with the same names, and 40 such pairs made and dropped; every pair of 5 families of user types (chains, diamonds, mixins, all of one name) over 6 bases; tuples in which one object stands in several places or in both branches; tuples to length 257 and depth 40, selects and branches to width 257',
    'thorough': 'as quick with widths to 4, second operators at widths 1-3 and nestings over 5 types',
}
ASSUMPTIONS = ['int(), str() and repr() of a mixed result, and concat with one, are outside the property',
               'pysmt terms are evaluated by mc/smteval.py']


class MyU(UIntVector):
    """a user type with operators of its own"""
    def __add__(self, other):
        return self.bvsub(other)

    def bvand(self, other):
        return self.bvor(other)

    def __lt__(self, other):
        return self.bvugt(other)

    __hash__ = UIntVector.__hash__


class MyS(SIntVector):
    def __mod__(self, other):
        return self.bvurem(other)

    def __invert__(self):
        return self.bvneg()


class MyUS(SMTUIntVector):
    __add__ = MyU.__add__
    bvand = MyU.bvand
    __lt__ = MyU.__lt__


class MySS(SMTSIntVector):
    __mod__ = MyS.__mod__
    __invert__ = MyS.__invert__


OPS = {'&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift,
       '>>': operator.rshift, '+': operator.add, '-': operator.sub, '*': operator.mul,
       '//': operator.floordiv, '%': operator.mod, '==': operator.eq, '!=': operator.ne,
       '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
CONC = (BitVector, UIntVector, SIntVector, MyU, MyS)
SMT = (SMTBitVector, SMTUIntVector, SMTSIntVector, MyUS, MySS)


def binaries(smt):
    out = dict(OPS)
    for m in bvref.BINARY:
        if not (smt and m in ('bvrol', 'bvror')):
            out[m] = lambda x, y, m=m: getattr(x, m)(y)
    out['adc'] = lambda x, y: x.adc(y, 1)
    return out


UN = {'~': operator.invert, 'neg': operator.neg, 'bvnot': lambda x: x.bvnot(), 'bvneg': lambda x: x.bvneg(),
      'ext': lambda x: x.ext(2), 'zext': lambda x: x.zext(1), 'sext': lambda x: x.sext(2), 'repeat': lambda x: x.repeat(2),
      'x[0]': lambda x: x[0], 'x[-1]': lambda x: x[-1], 'x[0:1]': lambda x: x[0:1],
      'BV(x)': None}
UNC = {'bits': lambda x: x.bits(), 'as_uint': lambda x: x.as_uint(), 'as_sint': lambda x: x.as_sint(), 'bool': bool,
       'binary_string': lambda x: x.binary_string(), 'len': len, 'size': lambda x: x.size, 'x[::-1]': lambda x: x[::-1]}


def value(r):
    """a comparable summary: kind, width, value"""
    if isinstance(r, (tuple, list)):
        return tuple(map(value, r))
    if isinstance(r, Bit):
        return 'bit', int(r)
    if isinstance(r, BitVector):
        return 'vec', r.size, r.as_uint()
    return r


def mixed(ctx, n, T, F, second):
    """Bit select, concrete branches of types T and F"""
    bi = binaries(False)
    un = dict(UN, **UNC)
    un['BV(x)'] = lambda x: BitVector[n](x)
    vals = range(1 << n)
    # a right operand of a subclass type would be asked first (Python's rule), so these are of the base type
    rights = list(vals) + [-1] + [BitVector[n](v) for v in vals]
    for s in (0, 1):
        W = T if s else F
        for a in vals:
            for b in vals:
                t, f = T[n](a), F[n](b)
                r = Bit(s).ite(t, f)
                d = f'Bit({s}).ite({T.__name__}[{n}]({a}), {F.__name__}[{n}]({b}))'
                want = a if s else b
                ctx.states += 1
                ctx.check(value(r), ('vec', n, want), 'ite value', d)
                if T is F:
                    ctx.check(type(r), T[n], 'ite type', d)
                    continue
                for U in (BitVector,) + ((T,) if issubclass(F, T) else ()) + ((F,) if issubclass(T, F) else ()):
                    ctx.check(isinstance(r, U[n]), True, 'mixed result type', lambda: f'{d} is a {U.__name__}[{n}]')
                ref = W[n](want)
                for name, g in un.items():
                    ctx.check(value(g(r)), value(g(ref)), 'operator on a mixed result', lambda: f'{name} of {d}')
                for name, g in bi.items():
                    for y in rights:
                        got, exp = g(r, y), g(ref, y)
                        ctx.check(value(got), value(exp), 'operator on a mixed result', lambda: f'{d} {name} {y!r}')
                        if second and isinstance(got, BitVector) and got.size == n:
                            for n2, g2 in OPS.items():
                                for y2 in (1, -1):
                                    ctx.check(value(g2(got, y2)), value(g2(exp, y2)), 'second operator on a mixed result',
                                              lambda: f'({d} {name} {y!r}) {n2} {y2}')
                for name, g in OPS.items():
                    for y in list(vals) + [-1]:
                        ctx.check(value(g(y, r)), value(g(y, ref)), 'int on the left of a mixed result', lambda: f'{y} {name} {d}')
                ctx.check((t.as_uint(), f.as_uint()), (a, b), 'branch changed', d)
                ctx.traces += 1
    ctx.sample(f'{d}: {len(bi) + len(un)} operations, {len(rights)} right operands')


def zero(ctx):
    """mixed branches of width 0: the result acts as the chosen branch"""
    bi = binaries(False)
    # sext of a width 0 vector has no bit to repeat, and both branches are run
    un = {k: f for k, f in dict(UN, **UNC).items() if f and k not in ('ext', 'sext', 'x[0]', 'x[-1]')}
    for T, F, s in it.product(CONC, CONC, (0, 1)):
        ctx.states += 1
        d = f'Bit({s}).ite({T.__name__}[0](), {F.__name__}[0]())'
        r, ref = Bit(s).ite(T[0](0), F[0](0)), (T if s else F)[0](0)
        ctx.check(value(r), ('vec', 0, 0), 'ite value', d)
        for name, g in un.items():
            ctx.check(value(g(r)), value(g(ref)), 'operator on a mixed result', lambda: f'{name} of {d}')
        for name, g in bi.items():
            for y in (0, 1, -1, BitVector[0](0), r):
                def run(x):
                    try:
                        return value(g(x, ref if y is r and x is ref else y))
                    except Exception as e:
                        return type(e)
                ctx.check(run(r), run(ref), 'operator on a mixed result', lambda: f'{d} {name} {y!r}')
    ctx.traces += 1


def nested(ctx, types, n, vals):
    """c0.ite(c1.ite(A, B), c2.ite(C, D)) and c0.ite(A, c1.ite(B, C)), then an operator"""
    ops = {k: OPS[k] for k in ('>>', '//', '%', '<', '>=', '+', '&', '==')}
    ops['ext'] = lambda x, y: x.ext(y if isinstance(y, int) and y > 0 else 1)
    for tys in it.product(types, repeat=4):
        a = [T[n](v) for T, v in zip(tys, vals)]
        for c in it.product((0, 1), repeat=3):
            s = [Bit(x) for x in c]
            r1 = s[0].ite(s[1].ite(a[0], a[1]), s[2].ite(a[2], a[3]))
            e1 = (a[0] if c[1] else a[1]) if c[0] else (a[2] if c[2] else a[3])
            r2 = s[0].ite(a[0], s[1].ite(a[1], a[2]))
            e2 = a[0] if c[0] else a[1] if c[1] else a[2]
            r3 = s[2].ite(s[0].ite((a[0], a[1]), (a[2], a[3])), (a[1], a[3]))
            e3 = ((a[0], a[1]) if c[0] else (a[2], a[3])) if c[2] else (a[1], a[3])
            # an operator between, then select again
            r4 = s[1].ite(r2 >> 1, a[3])
            e4 = e2 >> 1 if c[1] else a[3]
            ctx.states += 1
            for r, e in ((r1, e1), (r2, e2), (r3[0], e3[0]), (r3[1], e3[1]), (r4, e4)):
                ctx.check(value(r), value(e), 'nested ite', lambda: f'{[t.__name__ for t in tys]} {vals} selects {c}')
                for name, g in ops.items():
                    for y in (1, -1, BitVector[n](e)):
                        ctx.check(value(g(r, y)), value(g(e, y)), 'operator on a nested result',
                                  lambda: f'{[t.__name__ for t in tys]} {vals} selects {c}: {name} {y!r}')
        ctx.traces += 1
    ctx.sample(f'{[t.__name__ for t in tys]} width {n}, 8 selects each')


def smt_mixed(ctx, n, T, F, second):
    """symbolic select and branches; results evaluated under every assignment"""
    nm = lambda v: v.value.symbol_name()
    bi = binaries(True)
    un = dict(UN)
    un['BV(x)'] = lambda x: SMTBitVector[n](x)
    s, t, f, y = SMTBit(), T[n](), F[n](), SMTBitVector[n]()
    keys = [nm(v) for v in (s, t, f, y)]
    envs = [dict(zip(keys, vs)) for vs in it.product((0, 1), range(1 << n), range(1 << n), range(1 << n))]

    def run(what, r, rt, rf):
        """r evaluates to rt where s is true, to rf elsewhere"""
        if isinstance(r, tuple):
            for i, (p, q, w) in enumerate(zip(r, rt, rf)):
                run(f'{what}[{i}]', p, q, w)
            return
        ctx.check(r.value.get_type(), rt.value.get_type(), 'width of a mixed result', what)
        g, gt, gf = (smteval.compile_term(v.value)[1] for v in (r, rt, rf))
        for e in envs:
            want = gt(e) if e[keys[0]] else gf(e)
            ctx.states += 1
            ctx.check(g(e), want, 'pysmt mixed result', lambda: f'{what} under {e}')
        ctx.traces += 1

    d = f's.ite({T.__name__}[{n}], {F.__name__}[{n}])'
    r = s.ite(t, f)
    run(d, r, t, f)
    if T is F:
        ctx.check(type(r), T[n], 'ite type', d)
    for name, g in un.items():
        run(f'{name} {d}', g(r), g(t), g(f))
    for name, g in bi.items():
        for y_ in (y, 1, -1) + (() if n == 1 else (2,)):
            run(f'{d} {name} {y_}', g(r, y_), g(t, y_), g(f, y_))
            if second and name in OPS:
                q, qt, qf = g(r, y_), g(t, y_), g(f, y_)
                if isinstance(q, SMTBitVector):
                    for n2 in ('>>', '<', '%', '+'):
                        run(f'({d} {name} {y_}) {n2} 1', OPS[n2](q, 1), OPS[n2](qt, 1), OPS[n2](qf, 1))
    for name, g in OPS.items():
        run(f'1 {name} {d}', g(1, r), g(1, t), g(1, f))
    # constant selects
    for c in (0, 1):
        rc = SMTBit(c).ite(t, f)
        w = t if c else f
        run(f'const {c}: {d}', rc, w, w)
        run(f'const {c}: {d} >> 1', rc >> 1, w >> 1, w >> 1)
        run(f'const {c}: {d} < y', rc < y, w < y, w < y)
    # under another select
    p = SMTBit()
    kp = nm(p)
    q = p.ite(r, SMTUIntVector[n](y))
    for name in ('>>', '<', '+', '&'):
        z = OPS[name](q, 1)
        g, gt, gf, gy = (smteval.compile_term(v.value)[1] for v in
                         (z, OPS[name](t, 1), OPS[name](f, 1), OPS[name](SMTUIntVector[n](y), 1)))
        for e in envs:
            for pv in (0, 1):
                e2 = {**e, kp: pv}
                want = gy(e2) if not pv else gt(e2) if e[keys[0]] else gf(e2)
                ctx.check(g(e2), want, 'pysmt nested mixed result', lambda: f'p.ite({d}, U) {name} 1 under {e2}')
    ctx.sample(f'{d}: {len(bi) + len(un)} operations, {len(envs)} assignments')


# -- tuples and protocols --------------------------------------------------------

class PMeta(BitVectorProtocolMeta):
    def _bitvector_t_(cls):
        return cls.T


def protocol(name, T):
    return PMeta(name, (BitVectorProtocol,), dict(
        T=T, __init__=lambda s, v: setattr(s, 'v', v), _from_bitvector_=classmethod(lambda c, v: c(v)),
        _to_bitvector_=lambda s: s.v))


P1, P2, PS = protocol('P1', BitVector[2]), protocol('P2', BitVector[2]), protocol('PS', SIntVector[2])


class MyBit(Bit):
    pass


KINDS = {
    'Bit': lambda v: Bit(v & 1), 'MyBit': lambda v: MyBit(v & 1),
    'BV1': lambda v: BitVector[1](v), 'BV2': lambda v: BitVector[2](v), 'U2': lambda v: UIntVector[2](v),
    'S2': lambda v: SIntVector[2](v), 'P1': lambda v: P1(BitVector[2](v)), 'P2': lambda v: P2(BitVector[2](v)),
    'PS': lambda v: PS(SIntVector[2](v)), 'int': lambda v: v, 'SMT': lambda v: SMTBitVector[2](v),
}
SHAPES = ['x', (), ('x',), (('x',),), ((),), ('x', 'x'), (('x',), 'x'), ('x', ('x',)), (('x', 'x'),)]
SHAPES3 = [('x', 'x', 'x'), ('x', ('x', 'x')), (('x',), ('x', ()), 'x')]


def leaves(sh):
    return 1 if sh == 'x' else sum(map(leaves, sh))


def fill(sh, kinds, vals):
    if sh == 'x':
        return KINDS[next(kinds)](next(vals))
    return tuple(fill(c, kinds, vals) for c in sh)


def compatible(kt, kf):
    """can these two leaves be the branches of one ite"""
    if kt == kf:
        return kt != 'int'
    group = {'Bit': 'b', 'MyBit': 'b', 'BV2': 'v', 'U2': 'v', 'S2': 'v'}
    return kt in group and group.get(kt) == group.get(kf)


def same(ctx, r, e, ot, of, d):
    """r has the shape and values of e, and its type where the branches agree"""
    if isinstance(e, tuple):
        ctx.check((type(r), len(r)), (tuple, len(e)), 'tuple result', d)
        for x, y, t, f in zip(r, e, ot, of):
            same(ctx, x, y, t, f, d)
        return
    if type(ot) is type(of):
        ctx.check(type(r), type(e), 'type of agreeing branches', d)
    if isinstance(e, BitVectorProtocol):
        ctx.check((type(r), type(r.v), r.v.as_uint()), (type(e), type(e.v), e.v.as_uint()), 'protocol result', d)
    elif isinstance(e, SMTBitVector):
        ctx.check(r.value is e.value, True, 'symbolic branch', d)
    else:
        ctx.check(value(r), value(e), 'leaf of a tuple result', d)


def tuples(ctx, tshape, fshapes, kinds):
    nt = leaves(tshape)
    for fshape in fshapes:
        nf = leaves(fshape)
        for kt in it.product(kinds, repeat=nt):
            for kf in it.product(kinds, repeat=nf):
                t = fill(tshape, iter(kt), iter((3, 1, 2)))
                f = fill(fshape, iter(kf), iter((0, 2, 1)))
                ok = tshape == fshape and all(compatible(a, b) for a, b in zip(kt, kf))
                ctx.states += 1
                for s in (0, 1):
                    d = lambda: f'Bit({s}).ite({tshape} of {kt}, {fshape} of {kf})'
                    if ok:
                        same(ctx, Bit(s).ite(t, f), t if s else f, t, f, d)
                    else:
                        ctx.raises(TypeError, lambda: Bit(s).ite(t, f), 'inconsistent branches accepted', d)
                ctx.traces += 1
    ctx.sample(f'{tshape} against {fshapes[:3]}..., leaves {kinds}')


def smt_tuples(ctx):
    """symbolic selects over nested tuples and protocols"""
    nm = lambda v: v.value.symbol_name()
    PM = protocol('PM', SMTUIntVector[2])
    s, p, q = SMTBit(), SMTBit(), SMTBit()
    a, b, c, d = SMTBitVector[2](), SMTBitVector[2](), SMTSIntVector[2](), SMTUIntVector[2]()
    u, v = SMTUIntVector[2](), SMTUIntVector[2]()
    mk = [lambda: (p, q), lambda: (a, b), lambda: (c, d), lambda: (PM(u), PM(v)), lambda: (b, c)]

    def run(what, r, t, f, names):
        if isinstance(t, tuple):
            ctx.check((type(r), len(r)), (tuple, len(t)), 'tuple result', what)
            for i in range(len(t)):
                run(f'{what}.{i}', r[i], t[i], f[i], names)
            return
        if isinstance(t, BitVectorProtocol):
            ctx.check(type(r), type(t), 'protocol result', what)
            r, t, f = r.v, t.v, f.v
        if type(t) is type(f):
            ctx.check(type(r), type(t), 'type of agreeing branches', what)
        g, gt, gf = (smteval.compile_term(x.value)[1] for x in (r, t, f))
        ns = sorted(set().union(*(smteval.compile_term(x.value)[0] for x in (r, t, f))) | {nm(s)})
        w = {nm(x): 1 if isinstance(x, SMTBit) else 2 for x in (s, p, q, a, b, c, d, u, v)}
        for vs in it.product(*(range(1 << w[k]) for k in ns)):
            e = dict(zip(ns, vs))
            ctx.states += 1
            ctx.check(g(e), gt(e) if e[nm(s)] else gf(e), 'pysmt tuple result', lambda: f'{what} under {e}')
        ctx.traces += 1

    for k in (1, 2, 3):
        for combo in it.product(mk, repeat=k):
            pairs = [m() for m in combo]
            t, f = tuple(x for x, _ in pairs), tuple(y for _, y in pairs)
            run(f'tuple of {k}', s.ite(t, f), t, f, None)
            if k == 2:
                t2, f2 = (t[0], (t[1],)), (f[0], (f[1],))
                run('nested tuple', s.ite(t2, f2), t2, f2, None)
    bad = [(p, a), (a, SMTBitVector[3]()), (a, (a,)), ((a, b), (a,)), (PM(u), u), (c, SMTUIntVector[1]()), (a, 1),
           (BitVector[2](1), a), ((a, p), (p, a)), (Bit(1), p)]
    for t, f in bad:
        for x, y in ((t, f), (f, t)):
            ctx.raises(TypeError, lambda: s.ite(x, y), 'inconsistent branches accepted', lambda: f's.ite({x}, {y})')
            ctx.state((str(x), str(y)))


def selects(ctx):
    """vectors as selects"""
    for n in (1, 2, 3, 8, 33):
        for T in CONC:
            for v in bvref.corner_values(n):
                for t, f in ((BitVector[2](1), BitVector[2](2)), (Bit(1), Bit(0)), ((Bit(0), SIntVector[2](1)), (Bit(1), SIntVector[2](3))),
                             (P1(BitVector[2](3)), P1(BitVector[2](1)))):
                    d = lambda: f'{T.__name__}[{n}]({v}).ite'
                    same(ctx, T[n](v).ite(t, f), t if v else f, t, f, d)
                r = T[n](v).ite(SIntVector[3](-1), UIntVector[3](5))
                ctx.check(value(r >> 1), value((SIntVector[3](-1) if v else UIntVector[3](5)) >> 1), 'vector as select', lambda: f'{T.__name__}[{n}]({v})')
                ctx.raises(TypeError, lambda: T[n](v).ite(BitVector[2](1), BitVector[3](1)), 'inconsistent branches accepted', 'vector select')
                ctx.states += 1
        ctx.traces += 1
    for n in (1, 2, 3, 4):
        for T in SMT:
            x, a, b = T[n](), SMTSIntVector[2](), SMTUIntVector[2]()
            kx, ka, kb = (w.value.symbol_name() for w in (x, a, b))
            for r, m in ((x.ite(a, b), lambda av, bv, xv: av if xv else bv),
                         (x.ite(a, b) >> 1, lambda av, bv, xv: bvref.bvashr(2, av, 1) if xv else bv >> 1),
                         (x.ite((a, b), (b, a))[1], lambda av, bv, xv: bv if xv else av)):
                g = smteval.compile_term(r.value)[1]
                for xv in range(1 << n):
                    for av in range(4):
                        for bv in range(4):
                            ctx.check(g({kx: xv, ka: av, kb: bv}), m(av, bv, xv), 'pysmt vector as select', lambda: f'{T.__name__}[{n}] x={xv} a={av} b={bv}')
                            ctx.states += 1
            ctx.traces += 1
    for B in (Bit, MyBit):
        for s in (0, 1):
            for a in (0, 1):
                for b in (0, 1):
                    for A in (Bit, MyBit):
                        for C in (Bit, MyBit):
                            r = B(s).ite(A(a), C(b))
                            ctx.check(int(r), a if s else b, 'Bit ite', f'{B}({s}).ite({A}({a}), {C}({b}))')
                            ctx.check(isinstance(r, Bit), True, 'Bit ite type', '')
                            if A is C:
                                ctx.check(type(r), A, 'Bit ite type', f'{A}')
                            for k, g in OPS.items():
                                if k in ('&', '|', '^', '==', '!='):
                                    for c in (0, 1):
                                        ctx.check(int(g(r, Bit(c))), int(g(A(a) if s else C(b), Bit(c))), 'Bit ite operator', f'{k}')
                            ctx.states += 1


def twins(k, U=UIntVector, S=SIntVector):
    """two user types; those of every k have the same names"""
    class V(U):
        def __add__(self, other):
            return self.bvadd(type(self)(k))

        def f(self):
            return self.bvxor(type(self)(k))

    class W(S):
        def __add__(self, other):
            return self.bvsub(type(self)(k))

        def f(self):
            return self.bvmul(type(self)(k + 1))
    return V, W


TWIN_OPS = {'+ 1': lambda x: x + 1, 'f': lambda x: x.f(), '>> 1': lambda x: x >> 1, '< 0': lambda x: x < 0}


def shared(ctx, depth):
    """mixed results of types with the same names, all alive at once, and then of types made and dropped"""
    fam = [twins(k) for k in range(3)]
    acts = list(it.product(range(3), (0, 1), (0, 1)))
    for h in it.chain.from_iterable(it.product(acts, repeat=d) for d in range(1, depth + 1)):
        made = []
        for i, (k, s, swap) in enumerate(h):
            t, f = fam[k][swap][3](3 + i), fam[k][1 - swap][3](5 - i)
            made.append((Bit(s).ite(t, f), t if s else f))
        ctx.states += 1
        for i, (r, e) in enumerate(made):
            for name, g in TWIN_OPS.items():
                ctx.check(value(g(r)), value(g(e)), 'types of the same name', lambda: f'selects {h}: {name} of result {i}')
            ctx.check([isinstance(r, U[3]) for U in (BitVector, NumVector)], [True, True], 'types of the same name', lambda: f'{h}')
        ctx.traces += 1
    for k in range(40):
        V, W = twins(k)
        for s in (0, 1):
            for swap in (0, 1):
                t, f = ((V, W)[swap])[4](k), ((W, V)[swap])[4](k + 1)
                r, e = Bit(s).ite(t, f), t if s else f
                for name, g in TWIN_OPS.items():
                    ctx.check(value(g(r)), value(g(e)), 'types made and dropped', lambda: f'types {k}, select {s}: {name}')
                ctx.states += 1
        del V, W, t, f, r, e
        if k % 3 == 0:
            gc.collect()
    ctx.sample(f'{h}')


def classes(base, kind):
    """user types over base: {name: (class, its user ancestors)}"""
    def new(name, bases, k, method=True):
        ns = {}
        if method:
            ns = {'__add__': lambda self, o, k=k: self.bvadd(self.bvadd(k)), '__lt__': lambda self, o, k=k: self.bvugt(k),
                  'own': lambda self, k=k: self.bvxor(k)}
            for m, f in ns.items():
                f.__name__, f.__qualname__ = m, f'{name}.{m}'
            ns['__hash__'] = base.__hash__
        return type(base)(name, bases, dict(ns, __module__='user', __qualname__=name))
    A = new('A', (base,), 1)
    B = new('B', (base,), 2)
    if kind == 'flat':
        return [A, B, base]
    if kind == 'namesakes':
        # as from a function that makes a class, or a module loaded twice
        return [A, new('A', (base,), 3), new('A', (base,), 5), new('A', (A,), 6), new('A', (B,), 7), B]
    if kind == 'chain':
        C = new('C', (A,), 3)
        D = new('D', (C,), 3, False)
        return [A, C, D, B, base, new('E', (A,), 5)]
    if kind == 'diamond':
        C, D, E = new('C', (A, B), 3), new('D', (A, B), 4), new('E', (B, A), 6, False)
        return [C, D, E, A, B, new('F', (C,), 7), new('G', (D,), 7, False)]
    M1, M2 = type('M1', (), {'own': lambda self: self.bvnot()}), type('M2', (), {'__add__': lambda self, o: self.bvsub(o)})
    C, D = new('C', (M1, base), 3, False), new('D', (M1, M2, base), 3, False)
    return [C, D, new('E', (M2, A), 5, False), new('F', (A, M1), 6, False), new('G', (M2, B, A), 7)]


def hierarchies(ctx, base, kind):
    """branches of every pair of types of a family of user types"""
    cs = classes(base, kind)
    sym = issubclass(base, SMTBitVector)
    n = 3
    ops = {'+ 1': lambda x: x + 1, '< 3': lambda x: x < 3, '>> 1': lambda x: x >> 1, '~': lambda x: ~x, '- 1': lambda x: x - 1, '== 2': lambda x: x == 2, '[1]': lambda x: x[1]}
    for T, F in it.product(cs, repeat=2):
        own = hasattr(T, 'own') and hasattr(F, 'own')
        todo = dict(ops, own=lambda x: x.own()) if own else ops
        if sym:
            b, t, f = SMTBit(), T[n](), F[n]()
            trial = [(b, t, f)]
        else:
            trial = [(Bit(s), T[n](a), F[n](7 - a)) for s in (0, 1) for a in (1, 5)]
        for b, t, f in trial:
            r = b.ite(t, f)
            d = f'{kind} over {base.__name__}: ite({T.__name__}, {F.__name__})'
            ctx.states += 1
            if T is F:
                ctx.check(type(r), T[n], 'ite type', d)
            for U in cs + [base]:
                if issubclass(T, U) and issubclass(F, U):
                    ctx.check((isinstance(r, U), isinstance(r, U[n])), (True, True), 'mixed result type', lambda: f'{d} is a {U.__name__}')
            ctx.check(r.size, n, 'width', d)
            for name, g in todo.items():
                if sym:
                    x, y, z = (smteval.compile_term(g(v).value)[1] for v in (r, t, f))
                    names = [v.value.symbol_name() for v in (b, t, f)]
                    for e in it.product((0, 1), range(8), range(0, 8, 3)):
                        e = dict(zip(names, e))
                        ctx.check(x(e), y(e) if e[names[0]] else z(e), 'operator on a mixed result', lambda: f'{name} of {d} under {e}')
                else:
                    ctx.check(value(g(r)), value(g(t if b else f)), 'operator on a mixed result', lambda: f'{name} of {d} {b} {t!r} {f!r}')
            # and within a tuple, and selected again
            q = (SMTBit() if sym else Bit(1)).ite((r, t), (f, t))
            ctx.check((len(q), type(q[1])), (2, T[n]), 'tuple result', d)
        ctx.traces += 1


def large(ctx):
    """long and deep tuples; wide selects and branches"""
    def tup(n, k):
        return tuple((BitVector[5](i * 3 + k), Bit((i + k) & 1), SIntVector[3](i ^ k), UIntVector[i + 1](k), P1(BitVector[2](i + k)))[i % 5] for i in range(n))

    def nest(depth, wide, k):
        x = tup(2, k)
        for i in range(depth):
            x = tup(wide, k + i)[:i % (wide + 1)] + (x,) + tup(wide, k - i)[:(i + 1) % (wide + 1)]
        return x
    cases = [(tup(n, 0), tup(n, 1)) for n in (*range(18), 20, 24, 31, 32, 33, 40, 64, 65, 100, 129, 257)]
    cases += [(nest(d, w, 0), nest(d, w, 1)) for d in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33, 40) for w in (0, 1, 2, 9)]
    for t, f in cases:
        for s in (0, 1):
            ctx.state((len(t), s))
            same(ctx, Bit(s).ite(t, f), t if s else f, t, f, lambda: f'Bit({s}).ite of tuples of {len(t)}')
            if len(t):
                bad = f[:-1] + (BitVector[77](0),)
                ctx.raises(TypeError, lambda: Bit(s).ite(t, bad), 'inconsistent branches accepted', lambda: f'the last of {len(t)}')
                ctx.raises(TypeError, lambda: Bit(s).ite(t, f[:-1]), 'inconsistent branches accepted', lambda: f'{len(t)} and one less')
                ctx.raises(TypeError, lambda: Bit(s).ite(t + (Bit(0),), f), 'inconsistent branches accepted', lambda: f'{len(t)} and one more')
        ctx.traces += 1
    # the same, symbolic: one select, constant branches read under both values
    b = SMTBit()
    nb = b.value.symbol_name()
    for n in (1, 2, 7, 8, 9, 10, 16, 17, 33, 65):
        t = tuple((SMTBitVector[6](i % 64), SMTBit(i & 1), SMTSIntVector[3](i % 8))[i % 3] for i in range(n))
        f = tuple((SMTBitVector[6](63 - i % 64), SMTBit(~i & 1), SMTUIntVector[3](7 - i % 8))[i % 3] for i in range(n))
        r = b.ite(t, f)
        ctx.check((type(r), len(r)), (tuple, n), 'tuple result', n)
        for i in range(n):
            g = smteval.compile_term(r[i].value)[1]
            for s in (0, 1):
                ctx.check(g({nb: s}), int((t if s else f)[i].value.constant_value()), 'pysmt tuple result', lambda: f'leaf {i} of {n}, select {s}')
        ctx.traces += 1
    # selects of every width, one bit set in each place
    for n in (*range(1, 20), 31, 32, 33, 40, 63, 64, 65, 66, 100, 127, 128, 129, 200, 256, 257):
        places = {0, *(1 << i for i in range(n)), (1 << n) - 1, (1 << n) - 2}
        for v in places:
            ctx.states += 1
            for T in CONC[:3]:
                ctx.check(int(T[n](v).ite(BitVector[2](1), BitVector[2](2))), 1 if v else 2, 'vector as select', lambda: f'{T.__name__}[{n}]({v})')
            x = SMT[v % 3][n](v).ite(SMTBitVector[2](1), SMTBitVector[2](2))
            ctx.check(smteval.compile_term(x.value)[1]({}), 1 if v else 2, 'pysmt vector as select', lambda: f'width {n}, {v}')
        for T in SMT[:3]:
            x = T[n]()
            g = smteval.compile_term(x.ite(SMTBitVector[2](1), SMTBitVector[2](2)).value)[1]
            k = x.value.symbol_name()
            for v in places:
                ctx.check(g({k: v}), 1 if v else 2, 'pysmt vector as select', lambda: f'{T.__name__}[{n}], {v}')
        ctx.traces += 1
    # mixed branches of every width
    for n in (*range(4, 18), 24, 31, 32, 33, 63, 64, 65, 100, 128, 129, 257):
        vs = bvref.corner_values(n)
        for i, a in enumerate(vs):
            c = vs[i - 1]
            for T, F in it.permutations(CONC[:3], 2):
                for s in (0, 1):
                    r, e = Bit(s).ite(T[n](a), F[n](c)), T[n](a) if s else F[n](c)
                    ctx.states += 1
                    for name in ('>>', '//', '%', '<', '>=', '+', '*', '==', '<<'):
                        for y in (1, 3, -1, BitVector[n](c)):
                            ctx.check(value(OPS[name](r, y)), value(OPS[name](e, y)), 'operator on a mixed result', lambda: f'width {n}: {e!r} {name} {y!r}')
                    for name in ('ext', 'sext', 'x[0]', 'neg', '~'):
                        ctx.check(value(UN[name](r)), value(UN[name](e)), 'operator on a mixed result', lambda: f'width {n}: {name} {e!r}')
                    ctx.check((value(r), type(Bit(s).ite(T[n](a), T[n](c)))), (value(e), T[n]), 'ite value', lambda: f'width {n}')
        ctx.traces += 1


def deep_bits(p, q, a, b):
    """two selects that agree but for a leaf deep down, and simple ones"""
    def deep(x):
        for i in range(12):
            x = (x & (a ^ p)) | (b if i % 2 else q) if i % 3 else (x | a) ^ b
        return x
    return {'p': p, 'q': q, '~p': ~p, 'p & q': p & q, 'deep p': deep(p), 'deep q': deep(q), 'True': SMTBit(True), 'False': SMTBit(False)}


def smt_shared(ctx, n1):
    """two mixed results of the same types, with every pair of selects"""
    fam = [twins(k, SMTUIntVector, SMTSIntVector) for k in (1, 2)]
    p, q, a, b = (SMTBit() for _ in range(4))
    sel = deep_bits(p, q, a, b)
    bits = [x.value.symbol_name() for x in (p, q, a, b)]
    vals = {(k, s): fam[k][s][2]() for k in (0, 1) for s in (0, 1)}
    names = [v.value.symbol_name() for v in vals.values()]
    envs = [dict(zip(bits + names, e)) for e in it.product(*[(0, 1)] * 4, *[(1, 2)] * 4)]
    s1 = sel[n1]
    for n2, s2 in sel.items():
        for k1, w1, k2, w2 in it.product((0, 1), repeat=4):
            made = [(n, s, s.ite(vals[k, w], vals[k, 1 - w]), vals[k, w], vals[k, 1 - w]) for n, s, k, w in ((n1, s1, k1, w1), (n2, s2, k2, w2))]
            ctx.states += 1
            for n, s, r, t, f in made:
                gs = smteval.compile_term(s.value)[1]
                for name, g in TWIN_OPS.items():
                    x, y, z = (smteval.compile_term(g(v).value)[1] for v in (r, t, f))
                    for e in envs:
                        ctx.check(x(e), y(e) if gs(e) else z(e), 'selects of the same types', lambda: f'selects {n1}, {n2}, families {k1}, {k2}: {name} of the one by {n} under {e}')
            ctx.traces += 1


def one_object(ctx, kind):
    """branches in which one object stands in several places, or in both"""
    smt = kind.startswith('smt')
    if kind == 'vectors':
        pool = [BitVector[3](1), BitVector[3](2), BitVector[3](1)]
    elif kind == 'mixed vectors':
        pool = [BitVector[3](1), SIntVector[3](6)]
    elif kind == 'bits':
        pool = [Bit(0), Bit(1), Bit(1)]
    elif kind == 'protocols':
        pool = [P1(BitVector[2](1)), P1(BitVector[2](2)), P1(BitVector[2](1))]
    elif kind == 'smt':
        pool = [SMTBitVector[1](), SMTBitVector[1](1), SMTBitVector[1]()]
    elif kind == 'smt mixed':
        pool = [SMTBitVector[2](), SMTSIntVector[2](2)]
    else:
        pool = [SMTBit(), SMTBit(1), SMTBit()]
    if smt:
        names = [v.value.symbol_name() for v in pool if v.value.is_symbol()]
        envs = [dict(zip(names, e)) for e in it.product((0, 1) if kind != 'smt mixed' else (0, 3), repeat=len(names))]
        selects = [SMTBit(), SMTBit(0), SMTBit(1)] + ([pool[0], ~pool[0]] if kind == 'smt bits' else [])
    else:
        selects = [Bit(0), Bit(1)] + ([pool[0], pool[1]] if kind == 'bits' else [])

    def shapes(k):
        a = pool[:k]
        pairs = list(it.product(a, repeat=2))
        yield [(x, y) for x, y in pairs]
        yield [(x, y, z) for x, y, z in it.product(a, repeat=3)]
        yield [((x, y), z) for (x, y), z in it.product(pairs, a)]
        # one tuple object in two places
        yield [(p, q) for p, q in it.product(pairs[:5] + pairs[-1:], repeat=2)]
        yield [(p, (p, x), p) for p in pairs for x in a]
        yield [(x,) * 6 + (y,) for x, y in pairs] + [(x, y) * 3 + (x,) for x, y in pairs] + [(x,) + (y, y, x) * 2 for x, y in pairs]

    compiled = {}

    def run(x):
        if x.value not in compiled:
            compiled[x.value] = smteval.compile_term(x.value)[1]
        return compiled[x.value]

    def go(s, r, t, f, d):
        if isinstance(t, tuple):
            ctx.check((type(r), len(r)), (tuple, len(t)), 'tuple result', d)
            for x, y, z in zip(r, t, f):
                go(s, x, y, z, d)
            return
        if type(t) is type(f):
            ctx.check(type(r), type(t), 'type of agreeing branches', d)
        ctx.transitions += 1
        if smt:
            gs, g, gt, gf = (run(x) for x in (s, r, t, f))
            sn = [s.value.symbol_name()] if s.value.is_symbol() else []
            for e in envs:
                for b in (0, 1) if sn and sn[0] not in e else (0,):
                    e2 = {**{n: b for n in sn}, **e}
                    ctx.check(g(e2), gt(e2) if gs(e2) else gf(e2), 'one object in several places', lambda: f'{d()} under {e2}')
        elif isinstance(t, P1):
            ctx.check(value(r.v), value((t if s else f).v), 'one object in several places', d)
        else:
            ctx.check(value(r), value(t if s else f), 'one object in several places', d)

    for sh in shapes(len(pool)):
        for t, f in it.product(sh, repeat=2) if len(sh) < 80 else it.chain(it.product(sh[::3], sh), ((t, t) for t in sh)):
            ctx.states += 1
            for s in selects:
                go(s, s.ite(t, f), t, f, lambda: f'{s!r}.ite({t}, {f})')
        ctx.traces += 1


def jobs(tier):
    deep = tier == 'thorough'
    out = [Job('selects', selects), Job('branches of width 0', zero, weight=2), Job('pysmt tuples', smt_tuples, weight=4),
           Job('types of the same name', shared, 3 if deep else 2, weight=6)]
    out += [Job(f'selects of the same types, {k}', smt_shared, k, weight=4)
            for k in ('p', 'q', '~p', 'p & q', 'deep p', 'deep q', 'True', 'False')]
    out.append(Job('long and deep tuples, wide selects and branches', large, weight=20))
    out += [Job(f'one object in several places, {k}', one_object, k, weight=8) for k in ('vectors', 'mixed vectors', 'bits', 'protocols', 'smt', 'smt mixed', 'smt bits')]
    for base in (BitVector, UIntVector, SIntVector, SMTBitVector, SMTUIntVector, SMTSIntVector):
        for kind in ('flat', 'chain', 'diamond', 'mixins', 'namesakes'):
            out.append(Job(f'{kind} user types over {base.__name__}', hierarchies, base, kind, weight=5))
    for n in (1, 2, 3) + ((4,) if deep else ()):
        for T in CONC:
            for F in CONC:
                out.append(Job(f'{T.__name__}[{n}] or {F.__name__}[{n}]', mixed, n, T, F, n == 2 or deep and n < 4, weight=4 ** n))
    for n in (1, 2) + ((3,) if deep else ()):
        for T in SMT:
            for F in SMT:
                out.append(Job(f'{T.__name__}[{n}] or {F.__name__}[{n}]', smt_mixed, n, T, F, n < 3, weight=3 ** n))
    nt = CONC if deep else CONC[:3]
    for i, vals in enumerate(((7, 6, 5, 4), (1, 7, 7, 2), (4, 4, 3, 7))):
        out.append(Job(f'nested selects {i}', nested, nt, 3, vals, weight=10))
    out.append(Job('nested selects, user types', nested, (UIntVector, MyU, MyS), 3, (7, 4, 6, 5), weight=10))
    ks = list(KINDS)
    few = ['Bit', 'BV1', 'BV2', 'S2', 'P1', 'P2', 'int']
    for sh in SHAPES:
        out.append(Job(f'tuple shape {sh}', tuples, sh, SHAPES if leaves(sh) < 2 else [s for s in SHAPES if leaves(s) < 2 or s == sh], ks, weight=6))
        if leaves(sh) == 2:
            out.append(Job(f'tuple shape {sh} against others', tuples, sh, [s for s in SHAPES if leaves(s) == 2 and s != sh], few, weight=6))
    for sh in SHAPES3:
        out.append(Job(f'tuple shape {sh}', tuples, sh, SHAPES3 if deep else [sh], ['Bit', 'BV2', 'S2', 'P1', 'BV1'], weight=8))
    return out
