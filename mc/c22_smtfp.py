"""C22: SMTFPVector operations are uninterpreted functions of their operands.

Every operation and operand order over several types, nested up to a depth,
against a model whose terms are App(type, operation, arguments); the checker
keeps the correspondence between (type, operation, result width) and pysmt
function symbols and requires it to stay one to one.
"""
import gc
import itertools as it
import operator

import pysmt.operators as op
import pysmt.shortcuts as smt
from pysmt.typing import BOOL, BVType

from core import Job, attempt
from hwtypes import RoundingMode, SMTBit, SMTBitVector, SMTFPVector, SMTSIntVector, SMTUIntVector

PROP = 'C22'
SPACE = {
    'quick': '9 bound types (three of the same size, subclasses, two of the same name) x 24 operations, 13 operators and 2 conversions to 6 widths, on 5 operand terms in every '
             'order; every nesting of 2 operations over 4 types; 3 over three; the same for 11 formats of 3 to 631 bits with neighbours; constants of every pattern up to 8 bits, every power of two and mask above; every order of creating, using '
             'and dropping 4 types, depth 4',
    'thorough': 'as quick, 3 nested operations over 6 types, histories of depth 5',
}
ASSUMPTIONS = ['equal terms are the same pysmt node (hash consing)', 'operands of another SMTFPVector type are not covered']
BV, BIT = 'fp', 'bit'
SIGS = {n: (k, BV) for k, ns in {1: ('fp_abs', 'fp_neg', 'fp_sqrt', 'fp_round_to_integral'),
                                 2: ('fp_add', 'fp_sub', 'fp_mul', 'fp_div', 'fp_rem', 'fp_min', 'fp_max'), 3: ('fp_fma',)}.items() for n in ns}
SIGS.update({n: (2, BIT) for n in ('fp_leq', 'fp_lt', 'fp_geq', 'fp_gt', 'fp_eq')})
SIGS.update({n: (1, BIT) for n in ('fp_is_normal', 'fp_is_subnormal', 'fp_is_zero', 'fp_is_infinite', 'fp_is_NaN', 'fp_is_negative', 'fp_is_positive')})
OPERATORS = {
    'fp_neg': lambda a: -a, 'fp_abs': lambda a: abs(a), 'fp_add': lambda a, b: a + b, 'fp_sub': lambda a, b: a - b, 'fp_mul': lambda a, b: a * b,
    'fp_div': lambda a, b: a / b, 'fp_rem': lambda a, b: a % b, 'fp_eq': lambda a, b: a == b, 'fp_geq': lambda a, b: a >= b, 'fp_gt': lambda a, b: a > b,
    'fp_leq': lambda a, b: a <= b, 'fp_lt': lambda a, b: a < b,
}
AUG = {'fp_add': operator.iadd, 'fp_sub': operator.isub, 'fp_mul': operator.imul, 'fp_div': operator.itruediv, 'fp_rem': operator.imod}
WIDTHS = (1, 4, 5, 8, 9, 33)
PARAMS = [(3, 4, 'RNE', True), (3, 4, 'RTZ', True), (4, 3, 'RNE', True), (3, 4, 'RNE', False), (2, 1, 'RNE', True), (5, 10, 'RTP', True)]


def bound(i):
    e, m, mode, ieee = PARAMS[i]
    return SMTFPVector[e, m, RoundingMode[mode], ieee]


def subclass(T, name):
    return type(T)(name, (T,), {})


class Maps:
    """the one to one map between (type, operation, width) and function symbols"""

    def __init__(self, ctx):
        self.ctx, self.fwd, self.bwd, self.keep = ctx, {}, {}, []

    def app(self, T, name, term, args, width, detail):
        """term must be the function of (T, name, width) applied to exactly args"""
        ctx = self.ctx
        ctx.transitions += 1
        if term.node_type() != op.FUNCTION:
            ctx.fail('not a function application', f'{detail()}: {term}')
            return
        if list(term.args()) != list(args):
            ctx.fail('operands', f'{detail()}: expected {[str(a) for a in args]}, got {[str(a) for a in term.args()]}')
        f, key = term.function_name(), (T, name, width)
        if self.fwd.setdefault(key, f) is not f:
            ctx.fail('two functions for one operation', f'{detail()}: {f} and {self.fwd[key]}')
        if self.bwd.setdefault(f, key) != key:
            ctx.fail('one function for two operations', f'{detail()}: {f} is also {self.bwd[f]}')
        want = BOOL if width is None else BVType(width)
        if f.symbol_type().return_type is not want:
            ctx.fail('sort', f'{detail()}: {f.symbol_type()}')


def term_of(x):
    return x.reinterpret_as_bv().value if isinstance(x, SMTFPVector) else x.value


def run_op(m, T, name, xs, how='method'):
    """apply and verify; returns the result object"""
    n, kind = SIGS[name]
    args = [term_of(x) for x in xs]
    d = lambda: f'{T.__name__}.{name}({", ".join(str(a) for a in args)}) by {how}'
    r = getattr(xs[0], name)(*xs[1:]) if how == 'method' else OPERATORS[name](*xs)
    want = T if kind == BV else SMTBit
    if type(r) is not want:
        m.ctx.fail('type', f'{d()}: {type(r)}')
        return r
    m.app(T, name, term_of(r), args, T.size if kind == BV else None, d)
    for x, a in zip(xs, args):
        if term_of(x) is not a:
            m.ctx.fail('operand changed', d())
    return r


def convert(m, T, name, x, w):
    a = term_of(x)
    d = lambda: f'{T.__name__}.{name}({a}, {w})'
    r = getattr(x, name)(w)
    if not isinstance(r, SMTBitVector[w]):
        m.ctx.fail('type', f'{d()}: {type(r)}')
        return r
    m.app(T, name, r.value, [a], w, d)
    return r


def operands(T):
    a, b = T(), T(name=f'n{next(N)}')
    return [a, b, T(3), T.reinterpret_from_bv(SMTBitVector[T.size](a.reinterpret_as_bv() + 1)), a.fp_neg()]


N = it.count()


def everything(ctx, m, T, xs):
    for name, (n, kind) in SIGS.items():
        for args in it.product(xs, repeat=n):
            ctx.states += 1
            r = run_op(m, T, name, args)
            s = run_op(m, T, name, args)
            ctx.check(term_of(r) is term_of(s), True, 'equal applications differ', name)
            if name in OPERATORS:
                q = run_op(m, T, name, args, 'operator')
                ctx.check(term_of(r) is term_of(q), True, 'operator is not its method', lambda: f'{T.__name__} {name}')
            if name in AUG:
                ctx.check(term_of(r) is term_of(AUG[name](*args)), True, 'augmented assignment is not its method', lambda: f'{T.__name__} {name}')
    for a, b in it.product(xs, repeat=2):
        e, r = a.fp_eq(b), a != b
        ctx.check((type(r), r.value is smt.simplify(smt.Not(e.value))), (SMTBit, True), '!= is not the negation of fp_eq', lambda: f'{T.__name__}: {r}')
    for name in ('to_ubv', 'to_sbv'):
        for w in WIDTHS:
            for x in xs:
                ctx.states += 1
                r, s = convert(m, T, name, x, w), convert(m, T, name, x, w)
                ctx.check(r.value is s.value, True, 'equal applications differ', name)


def reinterpret(ctx, T):
    size = T.size
    for fam in (SMTBitVector, SMTUIntVector, SMTSIntVector):
        for t in (fam[size](), fam[size](1), fam[size]() + 1, ~fam[size]()):
            x = T.reinterpret_from_bv(t)
            y = x.reinterpret_as_bv()
            ctx.check((type(x) is T, type(y) is SMTBitVector[size], y.value is t.value), (True, True, True), 'reinterpretation', lambda: f'{T.__name__} {t}')
            z = T.reinterpret_from_bv(y)
            ctx.check(term_of(z) is t.value, True, 'reinterpretation', lambda: f'{T.__name__} {t}')
    ctx.check(term_of(T(T())).is_symbol(), True, 'copy', T.__name__)
    x = T()
    ctx.check((term_of(T(x)) is term_of(x), type(T(x)) is T), (True, True), 'copy', T.__name__)
    a, b = T(), T()
    ctx.check(term_of(a) is not term_of(b), True, 'fresh variables', T.__name__)
    ctx.check(term_of(a).symbol_type() is BVType(size), True, 'sort of a variable', T.__name__)
    ctx.raises(Exception, lambda: T.reinterpret_from_bv(SMTBitVector[size + 1](0)), 'pattern of another width', T.__name__)
    ks = range(1 << size) if size <= 8 else sorted({0, (1 << size) - 1, 12345 % (1 << size), *(1 << i for i in range(size)), *((1 << i) - 1 for i in range(size)),
                                                    *((1 << size) - (1 << i) for i in range(size)), int('5' * 400, 16) % (1 << size), int('a' * 400, 16) % (1 << size)})
    for k in ks:
        v = term_of(T(k))
        ctx.check((v.is_bv_constant(), v.is_bv_constant() and v.constant_value(), v.get_type() is BVType(size)), (True, k, True), 'constant', lambda: f'{T.__name__}({k})')
        ctx.check(term_of(T(v)) is v, True, 'constant', T.__name__)
        x = T.reinterpret_from_bv(SMTBitVector[size](k))
        ctx.check((type(x) is T, term_of(x) is v, term_of(T(x)) is v), (True, True, True), 'constant', lambda: f'{T.__name__}({k})')
        ctx.states += 1
    for bad in (1.5, 'a', None, [], SMTBit(), SMTBitVector[size](1)):
        ctx.raises(TypeError, lambda: T(bad), 'value', f'{T.__name__}({bad!r})')


def universe():
    """every type of the check, alive together"""
    ts = [bound(i) for i in range(len(PARAMS))]
    ts.append(subclass(ts[0], 'Mine'))
    ts.append(subclass(ts[0], 'Mine'))
    ts.append(subclass(ts[4], 'Mine'))
    return ts


def all_ops(ctx):
    m = Maps(ctx)
    ts = universe()
    xs = {}
    for T in ts:
        xs[T] = operands(T)
        reinterpret(ctx, T)
    # the operations twice over, the types in both orders: nothing drifts
    for T in ts + ts[::-1]:
        everything(ctx, m, T, xs[T])
    # one function per type, operation and width: 24 operations and 2 conversions of 6 widths
    ctx.check(len(m.fwd), len(ts) * (len(SIGS) + 2 * len(WIDTHS)), 'number of functions', 'all')
    ctx.check(len(m.bwd), len(m.fwd), 'number of functions', 'all')
    ctx.traces += 1
    ctx.sample(f'{len(ts)} types, {len(m.fwd)} distinct functions')


WIDE = [(8, 23, 'RNE', True), (11, 52, 'RNE', True), (11, 53, 'RTZ', True), (15, 112, 'RNE', True), (15, 63, 'RTN', False), (5, 58, 'RNE', True), (5, 57, 'RTP', True),
        (30, 600, 'RNA', True), (1, 1, 'RNE', True), (1, 30, 'RNE', False), (30, 1, 'RNE', True)]


def wide(ctx, i):
    """formats of many sizes, with the narrow ones beside them"""
    m = Maps(ctx)
    e, f, mode, ieee = WIDE[i]
    ts = [SMTFPVector[e, f, RoundingMode[mode], ieee]]
    ts += [SMTFPVector[e, f, RoundingMode[o], ieee] for o in ('RTP', 'RNA') if o != mode] + [SMTFPVector[e, f, RoundingMode[mode], not ieee], subclass(ts[0], 'Wide'), bound(0)]
    if e > 1:
        ts.append(SMTFPVector[e - 1, f + 1, RoundingMode[mode], ieee])
    xs = {T: operands(T) for T in ts}
    for T in ts:
        ctx.check(T.size, T.exponent_size + T.mantissa_size + 1, 'size', T.__name__)
        reinterpret(ctx, T)
    for T in ts + ts[::-1]:
        everything(ctx, m, T, xs[T])
        for w in (2, 3, 16, 31, 32, 64, 65, 128, 500, T.size):
            for name in ('to_ubv', 'to_sbv'):
                for x in xs[T]:
                    a, b = convert(m, T, name, x, w), convert(m, T, name, x, w)
                    ctx.check(a.value is b.value, True, 'equal applications differ', name)
                    ctx.states += 1
    ctx.traces += 1


def nested(ctx, idx, depth, part, of):
    """every nesting of operations; the term tree must be exactly the model's"""
    m = Maps(ctx)
    ts = [bound(i) for i in idx]
    for T in ts:
        a, b = T(), T()
        level = [a, b]
        names = list(SIGS)
        for dpt in range(depth):
            last = dpt == depth - 1
            new = []
            pool = level if dpt < 2 else level[part::of]
            todo = names
            for name in todo:
                n, kind = SIGS[name]
                for x in pool:
                    for rest in it.product((a, b) if dpt else level, repeat=n - 1):
                        for args in ((x,) + rest, rest + (x,)) if n > 1 and dpt else ((x,) + rest,):
                            ctx.states += 1
                            r = run_op(m, T, name, args)
                            if isinstance(r, SMTFPVector):
                                new.append(r)
            if last:
                for x in new[:200]:
                    convert(m, T, 'to_ubv', x, 4)
                    convert(m, T, 'to_sbv', x, 4)
            level = new
    ctx.traces += 1


def lifetimes(ctx, depth, part, of):
    """create, use and drop types in every order: a live type keeps its functions"""
    acts = [(k, i) for i in range(4) for k in ('use', 'drop')] + [('gc', 0)]
    made = itertools_count = it.count()
    for n, h in enumerate(it.product(acts, repeat=depth)):
        if n % of != part:
            continue
        m = Maps(ctx)
        slot = [None] * 4
        path = []
        ctx.states += 1
        for k, i in h:
            path.append(f'{k} {i}')
            if k == 'use':
                if slot[i] is None:
                    slot[i] = bound(4) if i == 0 else subclass(bound(4), 'Local') if i in (1, 2) else subclass(bound(0), 'Local')
                T = slot[i]
                x, y = T(1), T(2)
                run_op(m, T, 'fp_add', (x, y))
                run_op(m, T, 'fp_lt', (y, x))
                convert(m, T, 'to_ubv', x, 3)
            elif k == 'drop' and slot[i] is not None:
                T, slot[i] = slot[i], None
                # the model forgets the functions of a dropped type
                for key in [key for key in m.fwd if key[0] is T]:
                    del m.bwd[m.fwd.pop(key)]
                del T, key
                x = y = None
            elif k == 'gc' and n % 5 == 0:
                gc.collect()
        ctx.traces += 1


def jobs(tier):
    deep = tier == 'thorough'
    out = [Job('all operations of all types', all_ops, weight=50)]
    for i, p in enumerate(WIDE):
        out.append(Job(f'format {p}', wide, i, weight=10))
    for i in range(6):
        out.append(Job(f'two nested, {PARAMS[i]}', nested, [i], 2, 0, 1, weight=20))
    for p in range(8):
        out.append(Job(f'three nested, part {p}', nested, [0, 1, 2, 3, 4, 5] if deep else [0, 2, 4], 3, p, 8, weight=40))
    for p in range(8):
        out.append(Job(f'lifetimes {p}', lifetimes, 5 if deep else 4, p, 8, weight=30))
    return out
