"""C21: SMTInt is integer arithmetic and reads vectors as signed or unsigned.

Every expression up to a depth over symbols, constants and vectors, evaluated
under every assignment of a small domain plus large values, against Python
integers (division: the remainder is non-negative).
"""
import itertools as it
import operator

import smteval
from core import Job, attempt
from hwtypes import Bit, BitVector, SIntVector, SMTBit, SMTBitVector, SMTInt, SMTSIntVector, SMTUIntVector

PROP = 'C21'
SPACE = {
    'quick': 'as_uint, as_sint and SMTInt of every constant and of symbols, slices and sums of 3 families at widths 1-8, 31-33, 64, 70, and of 9 widths in turn in one process (3 orders); '
             'readings before and after all assignments of two bits at widths 1-4; every '
             'expression of 1 operator over 31 operands (symbols, SMTInt and int constants to 10^20, vectors in 3 families and readings) and of 2 '
             'operators over 13 in both nestings, of 3 operators over 5; assignments: symbols -4..4 and +-(10^20+1), every vector value',
    'thorough': 'as quick with 2 operators over 19 operands, 3 over 7, constants at widths 1-10',
}
ASSUMPTIONS = ['terms are evaluated by mc/smteval.py (SMT-LIB semantics on ints), not by a solver', 'assignments under which a divisor is zero are left out: SMT-LIB leaves '
               'the quotient open']
DOM = (-4, -3, -2, -1, 0, 1, 2, 3, 4, 10 ** 20 + 1, -(10 ** 20) - 1)
BIN = {
    '+': (lambda a, b: a + b, lambda a, b: a + b), '-': (lambda a, b: a - b, lambda a, b: a - b), '*': (lambda a, b: a * b, lambda a, b: a * b),
    '//': (lambda a, b: a // b, lambda a, b: smteval.int_div(a, b)),
    '<': (lambda a, b: a < b, lambda a, b: a < b), '<=': (lambda a, b: a <= b, lambda a, b: a <= b), '>': (lambda a, b: a > b, lambda a, b: a > b),
    '>=': (lambda a, b: a >= b, lambda a, b: a >= b), '==': (lambda a, b: a == b, lambda a, b: a == b), '!=': (lambda a, b: a != b, lambda a, b: a != b),
}
AUG = {'+=': operator.iadd, '-=': operator.isub, '*=': operator.imul, '//=': operator.ifloordiv}
ARITH = ('+', '-', '*', '//')


class E:
    """a real operand with its model: fn(env) -> int; kind: what it is in Python"""
    __slots__ = ('obj', 'fn', 'name', 'vars')

    def __init__(self, obj, fn, name, vs=()):
        self.obj, self.fn, self.name, self.vars = obj, fn, name, tuple(vs)


def tosigned(n, v):
    return v - (1 << n) if v >> (n - 1) else v


class World:
    def __init__(self):
        self.dom = {'x': DOM, 'y': DOM}
        self.sym = {n: SMTInt(name=n) for n in 'xy'}
        self.vec = {}

    def vector(self, fam, n, v='v'):
        name = f'{v}{fam.__name__}{n}'
        if name not in self.vec:
            self.vec[name] = fam[n](name=name)
            self.dom[name] = tuple(range(1 << n)) if n <= 5 else (0, 1, 2, (1 << n) - 1, (1 << n) - 2, 1 << (n - 1), (1 << (n - 1)) - 1, (1 << (n - 1)) + 1)
        return self.vec[name], name

    def leaf(self, what, *args):
        if what == 'sym':
            n, = args
            return E(self.sym[n], lambda env: env[n], n, [n])
        if what == 'const':
            return E(SMTInt(args[0]), lambda env, k=args[0]: int(k), f'SMTInt({args[0]})')
        if what == 'int':
            return E(args[0], lambda env, k=args[0]: int(k), repr(args[0]))
        fam, n, reading = args
        v, name = self.vector(fam, n)
        get = lambda env: env[name]
        if reading == 'sint':
            return E(v.as_sint(), lambda env: tosigned(n, env[name]), f'{name}.as_sint()', [name])
        if reading == 'uint':
            return E(v.as_uint(), get, f'{name}.as_uint()', [name])
        if reading == 'SMTInt':
            return E(SMTInt(v), get, f'SMTInt({name})', [name])
        return E(v, get, name, [name])          # the vector itself, next to an SMTInt

    def combine(self, op, a, b):
        r, m = (AUG[op], BIN[op[:-1]][1]) if op in AUG else BIN[op]
        return E(attempt(r, a.obj, b.obj), lambda env: m(a.fn(env), b.fn(env)), f'({a.name} {op} {b.name})', sorted({*a.vars, *b.vars}))

    def verify(self, ctx, op, e, dom=None):
        """e.obj is an outcome; returns e with the object when it is an SMTInt"""
        ctx.states += 1
        if e.obj[0] != 'ok':
            ctx.fail('exception', f'{e.name}: {e.obj[1]}')
            return None
        r = e.obj[1]
        want = SMTInt if op in (*ARITH, *AUG, 'neg', 'read') else SMTBit
        if type(r) is not want:
            ctx.fail('type', f'{e.name}: {type(r)} {r!r}')
            return None
        names, fn = smteval.compile_term(r.value)
        if not names <= set(e.vars):
            ctx.fail('foreign variable', f'{e.name}: {names}')
            return None
        for vals in it.product(*(self.dom[n] if dom is None else dom(n, self.dom[n]) for n in e.vars)):
            env = dict(zip(e.vars, vals))
            try:
                w = e.fn(env)
            except ZeroDivisionError:
                continue
            ctx.transitions += 1
            g = fn(env)
            if g != int(w):
                ctx.fail('value', f'{e.name} with {env}: expected {w}, got {g} ({r.value})')
                break
        return E(r, e.fn, e.name, e.vars)


FAMS = (SMTBitVector, SMTUIntVector, SMTSIntVector)


def operands(w, n):
    out = [w.leaf('sym', 'x'), w.leaf('const', -2), w.leaf('int', 3), w.leaf('vec', SMTSIntVector, 2, 'sint'), w.leaf('int', -1)]
    if n > 5:
        out += [w.leaf('sym', 'y'), w.leaf('const', 0)]
    if n > 7:
        out += [w.leaf('const', 1), w.leaf('vec', SMTBitVector, 1, 'sint'), w.leaf('vec', SMTUIntVector, 3, 'uint'), w.leaf('int', 0), w.leaf('int', -10 ** 20 - 7),
                w.leaf('const', 10 ** 20 + 1)]
    if n > 13:
        out += [w.leaf('int', True), w.leaf('vec', SMTSIntVector, 2, 'vector'), w.leaf('vec', SMTBitVector, 3, 'SMTInt'), w.leaf('int', 1), w.leaf('const', 7), w.leaf('const', -1)]
    if n > 19:
        out += [w.leaf('vec', SMTUIntVector, 2, 'vector'), w.leaf('vec', SMTBitVector, 2, 'vector'), w.leaf('int', 2), w.leaf('int', (1 << 53) + 1), w.leaf('const', -(1 << 64) - 3),
                w.leaf('vec', SMTSIntVector, 4, 'uint'), w.leaf('vec', SMTSIntVector, 3, 'SMTInt'), w.leaf('int', BitVector[3](5)), w.leaf('int', SIntVector[3](-3)),
                w.leaf('const', BitVector[4](9)), w.leaf('const', SIntVector[4](-7)), w.leaf('const', False)]
    return out


def usable(a, b):
    return isinstance(a.obj, SMTInt) or isinstance(b.obj, SMTInt)


def one(ctx):
    w = World()
    ops = operands(w, 99)
    for a, b in it.product(ops, repeat=2):
        if usable(a, b):
            for op in (*BIN, *AUG):
                w.verify(ctx, op, w.combine(op, a, b))
    for a in ops:
        if isinstance(a.obj, SMTInt):
            w.verify(ctx, 'neg', E(attempt(lambda: -a.obj), lambda env: -a.fn(env), f'(-{a.name})', a.vars))
    # the operands are still what they were
    for a in ops:
        if isinstance(a.obj, SMTInt):
            w.verify(ctx, 'read', E(('ok', a.obj), a.fn, a.name, a.vars))
    for a in ops:
        if isinstance(a.obj, SMTInt):
            for bad in ('a', None, [], (1,), object(), 'x'):
                for op in ('+', '-', '*', '//', '<', '<=', '>', '>='):
                    ctx.raises(TypeError, lambda: BIN[op][0](a.obj, bad), 'foreign operand', f'{a.name} {op} {bad!r}')
                    ctx.raises(TypeError, lambda: BIN[op][0](bad, a.obj), 'foreign operand', f'{bad!r} {op} {a.name}')
    ctx.traces += 1
    ctx.sample(f'{len(ops)} operands, all pairs, {len(BIN)} operators')


def small(n, dom):
    return dom if n not in 'xy' else (-3, -1, 0, 2, 10 ** 20 + 1)


def two(ctx, n, part, of):
    w = World()
    ops = operands(w, n)
    inner = []
    for a, b in it.product(ops, repeat=2):
        if usable(a, b):
            for op in ARITH:
                e = w.verify(ctx, op, w.combine(op, a, b), small)
                if e is not None:
                    inner.append(e)
    inner += [w.verify(ctx, 'neg', E(attempt(lambda: -a.obj), lambda env, a=a: -a.fn(env), f'(-{a.name})', a.vars), small) for a in ops if isinstance(a.obj, SMTInt)]
    for e in inner[part::of]:
        for c in ops:
            for op in BIN:
                w.verify(ctx, op, w.combine(op, e, c), small)
                w.verify(ctx, op, w.combine(op, c, e), small)
        w.verify(ctx, 'neg', E(attempt(lambda: -e.obj), lambda env: -e.fn(env), f'(-{e.name})', e.vars), small)
    for e in inner[part::of]:
        w.verify(ctx, 'read', E(('ok', e.obj), e.fn, e.name, e.vars), small)
    ctx.traces += 1


def three(ctx, n, part, of):
    """all shapes of 3 operators: ((a b) c) d, (a b)(c d) and mirrored"""
    w = World()
    ops = operands(w, n)
    dom = lambda n, d: (-2, 0, 3) if n in 'xy' else d
    lv1 = [e for a, b in it.product(ops, repeat=2) if usable(a, b) for op in ARITH for e in [w.verify(ctx, op, w.combine(op, a, b), dom)] if e]
    for e in lv1[part::of]:
        for f in lv1:
            for op in BIN:
                w.verify(ctx, op, w.combine(op, e, f), dom)
        for c in ops:
            for op in ARITH:
                for s in (w.combine(op, e, c), w.combine(op, c, e)):
                    g = w.verify(ctx, op, s, dom)
                    if g is None:
                        continue
                    for d in ops:
                        for op2 in ('+', '-', '*', '//', '<', '>=', '=='):
                            w.verify(ctx, op2, w.combine(op2, g, d), dom)
                            w.verify(ctx, op2, w.combine(op2, d, g), dom)
    ctx.traces += 1


def vectors(ctx, fam, n, consts):
    """readings of vectors of one family and width"""
    w = World()
    v, name = w.vector(fam, n)
    u, uname = w.vector(fam, n, 'u')
    M = 1 << n
    pool = [(v, lambda env: env[name], n, [name], name), (v + u, lambda env: (env[name] + env[uname]) % M, n, sorted([name, uname]), f'{name}+{uname}'),
            (~v, lambda env: M - 1 - env[name], n, [name], f'~{name}')]
    if n > 1:
        pool.append((v[1:], lambda env: env[name] >> 1, n - 1, [name], f'{name}[1:]'))
        pool.append((v[:n - 1], lambda env: env[name] % (M >> 1), n - 1, [name], f'{name}[:-1]'))
    pool.append((v.concat(u), lambda env: env[name] | env[uname] << n, 2 * n, sorted([name, uname]), f'concat'))
    pool += [(fam[n](k), lambda env, k=k: k, n, [], f'{fam.__name__}[{n}]({k})') for k in consts]
    for obj, fn, m, vs, label in pool:
        w.verify(ctx, 'read', E(attempt(obj.as_uint), fn, f'{label}.as_uint()', vs))
        w.verify(ctx, 'read', E(attempt(obj.as_sint), lambda env: tosigned(m, fn(env)), f'{label}.as_sint()', vs))
        w.verify(ctx, 'read', E(attempt(SMTInt, obj), fn, f'SMTInt({label})', vs))
        w.verify(ctx, 'read', E(attempt(SMTInt, obj.value), fn, f'SMTInt({label}.value)', vs))
        i = attempt(lambda: SMTInt(SMTInt(obj)))
        w.verify(ctx, 'read', E(i, fn, f'SMTInt(SMTInt({label}))', vs))
        again = smteval.compile_term(obj.value)[1]
        for vals in it.islice(it.product(*(w.dom[x] for x in vs)), 64):
            env = dict(zip(vs, vals))
            ctx.check(again(env), fn(env), 'the vector changed', label)
    ctx.traces += 1


def in_turn(ctx, order):
    """vectors of many widths and families in one process"""
    for fam, n in order:
        vectors(ctx, fam, n, sorted({v % (1 << n) for v in (0, 1, 2, 3, (1 << n) - 1, 259)}))


def changed(ctx, fam, n):
    """readings of a vector before and after every assignment of a bit"""
    w = World()
    sym, name = w.vector(fam, n)
    for first in sorted({0, 5 % (1 << n), (1 << n) - 1}) + [None]:
        for hist in it.product(range(n), (0, 1), range(n), (0, 1)):
            if first is None:
                v = fam[n](sym)
                vs, fn = [name], lambda env: env[name]
            else:
                v, vs, fn = fam[n](first), [], lambda env: first
            label = f'{fam.__name__}[{n}]({"v" if first is None else first})'
            for step in (None, hist[:2], hist[2:]):
                if step is not None:
                    i, b = step
                    v[i] = b
                    fn = lambda env, fn=fn, i=i, b=b: fn(env) & ~(1 << i) | b << i
                    label += f'; [{i}] = {b}'
                w.verify(ctx, 'read', E(attempt(v.as_uint), fn, f'{label}; as_uint()', vs))
                w.verify(ctx, 'read', E(attempt(v.as_sint), lambda env: tosigned(n, fn(env)), f'{label}; as_sint()', vs))
                w.verify(ctx, 'read', E(attempt(SMTInt, v), fn, f'{label}; SMTInt', vs))
                ctx.state((fam.__name__, n, label))
        ctx.traces += 1


def jobs(tier):
    deep = tier == 'thorough'
    out = [Job('one operator', one, weight=50)]
    order = [(fam, n) for n in (1, 2, 3, 4, 8, 12, 32, 64, 70) for fam in FAMS]
    for k, o in enumerate((order, order[::-1], sorted(order, key=lambda p: p[0].__name__))):
        out.append(Job(f'vectors in turn, order {k + 1}', in_turn, o, weight=20))
    for fam in FAMS:
        for n in (1, 2, 3, 4):
            out.append(Job(f'bits assigned, {fam.__name__}[{n}]', changed, fam, n, weight=5 * n))
    for p in range(16):
        out.append(Job(f'two operators {p}', two, 19 if deep else 13, p, 16, weight=60))
    for p in range(16):
        out.append(Job(f'three operators {p}', three, 7 if deep else 5, p, 16, weight=50))
    for fam in FAMS:
        for n in [*range(1, 11 if deep else 9), 31, 32, 33, 64, 70]:
            consts = range(1 << n) if n <= 10 else (0, 1, (1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1, (1 << (n - 1)) + 1)
            out.append(Job(f'vectors {fam.__name__}[{n}]', vectors, fam, n, consts, weight=10))
    return out
