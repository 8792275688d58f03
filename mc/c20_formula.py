"""C20: And/Or/Implies formulas mean what they say.

Every formula tree up to a depth and arity: truth table of to_hwtypes under
every assignment, text of serialize, purity; foreign operands in every place.
"""
import itertools as it

import pysmt.operators as op

import smteval
from core import Job
from hwtypes import Bit, BitVector, SMTBit, SMTBitVector, SMTInt, z3Bit
from hwtypes.smt_utils import And, FormulaConstructor, Implies, Or

PROP = 'C20'
SPACE = {
    'quick': 'operators over lists of up to 4 of 7 leaves (variables, negation, constants, compound terms); all trees of depth 2 with up to 2 children '
             'over 5 leaves (every child any tree of depth 1), lists of 3 trees; depth 3 with one deep child in either place; chains to depth 40; lists to 300 with one odd child in each place; leaves of up to 200 operators; each under every '
             'assignment of 3 variables; 4 indentations (the default and another in deep trees); lists to 5 over variables and their own negations; 14 foreign operands in every place of lists up to 3, and in lists to 300',
    'thorough': 'as quick with lists of 5 leaves, depth 2 over 7 leaves, and all trees of depth 3 with up to 2 children over 2 leaves',
}
ASSUMPTIONS = ['the text of a leaf is pysmt\'s own serialize(), required to be one line', 'an empty operator may print an empty line between its brackets']
NV = 3
FULL = (1 << (1 << NV)) - 1
VARMASK = [sum(1 << k for k in range(1 << NV) if k >> i & 1) for i in range(NV)]
MEMO = {}


def table(term, names):
    """truth table of a Boolean pysmt term as a bit mask over assignments"""
    if term in MEMO:
        return MEMO[term]
    k = term.node_type()
    a = [table(x, names) for x in term.args()] if k in (op.AND, op.OR, op.NOT, op.IMPLIES, op.IFF) else None
    if k == op.SYMBOL:
        r = VARMASK[names[term.symbol_name()]]
    elif k == op.BOOL_CONSTANT:
        r = FULL if term.constant_value() else 0
    elif k == op.AND:
        r = FULL
        for x in a:
            r &= x
    elif k == op.OR:
        r = 0
        for x in a:
            r |= x
    elif k == op.NOT:
        r = FULL ^ a[0]
    elif k == op.IMPLIES:
        r = (FULL ^ a[0]) | a[1]
    elif k == op.IFF:
        r = FULL ^ a[0] ^ a[1]
    else:
        used, fn = smteval.compile_term(term)
        r = 0
        for j in range(1 << NV):
            r |= fn({n: j >> i & 1 for n, i in names.items()}) << j
    MEMO[term] = r
    return r


class Tree:
    """kind in 'leaf', And, Or, Implies; model table and lines beside the real object"""
    __slots__ = ('obj', 'table', 'kind', 'kids', 'text')

    def __init__(self, kind, kids, obj, tbl, text=None):
        self.kind, self.kids, self.obj, self.table, self.text = kind, kids, obj, tbl, text


def leaves(n):
    a, b, c = (SMTBit(name=x) for x in 'pqr')
    names = {'p': 0, 'q': 1, 'r': 2}
    A, B, C = VARMASK
    ls = [('p', a, A), ('q', b, B), ('!r', ~c, FULL ^ C), ('1', SMTBit(True), FULL), ('p&q', a & b, A & B), ('0', SMTBit(0), 0), ('p xor r', a ^ c, A ^ C)]
    if n == 2:
        ls = [ls[0], ls[2]]
    return names, [Tree('leaf', (), o, t, o.value.serialize()) for _, o, t in ls[:n]]


def model(kind, kids):
    if kind is And:
        r = FULL
        for k in kids:
            r &= k.table
        return r
    if kind is Or:
        r = 0
        for k in kids:
            r |= k.table
        return r
    return (FULL ^ kids[0].table) | kids[1].table


def lines(t, prefix, indent):
    if t.kind == 'leaf':
        return [prefix + t.text]
    out = [f'{prefix}{t.kind.__name__}(']
    for i, k in enumerate(t.kids):
        sub = lines(k, prefix + indent, indent)
        if i < len(t.kids) - 1:
            sub[-1] += ','
        out += sub
    return out + [f'{prefix})']


def show(t):
    return t.text if t.kind == 'leaf' else f'{t.kind.__name__}({", ".join(map(show, t.kids))})'


def make(kind, kids):
    """the real object from the children's real objects"""
    if kind is Implies:
        return Implies(kids[0].obj, kids[1].obj), None
    given = [k.obj for k in kids]
    return kind(given), given


TEXTS = (('', '|   '), ('** ', ' '), ('', ''), ('a', 'b'))


def same_ids(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def tree(ctx, names, kind, kids, text=2):
    obj, given = make(kind, kids)
    t = Tree(kind, kids, obj, model(kind, kids))
    ctx.states += 1
    if given is not None:
        keep = list(given)
    for _ in range(2):
        r = obj.to_hwtypes()
        ctx.transitions += 1
        if not isinstance(r, SMTBit):
            ctx.fail('type', f'{show(t)}: {type(r)}')
        else:
            got = table(r.value, names)
            if got != t.table:
                ctx.fail('meaning', f'{show(t)}: expected truth table {t.table:08b}, got {got:08b} ({r})')
    for prefix, indent in TEXTS[:text] if text > 1 else (TEXTS[0], TEXTS[1 + ctx.states % 3]):
        ctx.transitions += 1
        s = obj.serialize() if (prefix, indent) == TEXTS[0] else obj.serialize(line_prefix=prefix, indent=indent)
        got = [l for l in s.split('\n') if l]
        want = [l for l in lines(t, prefix, indent) if l]
        if got != want:
            ctx.fail('text', f'{show(t)} with {prefix!r}, {indent!r}: expected {want}, got {got}')
    if given is not None:
        if not same_ids(given, keep):
            ctx.fail('the given list changed', show(t))
        given.append(given)
        given[:] = [None] * 5
        if table(obj.to_hwtypes().value, names) != t.table or obj.serialize().split('\n')[-1] != ')':
            ctx.fail('the formula follows the list it was given', show(t))
    return t


def again(ctx, names, ts):
    """using trees as children changed none of them"""
    for t in ts:
        r = t.obj if t.kind == 'leaf' else t.obj.to_hwtypes()
        ctx.check(table(r.value, names), t.table, 'a child changed', lambda: show(t))
        if t.kind != 'leaf':
            ctx.check([l for l in t.obj.serialize().split('\n') if l], lines(t, '', '|   '), 'a child changed', lambda: show(t))


def flat(ctx, arity):
    names, ls = leaves(7)
    for n in range(arity + 1):
        for kids in it.product(ls, repeat=n):
            for kind in (And, Or):
                tree(ctx, names, kind, kids, 4)
                if 1 <= n <= 2:
                    # tuples serve as well as lists
                    o = kind(tuple(k.obj for k in kids)).to_hwtypes()
                    ctx.check(table(o.value, names), model(kind, kids), 'meaning of a tuple', lambda: f'{kind} {[show(k) for k in kids]}')
            if n == 2:
                tree(ctx, names, Implies, kids, 4)
    again(ctx, names, ls)
    ctx.traces += 1


def opposites(ctx, n):
    """all lists over variables and their own negations, written in three ways"""
    names, ls = leaves(7)
    p, q = ls[0], ls[1]
    nots = [Tree('leaf', (), o, FULL ^ t.table, o.value.serialize()) for t, o in ((p, ~p.obj), (q, ~q.obj), (p, p.obj ^ 1))]
    twin = Tree('leaf', (), SMTBit(p.obj.value), p.table, p.text)
    pools = ((p, nots[0], q, ls[4], twin), (p, nots[2], q, nots[1]), (ls[3], p, ls[5], nots[0]))
    for pool in pools:
        for k in range(2, n + 1):
            for kids in it.product(pool[:4] if k > 4 else pool, repeat=k):
                for kind in (And, Or):
                    tree(ctx, names, kind, kids, 1)
        # the operators as children
        subs = [tree(ctx, names, kind, kids, 1) for kind in (And, Or, Implies) for kids in it.product(pool[:3], repeat=2)]
        for kids in it.product(subs, pool[:3], subs):
            for kind in (And, Or):
                tree(ctx, names, kind, kids, 1)
        ctx.traces += 1


def level(names, ctx, ls, arity=2):
    out = []
    for n in range(arity + 1):
        for kids in it.product(ls, repeat=n):
            out += [tree(ctx, names, kind, kids) for kind in (And, Or)]
            if n == 2:
                out.append(tree(ctx, names, Implies, kids))
    return out


def depth2(ctx, nleaves, part, of):
    names, ls = leaves(nleaves)
    pool = ls + level(names, ctx, ls)
    for i in range(part, len(pool), of):
        for kind in (And, Or):
            tree(ctx, names, kind, (pool[i],))
            if i % 7 == 0:
                # three children, with repetition
                for y in pool[::9]:
                    for kids in ((pool[i], y, pool[i]), (y, pool[i], ls[0])):
                        tree(ctx, names, kind, kids)
        for y in pool:
            for kind in (And, Or, Implies):
                tree(ctx, names, kind, (pool[i], y))
    again(ctx, names, pool)
    ctx.traces += 1
    if part == 0:
        ctx.sample(f'depth 2 over {nleaves} leaves: {len(pool)} children, e.g. {show(pool[-1])}')


def depth3(ctx, full, part, of):
    names, ls = leaves(2)
    one = ls + level(names, ctx, ls)
    two = level(names, ctx, one)
    right = two if full else one
    for i in range(part, len(two), of):
        for y in right:
            for kind in (And, Or, Implies):
                tree(ctx, names, kind, (two[i], y), 1)
                if not full:
                    tree(ctx, names, kind, (y, two[i]), 1)
    again(ctx, names, two)
    ctx.traces += 1


def chains(ctx):
    """deep right, left and alternating nesting"""
    names, ls = leaves(7)
    for kinds in it.product((And, Or, Implies), repeat=2):
        for side in (0, 1):
            t = ls[0]
            for i in range(40):
                kid = ls[i % 7]
                kids = (t, kid) if side == 0 else (kid, t)
                t = tree(ctx, names, kinds[i % 2], kids, 1)
        ctx.traces += 1
    for n in (5, 6, 12, 60):
        for kids in (tuple(ls[i % 7] for i in range(n)), (ls[0],) * n, tuple(ls[:2]) * (n // 2)):
            for kind in (And, Or):
                tree(ctx, names, kind, kids)


def large(ctx):
    """deep and long leaves, long lists, deep nesting; the text is complete"""
    names, ls = leaves(7)
    a, b, c = (l.obj for l in (ls[0], ls[1], ls[2]))
    big = []
    for n in (2, 4, 5, 6, 8, 10, 12, 20, 30, 60, 200):
        x, y = a, a
        for i in range(n):
            x = (x ^ b, x & c, x | a, ~x, x.ite(b, c))[i % 5]
            y = (y | b) if i % 2 else (c & y)
        w = BitVector[6]
        v = SMTBitVector[6](name=None) if False else a.ite(SMTBitVector[6](w(5)), b.ite(SMTBitVector[6](w(9)), SMTBitVector[6](w(63))))
        for i in range(n):
            v = (v + 3, v * v, v ^ 5, v.bvrol(1))[i % 4]
        for o in (x, y, v == 9 if n < 13 else None, v[2] if n < 9 else None):
            if o is not None:
                t = o.value.serialize()
                ctx.check('...' in t or '\n' in t, False, 'text of a term', n)
                big.append(Tree('leaf', (), o, table(o.value, names), t))
    for t in big:
        ctx.state(('big', t.text[:80], len(t.text)))
        for u in (ls[0], big[0], t):
            for kind in (And, Or, Implies):
                for kids in ((t, u), (u, t)):
                    d = tree(ctx, names, kind, kids, 4)
                    tree(ctx, names, And, (d, ls[0], d), 2)
        for kind in (And, Or):
            tree(ctx, names, kind, (t,), 4)
        ctx.traces += 1
    for n in (7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 101, 128, 200, 256, 257, 300):
        # one odd child in every place
        for base, odd in ((ls[3], ls[0]), (ls[0], ls[1]), (ls[5], ls[2]), (ls[4], ls[5]), (ls[0], ls[3])):
            for at in range(n) if n < 40 else (0, 1, n // 2, n - 2, n - 1):
                kids = tuple(odd if i == at else base for i in range(n))
                for kind in (And, Or):
                    t = tree(ctx, names, kind, kids, 1)
                    if at in (0, n - 1):
                        tree(ctx, names, Implies, (t, ls[2]), 1)
        ctx.traces += 1
    for kind in (And, Or):
        t = ls[0]
        for i in range(150):
            t = Tree(kind, (t,), kind([t.obj]), t.table)
        tree(ctx, names, kind, (t, ls[1]), 2)


def foreign(ctx):
    names, ls = leaves(7)
    good = [ls[0].obj, And([ls[1].obj]), Implies(ls[0].obj, ls[1].obj)]

    class Fake:
        value = ls[0].obj.value

        def to_hwtypes(self):
            return ls[0].obj

        def serialize(self, *a):
            return 'fake'
    bad = [True, 1, 0, Bit(1), SMTBitVector[1](1), BitVector[1](1), 'p', None, ls[0].obj.value, [ls[0].obj], SMTInt(1), z3Bit(True), Fake(), And]
    for kind in (And, Or):
        for n in (1, 2, 3):
            for at in range(n):
                for b in bad:
                    vs = [good[(i + n) % 3] for i in range(n)]
                    vs[at] = b
                    keep = list(vs)
                    ctx.state((kind, n, at, str(b)))
                    ctx.raises(ValueError, lambda: kind(vs), 'foreign operand', f'{kind.__name__} {vs}')
                    ctx.check(same_ids(vs, keep), True, 'the given list changed', f'{kind.__name__}')
    # long lists, one bad operand in each place
    for n in (4, 5, 8, 9, 12, 16, 17, 18, 24, 32, 33, 64, 65, 100, 129, 257, 300):
        base = [good[i % 3] for i in range(n)]
        for at in range(n) if n < 70 else (0, 1, n // 2, 99, n - 2, n - 1):
            for b in bad if n < 40 else bad[:4]:
                vs = list(base)
                vs[at] = b
                keep = list(vs)
                for kind in (And, Or):
                    ctx.state((kind, n, at, str(b)))
                    ctx.raises(ValueError, lambda: kind(vs), 'foreign operand', f'{kind.__name__} of {n} with {b!r} at {at}')
                    ctx.raises(ValueError, lambda: kind(tuple(vs)), 'foreign operand', f'{kind.__name__} of a tuple of {n} with {b!r} at {at}')
                ctx.check(same_ids(vs, keep), True, 'the given list changed', n)
    for b in bad:
        for p, q in ((b, good[0]), (good[1], b), (b, b)):
            ctx.raises(ValueError, lambda: Implies(p, q), 'foreign operand', f'Implies {p!r} {q!r}')
    # subclasses count as formulas
    class Xor2(FormulaConstructor):
        def __init__(self, a, b):
            self.a, self.b = a, b

        def serialize(self, line_prefix='', indent='|   '):
            return line_prefix + 'Xor2'

        def to_hwtypes(self):
            return self.a ^ self.b
    x = Tree('leaf', (), Xor2(ls[0].obj, ls[1].obj), ls[0].table ^ ls[1].table, 'Xor2')
    for kids in it.product((x, ls[0], ls[2]), repeat=2):
        for kind in (And, Or, Implies):
            t = tree(ctx, names, kind, kids)
            tree(ctx, names, And, (t, x))
    ctx.traces += 1


def jobs(tier):
    deep = tier == 'thorough'
    out = [Job('operators over lists of leaves', flat, 5 if deep else 4, weight=50), Job('chains', chains), Job('leaves beside their negations', opposites, 6 if deep else 5, weight=40), Job('foreign operands', foreign), Job('large formulas', large, weight=40)]
    for p in range(8):
        out.append(Job(f'depth 2 part {p}', depth2, 7 if deep else 5, p, 8, weight=30))
    for p in range(16):
        out.append(Job(f'depth 3 part {p}', depth3, deep, p, 16, weight=30))
    return out
