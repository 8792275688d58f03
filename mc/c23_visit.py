"""C23: ADT visitors visit every node once, in order, with the right method.

Every type up to a size and every shape of value, against a traversal of the
model tree, for every choice per visit method of default, overridden, or
overridden and passed on.
"""
import itertools as it

from core import Job
from hwtypes import Bit, BitVector, Enum, Product, SMTBit, Sum, TaggedUnion, Tuple
from hwtypes.adt import AnonymousProduct
from hwtypes.adt_util import ADTInstVisitor, ADTVisitor
from hwtypes.modifiers import make_modifier

PROP = 'C23'
SPACE = {
    'quick': 'types over 5 leaves (class, Bit, vector, symbolic Bit, Enum): all of 1-2 fields of 8 kinds (derived and user-subclassed ones too), all of '
             '1-2 fields over 60 of those, 3 fields and 3 levels over 14; all values of each up to 24; all 729 overrides for 26 types and values, 14 '
             'patterns for every other; 4-257 fields of repeated and equal types and values; types of one name side by side',
    'thorough': 'as quick over 150 second level types, all 729 overrides for 200 types and values',
}
ASSUMPTIONS = ['the fields of a Sum are visited in the order of its field_dict', 'records hold the very objects they were given']
METHODS = ('Enum', 'Product', 'Tuple', 'TaggedUnion', 'Sum', 'leaf')


class L1:
    def __bool__(self):
        return False


class L2:
    __eq__ = lambda self, other: True
    __hash__ = None


class E2(Enum):
    a = 0
    b = 1


class MyTuple(Tuple):
    pass


class MySum(Sum):
    pass


class BaseP(Product):
    pass


class BaseU(TaggedUnion):
    pass


class BaseE(Enum):
    pass


class E1(BaseE):
    z = 7


FN = tuple(f'f{i}' for i in range(400))
KINDS = ('Tuple', 'Product', 'Anon', 'Sum', 'TU', 'MyTuple', 'SubP', 'SubU')
COUNT = it.count()


class Node:
    """a type and its model: method that visits it, and its children"""
    __slots__ = ('T', 'method', 'kids', 'kind')

    def __init__(self, T, method, kids=(), kind=None):
        self.T, self.method, self.kids, self.kind = T, method, tuple(kids), kind


LEAVES = [Node(L1, 'leaf'), Node(Bit, 'leaf'), Node(BitVector[3], 'leaf'), Node(SMTBit, 'leaf'), Node(E2, 'Enum')]


def build(kind, kids):
    ts = [k.T for k in kids]
    n = next(COUNT)
    fd = dict(zip(FN, ts))
    if kind in ('Sum', 'MySum'):
        T = (Sum if kind == 'Sum' else MySum)[tuple(ts)]
        by = {k.T: k for k in kids}
        return Node(T, 'Sum', [by[t] for t in T.field_dict.values()], 'Sum')
    if kind in ('Tuple', 'MyTuple'):
        return Node((Tuple if kind == 'Tuple' else MyTuple)[tuple(ts)], 'Tuple', kids, 'Tuple')
    if kind == 'Product':
        return Node(Product.from_fields(f'P{n}', fd), 'Product', kids, 'Record')
    if kind == 'SubP':
        return Node(type(BaseP)(f'Q{n}', (BaseP,), dict(fd)), 'Product', kids, 'Record')
    if kind == 'Anon':
        return Node(AnonymousProduct[fd], 'Tuple', kids, 'Record')
    if kind == 'TU':
        return Node(TaggedUnion.from_fields(f'U{n}', fd), 'TaggedUnion', kids, 'TU')
    return Node(type(BaseU)(f'V{n}', (BaseU,), dict(fd)), 'TaggedUnion', kids, 'TU')


def allowed(kind, kids):
    if kind in ('Sum', 'MySum'):
        ts = [k.T for k in kids]
        return len(set(ts)) == len(ts) and not any(a is not b and issubclass(a, b) for a in ts for b in ts)
    return True


def type_order(node, how):
    """the calls a traversal of the type makes: (method, node)"""
    out = [(node.method, node.T)]
    if node.kids and how[node.method] != 'stop':
        for k in node.kids:
            out += type_order(k, how)
    return out


class V:
    """a value and its model"""
    __slots__ = ('obj', 'method', 'kids')

    def __init__(self, obj, method, kids=()):
        self.obj, self.method, self.kids = obj, method, tuple(kids)


def values(node, limit):
    """all shapes of value of a type: each Sum and union member, first values of leaves"""
    T = node.T
    if node.method == 'leaf':
        if T is L1:
            return [V(L1(), 'leaf')]
        if T is SMTBit:
            return [V(SMTBit(), 'leaf')]
        return [V(T(0), 'leaf'), V(T(1), 'leaf')]
    if node.method == 'Enum':
        return [V(m, 'Enum') for m in T.fields]
    out = []
    if node.kind == 'Tuple':
        for vs in it.islice(it.product(*(values(k, limit) for k in node.kids)), limit):
            out.append(V(T(*(v.obj for v in vs)), 'Tuple', vs))
    elif node.kind == 'Record':
        for vs in it.islice(it.product(*(values(k, limit) for k in node.kids)), limit):
            out.append(V(T(*(v.obj for v in vs)), node.method, vs))
    elif node.kind == 'Sum':
        for k in node.kids:
            out += [V(T(v.obj), 'Sum', [v]) for v in values(k, limit)]
    else:
        for n, k in zip(FN if FN[0] in T.field_dict else T.field_dict, node.kids):
            out += [V(T(**{n: v.obj}), 'TaggedUnion', [v]) for v in values(k, limit)]
    return out[:limit]


def value_order(v, how):
    out = [(v.method, v.obj)]
    if v.kids and how[v.method] != 'stop':
        for k in v.kids:
            out += value_order(k, how)
    return out


CLASSES = {}


def visitor(base, how):
    """a visitor class that overrides the methods how says; logs every visit"""
    key = (base, tuple(how[m] for m in METHODS))
    if key in CLASSES:
        return CLASSES[key]
    ns = {}

    def visit(self, x):
        self.calls.append(x)
        base.visit(self, x)
    ns['visit'] = visit
    for m in METHODS:
        if how[m] == 'default':
            continue

        def method(self, x, m=m):
            self.log.append((m, x))
            if how[m] == 'pass':
                getattr(base, f'visit_{m}')(self, x)
        ns[f'visit_{m}'] = method
    CLASSES[key] = type(f'Visitor{len(CLASSES)}', (base,), ns)
    return CLASSES[key]


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def verify(ctx, base, root, order, how, detail):
    v = visitor(base, how)()
    ctx.transitions += 1
    for _ in range(2):
        v.calls, v.log = [], []
        v.visit(root)
        if not same(v.calls, [x for _, x in order]):
            ctx.fail('nodes visited', f'{detail()} with {how}: expected {[x for _, x in order]}, got {v.calls}')
        want = [(m, x) for m, x in order if how[m] != 'default']
        if [m for m, _ in v.log] != [m for m, _ in want] or not same([x for _, x in v.log], [x for _, x in want]):
            ctx.fail('methods called', f'{detail()} with {how}: expected {want}, got {v.log}')


def plain(ctx, base, root, order, detail):
    """the library's visitor itself, watched from a subclass that only adds leaf and Enum"""
    class W(base):
        def visit_leaf(self, x):
            seen.append(x)

        visit_Enum = visit_leaf
    seen = []
    W().visit(root)
    ctx.transitions += 1
    if not same(seen, [x for m, x in order if m in ('leaf', 'Enum')]):
        ctx.fail('leaves', f'{detail()}: {seen}')
    base().visit(root)


ALL = [dict(zip(METHODS, c)) for c in it.product(('default', 'stop', 'pass'), repeat=6)]
FEW = [dict.fromkeys(METHODS, 'default'), dict.fromkeys(METHODS, 'stop'), dict.fromkeys(METHODS, 'pass')]
FEW += [{**dict.fromkeys(METHODS, 'pass'), m: k} for m in METHODS for k in ('default', 'stop')][:11]


def everything(ctx, node, hows, limit=24):
    d = lambda: f'type {node.T}'
    ctx.state(('t', node.T))
    for how in hows:
        verify(ctx, ADTVisitor, node.T, type_order(node, how), how, d)
    plain(ctx, ADTVisitor, node.T, type_order(node, FEW[0]), d)
    for i, v in enumerate(values(node, limit)):
        ctx.states += 1
        e = lambda: f'value {i} of {node.T}'
        for how in (hows if i < 3 else FEW[:3] if len(hows) < 100 else hows[::9]):
            verify(ctx, ADTInstVisitor, v.obj, value_order(v, how), how, e)
        plain(ctx, ADTInstVisitor, v.obj, value_order(v, FEW[0]), e)
    ctx.traces += 1


def level(pool, kinds, n):
    return [(kind, kids) for kind in kinds for kids in it.product(pool, repeat=n) if allowed(kind, kids)]


def spread(xs, n):
    return xs if len(xs) <= n else [xs[i * len(xs) // n] for i in range(n)]


def base_pool():
    return LEAVES + [Node(E1, 'Enum')]


def first(ctx, part, of, alls):
    specs = level(base_pool(), KINDS + ('MySum',), 1) + level(base_pool(), KINDS + ('MySum',), 2) + level(LEAVES[1:5], KINDS, 3)[::7]
    for i, (kind, kids) in enumerate(specs):
        if i % of == part:
            everything(ctx, build(kind, kids), ALL if i % (len(specs) // alls) == 0 else FEW)
    if part == 0:
        ctx.sample(f'{len(specs)} first level types')
        for leaf in base_pool():
            everything(ctx, leaf, ALL)


def second_pool(n):
    specs = level(base_pool(), KINDS, 1) + level(base_pool(), KINDS, 2)
    return spread([build(*s) for s in spread(specs, 3 * n)], n)


def second(ctx, size, part, of, alls):
    pool = second_pool(size)
    specs = level(pool, KINDS, 1) + level(pool + LEAVES[:2], KINDS[:5], 2)
    for i in range(part, len(specs), of):
        kind, kids = specs[i]
        everything(ctx, build(kind, kids), ALL if i % (len(specs) // alls) == 0 else FEW[:4] if i % 3 else FEW, 8)
    if part == 0:
        ctx.sample(f'{len(specs)} second level types')


def third(ctx, part, of):
    pool = second_pool(14)
    mid = [build(k, kids) for k, kids in spread(level(pool, KINDS[:5], 2) + level(pool, KINDS, 1), 40)]
    specs = level(mid + LEAVES[:1], KINDS[:5], 2) + spread(level(pool, KINDS[:5], 3), 400)
    for i in range(part, len(specs), of):
        kind, kids = specs[i]
        everything(ctx, build(kind, kids), FEW[:4] if i % 4 else FEW, 6)


def special(ctx):
    """modified types, nested class definitions, repeated fields, deep chains"""
    M = make_modifier('M23')
    for inner in (build('Product', LEAVES[:2]), build('Tuple', [LEAVES[4], LEAVES[1]]), build('TU', LEAVES[1:3]), build('Sum', LEAVES[1:3])):
        everything(ctx, Node(M(inner.T), inner.method, inner.kids, inner.kind), FEW)
    everything(ctx, Node(M(E2), 'Enum'), FEW)
    everything(ctx, Node(M(Bit), 'leaf'), FEW)

    class Root(Product):
        f = L1

        class g(TaggedUnion):
            f = Bit
            g = Sum[Bit, E2]

        class h(Enum):
            p = 1
            q = 2
    b, e = LEAVES[1], LEAVES[4]
    s = Node(Sum[Bit, E2], 'Sum', [n for t in Sum[Bit, E2].field_dict.values() for n in (b, e) if n.T is t], 'Sum')
    everything(ctx, Node(Root, 'Product', [LEAVES[0], Node(Root.g, 'TaggedUnion', [b, s], 'TU'), Node(Root.h, 'Enum')], 'Record'), ALL)

    class Derived(Root):
        pass
    everything(ctx, Node(Derived, 'Product', [LEAVES[0], Node(Root.g, 'TaggedUnion', [b, s], 'TU'), Node(Root.h, 'Enum')], 'Record'), FEW)
    for kind in KINDS:
        t = LEAVES[4]
        for i in range(30):
            t = build(kind, [t])
        everything(ctx, t, FEW, 3)
        same = build(kind, [build('Tuple', [b, b])] * (1 if kind == 'Sum' else 3))
        everything(ctx, same, FEW)
    # one visitor object over several roots, and a visitor that visits on its own
    for base, roots in ((ADTVisitor, [E2, Root, Bit, Tuple[Bit, E2]]), (ADTInstVisitor, [E2.a, Bit(0), Tuple[Bit, E2](Bit(1), E2.b)])):
        class Acc(base):
            def __init__(self):
                self.n = []

            def visit_leaf(self, x):
                self.n.append(x)

            def visit_Enum(self, x):
                self.n.append(x)
        one = Acc()
        want = []
        for r in roots:
            one.visit(r)
            w = Acc()
            w.visit(r)
            want += w.n
            ctx.check(same_list(one.n, want), True, 'a visitor over several roots', f'{base.__name__} {r}')


def scale(ctx, n):
    """n fields, few distinct types: every position, repeated and equal ones too"""
    a, b, s, l, e = LEAVES[1], LEAVES[2], LEAVES[3], LEAVES[0], LEAVES[4]
    sub = build('Product', [a, e])
    twin = build('Product', [a, e])
    tu = build('TU', [a, a, e])
    pats = ([a], [a, b], [e], [e, a, e, l], [sub], [sub, a, twin, e], [tu, e], [l, l, a], [build('Tuple', [a, e]), sub])
    for pat in pats:
        kids = [pat[i % len(pat)] for i in range(n)]
        for kind in ('Tuple', 'Product', 'Anon', 'TU', 'SubP', 'SubU', 'MyTuple'):
            node = build(kind, kids)
            ctx.state((n, kind, tuple(k.method for k in pat)))
            d = lambda: f'type of {n} fields {kind} {[k.T for k in pat]}'
            order = type_order(node, FEW[0])
            for how in FEW[:6]:
                verify(ctx, ADTVisitor, node.T, type_order(node, how), how, d)
            plain(ctx, ADTVisitor, node.T, order, d)
            if kind not in ('TU', 'SubU'):
                # equal and identical field values
                pool = {id(k): values(k, 4) for k in pat}
                for mk in (lambda i, vs: vs[0], lambda i, vs: vs[i % len(vs)], lambda i, vs: vs[(i * i + 1) % len(vs)]):
                    vs = [mk(i, pool[id(k)]) for i, k in enumerate(kids)]
                    v = V(node.T(*(x.obj for x in vs)), node.method, vs)
                    for how in FEW[:6]:
                        verify(ctx, ADTInstVisitor, v.obj, value_order(v, how), how, lambda: f'value of {n} fields {kind} {[k.T for k in pat]}')
                    plain(ctx, ADTInstVisitor, v.obj, value_order(v, FEW[0]), lambda: f'value of {n} fields {kind}')
            else:
                for i in sorted({0, 1, n // 2, n - 1}):
                    x = values(kids[i], 2)[-1]
                    v = V(node.T(**{FN[i]: x.obj}), node.method, [x])
                    for how in FEW[:6]:
                        verify(ctx, ADTInstVisitor, v.obj, value_order(v, how), how, lambda: f'member {i} of {n}, {kind}')
        ctx.traces += 1
    kids = [Node(BitVector[i + 1], 'leaf') for i in range(n)] + [sub, tu, e]
    node = build('Sum', kids)
    for how in FEW[:6]:
        verify(ctx, ADTVisitor, node.T, type_order(node, how), how, lambda: f'Sum of {n + 3}')
    for v in values(node, n + 9):
        for how in FEW[:3]:
            verify(ctx, ADTInstVisitor, v.obj, value_order(v, how), how, lambda: f'Sum of {n + 3}')


def names(ctx):
    """different types of one name, and equal values that are different objects, side by side"""
    def mk(i):
        class E(Enum):
            a = 0
            b = i

        class P(Product):
            f = E
            g = Bit if i % 2 else BitVector[i + 1]

        class U(TaggedUnion):
            f = E
            g = P
        bit = Node(P.g, 'leaf')
        en = Node(E, 'Enum')
        p = Node(P, 'Product', [en, bit], 'Record')
        return en, p, Node(U, 'TaggedUnion', [en, p], 'TU')
    sets = [mk(i) for i in range(1, 7)]
    for k in range(3):
        for r in (2, 3, 6):
            for combo in it.permutations([s[k] for s in sets], r) if r < 6 else [[s[k] for s in sets]]:
                combo = list(combo)
                for kind in ('Tuple', 'Product', 'TU', 'Sum') if r < 3 else ('Tuple', 'Sum'):
                    cs = combo
                    node = build(kind, cs)
                    ctx.states += 1
                    d = lambda: f'{kind} of types of one name {[c.T.__name__ for c in cs]}'
                    for how in FEW[:3]:
                        verify(ctx, ADTVisitor, node.T, type_order(node, how), how, d)
                    if kind == 'TU':
                        for i, c in enumerate(cs):
                            x = values(c, 1)[0]
                            v = V(node.T(**{FN[i]: x.obj}), node.method, [x])
                            for how in FEW[:3]:
                                verify(ctx, ADTInstVisitor, v.obj, value_order(v, how), how, d)
                    else:
                        for v in values(node, 3):
                            for how in FEW[:3]:
                                verify(ctx, ADTInstVisitor, v.obj, value_order(v, how), how, d)
        ctx.traces += 1


def same_list(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def jobs(tier):
    deep = tier == 'thorough'
    out = [Job('special', special, weight=10)]
    out.append(Job('types of one name', names, weight=10))
    for n in (4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 200, 257) if deep else (4, 6, 8, 9, 12, 16, 17, 33, 65, 129, 257):
        out.append(Job(f'{n} fields', scale, n, weight=10))
    for p in range(8):
        out.append(Job(f'first level {p}', first, p, 8, 160 if deep else 20, weight=30))
    for p in range(16):
        out.append(Job(f'second level {p}', second, 150 if deep else 60, p, 16, 40 if deep else 6, weight=40))
    for p in range(8):
        out.append(Job(f'third level {p}', third, p, 8, weight=20))
    return out
