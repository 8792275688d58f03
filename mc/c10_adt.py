"""C10: ADT types are canonical.

The model keys a type by its structure.  Explicit search runs every history of
up to D actions (define in several spellings, hold or drop, collect, derive,
failing definitions) and compares every live type pair with the model; a second
exploration runs every ordered pair of a few hundred definitions.
"""
import gc
import itertools as it

from core import Job
from hwtypes import (Bit, BitVector, Enum, Product, Sum, TaggedUnion, Tuple, UIntVector, new_instruction)
from hwtypes.adt import AnonymousProduct
from hwtypes.adt_meta import RESERVED_ATTRS, RESERVED_NAMES, RESERVED_SUNDERS, ReservedNameError

PROP = 'C10'
SPACE = {
    'quick': 'histories of <= 3 actions (<= 4 for the Tuple, Sum and Enum worlds) from about 20 actions per kind (definitions held, '
             'dropped, held by an instance, uncached, by class statement or from_fields, of user bases, derived classes, drop, collect), all '
             'live types compared pairwise; every ordered pair of about 200 definitions over 6 field types and 5 kinds; definitions of 4-257 fields and all their one-place changes, '
             'types of the same name included; every hierarchy of <= 4 user families bound to 1-9 fields; one-attribute differences over 22 kinds of attribute; bases of one name; 700 types of each kind alive; every reserved name in '
             'every definition form',
    'thorough': 'as quick with histories of <= 4 (all kinds) and <= 5 (Tuple, Sum), and all pairs in both cached forms',
}
ASSUMPTIONS = ['a class body may also define methods and constants; definitions that differ only in methods with double underscore names are not distinguished by the cache and are outside the property',
               'user bases extend one kind of unbound type only']


class En(Enum):
    a = 0
    b = 1


class En2(Enum):
    a = 0
    b = 1


class MyTuple(Tuple):
    pass


class YourTuple(MyTuple):
    pass


class MyAnon(AnonymousProduct):
    pass


class MySum(Sum):
    pass


class MyProd(Product):
    pass


class MyTU(TaggedUnion):
    pass


class MyEnum(Enum):
    pass


class Mix1:
    """not a type of this library"""


class Mix2:
    pass


PARENT = {Tuple: (), MyTuple: (Tuple,), YourTuple: (MyTuple,), AnonymousProduct: (Tuple,), MyAnon: (AnonymousProduct,), Sum: (),
          MySum: (Sum,), Product: (AnonymousProduct,), MyProd: (Product,), TaggedUnion: (Sum,), MyTU: (TaggedUnion,), Enum: (),
          MyEnum: (Enum,)}
ANON = (AnonymousProduct, MyAnon)
B2, B3, U2 = BitVector[2], BitVector[3], UIntVector[2]
T1 = Tuple[Bit, B2]
AUTO = [new_instruction() for _ in range(2)]


def meth1(self):
    return 1


def meth2(self):
    return 2


# a definition: (kind, base, name or None, fields)   fields as a tuple
#   tuple: types            anon/product/tu: (name, type) pairs       sum: types      enum: (name, value) pairs
def key(d):
    k, base, name, f, *rest = d
    if k in ('sum', 'tu', 'enum'):
        f = frozenset(f)
    return (k, base, name, f, *rest)


def build(d, via='stmt', cache=True):
    k, base, name, f, *rest = d
    if k == 'tuple':
        return base[f if len(f) != 1 or via == 'stmt' else f[0]]
    if k == 'anon':
        return base[dict(f)]
    if k == 'sum':
        return base[{'stmt': tuple, 'set': set, 'rev': lambda x: tuple(reversed(x))}.get(via, tuple)(f)]
    kw = {} if cache else {'cache': False}
    if via == 'fields':
        return base.from_fields(name, dict(f), **kw)
    if via == 'fields_explicit':
        return base.from_fields(name, dict(f), cache=cache)
    # what a class statement does
    ns = dict(f)
    ns['__module__'], ns['__qualname__'] = 'somewhere', name
    rest = dict(rest)
    bases = rest.pop('bases', (base,))
    ns.update(rest)
    return type(base)(name, bases, ns, **kw)


def ancestors(d):
    """every reference below which d lies: ('unbound', class) and keys of bound types"""
    k, base, name, f, *rest = d
    out = set()

    def unbounds(c):
        out.add(('unbound', c))
        for p in PARENT[c]:
            unbounds(p)
    unbounds(base)
    out.add(key(d))

    def bound(kind, c, ff):
        out.add(key((kind, c, None, ff)))
        for p in PARENT[c]:
            if kind == 'anon' and p in ANON or kind == 'tuple' and p in (Tuple, MyTuple) or kind == 'sum' and p in (Sum, MySum):
                bound(kind, p, ff)
        if kind == 'anon':
            bound('tuple', Tuple, tuple(t for _, t in ff))
    if k in ('tuple', 'anon', 'sum'):
        bound(k, base, f)
    elif k == 'product':
        bound('anon', AnonymousProduct, f)
    elif k == 'tu':
        bound('sum', Sum, tuple(t for _, t in f))
    return out


def parts(d):
    """definitions of the bound types d is made from"""
    k, base, name, f, *rest = d
    if k == 'product':
        return [('anon', AnonymousProduct, None, f), ('tuple', Tuple, None, tuple(t for _, t in f))]
    if k == 'anon':
        return [('anon', p, None, f) for p in PARENT[base] if p in ANON] + [('tuple', Tuple, None, tuple(t for _, t in f))]
    if k == 'tu':
        return [('sum', Sum, None, tuple(t for _, t in f))]
    if k in ('tuple', 'sum'):
        return [(k, p, None, f) for p in PARENT[base]]
    return []


def report(ctx, d, c, how, cached=True):
    """the descriptive attributes"""
    k, base, name, f, *rest = d
    if k == 'tuple':
        want = (f, dict(enumerate(f)))
    elif k in ('anon', 'product'):
        want = (tuple(t for _, t in f), dict(f))
    elif k == 'sum':
        want = (frozenset(f), {t: t for t in f})
    elif k == 'tu':
        want = (frozenset(t for _, t in f), dict(f))
    else:
        want = (tuple(getattr(c, n) for n, _ in f), {n: getattr(c, n) for n, _ in f})
    got = (c.fields, dict(c.field_dict))
    if k == 'enum':
        # members of Enums that are one type may be listed in either definition's order
        got, want = (set(got[0]), got[1]), (set(want[0]), want[1])
        ctx.check({n: m._value_ for n, m in got[1].items()}, dict(f), 'member values', how)
    ctx.check(got, want, 'fields', how)
    if k in ('anon', 'product'):
        ctx.check(list(c.field_dict), [n for n, _ in f], 'field order', how)
        ctx.check([getattr(c, n) for n, _ in f], [t for _, t in f], 'field type read on the class', how)
    if k in ('tuple', 'anon', 'product'):
        ctx.check([c[i] for i in range(len(f))], list(want[0]), 'indexed field', how)
    if k == 'product':
        ctx.check([c[n] for n, _ in f], [t for _, t in f], 'named field', how)
    if k == 'sum':
        ctx.check([c[t] for t in f], list(f), 'indexed field', how)
        ctx.check([t in c for t in (Bit, B2, B3, U2, En, En2)], [t in f for t in (Bit, B2, B3, U2, En, En2)], 'membership', how)
    if k == 'tu':
        ctx.check([getattr(c, n) for n, _ in f], [t for _, t in f], 'field type read on the class', how)
    ctx.check((c.is_bound, c.is_cached, c.unbound_t), (True, cached, base), 'is_bound, is_cached, unbound_t', how)
    if name is not None:
        ctx.check(c.__name__, name, 'name', how)
    for n, v in rest:
        if n == 'bases':
            ctx.check([b for b in c.__bases__ if b in v], list(v), 'bases', how)
        else:
            ctx.check(getattr(c, n), v, 'attribute', how)


def instance(d, c):
    k, base, name, f, *rest = d
    v = {Bit: Bit(1), B2: B2(1), B3: B3(1), U2: U2(1), En: En.a, En2: En2.a}
    if k == 'tuple':
        return c(*(v[t] for t in f))
    if k in ('anon', 'product'):
        return c(*(v[t] for _, t in f))
    if k == 'sum':
        return c(v[f[0]])
    if k == 'tu':
        return c(**{f[0][0]: v[f[0][1]]})
    return getattr(c, f[0][0])


def rebound(ctx, d, c, how):
    """a bound type cannot be bound again"""
    k, base, name, f, *rest = d
    if k in ('product', 'tu', 'enum'):
        ctx.raises(TypeError, lambda: c.from_fields('Z', {'q': Bit if k != 'enum' else 3}), 'bound type bound again', how)
    elif k == 'sum':
        ctx.raises(KeyError, lambda: c[BitVector[7]], 'bound type bound again', how)
    elif k == 'tuple':
        ctx.raises((TypeError, IndexError), lambda: c[Bit, Bit], 'bound type bound again', how)
    else:
        ctx.raises((TypeError, IndexError), lambda: c[{'q': Bit}], 'bound type bound again', how)


# ---------------------------------------------------------------- histories

def P(name, *f, base=Product, **kw):
    return ('product', base, name, f) + tuple(kw.items())


def U(name, *f, base=TaggedUnion, **kw):
    return ('tu', base, name, f) + tuple(kw.items())


def N(name, *f, base=Enum, **kw):
    return ('enum', base, name, f) + tuple(kw.items())


def Tu(*f, base=Tuple):
    return ('tuple', base, None, f)


def A(*f, base=AnonymousProduct):
    return ('anon', base, None, f)


def S(*f, base=Sum):
    return ('sum', base, None, f)


a, b, c = ('a', Bit), ('b', B2), ('c', Bit)
WORLDS = {
    'Tuple': [Tu(Bit), Tu(Bit, B2), Tu(B2, Bit), Tu(Bit, Bit), Tu(U2, Bit), Tu(Bit, B2, base=MyTuple), Tu(Bit, B2, base=YourTuple), Tu(Bit, base=MyTuple)],
    'Sum': [S(Bit), S(Bit, B2), S(B2, Bit), S(U2, Bit), S(Bit, En), S(Bit, En2), S(Bit, B2, base=MySum), S(Bit, B2, En)],
    'AnonymousProduct': [A(a), A(a, b), A(b, a), A(c), A(('a', B2), ('b', Bit)), A(a, b, base=MyAnon), A(a, ('c', B2)), Tu(Bit, B2)],
    'Product': [P('P', a, b), P('P', b, a), P('Q', a, b), P('P', a), P('P', a, b, base=MyProd), P('P', ('b', Bit), ('a', B2)), A(a, b), P('P', a, b, x=1), P('P', a, b, x=2),
                P('P', a, b, bases=(Product, Mix1)), P('P', a, b, bases=(Product, Mix2)), P('P', a, b, bases=(Mix1, Product))],
    'TaggedUnion': [U('P', a, b), U('P', b, a), U('Q', a, b), U('P', a), U('P', a, b, base=MyTU), U('P', a, c), U('P', ('b', Bit), ('a', B2)), S(Bit, B2), U('P', a, b, x=1),
                    U('P', a, b, bases=(TaggedUnion, Mix1)), U('P', a, b, bases=(TaggedUnion, Mix2)), U('P', a, b, bases=(Mix1, TaggedUnion))],
    'Enum': [N('P', ('a', 0), ('b', 1)), N('P', ('b', 1), ('a', 0)), N('P', ('a', 1), ('b', 0)), N('Q', ('a', 0), ('b', 1)), N('P', ('a', 0)),
             N('P', ('a', AUTO[0])), N('P', ('a', AUTO[1])), N('P', ('a', 0), ('b', 1), base=MyEnum),
             N('P', ('a', 0), ('b', 1), bases=(Enum, Mix1)), N('P', ('a', 0), ('b', 1), bases=(Enum, Mix2)), N('P', ('a', 0), ('b', 1), x='y')],
    'mixed': [P('P', a, b), U('P', a, b), N('P', ('a', 0), ('b', 1)), A(a, b), S(Bit, B2), Tu(Bit, B2), P('P', a, ('b', T1)), Tu(Bit, T1)],
}
NAMED = ('product', 'tu', 'enum')


def actions(world):
    out = []
    defs = WORLDS[world]
    for i, d in enumerate(defs):
        out.append(('hold', i, 'stmt'))
        if d[0] in NAMED and len(d) == 4 and i % 2 == 0:
            out.append(('hold', i, 'fields'))
    for i in (0, 1):
        d = defs[i]
        if d[0] == 'sum':
            out.append(('hold', i, 'set'))
            out.append(('hold', i, 'rev'))
        if d[0] in NAMED:
            out.append(('uncached', i, 'stmt'))
    if defs[0][0] in NAMED:
        out.append(('uncached', 0, 'fields'))
    out += [('temp', 0, 'stmt'), ('temp', 1, 'stmt'), ('instance', 0, 'stmt'), ('derive', 0), ('bad',), ('drop',), ('drop', 0), ('gc',)]
    return out


class Run:
    def __init__(self):
        self.held = {}      # model key -> (definition, class, cached)
        self.inst = {}      # model key -> (definition, instance)
        self.derived = []
        self.n = 0


def step(ctx, run, world, act, hist):
    ctx.transitions += 1
    defs = WORLDS[world]
    if act[0] in ('hold', 'temp', 'instance'):
        d = defs[act[1]]
        c = build(d, act[2])
        k = key(d)
        if k in run.held and run.held[k][1] is not c:
            ctx.fail('type is not canonical', f'{hist()}: a second class for a live definition')
        if k in run.inst and type(run.inst[k][1]) is not c:
            ctx.fail('type is not canonical', f'{hist()}: a second class for the type of a live value')
        if act[0] == 'hold':
            run.held[k] = (d, c, True)
        elif act[0] == 'instance':
            run.inst[k] = (d, instance(d, c))
    elif act[0] == 'uncached':
        d = defs[act[1]]
        run.n += 1
        run.held[(key(d), run.n)] = (d, build(d, act[2], cache=False), False)
    elif act[0] == 'derive':
        d = defs[act[1]]
        base = build(d)
        if d[0] == 'enum':
            sub = type(base)('Derived', (base,), {'z': 9})
        else:
            sub = type(base)('Derived', (base,), {})
        run.derived.append((d, base, sub))
    elif act[0] == 'drop':
        if len(act) == 1:
            run.held, run.inst, run.derived = {}, {}, []
        else:
            run.held.pop(key(defs[act[1]]), None)
    elif act[0] == 'bad':
        bad(ctx, world, hist)
    elif act[0] == 'gc':
        gc.collect()


def bad(ctx, world, hist):
    d = WORLDS[world][0]
    k, base = d[0], d[1]
    if k in NAMED:
        v = 1 if k == 'enum' else Bit
        ctx.raises(ReservedNameError, lambda: build((k, base, 'P', (('fields', v), ('a', v)))), 'reserved name', hist)
        ctx.raises(ReservedNameError, lambda: build((k, base, 'P', (('a', v), ('_value_', v))), 'fields'), 'reserved name', hist)
        ctx.raises(TypeError, lambda: base[Bit], 'bound by index', hist)
    elif k == 'anon':
        ctx.raises(TypeError, lambda: base[Bit], 'bound without names', hist)
        ctx.raises(ReservedNameError, lambda: base[{'value_dict': Bit}], 'reserved name', hist)


def final(ctx, run, hist):
    refs = {}
    for k, (d, c, cached) in run.held.items():
        refs[k] = (d, c, cached)
    for k, (d, x) in run.inst.items():
        if k in refs and refs[k][1] is not type(x):
            ctx.fail('type is not canonical', f'{hist()}: two live classes')
        refs[k] = (d, type(x), True)
    for d, base, sub in run.derived:
        if key(d) in refs and refs[key(d)][1] is not base:
            ctx.fail('type is not canonical', f'{hist()}: base of a derived class')
        refs[key(d)] = (d, base, True)
    # the bound types these are made from must be the canonical ones
    todo = [d for d, *_ in refs.values()]
    while todo:
        for q in parts(todo.pop()):
            c = build(q)
            if key(q) not in refs:
                refs[key(q)] = (q, c, True)
                todo.append(q)
            elif refs[key(q)][1] is not c:
                ctx.fail('type is not canonical', f'{hist()}: part {q}')
    ctx.state(tuple(sorted(map(str, refs))))
    up = {k: ancestors(d) for k, (d, c, cached) in refs.items()}
    for k, (d, c, cached) in refs.items():
        how = lambda: f'{hist()}: {k}'
        report(ctx, d, c, how, cached)
        if cached and build(d) is not c:
            ctx.fail('type is not canonical', f'{how()}: defining it again gives a new class')
        rebound(ctx, d, c, how)
        for u in PARENT:
            ctx.check(issubclass(c, u), ('unbound', u) in up[k], 'subclass of unbound type', lambda: f'{hist()}: {k} under {u}')
        for k2, (d2, c2, cached2) in refs.items():
            ctx.check((c is c2, c == c2), (k == k2,) * 2, 'identity', lambda: f'{hist()}: {k} and {k2}')
            want = k == k2 or cached2 and k2 in up[k] and (cached or k2 != key(d))
            ctx.check(issubclass(c, c2), want, 'subtyping', lambda: f'{hist()}: is {k} under {k2}')
    for d, base, sub in run.derived:
        ctx.check((issubclass(sub, base), sub is base, sub.is_bound), (True, False, True), 'derived class', hist)
        if d[0] != 'enum':
            ctx.check((sub.fields, dict(sub.field_dict)), (base.fields, dict(base.field_dict)), 'fields of a derived class', hist)
            ctx.check(issubclass(base, sub), False, 'derived class', hist)
    for k, (d, x) in run.inst.items():
        for k2, (d2, c2, cached2) in refs.items():
            ctx.check(isinstance(x, c2), k2 in up[k], 'isinstance', lambda: f'{hist()}: value of {k} and {k2}')
    for u in PARENT:
        ctx.check((u.is_bound, u.is_cached, u.fields, u.unbound_t), (False, False, None, u), 'unbound type', hist)
    ctx.traces += 1


def enabled(run, world, act):
    if act[0] == 'drop':
        return bool(run.held) or bool(len(act) == 1 and (run.inst or run.derived))
    return True


def histories(ctx, world, depth, *prefix):
    acts = actions(world)
    gc.collect()
    gc.freeze()
    stack = [prefix]
    while stack:
        h = stack.pop()
        hist = lambda: ' ; '.join(' '.join(map(str, x)) for x in h) + f' in {world}'
        gc.collect()
        run = Run()
        ok = True
        for act in h:
            if not enabled(run, world, act):
                ok = False
                break
            step(ctx, run, world, act, hist)
        if not ok:
            continue
        if len(h) < depth:
            for act in acts:
                if enabled(run, world, act) and not (act == h[-1] and act[0] in ('gc', 'bad', 'drop')):
                    stack.append(h + (act,))
        final(ctx, run, hist)
        if len(h) == depth:
            ctx.sample(hist())


# -------------------------------------------------------------------- pairs

def many():
    ts = (Bit, B2, B3, U2, En, En2)
    names = 'abc'
    out = []
    for base in (Tuple, MyTuple):
        out += [Tu(*f, base=base) for n in (1, 2) for f in it.product(ts[:4] if base is Tuple else ts[:2], repeat=n)]
    out += [Tu(Bit, Bit, Bit), Tu(T1, Bit), Tu(Bit, T1), Tu(T1), Tu()]
    for base in (Sum, MySum):
        out += [S(*f, base=base) for n in (1, 2, 3) for f in it.combinations(ts if base is Sum else ts[:3], n)]
    pairs = [tuple(zip(ns, f)) for n in (1, 2) for ns in it.permutations(names[:n + 1], n) for f in it.product(ts[:2], repeat=n)]
    for base in (AnonymousProduct, MyAnon):
        out += [A(*f, base=base) for f in pairs]
    for base, nm in ((Product, 'P'), (Product, 'Q'), (MyProd, 'P')):
        out += [P(nm, *f, base=base) for f in pairs if nm == 'P' or len(f) == 1]
    for base, nm in ((TaggedUnion, 'P'), (TaggedUnion, 'Q'), (MyTU, 'P')):
        out += [U(nm, *f, base=base) for f in pairs if nm == 'P' or len(f) == 1]
    epairs = [tuple(zip(ns, f)) for n in (1, 2) for ns in it.permutations(names[:n + 1], n) for f in it.product((0, 1) if n > 1 else (0, 1, -1, -2, 2 ** 61 - 1), repeat=n)]
    epairs += [tuple(zip('ab', f)) for f in it.product((-1, -2), repeat=2)]
    for base, nm in ((Enum, 'P'), (Enum, 'Q'), (MyEnum, 'P')):
        out += [N(nm, *f, base=base) for f in epairs if nm == 'P' or len(f) == 1]
    return out


def pairs(ctx, part, of, keep):
    """every ordered pair of definitions; with keep, all of them stay alive"""
    defs = many()
    gc.collect()
    gc.freeze()
    up = [ancestors(d) for d in defs]
    if keep:
        cls = [build(d) for d in defs]
        for i in range(part, len(defs), of):
            d, x = defs[i], cls[i]
            ctx.state(key(d))
            report(ctx, d, x, lambda: str(key(d)))
            rebound(ctx, d, x, lambda: str(key(d)))
            for j, e in enumerate(defs):
                same = key(d) == key(e)
                ctx.check((x is cls[j], x == cls[j], issubclass(x, cls[j])), (same, same, key(e) in up[i]), 'pair of types',
                          lambda: f'{key(d)} and {key(e)}')
            for via in ('stmt', 'fields', 'fields_explicit', 'set', 'rev'):
                ctx.check(build(d, via) is x, True, 'type is not canonical', lambda: f'{key(d)} by {via}')
            if d[0] in NAMED:
                for via in ('stmt', 'fields', 'fields_explicit'):
                    y = build(d, via, cache=False)
                    ctx.check((y is x, y == x, build(d) is x, build(d) is y), (False, False, True, False), 'uncached', lambda: f'{key(d)} by {via}')
                    report(ctx, d, y, lambda: f'uncached {key(d)}', False)
            ctx.traces += 1
        return
    n = 0
    for i in range(part, len(defs), of):
        d = defs[i]
        for j, e in enumerate(defs):
            n += 1
            if n % 100 == 0:
                gc.collect()
            x = build(d)
            y = build(e)
            same = key(d) == key(e)
            how = lambda: f'{key(d)} then {key(e)}'
            ctx.check((x is y, issubclass(x, y), issubclass(y, x)), (same, key(e) in up[i], key(d) in up[j]), 'pair of types', how)
            ctx.check((build(d) is x, build(e) is y), (True, True), 'type is not canonical', how)
            report(ctx, d, x, how)
        ctx.traces += 1


def extras(ctx):
    """definitions that differ in one attribute that is not a field"""
    import functools
    g1, g2 = (lambda self: 1), (lambda self: 1)
    vals = [meth1, meth2, g1, g2, property(meth1), property(meth2), property(meth1), classmethod(meth1), staticmethod(meth1), staticmethod(meth2),
            functools.partial(meth1, 1), 'x', 'y', '', (1, 2), (1, 3), None, 2.5, len, object(), object(), frozenset([1])]
    for kind, mk, base in (('product', P, Product), ('tu', U, TaggedUnion), ('enum', N, Enum), ('product', P, MyProd), ('tu', U, MyTU)):
        f = (('a', 0), ('b', 1)) if kind == 'enum' else (a, b)
        ds = [mk('P', *f, base=base, extra=v) for v in vals] + [mk('P', *f, base=base, extra2=v) for v in vals] + [mk('P', *f, base=base)]
        ds += [mk('P', *f, base=base, extra=v, extra2=w) for v in vals[:8] for w in vals[:8]]
        ds += [mk('P', *f, base=base, _hidden=v) for v in vals] + [mk('P', *f, base=base, _sunder_=v) for v in vals]
        live = [build(d) for d in ds]
        for i, (d, t) in enumerate(zip(ds, live)):
            ctx.state((kind, base.__name__, i))
            ctx.check((t.__name__, t.is_bound), ('P', True), 'definition with an extra attribute', lambda: f'{d}')
            for k, v in d[4:]:
                ctx.check(t.__dict__.get(k) is v, True, 'attribute', lambda: f'{d}: {k} is {t.__dict__.get(k)!r}')
            for j, u in enumerate(live):
                if j != i and t is u:
                    ctx.fail('types of different definitions', f'{d} and {ds[j]}')
            ctx.check(build(d) is t, True, 'type is not canonical', lambda: f'{d}')
        ctx.traces += 1


def lookalike_bases(ctx):
    """definitions that differ only in a base class of the same name"""
    def mix():
        class Mixin:
            pass
        return Mixin

    def fam(base):
        return type(base)('Family', (base,), {})
    for kind, mk, base in (('product', P, Product), ('tu', U, TaggedUnion), ('enum', N, Enum)):
        f = (('a', 0), ('b', 1)) if kind == 'enum' else (a, b)
        ms = [mix() for _ in range(3)]
        fs = [fam(base) for _ in range(3)]
        bases = [(base,)] + [(x,) for x in fs] + [(m, base) for m in ms] + [(base, m) for m in ms] + [(m, x) for m in ms for x in fs]
        bases += [(x, m) for m in ms for x in fs] + [(m, k, base) for m, k in it.permutations(ms, 2)] + [(m, base, k) for m, k in it.permutations(ms, 2)]
        ds = [mk('P', *f, base=base if base in bs else [x for x in bs if x in fs][0], bases=bs) for bs in bases]
        for rounds in range(2):
            live = [build(d) for d in ds]
            for i, t in enumerate(live):
                how = lambda: f'{kind} P with bases {[f"{x.__name__} {(ms + fs + [base]).index(x)}" for x in bases[i]]}'
                ctx.states += 1
                ctx.check(t.__bases__[:1] == bases[i][:1] and all(x in t.__mro__ for x in bases[i]), True, 'bases', how)
                ctx.check([issubclass(t, x) for x in ms + fs], [x in bases[i] for x in ms + fs], 'subtyping', how)
                for j, u in enumerate(live):
                    ctx.check((t is u, t == u), (i == j,) * 2, 'identity', how)
                ctx.check(build(ds[i]) is t, True, 'type is not canonical', how)
            live = t = u = None
            gc.collect()
        ctx.traces += 1
    # unnamed kinds: families of one name
    for base, f in ((Tuple, (Bit, B2)), (Sum, (Bit, B2)), (AnonymousProduct, dict((a, b)))):
        fs = [base] + [fam(base) for _ in range(4)]
        live = [x[f] for x in fs]
        for i, j in it.product(range(5), repeat=2):
            ctx.states += 1
            ctx.check((live[i] is live[j], issubclass(live[i], fs[j]), issubclass(live[i], live[j]), fs[i][f] is live[i]), (i == j, i == j or j == 0, i == j or j == 0, True),
                      'identity', f'{base.__name__} families {i} and {j} of one name')


def wide(ctx, n):
    """definitions of many fields; every one that differs in a single place"""
    def clone(k):
        class Same(Enum):
            u = k
        return Same
    s1, s2 = clone(0), clone(1)

    def vec(base):
        return type(base)('Word', (base,), {})
    v1, v2 = vec(BitVector)[4], vec(BitVector)[4]
    alt = {s1: s2, v1: v2, Bit: B2, B2: U2}
    pats = ([s1], [Bit, s1], [v1, Bit], [B2])
    kinds = [('tuple', Tuple), ('tuple', MyTuple), ('anon', AnonymousProduct), ('product', Product), ('tu', TaggedUnion), ('enum', Enum), ('sum', Sum)]
    for (kind, base), pat in it.product(kinds, pats):
        ts = [pat[i % len(pat)] for i in range(n)]
        if kind == 'enum':
            f0 = tuple((f'm{i}', i) for i in range(n))
        elif kind == 'tuple':
            f0 = tuple(ts)
        elif kind == 'sum':
            f0 = tuple(BitVector[i + 1] for i in range(n - 1)) + (pat[0],)
        else:
            f0 = tuple((f'm{i}', t) for i, t in enumerate(ts))
        name = None if kind in ('tuple', 'anon', 'sum') else 'Wide'
        d0 = (kind, base, name, f0)
        how = lambda: f'{kind} of {n} fields {[t.__name__ for t in pat]}'
        t0 = build(d0)
        ctx.check(build(d0) is t0, True, 'type is not canonical', how)
        report(ctx, d0, t0, how)
        live = {key(d0): t0}
        where = range(n) if n <= 40 else sorted({0, 1, 6, 7, 8, 15, 16, 31, 32, 63, 64, n // 2, n - 2, n - 1})
        for i in where:
            fs = [list(f0) for _ in range(3)]
            if kind == 'tuple':
                fs[0][i] = alt[ts[i]]
                fs[1][i], fs[1][i - 1] = fs[1][i - 1], fs[1][i]
                del fs[2][i]
            elif kind == 'sum':
                fs[0][i] = UIntVector[i + 1] if i < n - 1 else alt[pat[0]]
                fs[1][i], fs[1][i - 1] = fs[1][i - 1], fs[1][i]
                del fs[2][i]
            else:
                m, t = f0[i]
                fs[0][i] = (m, alt[t] if kind != 'enum' else n + 5)
                fs[1][i] = (m + 'x', t)
                fs[2][i], fs[2][i - 1] = fs[2][i - 1], fs[2][i]
            for f in fs:
                d = (kind, base, name, tuple(f))
                if not f:
                    continue
                ctx.states += 1
                t = build(d)
                ctx.check(live.setdefault(key(d), t) is t, True, 'type is not canonical', how)
                report(ctx, d, t, how)
                if len(set(live.values())) != len(live):
                    ctx.fail('types of different definitions', f'{how()}: field {i} changed')
        ctx.check(build(d0) is t0, True, 'type is not canonical', how)
        if kind in ('product', 'tu', 'enum', 'anon'):
            back = build((kind, base, name, f0[::-1]))
            ctx.check((back is t0), n == 1 or kind in ('tu', 'enum'), 'fields in the reverse order', how)
        ctx.traces += 1


def families(ctx, kind, bind, root):
    """user families: every class hierarchy of <= 4 classes (each with one or two
    earlier bases), bound to 1-9 fields in every order of first use of the classes"""
    mk = type(root)
    lists = []

    def grow(chain):
        lists.append(chain)
        if len(chain) < 4:
            for bs in [(i,) for i in range(len(chain) + 1)] + [b for b in it.permutations(range(1, len(chain) + 1), 2)]:
                grow(chain + [bs])
    grow([])
    for chain in lists:
        for n in (1, 2, 3, 4, 5, 9):
            for order in (range(len(chain), -1, -1), range(len(chain) + 1)):
                cs = [root]
                try:
                    for i, bs in enumerate(chain):
                        cs.append(mk(f'F{i}', tuple(cs[b] for b in bs), {}))
                except TypeError:       # no linear order of the bases
                    cs = None
                    break
                how = lambda: f'{kind}: classes with bases {chain} bound to {n} fields, first used in order {list(order)}'
                got = {}
                for i in order:
                    got[i] = bind(cs[i], n)
                ctx.state((kind, tuple(chain), n, order[0]))
                for i, j in it.product(got, repeat=2):
                    ctx.check((issubclass(got[i], got[j]), issubclass(got[i], cs[j])), (issubclass(cs[i], cs[j]),) * 2,
                              'subclasses', lambda: f'{how()}: {i} of {j}')
                    ctx.check((got[i] is got[j]), i == j, 'types of different definitions', how)
                for i in got:
                    ctx.check((bind(cs[i], n) is got[i], got[i].unbound_t is cs[i], got[i].is_bound), (True,) * 3, 'type is not canonical', lambda: f'{how()}: {i}')
                    ctx.check(tuple(got[i].field_dict.values()) if kind != 'sum' else got[i].fields,
                              tuple(BitVector[k + 1] for k in range(n)) if kind != 'sum' else frozenset(BitVector[k + 1] for k in range(n)), 'fields', how)
                ctx.traces += 1
            if cs is None:
                break


def crowd(ctx, n):
    """many types alive at once; each is found again, then all go and come back"""
    for kind, base, nm in (('tuple', Tuple, None), ('sum', Sum, None), ('anon', AnonymousProduct, None), ('product', Product, 'P'), ('tu', TaggedUnion, 'P'), ('enum', Enum, 'P')):
        def d(i):
            t = BitVector[i + 1]
            return (kind, base, nm, {'tuple': (t, Bit), 'sum': (t, Bit), 'enum': (('a', i), ('b', -1))}.get(kind, (('a', t), ('b', Bit))))
        for rnd in range(2):
            live = [build(d(i)) for i in range(n)]
            ctx.check(len(set(live)), n, 'types of different definitions', kind)
            for i, t in enumerate(live):
                ctx.states += 1
                ctx.check(build(d(i)) is t, True, 'type is not canonical', lambda: f'{kind} {i} of {n} alive')
                if i % 50 == 0:
                    report(ctx, d(i), t, lambda: f'{kind} {i}')
            live = t = None
            gc.collect()
    ctx.traces += 1


def reserved(ctx):
    for base, k in ((Product, 'product'), (TaggedUnion, 'tu'), (Enum, 'enum'), (MyProd, 'product'), (MyTU, 'tu'), (MyEnum, 'enum')):
        v = 1 if k == 'enum' else Bit
        for n in sorted(RESERVED_ATTRS):
            for f in ((n,), (n, 'a'), ('a', n)):
                for via in ('stmt', 'fields', 'fields_explicit'):
                    for cache in (True, False):
                        ctx.state((k, n, f, via))
                        ctx.raises(ReservedNameError, lambda: build((k, base, 'P', tuple((x, v) for x in f)), via, cache), 'reserved name',
                                   f'{base.__name__} fields {f} by {via}')
        for n in sorted(RESERVED_SUNDERS):
            # whatever value is given to them
            ctx.raises(ReservedNameError, lambda: type(base)('P', (base,), {n: None}), 'reserved name', f'{n} = None')
        for n in ('a', 'x_', '_x', 'field', 'values', 'Fields', 'cached', '__x', 'mod'):
            t = build((k, base, 'P', ((n, v),)))
            ctx.check((list(t.field_dict), t.is_bound), ([n], True), 'ordinary name', f'{base.__name__} {n}')
    for base in ANON:
        for n in sorted(RESERVED_ATTRS):
            for f in ((n,), (n, 'a'), ('a', n)):
                ctx.raises(ReservedNameError, lambda: base[{x: Bit for x in f}], 'reserved name', f'{base.__name__} fields {f}')
    want = {'enumerate', 'fields', 'field_dict', 'is_bound', 'is_cached', 'value_dict', 'from_values', '_value_', '_tag_', '_cached_',
            '_fields_', '_field_table_', '_unbound_base_', '_syntax_'}
    ctx.check(RESERVED_ATTRS >= want, True, 'reserved names', sorted(want - RESERVED_ATTRS))
    for base in (Tuple, Sum, MyTuple, MySum):
        for n in sorted(RESERVED_SUNDERS):
            ctx.raises(ReservedNameError, lambda: type(base)('P', (base,), {n: None}), 'reserved name', f'{base.__name__} {n}')
    for base in (Tuple, MyTuple, YourTuple, Sum, MySum, AnonymousProduct, MyAnon, Product, MyProd, TaggedUnion, MyTU):
        ctx.raises(TypeError, lambda: base(Bit(1)) if base not in (Tuple, MyTuple, YourTuple) else None.x, 'unbound type instanced', base.__name__) \
            if base not in (Tuple, MyTuple, YourTuple) else None
    # an unbound Tuple called with values infers the types, in the same family
    for base in (Tuple, MyTuple, YourTuple):
        for vals in ((Bit(1),), (Bit(1), B2(2)), (B2(2), Bit(0), En.a)):
            x = base(*vals)
            ctx.check((type(x) is base[tuple(map(type, vals))], tuple(x._value_)), (True, vals), 'inferred tuple', f'{base.__name__}{vals}')
    # a class cannot have two different field lists
    X, Y = Tuple[Bit, B2], Tuple[B2, Bit]
    ctx.raises(TypeError, lambda: type(Tuple)('Z', (X, Y), {}), 'two field lists inherited', 'Tuple[Bit, B2], Tuple[B2, Bit]')
    X, Y = Sum[Bit, B2], Sum[B2, B3]
    ctx.raises(TypeError, lambda: type(Sum)('Z', (X, Y), {}), 'two field lists inherited', 'Sums')
    ctx.traces += 1


def jobs(tier):
    deep = tier == 'thorough'
    out = [Job('reserved names', reserved, weight=2)]
    out.append(Job('extra attributes', extras, weight=10))
    out.append(Job('bases of one name', lookalike_bases, weight=10))
    for n in (3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 32, 33, 64, 65, 100, 257) if deep else (4, 6, 7, 8, 9, 12, 16, 17, 33, 65, 257):
        out.append(Job(f'{n} fields', wide, n, weight=10))
    vs = [BitVector[k + 1] for k in range(9)]
    out.append(Job('families of Tuple', families, 'tuple', lambda c, n: c[tuple(vs[:n])], Tuple, weight=5))
    out.append(Job('families of AnonymousProduct', families, 'anon', lambda c, n: c[{f'f{k}': vs[k] for k in range(n)}], AnonymousProduct, weight=5))
    out.append(Job('families of Sum', families, 'sum', lambda c, n: c[tuple(vs[:n])], Sum, weight=5))
    out.append(Job('many types alive', crowd, 3000 if deep else 700, weight=20))
    of = 16
    for p in range(of):
        out.append(Job(f'pairs alive {p}', pairs, p, of, True, weight=5))
        out.append(Job(f'pairs {p}', pairs, p, of, False, weight=20))
    for w in WORLDS:
        d = (5 if w in ('Tuple', 'Sum') else 4) if deep else 4 if w in ('Tuple', 'Sum', 'Enum') else 3
        acts = actions(w)
        for x in acts:
            if x[0] == 'drop':
                continue
            if d == 3:
                out.append(Job(f'{w}: {x}', histories, w, d, x, weight=8))
            else:
                out.append(Job(f'{w}: {x} only', histories, w, 1, x, weight=1))
                for y in acts:
                    out.append(Job(f'{w}: {x} {y}', histories, w, d, x, y, weight=10))
    return out
