"""C26: frozen mappings and typed properties keep their contracts.

Every mapping over a small alphabet with every insertion order and way of
building it against a plain dict; every history of property definitions and of
reads, writes and deletes against three slots.
"""
import itertools as it
from collections import ChainMap, OrderedDict
from types import MappingProxyType

from core import Job, attempt
from hwtypes import Bit, BitVector
from hwtypes.util import FrozenDict, OrderedFrozenDict, TypedProperty

PROP = 'C26'
SPACE = {
    'quick': 'mappings of 4-257 entries in several orders with every one-place change; mappings: all sequences of up to 3 insertions of 5 keys (repeats, equal keys of different types) and 4 values, 12 ways of building, then all pairs '
             'of mappings of 4 keys, and of all pairs of ways of building mappings of up to 2; later changes of the source; 25 mutations. Properties: all histories of 4 of 6 definition steps, each then under all '
             'sequences of 3 of 13 uses; 5 types; inheritance, 2 properties, 2 classes',
    'thorough': 'as quick with 4 insertions, histories of 5 definition steps and sequences of 4 uses',
}
ASSUMPTIONS = ['mappings hold hashable values', 'FrozenDict and OrderedFrozenDict compared with one another are outside the property',
               'the property is defined in a class body']
MISSING = object()


class K:
    """a key that is only itself"""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'K{self.n}'


class H:
    """a key whose hash collides with every other's"""
    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return 1

    def __eq__(self, other):
        return isinstance(other, H) and self.n == other.n

    def __repr__(self):
        return f'H{self.n}'


KEYS = ['x', 'y', 1, True, H(0), H(1), ('x', 1), None]
VALS = [0, 'x', None, 1.0, -1, -2]


def builds(pairs):
    """(name, callable of the class, the mutable source or None)"""
    d, o, lst, view = dict(pairs), OrderedDict(pairs), [list(p) for p in pairs], dict(pairs)
    out = [(n, (lambda C, s=s: C(s)), s) for n, s in (('dict', d), ('OrderedDict', o), ('pairs', lst))]
    out += [('tuple of pairs', lambda C: C(tuple(pairs)), None), ('generator', lambda C: C(p for p in pairs), None),
            ('items', lambda C: C(dict(pairs).items()), None), ('proxy', lambda C: C(MappingProxyType(view)), view),
            ('FrozenDict', lambda C: C(C(pairs)), None),
            ('a FrozenDict', lambda C: C(FrozenDict(pairs)), None), ('an OrderedFrozenDict', lambda C: C(OrderedFrozenDict(pairs)), None), ('dict of it', lambda C: C(dict(C(pairs))), None)]
    if all(isinstance(k, str) for k in d):
        out += [('keywords', lambda C: C(**dict(pairs)), None), ('dict and keywords', lambda C: C(dict(pairs[:1]), **dict(pairs[1:])), None)]
    return out


def alter(src):
    """change a mutable source in place"""
    if isinstance(src, list):
        for p in src:
            p[1] = 'changed'
        src.append(['added', 1])
        src.reverse()
    else:
        for k in list(src):
            src[k] = 'changed'
        src['added'] = 1
        if isinstance(src, OrderedDict):
            for k in list(src)[:-1]:
                src.move_to_end(k)


def observe(ctx, f, d, C, txt):
    """every observation of mapping f against dict d"""
    ck = ctx.check
    ck(len(f), len(d), 'len', txt)
    ck(list(f), list(d), 'iteration', txt)
    ck(list(f.keys()), list(d), 'keys', txt)
    ck(list(f.values()), list(d.values()), 'values', txt)
    ck(list(f.items()), list(d.items()), 'items', txt)
    ck(dict(f), d, 'as dict', txt)
    ck({**f}, d, 'unpacked', txt)
    ck(bool(f), bool(d), 'truth', txt)
    for k in KEYS + [K(9), 2, False, 'zz', H(5)]:
        ck(k in f, k in d, 'membership', lambda: f'{txt()} {k!r}')
        ck(f.get(k, MISSING) is d.get(k, MISSING), True, 'get', lambda: f'{txt()} {k!r}')
        ck(f.get(k) is d.get(k), True, 'get', lambda: f'{txt()} {k!r}')
        if k in d:
            ck(f[k] is d[k], True, 'lookup', lambda: f'{txt()} {k!r}')
        else:
            ctx.raises(KeyError, lambda: f[k], 'lookup of a missing key', lambda: f'{txt()} {k!r}')
    for e in (f, d, FrozenDict(d) if C is FrozenDict else OrderedFrozenDict(d)):
        ck(f == e, True, '== with an equal mapping', lambda: f'{txt()} and {type(e).__name__}')
        ck(f != e, False, '!= with an equal mapping', lambda: f'{txt()} and {type(e).__name__}')
        if not isinstance(e, dict):
            ck(hash(f), hash(e), 'hash of equal mappings', txt)
            ck(e in {f}, True, 'found in a set', txt)
            ck({f: 3}.get(e), 3, 'found in a dict', txt)
    for e in (None, 0, [], list(d.items()), 'x', tuple(d)):
        ck(f == e, False, '== with something else', lambda: f'{txt()} and {e!r}')
        ck(f != e, True, '!= with something else', lambda: f'{txt()} and {e!r}')


MUTATORS = ['__setitem__', '__delitem__', 'pop', 'popitem', 'clear', 'update', 'setdefault', '__ior__', 'move_to_end']


def mutate(ctx, f, d, C, txt):
    """no mutating operation of dict changes it"""
    h = hash(f)
    for m in MUTATORS:
        for args in ((), ('x',), ('x', 5), ({'x': 5},), (H(0),)):
            g = getattr(f, m, None)
            ctx.transitions += 1
            if g is None:
                continue
            attempt(g, *args)
            ctx.check((list(f.items()), hash(f)), (list(d.items()), h), 'changed in place', lambda: f'{txt()}.{m}{args}')

    def setitem():
        f['x'] = 5

    def delitem():
        del f[next(iter(d), 'x')]

    ctx.raises(TypeError, setitem, 'item assignment', txt)
    ctx.raises(TypeError, delitem, 'item deletion', txt)
    ctx.check((list(f.items()), hash(f)), (list(d.items()), h), 'changed in place', txt)


def job_maps(ctx, C, keys, nins, part, parts):
    kv = [(k, v) for k in keys for v in VALS]
    seqs = [s for r in range(nins + 1) for s in it.product(kv, repeat=r)]
    for s in seqs[part::parts]:
        d = dict(s) if C is FrozenDict else OrderedDict(s)
        for how, make, src in builds(list(s)):
            f = make(C)
            txt = lambda: f'{C.__name__} by {how} of {list(s)}'
            ctx.check(type(f), C, 'class', txt)
            first = how in ('dict', 'generator')
            if first:
                observe(ctx, f, dict(d), C, txt)
                ctx.state((how, s))
            h = hash(f)
            ctx.check(list(f.items()), list(d.items()), 'items', txt)
            ctx.check(hash(f) == hash(C(list(d.items()))), True, 'hash depends on the way of building', txt)
            if src is not None:
                alter(src)
                ctx.check((list(f.items()), hash(f), len(f)), (list(d.items()), h, len(d)), 'follows its source', txt)
            if first and len(s) < 3:
                mutate(ctx, f, d, C, txt)
            ctx.traces += 1
    ctx.sample(f'{C.__name__} of {list(s)} built {len(builds(list(s)))} ways')


def job_pairs(ctx, C):
    """equality and hash of all pairs of mappings"""
    keys = ['x', 'y', 1, H(0)]
    vals = [0, None]
    ms = []
    for r in range(4):
        for ks in it.permutations(keys, r):
            for vs in it.product(vals, repeat=r):
                p = list(zip(ks, vs))
                ms.append((p, C(p), OrderedDict(p)))
    for (p, f, d), (q, g, e) in it.product(ms, repeat=2):
        want = dict(d) == dict(e) if C is FrozenDict else d == e
        ctx.check(f == g, want, '==', lambda: f'{C.__name__}: {p} and {q}')
        ctx.check(f != g, not want, '!=', lambda: f'{C.__name__}: {p} and {q}')
        if want:
            ctx.check(hash(f), hash(g), 'hash of equal mappings', lambda: f'{C.__name__}: {p} and {q}')
        ctx.check(f == dict(e), dict(d) == dict(e), '== with a dict', lambda: f'{C.__name__}: {p} and {q}')
        ctx.check(dict(e) == f, dict(d) == dict(e), 'dict ==', lambda: f'{C.__name__}: {p} and {q}')
        if C is FrozenDict:
            ctx.check(f == e, dict(d) == dict(e), '== with an OrderedDict', lambda: f'{C.__name__}: {p} and {q}')
        else:
            ctx.check(f == e, d == e, '== with an OrderedDict', lambda: f'{C.__name__}: {p} and {q}')
    ctx.states += len(ms)
    # as keys: one entry per class of equal mappings
    table, model = {}, []
    for p, f, d in ms:
        table[f] = p
        key = list(d.items()) if C is OrderedFrozenDict else dict(d)
        if key not in model:
            model.append(key)
    ctx.check(len(table), len(model), 'classes of equal mappings as keys', C.__name__)
    # nested: mappings as values and keys
    for (p, f, d), (q, g, e) in it.product(ms[:40], repeat=2):
        same = f == g
        for n1, n2 in ((C(k=f), C(k=g)), (C([(f, 1)]), C([(g, 1)]))):
            ctx.check(n1 == n2, same, 'nested ==', lambda: f'{C.__name__}: {p} and {q}')
            if same:
                ctx.check(hash(n1), hash(n2), 'nested hash', lambda: f'{C.__name__}: {p} and {q}')
    ctx.traces += len(ms)


def job_ways(ctx, C):
    """equality and hash of mappings built in different ways"""
    keys, vals = ['x', 'y', H(0)], [0, None]
    ms = []
    for r in range(3):
        for ks in it.permutations(keys, r):
            for vs in it.product(vals, repeat=r):
                p = list(zip(ks, vs))
                ms.append((p, [(how, make(C)) for how, make, _ in builds(p)], OrderedDict(p)))
    for (p, fs, d), (q, gs, e) in it.product(ms, repeat=2):
        want = dict(d) == dict(e) if C is FrozenDict else d == e
        for (how, f), (how2, g) in it.product(fs, gs):
            txt = lambda: f'{C.__name__}: {p} by {how} and {q} by {how2}'
            ctx.check((f == g, f != g, g == f), (want, not want, want), '== of mappings built differently', txt)
            if want:
                ctx.check(hash(f) == hash(g) and {f: 1}.get(g) == 1, True, 'hash of equal mappings', txt)
        ctx.states += len(fs) * len(gs)
    ctx.traces += len(ms)


def twin(x, as_float):
    """an equal but distinct object"""
    if isinstance(x, str):
        return ''.join(list(x))
    if isinstance(x, tuple):
        return tuple([twin(y, as_float) for y in x])
    if isinstance(x, H):
        return H(x.n)
    if isinstance(x, int):
        return float(x) if as_float and abs(x) < 1 << 53 else int(str(x))
    return x


def job_many(ctx, C, n):
    """mappings of n entries: every order kind, every one-place change"""
    keysets = [list(range(-3, n - 3)), [f'k{i}' for i in range(n)], [H(i) for i in range(n)], [(i, str(i)) for i in range(n)],
               [(-1, -2, 'x', None, H(i), i, 1 << 61 - 1, float(i) + .5)[i % 8] if i < 8 else (i, i) for i in range(n)]]
    if n > 40:
        del keysets[2]
    valsets = [[0] * n, list(range(-3, n - 3)), [(-1, -2)[i % 2] for i in range(n)], [(-1, -2, None, 'x', (), H(1), 0, 1 << 61)[i % 8] for i in range(n)],
               [H(i) for i in range(n)]]
    for keys, vals in it.product(keysets, valsets):
        base = list(zip(keys, vals))
        f = C(base)
        h = hash(f)
        d = dict(base)
        txt = lambda: f'{C.__name__} of {n} entries {base[:9]}'
        ctx.state((C.__name__, n, str(base[:9])))
        ctx.check((len(f), list(f), list(f.values()), list(f.items()), f == d, hash(f)), (n, keys, vals, base, True, h), 'contents', txt)
        orders = [base, base[::-1], base[1:] + base[:1], base[n // 2:] + base[:n // 2], sorted(base, key=lambda p: repr(p))]
        for i in range(n - 1) if n <= 40 else (0, n // 2, n - 2):
            o = list(base)
            o[i], o[i + 1] = o[i + 1], o[i]
            orders.append(o)
        orders += [[(twin(k, fl), twin(v, fl)) for k, v in base] for fl in (False, True)]
        for o in orders:
            for g in (C(o), C(dict(o)), C(OrderedDict(o))):
                ctx.transitions += 1
                want = C is FrozenDict or o == base
                if (f == g, f != g, g == f) != (want, not want, want):
                    ctx.fail('== in another order', f'{txt()} and {o[:9]}: {f == g}')
                if want and (hash(g) != h or g not in {f} or {f: 1}.get(g) != 1):
                    ctx.fail('hash of equal mappings', f'{txt()} and {o[:9]}')
        for i in range(n) if n <= 40 else sorted({0, 1, 7, 8, n // 2, n - 2, n - 1}):
            k, v = base[i]
            for nk, nv in ((k, 'other'), (k, -2 if v == -1 else -1), ('other', v), (k, None if v is not None else 0)):
                p = base[:i] + [(nk, nv)] + base[i + 1:]
                if p == base:
                    continue
                g = C(p)
                ctx.check((f == g, f != g, g == dict(p), list(g.items())), (False, True, True, p), 'one entry differs', lambda: f'{txt()}: entry {i} is {nk!r}: {nv!r}')
            p = base[:i] + base[i + 1:]
            ctx.check((f == C(p), C(p) == f, f == dict(p)), (False, False, False), 'one entry missing', lambda: f'{txt()}: entry {i}')
            ctx.check((k in f, f[k] is v, f.get(k) is v), (True, True, True), 'lookup', lambda: f'{txt()}: entry {i}')
        mutate(ctx, f, dict(base), C, txt)
        ctx.traces += 1


def job_ctor(ctx):
    """constructor arguments dict refuses are refused, and nothing else"""
    for C in (FrozenDict, OrderedFrozenDict):
        for args, kw in (((), {}), (({},), {}), (((),), {}), (([],), {'a': 1}), (({'a': 1},), {'a': 2}), ((), {'self': 1}), ((), {'d': 1, '_d': 2, '_hash': 3}),
                         ((1,), {}), (({}, {}), {}), (([1],), {}), (([(1, 2, 3)],), {}), ((ChainMap({'a': 1}, {'b': 2}),), {}), (('ab',), {}),
                         ((['ab', 'cd'],), {}), ((None,), {})):
            want = attempt(dict, *args, **kw) if 'self' not in kw else None
            if want is None:
                continue
            got = attempt(C, *args, **kw)
            if want[0] == 'ok':
                ctx.check((got[0], dict(got[1]) if got[0] == 'ok' else got[1]), want, 'construction', lambda: f'{C.__name__}{args}{kw}')
            else:
                ctx.check(got, want, 'construction', lambda: f'{C.__name__}{args}{kw}')
            ctx.states += 1
    ctx.traces += 1


# ---- TypedProperty -------------------------------------------------------
class Base:
    pass


class Derived(Base):
    pass


TYPES = {
    'Bit': (Bit, [Bit(0), Bit(1)], [0, True, BitVector[1](1), Bit, None]),
    'BitVector[3]': (BitVector[3], [BitVector[3](5), BitVector[3](0)], [BitVector[4](1), 5, Bit(1), BitVector[3], None]),
    'Base': (Base, [Base(), Derived()], [object(), Base, Derived, None]),
    'Derived': (Derived, [Derived(), Derived()], [Base(), Derived, None]),
    'int': (int, [0, True], ['0', 1.0, int, None]),
}


def accessors(i):
    """a getter, setter and deleter told apart by i"""
    def fget(self):
        self.log.append(('get', i))
        if self.slot is MISSING:
            raise LookupError(i)
        return self.slot

    def fset(self, v):
        self.log.append(('set', i, v))
        self.slot = v

    def fdel(self):
        self.log.append(('del', i))
        self.slot = MISSING
    fget.__doc__ = f'doc {i}'
    return fget, fset, fdel


class Prop:
    """a property and its model"""
    __slots__ = ('real', 'slots')

    def __init__(self, real, slots):
        self.real, self.slots = real, slots


STEPS = ('getter', 'setter', 'deleter', 'getter0', 'setter0', 'deleter0')


def step(ctx, props, name, j, n):
    """apply one definition step to property j of the history; n numbers the accessors"""
    p = props[j]
    which = name.rstrip('0')
    kind = ('getter', 'setter', 'deleter').index(which)
    f = None if name.endswith('0') else accessors(n)[kind]
    r = getattr(p.real, which)(f)
    s = list(p.slots)
    s[kind] = (None, None) if f is None else (f, n)
    return Prop(r, s)


def start(T, mask, n):
    fs = [f if mask >> i & 1 else None for i, f in enumerate(accessors(n))]
    how = mask % 3
    if how == 0:
        r = TypedProperty(T)(*fs)
    elif how == 1:
        r = TypedProperty(T)(fget=fs[0], fset=fs[1], fdel=fs[2], doc='given')
    else:
        r = TypedProperty(T)(fs[0])
        if fs[1] is not None:
            r = r.setter(fs[1])
        if fs[2] is not None:
            r = r.deleter(fs[2])
    return Prop(r, [(f, n) if f is not None else (None, None) for f in fs])


def uses(goods, bads):
    us = [('class',), ('read',), ('delete',), ('shadow',), ('read class of derived',)]
    us += [('write', v) for v in goods] + [('write', v) for v in bads]
    return us


def apply(ctx, C, D, obj, m, T, prop, u, txt):
    """one use of property 'f' on obj; m = [slot] is the model's state"""
    (fg, ng), (fs, ns), (fd, nd) = prop.slots
    del obj.log[:]
    before = obj.slot
    if u[0] == 'class':
        ctx.check(C.f is T, True, 'read on the class', txt)
        want = []
    elif u[0] == 'read class of derived':
        ctx.check(D.f is T, True, 'read on a derived class', txt)
        want = []
    elif u[0] == 'shadow':
        # the descriptor wins over the instance's own dictionary
        obj.__dict__['f'] = 'shadow'
        want = []
    elif u[0] == 'read':
        if fg is None:
            ctx.raises(AttributeError, lambda: obj.f, 'read without getter', txt)
            want = []
        elif m[0] is MISSING:
            ctx.raises(LookupError, lambda: obj.f, 'the getter\'s exception', txt)
            want = [('get', ng)]
        else:
            ctx.check(obj.f is m[0], True, 'read on an instance', txt)
            want = [('get', ng)]
    elif u[0] == 'write':
        v = u[1]

        def write():
            obj.f = v
        if fs is None:
            ctx.raises((TypeError, AttributeError), write, 'write without setter', txt)
            want = []
        elif not isinstance(v, T):
            ctx.raises((TypeError, AttributeError), write, 'write of another type', txt)
            want = []
        else:
            write()
            m[0] = v
            want = [('set', ns, v)]
    else:
        def delete():
            del obj.f
        if fd is None:
            ctx.raises(AttributeError, delete, 'delete without deleter', txt)
            want = []
        else:
            delete()
            m[0] = MISSING
            want = [('del', nd)]
    got = list(obj.log)
    ctx.transitions += 1
    if len(got) != len(want) or any(len(g) != len(w) or g[:2] != w[:2] or (len(g) > 2 and g[2] is not w[2]) for g, w in zip(got, want)):
        ctx.fail('accessor called', f'{txt()}: expected {want}, got {got}')
    if obj.slot is not m[0]:
        ctx.fail('state after', f'{txt()}: {obj.slot!r} for {m[0]!r}')


def klass(prop, other=None):
    def init(self, slot):
        self.slot = slot
        self.log = []
    ns = {'__init__': init, 'f': prop}
    if other is not None:
        ns['g'] = other
    C = type('C', (), ns)
    return C, type('D', (C,), {})


def odd(C):
    """a class whose objects are false, empty and equal to everything"""
    return type('Odd', (C,), {'__len__': lambda s: 0, '__bool__': lambda s: False, '__eq__': lambda s, o: True, '__ne__': lambda s, o: False,
                              '__hash__': None})


def run_uses(ctx, T, prop, us, length, hist, goods):
    C, D = klass(prop.real)
    X = odd(C)
    for seq in it.product(us, repeat=length):
        for O in (C, D, X) if length < 3 else (C, D):
            obj = O(goods[0])
            m = [goods[0]]
            for i, u in enumerate(seq):
                apply(ctx, C, D, obj, m, T, prop, u, lambda: f'{hist} then {seq[:i + 1]} on {O.__name__}')
        ctx.traces += 2
    ctx.state(hist)


def histories(ctx, T, depth):
    """every definition history; yields (text, properties all alive)"""
    for mask in range(8):
        for r in range(depth):
            for names in it.product(STEPS, repeat=r):
                for src in ('last', 'first'):
                    if src == 'first' and r < 2:
                        continue
                    props = [start(T, mask, 0)]
                    for n, name in enumerate(names):
                        props.append(step(ctx, props, name, -1 if src == 'last' else 0, n + 1))
                    yield f'{mask:03b} {names} from {src}', props


def job_props(ctx, tname, depth, length, part, parts):
    T, goods, bads = TYPES[tname]
    us = uses(goods, bads)
    few = [us[1], us[2], ('write', goods[1]), ('write', bads[0])]
    for i, (hist, props) in enumerate(histories(ctx, T, depth)):
        if i % parts != part:
            continue
        # every property of the history, the later ones must not have changed the earlier
        for j, p in enumerate(props):
            ctx.check((p.real.fget, p.real.fset, p.real.fdel, p.real.T), (*(f for f, _ in p.slots), T), 'functions of the property', lambda: f'{hist} #{j}')
            ctx.check(type(p.real), TypedProperty, 'class of the property', hist)
        last = props[-1]
        run_uses(ctx, T, last, us, 1 if len(props) > 2 else 2, f'{tname}: {hist}', goods)
        run_uses(ctx, T, last, few, 2 if len(props) > 2 else length, f'{tname}: {hist}', goods)
        for j, p in enumerate(props[:-1]):
            run_uses(ctx, T, p, few, 1, f'{tname}: {hist} #{j}', goods)
    ctx.sample(f'{hist}')


def job_two(ctx):
    """two properties in one class, one property under two names or in two classes, overriding"""
    Tf, gf, bf = TYPES['Base']
    Tg, gg, bg = TYPES['Bit']
    for mf, mg in it.product(range(8), repeat=2):
        pf, pg = start(Tf, mf, 1), start(Tg, mg, 2)
        C, D = klass(pf.real, pg.real)
        ctx.check((C.f, C.g), (Tf, Tg), 'read on the class', f'{mf} {mg}')
        for v, w in it.product(gf + bf, gg + bg):
            txt = lambda: f'f {mf:03b} = {v!r}, g {mg:03b} = {w!r}'
            obj = C(gf[0])
            m = [gf[0]]
            apply(ctx, C, D, obj, m, Tf, pf, ('write', v), txt)
            wrote = m[0]

            def write():
                obj.g = w
            if mg & 2 and isinstance(w, Tg):
                write()
                ctx.check(obj.slot is w, True, 'write of the second property', txt)
            else:
                ctx.raises((TypeError, AttributeError), write, 'refused write of the second property', txt)
                ctx.check(obj.slot is wrote, True, 'refused write changed the state', txt)
        # overridden in a derived class, and hidden by a plain attribute
        E = type('E', (C,), {'f': pg.real})
        F = type('F', (C,), {'f': 5})
        ctx.check((E.f, F.f, C.f), (Tg, 5, Tf), 'overridden property', f'{mf} {mg}')
        # the same property in a second class
        G, _ = klass(pf.real)
        obj, m = G(gf[0]), [gf[0]]
        for u in uses(gf, bf):
            apply(ctx, G, G, obj, m, Tf, pf, u, lambda: f'second class {mf:03b} {u}')
        ctx.traces += 1
    # written as decorators in a class body
    for T, goods, bads in TYPES.values():
        class C:
            def __init__(self):
                self.v = None

            @TypedProperty(T)
            def f(self):
                """text"""
                return self.v

            @f.setter
            def f(self, v):
                self.v = v

            @f.deleter
            def f(self):
                self.v = 'deleted'

            @TypedProperty(T)
            def r(self):
                return self.v
        ctx.check((C.f, C.r), (T, T), 'read on the class', T)
        ctx.check(C.__dict__['f'].__doc__, 'text', 'documentation', T)
        for v, w in it.product(goods + bads, repeat=2):
            c = C()
            for x in (v, w):
                old = c.v
                if any(x is y for y in goods):
                    c.f = x
                    ctx.check((c.f is x, c.r is x), (True, True), 'read after write', lambda: f'{T} {x!r}')
                elif not isinstance(x, T):
                    ctx.raises((TypeError, AttributeError), lambda: setattr(c, 'f', x), 'write of another type', lambda: f'{T} {x!r}')
                    ctx.check(c.v is old, True, 'refused write changed the state', lambda: f'{T} {x!r}')
                ctx.raises((TypeError, AttributeError), lambda: setattr(c, 'r', x), 'write of a read-only property', lambda: f'{T} {x!r}')
                ctx.raises(AttributeError, lambda: delattr(c, 'r'), 'delete of a read-only property', lambda: f'{T}')
            del c.f
            ctx.check(c.v, 'deleted', 'delete', T)
            ctx.states += 1


def jobs(tier):
    out = []
    nins = 3 if tier == 'quick' else 4
    for C in (FrozenDict, OrderedFrozenDict):
        keys = [['x', 'y', 1, True, H(0)], ['x', H(0), H(1), ('x', 1), None]]
        for i, ks in enumerate(keys):
            if tier != 'quick':
                ks = ks[:4]
            for p in range(4):
                out.append(Job(f'{C.__name__} keys {i} {p}', job_maps, C, ks, nins, p, 4, weight=3))
        out.append(Job(f'{C.__name__} pairs', job_pairs, C, weight=2))
        out.append(Job(f'{C.__name__} ways of building', job_ways, C, weight=6))
    for C in (FrozenDict, OrderedFrozenDict):
        for n in (4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 33, 64, 65, 100, 257) if tier == 'quick' else (4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 24, 31, 32, 33, 40, 64, 65, 100, 128, 257, 500, 1000):
            out.append(Job(f'{C.__name__} of {n} entries', job_many, C, n, weight=2))
    out.append(Job('constructors', job_ctor))
    for t in TYPES:
        for p in range(3):
            out.append(Job(f'properties of {t} {p}', job_props, t, 4 if tier == 'quick' else 5, 3 if tier == 'quick' else 4, p, 3, weight=4))
    out.append(Job('two properties', job_two))
    return out
