"""C11: Tuple, AnonymousProduct and Product values are typed mutable records.

Every construction from a pool of arguments, then every history of up to D
reads and writes over two objects, is run and compared with a list model.
"""
import itertools as it
from types import SimpleNamespace

from core import Job, attempt
from hwtypes import Bit, BitVector, Enum, Product, Sum, TaggedUnion, Tuple, UIntVector
from hwtypes.adt import AnonymousProduct

PROP = 'C11'
SPACE = {
    'quick': '12 record types (Tuple, AnonymousProduct, Product, derived, of records, of unions, 0-3 fields): every argument list of up to n+1 '
             'values from a pool of 12 (positional, keyword and mixed, from_values with every key set and order); every history of '
             '<= 3 writes, rebuilds and bad writes out of about 30 over two objects; all pairs of values of 14 types for equality and hash; values of types of the same name or fields refused; '
             'records of 4-257 fields: every single field read, written, refused, differing',
    'thorough': 'as quick with histories of <= 4',
}
ASSUMPTIONS = ['fields of Bit and bit vector type hold concrete values',
               'records nested in a record are held by reference, as the values of a Python list are']


class En(Enum):
    # values that hash alike
    a = -1
    b = -2


class En2(Enum):
    a = 0
    b = 1


B2, B3, U2 = BitVector[2], BitVector[3], UIntVector[2]


class P(Product):
    a = Bit
    b = B2


class PR(Product):
    b = B2
    a = Bit


class Q(Product):
    a = Bit
    b = B2


class P3(Product):
    x = B2
    y = B2
    z = En


class R(P):
    def total(self):
        return self.b + self.a.ite(B2(1), B2(0))


class Odd(Product):
    self = Bit
    cls = B2
    super = Bit


class PW(Product):
    a = Bit
    b = B3


class Inner(Product):
    u = Bit
    v = Bit


class Un(TaggedUnion):
    x = Bit
    y = Bit


class Outer(Product):
    i = Inner
    j = Inner
    k = Tuple[Bit, En]


class Rec(Product):
    i = Inner
    k = Tuple[Bit, En]


def lookalikes():
    """values of types that look like the field types: same names, same fields"""
    ns = {}
    exec('class En(Enum):\n    a = 0\n    b = 1\n'
         'class Inner(Product):\n    u = Bit\n    v = Bit\n'
         'class Inner2(Product):\n    u = Bit\n    v = Bit\n'
         'class Inner3(Product):\n    v = Bit\n    u = Bit\n', globals() | {}, ns)
    o, l = Bit(0), Bit(1)
    out = [ns['En'].a, ns['Inner'](o, l), ns['Inner2'](o, l), ns['Inner3'](o, l), Tuple[Bit, Bit](o, l),
           AnonymousProduct[dict(u=Bit, v=Bit)](o, l), Tuple[Bit, ns['En']](o, ns['En'].a), Tuple[Bit, B2](o, B2(0)),
           AnonymousProduct[{'a': Bit, 'b': En}](o, En.a), (o, En.a), [o, l], SimpleNamespace(u=o, v=l)]
    return out


class Py(Product):
    n = int
    s = str


class WithSum(Product):
    s = Sum[Bit, B2]
    e = En


A2 = AnonymousProduct[dict(a=Bit, b=B2)]
A2R = AnonymousProduct[dict(b=B2, a=Bit)]
T2 = Tuple[Bit, B2]


class MyTuple(Tuple):
    pass


TYPES = {
    'Tuple[Bit, B2]': (T2, (0, 1), (Bit, B2)),
    'Tuple[B2, B2, En]': (Tuple[B2, B2, En], (0, 1, 2), (B2, B2, En)),
    'MyTuple[En]': (MyTuple[En], (0,), (En,)),
    'AnonymousProduct': (A2, ('a', 'b'), (Bit, B2)),
    'Product': (P, ('a', 'b'), (Bit, B2)),
    'Product of 3': (P3, ('x', 'y', 'z'), (B2, B2, En)),
    'derived Product': (R, ('a', 'b'), (Bit, B2)),
    'oddly named': (Odd, ('self', 'cls', 'super'), (Bit, B2, Bit)),
    'of records': (Rec, ('i', 'k'), (Inner, Tuple[Bit, En])),
    'of unions': (Tuple[Un, Sum[Bit, B2]], (0, 1), (Un, Sum[Bit, B2])),
    'python types': (Py, ('n', 's'), (int, str)),
    'with Sum': (WithSum, ('s', 'e'), (Sum[Bit, B2], En)),
}
GOOD = {Bit: [Bit(0), Bit(1)], B2: [B2(1), B2(2)], En: [En.a, En.b], int: [0, 7], str: ['', 'x'],
        Sum[Bit, B2]: [Sum[Bit, B2](Bit(1)), Sum[Bit, B2](B2(1))]}
GOOD[Inner] = [Inner(Bit(0), Bit(1)), Inner(Bit(1), Bit(1))]
GOOD[Tuple[Bit, En]] = [Tuple[Bit, En](Bit(0), En.a), Tuple[Bit, En](Bit(0), En.b)]
GOOD[Un] = [Un(x=Bit(0)), Un(y=Bit(0))]
POOL = [Bit(0), Bit(1), B2(1), U2(2), B3(1), En.a, En2.a, 1, True, None, 'x', P(Bit(0), B2(1)), Sum[Bit, B2](Bit(1)), Bit, B2]
POOL3 = POOL                # for records of up to 3 fields
POOL2 = POOL + lookalikes() + [GOOD[t][1] for t in (Inner, Tuple[Bit, En], Un, Sum[Bit, B2])]


def rec(t, names, vals):
    """a model record: what the object should be"""
    return SimpleNamespace(t=t, names=names, vals=list(vals))


def same(x, y):
    """two field values are the same value (exact type too)"""
    return type(x) is type(y) and bool(x == y)


def agrees(ctx, x, m, how):
    """everything readable from x is what the model record says"""
    n = len(m.vals)
    ctx.transitions += 1
    if type(x) is not m.t:
        ctx.fail('type of the record', f'{how()}: {type(x)}')
    got = [x[i] for i in range(n)]
    if not all(a is b for a, b in zip(got, m.vals)):
        ctx.fail('indexed read', f'{how()}: expected {m.vals}, got {got}')
    got = [x[i - n] for i in range(n)]
    if not all(a is b for a, b in zip(got, m.vals)):
        ctx.fail('negative index', f'{how()}: expected {m.vals}, got {got}')
    ctx.raises(IndexError, lambda: x[n], 'index past the end', how)
    ctx.raises(IndexError, lambda: x[-n - 1], 'index past the end', how)
    got = x[:]
    if not (type(got) is tuple and len(got) == n and all(a is b for a, b in zip(got, m.vals))):
        ctx.fail('slice', f'{how()}: {got}')
    if isinstance(m.names[0] if n else 0, str):
        got = [getattr(x, k) for k in m.names]
        if not all(a is b for a, b in zip(got, m.vals)):
            ctx.fail('attribute read', f'{how()}: expected {m.vals}, got {got}')
    vd = x.value_dict
    if list(vd) != list(m.names) or not all(vd[k] is v for k, v in zip(m.names, m.vals)):
        ctx.fail('value_dict', f'{how()}: expected {dict(zip(m.names, m.vals))}, got {dict(vd)}')
    try:
        vd['zz'] = 0
        ctx.fail('value_dict', f'{how()}: writable')
    except TypeError:
        pass
    y = m.t.from_values(vd)
    if type(y) is not m.t or y is x or not (x == y) or x != y or hash(x) != hash(y) or not all(a is b for a, b in zip(y[:], m.vals)):
        ctx.fail('from_values(value_dict)', f'{how()}: {y}')
    if not isinstance(repr(x), str):
        ctx.fail('repr', how())


def fits(v, t):
    return isinstance(v, t)


# ----------------------------------------------------------- construction

def construct(ctx, tn):
    t, names, ft = TYPES[tn]
    n = len(names)
    named = n and isinstance(names[0], str)
    for k in range(n + 2):
        for args in it.product(POOL2 if n < 3 and k < 3 else POOL3, repeat=k) if k <= 3 else ():
            how = lambda: f'{tn}{args}'
            if k == n and all(map(fits, args, ft)):
                x = t(*args)
                ctx.state((tn, 'args', args_key(args)))
                agrees(ctx, x, rec(t, names, args), how)
            else:
                ctx.raises((TypeError, ValueError), lambda: t(*args), 'bad arguments accepted', how)
            if k == n:
                # dictionaries in every order
                for perm in it.permutations(range(n)):
                    d = {names[i]: args[i] for i in perm}
                    how = lambda: f'{tn}.from_values({d})'
                    if all(map(fits, args, ft)):
                        agrees(ctx, t.from_values(d), rec(t, names, args), how)
                        if named:
                            agrees(ctx, t(**d), rec(t, names, args), lambda: f'{tn}(**{d})')
                    else:
                        ctx.raises((TypeError, ValueError), lambda: t.from_values(d), 'bad values accepted', how)
                        if named:
                            ctx.raises((TypeError, ValueError), lambda: t(**d), 'bad values accepted', lambda: f'{tn}(**{d})')
    good = [GOOD[f][1] for f in ft]
    # key sets
    allk = list(names) + (['zz', 'A', '_a'] if named else [n, -1, 'a'])
    for r in range(len(allk) + 1):
        for ks in it.combinations(allk, r):
            d = {k: (good[names.index(k)] if k in names else good[0]) for k in ks}
            if set(ks) == set(names):
                continue
            ctx.raises((TypeError, ValueError), lambda: t.from_values(d), 'wrong keys accepted', lambda: f'{tn}.from_values({d})')
            if named:
                ctx.raises((TypeError, ValueError), lambda: t(**d), 'wrong keys accepted', lambda: f'{tn}(**{d})')
    # positional prefix and keyword rest
    if named:
        for k in range(n + 1):
            for order in it.permutations(range(k, n)):
                kw = {names[i]: good[i] for i in order}
                agrees(ctx, t(*good[:k], **kw), rec(t, names, good), lambda: f'{tn}(*{good[:k]}, **{kw})')
                if k:
                    kw[names[0]] = good[0]
                    ctx.raises((TypeError, ValueError), lambda: t(*good[:k], **kw), 'field given twice', lambda: f'{tn}(*{good[:k]}, **{kw})')
        ctx.check([getattr(t, k) for k in names], list(ft), 'attribute of the class', tn)
    else:
        ctx.raises((TypeError, ValueError), lambda: t(zz=good[0]), 'keywords for a Tuple', tn)
    d = dict(zip(names, good))
    x = t.from_values(d)
    d.clear()
    agrees(ctx, x, rec(t, names, good), lambda: f'{tn}: the dict given to from_values was changed')
    ctx.traces += 1


def args_key(args):
    return tuple(f'{type(a).__name__}{a!r}' for a in args)


# --------------------------------------------------------------- histories

def acts(tn):
    t, names, ft = TYPES[tn]
    out = []
    for o in (0, 1):
        for i, f in enumerate(ft):
            for v in range(2):
                out.append(('item', o, i, v))
            if isinstance(names[0], str):
                out.append(('attr', o, i, 1))
        out.append(('item', o, -1, 1))
        out.append(('bad', o))
    out += [('rebuild', 0), ('rebuild', 1), ('share',), ('from other',), ('move', 0), ('move', 1)]
    return out


def bad_writes(ctx, x, m, ft, how):
    n = len(m.vals)
    for i in range(n):
        for v in POOL2:
            if not fits(v, ft[i]):
                ctx.raises(TypeError, lambda: x.__setitem__(i, v), 'wrong type written', lambda: f'{how()}: [{i}] = {v!r}')
                ctx.raises(TypeError, lambda: x.__setitem__(i - n, v), 'wrong type written', lambda: f'{how()}: [{i - n}] = {v!r}')
                if isinstance(m.names[0], str):
                    ctx.raises(TypeError, lambda: setattr(x, m.names[i], v), 'wrong type written', lambda: f'{how()}: .{m.names[i]} = {v!r}')
    v = m.vals[0]
    for i in (n, -n - 1, slice(0, 1), slice(None), 'zz', None, (0,)):
        ctx.raises((TypeError, IndexError, KeyError), lambda: x.__setitem__(i, v), 'write to no field', lambda: f'{how()}: [{i!r}]')
    for k in m.names:
        if isinstance(k, str):
            ctx.raises((TypeError, AttributeError), lambda: delattr(x, k), 'field deleted', how)
    ctx.raises((TypeError, AttributeError), lambda: x.__delitem__(0), 'field deleted', how)
    vd = x.value_dict
    ctx.raises(TypeError, lambda: vd.__setitem__(m.names[0], v), 'value_dict written', how) if hasattr(vd, '__setitem__') else None


def step(ctx, tn, objs, models, a, how):
    t, names, ft = TYPES[tn]
    ctx.transitions += 1
    if a[0] in ('item', 'attr'):
        _, o, i, v = a
        val = GOOD[ft[i]][v]
        if a[0] == 'item':
            objs[o][i] = val
        else:
            setattr(objs[o], names[i], val)
        models[o].vals[i] = val
    elif a[0] == 'bad':
        bad_writes(ctx, objs[a[1]], models[a[1]], ft, how)
    elif a[0] == 'rebuild':
        objs[a[1]] = t.from_values(objs[a[1]].value_dict)
        models[a[1]] = rec(t, names, models[a[1]].vals)
    elif a[0] == 'share':
        objs[1], models[1] = objs[0], models[0]
    elif a[0] == 'from other':
        objs[1], models[1] = t(*objs[0][:]), rec(t, names, models[0].vals)
    elif a[0] == 'move':
        o = a[1]
        objs[o][0] = objs[1 - o][0]
        models[o].vals[0] = models[1 - o].vals[0]


def histories(ctx, tn, depth, first):
    t, names, ft = TYPES[tn]
    A = acts(tn)
    stack = [(first,)]
    while stack:
        h = stack.pop()
        how = lambda: f'{tn}: ' + ' ; '.join(' '.join(map(str, a)) for a in h)
        objs = [t(*(GOOD[f][o] for f in ft)) for o in (0, 1)]
        models = [rec(t, names, (GOOD[f][o] for f in ft)) for o in (0, 1)]
        snaps = []
        for a in h:
            for x in objs:
                hash(x), repr(x), x == objs[0]
            snaps.append((objs[0].value_dict, list(models[0].vals)))
            step(ctx, tn, objs, models, a, how)
        for x, m in zip(objs, models):
            agrees(ctx, x, m, how)
        for vd, vals in snaps:
            if not all(p is q for p, q in zip(vd.values(), vals)):
                ctx.fail('value_dict taken before a write', f'{how()}: {dict(vd)}')
        want = all(map(same, models[0].vals, models[1].vals))
        ctx.check((objs[0] == objs[1], objs[0] != objs[1], objs[1] == objs[0]), (want, not want, want), 'equality', how)
        if want:
            ctx.check(hash(objs[0]), hash(objs[1]), 'equal values hash differently', how)
        ctx.state((tn, args_key(models[0].vals), args_key(models[1].vals), models[0] is models[1]))
        ctx.traces += 1
        if len(h) < depth:
            for a in A:
                if not (a[0] == 'bad' and h[-1][0] == 'bad'):
                    stack.append(h + (a,))
        else:
            ctx.sample(how())


# ------------------------------------------------------------------ nested

def nested(ctx, depth, first):
    """Outer holds Inner objects by reference"""
    leaf = {Bit: [Bit(0), Bit(1)]}
    A = [('set', o, f, s) for o in (0, 1) for f in (0, 1) for s in (0, 1, 2)]
    A += [('deep', o, f, g, v) for o in (0, 1) for f in (0, 1) for g in (0, 1) for v in (0, 1)]
    A += [('k', o, v) for o in (0, 1) for v in (0, 1)] + [('pool', s, v) for s in (0, 1, 2) for v in (0, 1)]
    K = Tuple[Bit, En]

    def ieq(p, q):
        return all(map(same, p.vals, q.vals))

    def oeq(p, q):
        return all(ieq(a, b) for a, b in zip(p.vals, q.vals))
    stack = [(first,)]
    while stack:
        h = stack.pop()
        how = lambda: 'nested: ' + ' ; '.join(' '.join(map(str, a)) for a in h)
        pool = [Inner(Bit(i & 1), Bit(i >> 1)) for i in range(3)]
        mpool = [rec(Inner, ('u', 'v'), x[:]) for x in pool]
        objs, mods = [], []
        for o in (0, 1):
            k = K(Bit(0), En.a)
            mk = rec(K, (0, 1), k[:])
            objs.append(Outer(pool[o], pool[1], k))
            mods.append(rec(Outer, ('i', 'j', 'k'), [mpool[o], mpool[1], mk]))
        for a in h:
            ctx.transitions += 1
            # readings before the change must not be remembered after it
            for x in objs:
                hash(x), repr(x), x == objs[0], hash(x.i), hash(x.k)
            if a[0] == 'set':
                if a[3] % 2:
                    objs[a[1]][a[2]] = pool[a[3]]
                else:
                    setattr(objs[a[1]], 'ij'[a[2]], pool[a[3]])
                mods[a[1]].vals[a[2]] = mpool[a[3]]
            elif a[0] == 'deep':
                setattr(getattr(objs[a[1]], 'ij'[a[2]]), 'uv'[a[3]], Bit(a[4]))
                mods[a[1]].vals[a[2]].vals[a[3]] = Bit(a[4])
            elif a[0] == 'k':
                objs[a[1]].k[1] = (En.a, En.b)[a[2]]
                mods[a[1]].vals[2].vals[1] = (En.a, En.b)[a[2]]
            else:
                pool[a[1]].u = Bit(a[2])
                mpool[a[1]].vals[0] = Bit(a[2])
        for x, m in zip(objs + pool, mods + mpool):
            got, want = flat(x), mflat(m)
            ctx.check(got, want, 'nested value', how)
        for p, q in ((0, 1), (1, 0)):
            want = oeq(mods[p], mods[q])
            ctx.check((objs[p] == objs[q], objs[p] != objs[q]), (want, not want), 'equality', how)
            if want:
                ctx.check(hash(objs[p]), hash(objs[q]), 'equal values hash differently', how)
        for x in objs:
            y = Outer.from_values(x.value_dict)
            ctx.check((y == x, [p is q for p, q in zip(y[:], x[:])]), (True, [True] * 3), 'from_values(value_dict)', how)
            ctx.check((hash(y), repr(y)), (hash(x), repr(x)), 'an equal new record hashes and reads alike', how)
        ctx.state((mflat(mods[0]), mflat(mods[1])))
        ctx.traces += 1
        if len(h) < depth:
            stack += [h + (a,) for a in A]


def nested_first():
    return ([('set', 1, f, s) for f in (0, 1) for s in (0, 1, 2)] + [('deep', 0, f, g, 1) for f in (0, 1) for g in (0, 1)]
            + [('k', 1, 1)] + [('pool', s, 1) for s in (0, 1, 2)])


def flat(x):
    return tuple(flat(v) for v in x.value_dict.values()) if isinstance(x, (Tuple,)) else f'{type(x).__name__} {x!r}'


def mflat(m):
    return tuple(mflat(v) for v in m.vals) if isinstance(m, SimpleNamespace) else f'{type(m).__name__} {m!r}'


# ---------------------------------------------------------------- equality

def equality(ctx):
    """all pairs of values of related and unrelated record types"""
    vals = []
    bb = [(Bit(i), B2(j)) for i in (0, 1) for j in (0, 1, 2)]
    for t in (T2, A2, P, Q, R, MyTuple[Bit, B2]):
        vals += [(t, t(*v)) for v in bb]
    for t in (PR, A2R, Tuple[B2, Bit]):
        vals += [(t, t(v[1], v[0])) for v in bb]
    vals += [(PW, PW(v[0], B3(int(v[1])))) for v in bb]
    vals += [(Tuple[Bit], Tuple[Bit](Bit(0))), (Tuple[Bit, Bit], Tuple[Bit, Bit](Bit(0), Bit(1))), (Tuple[B2, B2], Tuple[B2, B2](B2(0), B2(1)))]
    vals += [(Tuple[En], Tuple[En](En.a)), (Tuple[En2], Tuple[En2](En2.a)), (Inner, Inner(Bit(0), Bit(1)))]
    other = [None, 0, (Bit(0), B2(1)), [Bit(0), B2(1)], 'x', Bit(0), En.a, object()]
    for t, x in vals:
        ctx.state((t.__name__, repr(x)))
        for o in other:
            ctx.check((x == o, x != o), (False, True), 'equality with another type', lambda: f'{t.__name__} {x} and {o!r}')
        for u, y in vals:
            how = lambda: f'{t.__name__} {x} and {u.__name__} {y}'
            eq = x == y
            ctx.check((type(eq), x != y, y == x), (bool, not eq, eq), 'equality', how)
            if t is u:
                ctx.check(eq, args_key(x[:]) == args_key(y[:]), 'equality', how)
            elif not (issubclass(t, u) or issubclass(u, t)):
                ctx.check(eq, False, 'equality of unrelated types', how)
            if eq:
                ctx.check(hash(x), hash(y), 'equal values hash differently', how)
        ctx.check(len({x, x}), 1, 'hash', repr(x))
    # a field may hold a value of a subtype of its type
    for t in (P, A2, T2):
        x, y = t(Bit(0), B2(1)), t(Bit(0), U2(1))
        ctx.check((x == y, type(y[1])), (True, U2), 'value of a subtype', f'{t.__name__}')
        ctx.transitions += 1
        if hash(x) != hash(y):
            ctx.fail('equal values hash differently', f'{x} and {y}', key='records holding equal vectors of two families')
    ctx.check([P(Bit(0), B2(1)) == PR(B2(1), Bit(0)), Q(Bit(0), B2(1)) == P(Bit(0), B2(1))], [False, False], 'equality', 'fixed')
    x = R(Bit(1), B2(2))
    ctx.check((x.total() == 3, isinstance(x, P)), (True, True), 'method of a derived record', repr(x))
    ctx.check((Tuple[()]() == Tuple[()](), hash(Tuple[()]()) == hash(Tuple[()]()), dict(Tuple[()]().value_dict)), (True, True, {}), 'empty tuple', '')
    ctx.raises((TypeError, ValueError), lambda: Tuple[()](Bit(0)), 'argument for an empty tuple', '')
    ctx.traces += 1


def lookalike_types(ctx):
    """record types of one name: different field names, orders, families, types"""
    def enum(k):
        class E(Enum):
            a = 0
            b = k
        return E
    E1, E2 = enum(1), enum(2)
    kinds = [(Product, lambda b, f: b.from_fields('P', f)), (AnonymousProduct, lambda b, f: b[f]), (Tuple, lambda b, f: b[tuple(f.values())])]
    val = {Bit: [Bit(0), Bit(1)], B2: [B2(0), B2(1)], E1: [E1.a, E1.b], E2: [E2.a, E2.b]}
    ts = {}
    for base, mk in kinds:
        fams = [base] + [type(base)(base.__name__, (base,), {}) for _ in range(2)]
        for k, fam in enumerate(fams):
            for tt in [(t,) for t in val] + [(Bit, B2), (B2, Bit), (Bit, Bit), (E1, Bit), (E2, Bit)]:
                for nn in it.permutations('abc', len(tt)):
                    f = dict(zip(nn, tt))
                    t = mk(fam, f)
                    ts.setdefault(t, (tuple(f.items()), k))
    vals = []
    for t, (f, k) in ts.items():
        fts = [x for _, x in f]
        vals += [(t, v, t(*v)) for v in it.product(*(val[x] for x in fts))]
    for t, v, x in vals:
        ctx.states += 1
        for u, w, y in vals:
            eq = x == y
            if t is u:
                want = all(p is q or (type(p) is type(q) and p == q) for p, q in zip(v, w))
            elif issubclass(t, u) or issubclass(u, t):
                want = eq if eq in (True, False) else None
            else:
                want = False
            ctx.transitions += 1
            if eq is not want or (x != y) is eq or eq and hash(x) != hash(y):
                ctx.fail('equality of types of one name', f'{t.__mro__[1].__name__} {ts[t][0]} {v} and {u.__mro__[1].__name__} {ts[u][0]} {w}: expected {want}, got {eq}')
    ctx.traces += 1
    ctx.sample(f'{len(vals)}^2 pairs over {len(ts)} types')


# ------------------------------------------------------------ many fields

WIDE = (4, 5, 7, 8, 9, 10, 11, 12, 16, 17, 26, 33, 64, 65, 100, 128, 200, 255, 256, 257, 300)


def wide(ctx, n, kind):
    """records of many fields: each field read, written and refused, alone"""
    pats = [[Bit], [Bit, B2], [B2, B2, En], [Inner, Bit, En, B3]]
    for pat in pats:
        ft = tuple(pat[i % len(pat)] for i in range(n))
        names = tuple(f'f{i}' for i in range(n)) if kind != 'Tuple' else tuple(range(n))
        if kind == 'Tuple':
            t = Tuple[ft]
        elif kind == 'AnonymousProduct':
            t = AnonymousProduct[dict(zip(names, ft))]
        else:
            t = type(Product)('W', (Product,), dict(zip(names, ft)))
        g = {**GOOD, B3: [B3(0), B3(7)]}
        base = [g[f][i // len(pat) % 2] for i, f in enumerate(ft)]
        how = lambda: f'{kind} of {n} fields {[f.__name__ for f in pat]}'
        x = t(*base)
        agrees(ctx, x, rec(t, names, base), how)
        for k in {0, 1, n - 1, n + 1}:
            ctx.raises((TypeError, ValueError), lambda: t(*(base + base)[:k]), 'number of fields', lambda: f'{how()}: {k} values')
        rev = dict(zip(names[::-1], base[::-1]))
        agrees(ctx, t.from_values(rev), rec(t, names, base), lambda: f'{how()}, reversed keys')
        if kind != 'Tuple':
            agrees(ctx, t(**rev), rec(t, names, base), lambda: f'{how()}, reversed keywords')
        h0, reads = hash(x), 0
        for i, f in enumerate(ft):
            ctx.states += 1
            d = lambda: f'{how()}, field {i}'
            other = g[f][1] if base[i] == g[f][0] else g[f][0]
            vals = list(base)
            vals[i] = other
            y = t(*vals)
            ctx.check((x == y, x != y, y == x, all(map(lambda p, q: p is q, y[:], vals))), (False, True, False, True), 'one field differs', d)
            vals[i] = En2.a if f is not En2 else Bit(0)
            ctx.raises(TypeError, lambda: t(*vals), 'wrong type accepted', d)
            ctx.raises(TypeError, lambda: t.from_values(dict(zip(names, vals))), 'wrong type accepted', d)
            z = t(*base)
            for bad in (En2.a, None, 1, 'x'):
                ctx.raises(TypeError, lambda: z.__setitem__(i, bad), 'wrong type written', d)
                if kind != 'Tuple':
                    ctx.raises(TypeError, lambda: setattr(z, names[i], bad), 'wrong type written', d)
            ctx.check(all(map(lambda p, q: p is q, z[:], base)), True, 'changed by a refused write', d)
            vals[i] = other
            if i % 2 and kind != 'Tuple':
                setattr(z, names[i], other)
            else:
                z[i if i % 3 else i - n] = other
            agrees(ctx, z, rec(t, names, vals), d)
            ctx.check((z == y, hash(z) == hash(y), z == x), (True, True, False), 'after a write', d)
            if n <= 33:
                short = dict(zip(names, base))
                del short[names[i]]
                ctx.raises((TypeError, ValueError), lambda: t.from_values(short), 'missing key', d)
                if kind != 'Tuple':
                    ctx.raises((TypeError, ValueError), lambda: t(**short), 'missing keyword', d)
        ctx.check(hash(x), h0, 'hash of an unchanged record', how)
        ctx.traces += 1


def jobs(tier):
    d = 4 if tier == 'thorough' else 3
    out = [Job('equality', equality, weight=2), Job('types of one name', lookalike_types, weight=6)]
    for tn in TYPES:
        out.append(Job(f'construct {tn}', construct, tn, weight=10))
        for a in acts(tn):
            out.append(Job(f'{tn} {a}', histories, tn, d, a, weight=20))
    for n in WIDE if d == 4 else [n for n in WIDE if n < 128] + [257]:
        for kind in ('Tuple', 'AnonymousProduct', 'Product'):
            out.append(Job(f'{kind} of {n} fields', wide, n, kind, weight=max(1, n // 10)))
    for a in nested_first():
        out.append(Job(f'nested {a}', nested, d, a, weight=20))
    return out
