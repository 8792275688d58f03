"""C12: a Sum or TaggedUnion value holds exactly one member.

Every construction from a pool of arguments, then every history of up to D
assignments (valid and rejected) over two objects, against a model that is one
(member, value) pair per object.
"""
import itertools as it
from types import SimpleNamespace

from core import Job
from hwtypes import Bit, BitVector, Enum, Product, Sum, TaggedUnion, Tuple, UIntVector
from hwtypes.adt import AnonymousProduct

PROP = 'C12'
SPACE = {
    'quick': '14 union types (Sum, TaggedUnion, user bases, derived, nested, 1-4 members, members of the same type): every '
             'construction from a pool of 13 values for every member and every set of up to 3 members; from_values with every '
             'key set; every history (also of equal but other objects) of <= 3 assignments, rejected assignments, rebuilds and copies over two objects; all pairs of values; '
             'values of types of the same name or fields refused; unions of 4-100 members: every member held, written, refused, pairs of members',
    'thorough': 'as quick with histories of <= 4',
}
ASSUMPTIONS = ['Bits and bit vectors held are concrete']


class En(Enum):
    # values that hash alike
    a = -1
    b = -2


class En2(Enum):
    a = 0
    b = 1


B2, B3, U2 = BitVector[2], BitVector[3], UIntVector[2]


class P(Product):
    u = Bit
    v = Bit


class MySum(Sum):
    pass


class MyTU(TaggedUnion):
    pass


class U(TaggedUnion):
    a = Bit
    b = B2
    c = Bit


class UV(TaggedUnion):
    x = B2
    y = B2


class UB(TaggedUnion):
    x = En
    y = En2
    z = En


class U1(TaggedUnion):
    only = B2


class UN(TaggedUnion):
    p = P
    s = Sum[Bit, B2]
    t = Tuple[Bit, En]
    u = U1


class UM(MyTU):
    q = Bit
    p = Bit


class UD(U):
    def both(self):
        return self.a.match or self.c.match


class UO(TaggedUnion):
    self = Bit
    cls = B2
    value = Bit


class DS(Sum[Bit, B2]):
    pass


def S(t, *ms):
    return (t, {m: m for m in ms})


def same_name(k):
    """types that are called alike and print alike"""
    class Twin(Enum):
        a = k
        b = 2

    class Rec(Product):
        u = Bit
        v = B2 if k else B3
    Vec = type(BitVector)('Vec', (BitVector,), {})
    return Twin, Rec, Vec[2]


Tw1, Rc1, Vc1 = same_name(0)
Tw2, Rc2, Vc2 = same_name(1)
TYPES = {
    'Sum of Enums of one name': S(Sum[Tw1, Tw2], Tw1, Tw2),
    'Sum of types of one name': S(Sum[Rc2, Vc2, Vc1, Rc1], Rc1, Rc2, Vc1, Vc2),
    'Sum of Tuples of one name': S(Sum[Tuple[Tw1], Tuple[Tw2]], Tuple[Tw1], Tuple[Tw2]),
    'TaggedUnion of types of one name': (type(TaggedUnion)('UTw', (TaggedUnion,), dict(x=Tw1, y=Tw2, v=Vc1, w=Vc2)), dict(x=Tw1, y=Tw2, v=Vc1, w=Vc2)),
    'Sum[Bit, B2]': S(Sum[Bit, B2], Bit, B2),
    'Sum[B2, B3, En]': S(Sum[B2, B3, En], B2, B3, En),
    'Sum[En, En2]': S(Sum[En, En2], En, En2),
    'Sum[B2]': S(Sum[B2], B2),
    'MySum[Bit, B2]': S(MySum[B2, Bit], Bit, B2),
    'derived Sum': S(DS, Bit, B2),
    'nested Sum': S(Sum[P, Tuple[Bit, En], U1, B2], P, Tuple[Bit, En], U1, B2),
    'U': (U, dict(a=Bit, b=B2, c=Bit)),
    'UV': (UV, dict(x=B2, y=B2)),
    'UB': (UB, dict(x=En, y=En2, z=En)),
    'U1': (U1, dict(only=B2)),
    'UN': (UN, dict(p=P, s=Sum[Bit, B2], t=Tuple[Bit, En], u=U1)),
    'UM': (UM, dict(q=Bit, p=Bit)),
    'derived TaggedUnion': (UD, dict(a=Bit, b=B2, c=Bit)),
    'oddly named': (UO, dict(self=Bit, cls=B2, value=Bit)),
}
GOOD = {Bit: [Bit(0), Bit(1)], B2: [B2(0), B2(1)], B3: [B3(0), B3(1)], En: [En.a, En.b], En2: [En2.a, En2.b],
        P: [P(Bit(0), Bit(1)), P(Bit(1), Bit(1))], Sum[Bit, B2]: [Sum[Bit, B2](Bit(1)), Sum[Bit, B2](B2(1))],
        Tuple[Bit, En]: [Tuple[Bit, En](Bit(0), En.a), Tuple[Bit, En](Bit(0), En.b)], U1: [U1(only=B2(1)), U1(only=B2(2))]}
for _t in (Tw1, Tw2):
    GOOD[_t] = [_t.a, _t.b]
    GOOD[Tuple[_t]] = [Tuple[_t](_t.a), Tuple[_t](_t.b)]
for _t, _b in ((Rc1, B3), (Rc2, B2)):
    GOOD[_t] = [_t(Bit(0), _b(1)), _t(Bit(1), _b(1))]
for _t in (Vc1, Vc2):
    GOOD[_t] = [_t(0), _t(3)]
# equal to the first good value, but another object
TWIN = {Bit: Bit(0), B2: B2(0), B3: B3(0), P: P(Bit(0), Bit(1)), Sum[Bit, B2]: Sum[Bit, B2](Bit(1)), Tuple[Bit, En]: Tuple[Bit, En](Bit(0), En.a), U1: U1(only=B2(1))}
for _t in (Rc1, Rc2):
    TWIN[_t] = _t(Bit(0), _t.v(1))
for _t in (Tw1, Tw2):
    TWIN[Tuple[_t]] = Tuple[_t](_t.a)
for _t in (Vc1, Vc2):
    TWIN[_t] = _t(0)
POOL = [Bit(0), Bit(1), B2(1), B3(1), En.a, En2.a, P(Bit(0), Bit(1)), Sum[Bit, B2](Bit(1)), Tuple[Bit, En](Bit(0), En.a), U1(only=B2(1)),
        1, True, 'x', Bit, B2, object()]


def lookalikes():
    """values of types that look like the member types: same names, same fields"""
    ns = {}
    exec('class En(Enum):\n    a = 0\n    b = 1\n'
         'class P(Product):\n    u = Bit\n    v = Bit\n'
         'class P2(Product):\n    u = Bit\n    v = Bit\n'
         'class U1(TaggedUnion):\n    only = B2\n', globals() | {}, ns)
    o, l = Bit(0), Bit(1)
    return [ns['En'].a, ns['P'](o, l), ns['P2'](o, l), ns['U1'](only=B2(0)), Tuple[Bit, Bit](o, l), Tuple[Bit, ns['En']](o, ns['En'].a),
            AnonymousProduct[dict(u=Bit, v=Bit)](o, l), Sum[B2, B3](B2(0)), 0, False, '', (), BitVector[1](0), B3(0)]


POOLN = POOL + lookalikes() + [None] + [v for t in (Tw1, Tw2, Rc1, Rc2, Vc1, Vc2, Tuple[Tw1], Tuple[Tw2]) for v in GOOD[t][1:]]


def is_tu(t):
    return issubclass(t, TaggedUnion)


def make(t, m, v):
    return t(**{m: v}) if is_tu(t) else t(v)


def read(x, m):
    return getattr(x, m) if is_tu(type(x)) else x[m]


def write(x, m, v):
    if is_tu(type(x)):
        setattr(x, m, v)
    else:
        x[m] = v


def vkey(v):
    return f'{type(v).__name__} {v!r}'


def agrees(ctx, x, t, ms, m, v, how):
    """x holds member m with value v and nothing else"""
    ctx.transitions += 1
    if type(x) is not t:
        ctx.fail('type', f'{how()}: {type(x)}')
    for k in ms:
        r = read(x, k)
        if r.match is not (k == m):
            ctx.fail('match', f'{how()}: holding {m}, {k} matches: {r.match}')
        if k == m:
            if r.value is not v:
                ctx.fail('value', f'{how()}: expected {v!r}, got {r.value!r}')
        else:
            ctx.raises(TypeError, lambda: r.value, 'value of a member not held', lambda: f'{how()}: {k}')
    vd = x.value_dict
    if set(vd) != set(ms) or any(vd[k] is not (v if k == m else None) for k in ms):
        ctx.fail('value_dict', f'{how()}: holding {m} {v!r}, got {dict(vd)}')
    y = t.from_values(vd)
    if type(y) is not t or y is x or not (x == y) or x != y or hash(x) != hash(y) or read(y, m).value is not v:
        ctx.fail('from_values(value_dict)', f'{how()}: {y!r}')
    repr(x)


def fits(v, T):
    return isinstance(v, T)


def construct(ctx, tn):
    t, ms = TYPES[tn]
    names = list(ms)
    if is_tu(t):
        for m in names:
            for v in POOLN:
                how = lambda: f'{tn}({m}={v!r})'
                ctx.state((tn, m, vkey(v)))
                if fits(v, ms[m]):
                    agrees(ctx, t(**{m: v}), t, ms, m, v, how)
                else:
                    ctx.raises((TypeError, ValueError), lambda: t(**{m: v}), 'wrong type accepted', how)
        for v in POOLN:
            ctx.raises((TypeError, ValueError), lambda: t(v), 'positional value', lambda: f'{tn}({v!r})')
        ctx.raises((TypeError, ValueError), t, 'no value', tn)
        allk = names + ['zz', '_tag_', '_value_', '']
        for r in (1, 2, 3):
            for ks in it.combinations(allk, r):
                if r == 1 and ks[0] in ms:
                    continue
                for i in (0, 1):
                    d = {k: GOOD[ms.get(k, ms[names[0]])][i] for k in ks}
                    ctx.raises((TypeError, ValueError), lambda: t(**d), 'not exactly one member', lambda: f'{tn}(**{d})')
        ctx.check([getattr(t, m) for m in names], [ms[m] for m in names], 'member type read on the class', tn)
    else:
        for v in POOLN:
            how = lambda: f'{tn}({v!r})'
            ctx.state((tn, vkey(v)))
            if type(v) in ms:
                agrees(ctx, t(v), t, ms, type(v), v, how)
            else:
                ctx.raises((TypeError, ValueError), lambda: t(v), 'wrong type accepted', how)
        ctx.raises((TypeError, ValueError), t, 'no value', tn)
        ctx.raises((TypeError, ValueError), lambda: t(POOL[0], POOL[0]), 'two values', tn)
        x = t(GOOD[names[0]][0])
        for T in (Bit, B2, B3, En, En2, int, None, 'x', 0, UIntVector[2]):
            if T not in ms:
                ctx.raises((TypeError, KeyError), lambda: x[T], 'unknown member read', lambda: f'{tn}: {T}')
    # from_values: every assignment of value or None to keys
    for vs in it.product(*[[None, *GOOD[T]] + [v for v in POOL if not fits(v, T)][:1 if len(ms) > 3 else 2] + [v for v in lookalikes()[-8:] if not fits(v, T)][:4 if len(ms) < 3 else 1] for T in ms.values()]):
        for perm in (names, names[::-1]):
            d = {k: vs[names.index(k)] for k in perm}
            how = lambda: f'{tn}.from_values({d})'
            set_ = [k for k in names if d[k] is not None]
            if len(set_) == 1 and fits(d[set_[0]], ms[set_[0]]):
                agrees(ctx, t.from_values(d), t, ms, set_[0], d[set_[0]], how)
            else:
                ctx.raises((TypeError, ValueError), lambda: t.from_values(d), 'bad values accepted', how)
    extra = ['zz'] if is_tu(t) else [int]
    for r in range(len(names) + 2):
        for ks in it.combinations(names + extra, r):
            if set(ks) == set(names):
                continue
            d = {k: None for k in ks}
            for k in ks:
                if k in ms:
                    d[k] = GOOD[ms[k]][0]
                    break
            ctx.raises((TypeError, ValueError), lambda: t.from_values(d), 'wrong keys accepted', lambda: f'{tn}.from_values({d})')
    ctx.traces += 1


def acts(tn):
    t, ms = TYPES[tn]
    out = []
    for o in (0, 1):
        for m in ms:
            for v in (0, 1) if ms[m] not in TWIN else (0, 1, 2):
                out.append(('set', o, m, v))
        out.append(('bad', o))
        out.append(('badnew', o))
    out += [('rebuild', 0), ('rebuild', 1), ('share',), ('copy',)]
    return out


def name(a):
    return ' '.join(getattr(x, '__name__', str(x)) for x in a)


def bad_writes(ctx, x, t, ms, how):
    for m, T in ms.items():
        for v in POOLN:
            if not fits(v, T):
                ctx.raises(TypeError, lambda: write(x, m, v), 'wrong type written', lambda: f'{how()}: {m} = {v!r}')
    v = GOOD[next(iter(ms.values()))][0]
    if is_tu(t):
        for T in (*ms.values(), *ms, 'zz', 0):
            ctx.raises((TypeError, KeyError), lambda: x.__setitem__(T, v), 'written by index', lambda: f'{how()}: [{T}]')
        for m in ms:
            ctx.raises((TypeError, AttributeError), lambda: delattr(x, m), 'member deleted', lambda: f'{how()}: {m}')
    else:
        for T in (Bit, B2, B3, En, En2, P, int, None, 'x', 0, UIntVector[2], type(v)):
            if T not in ms:
                for w in (v, B2(1), U2(1), 1, None):
                    ctx.raises((TypeError, KeyError), lambda: x.__setitem__(T, w), 'unknown member written', lambda: f'{how()}: {T} = {w!r}')
    vd = x.value_dict
    try:
        vd[next(iter(ms))] = v
        ctx.fail('value_dict', f'{how()}: writable')
    except TypeError:
        pass


def bad_new(ctx, t, ms, how):
    """refused constructions"""
    m = next(iter(ms))
    if is_tu(t):
        ctx.raises((TypeError, ValueError), lambda: t(zz=GOOD[ms[m]][0]), 'unknown tag', how)
        ctx.raises((TypeError, ValueError), lambda: t(**{m: object()}), 'wrong type', how)
    else:
        ctx.raises((TypeError, ValueError), lambda: t(object()), 'wrong type', how)
    ctx.raises((TypeError, ValueError), lambda: t.from_values({k: None for k in ms}), 'no value', how)
    ctx.raises((TypeError, ValueError), lambda: t.from_values({}), 'no keys', how)


def histories(ctx, tn, depth, first):
    t, ms = TYPES[tn]
    A = acts(tn)
    names = list(ms)
    stack = [(first,)]
    while stack:
        h = stack.pop()
        how = lambda: f'{tn}: ' + ' ; '.join(map(name, h))
        m0, m1 = names[0], names[-1]
        mod = [SimpleNamespace(m=m0, v=GOOD[ms[m0]][0]), SimpleNamespace(m=m1, v=GOOD[ms[m1]][1])]
        obj = [make(t, x.m, x.v) for x in mod]
        snaps = []
        for a in h:
            ctx.transitions += 1
            snaps.append((read(obj[0], m0), read(obj[0], m1), obj[0].value_dict, mod[0].m, mod[0].v))
            o = a[1] if len(a) > 1 else 0
            if a[0] == 'set':
                v = TWIN[ms[a[2]]] if a[3] == 2 else GOOD[ms[a[2]]][a[3]]
                write(obj[o], a[2], v)
                mod[o].m, mod[o].v = a[2], v
            elif a[0] == 'bad':
                bad_writes(ctx, obj[o], t, ms, how)
            elif a[0] == 'badnew':
                bad_new(ctx, t, ms, how)
            elif a[0] == 'rebuild':
                obj[o] = t.from_values(obj[o].value_dict)
                mod[o] = SimpleNamespace(m=mod[o].m, v=mod[o].v)
            elif a[0] == 'share':
                obj[1], mod[1] = obj[0], mod[0]
            elif a[0] == 'copy':
                obj[1], mod[1] = make(t, mod[0].m, read(obj[0], mod[0].m).value), SimpleNamespace(m=mod[0].m, v=mod[0].v)
        for x, m in zip(obj, mod):
            agrees(ctx, x, t, ms, m.m, m.v, how)
        for r0, r1, vd, m, v in snaps:
            if (r0.match, r1.match) != (m0 == m, m1 == m) or (m0 == m and r0.value is not v) or any((w is v) != (k == m) and w is not None for k, w in vd.items()):
                ctx.fail('read taken before a write', f'{how()}: holding {m} {v!r}')
        want = mod[0].m == mod[1].m and bool(mod[0].v == mod[1].v)
        for p, q in ((0, 1), (1, 0)):
            ctx.check((bool(obj[p] == obj[q]), obj[p] != obj[q]), (want, not want), 'equality', how)
        if want:
            ctx.check(hash(obj[0]), hash(obj[1]), 'equal values hash differently', how)
        ctx.state((tn, str(mod[0].m), vkey(mod[0].v), str(mod[1].m), vkey(mod[1].v), mod[0] is mod[1]))
        ctx.traces += 1
        if len(h) < depth:
            for a in A:
                if not (a[0][:3] == 'bad' and h[-1][0][:3] == 'bad'):
                    stack.append(h + (a,))
        else:
            ctx.sample(how())


def equality(ctx):
    vals = []
    for tn, (t, ms) in TYPES.items():
        for m, T in ms.items():
            for v in GOOD[T]:
                vals.append((tn, t, m, v, make(t, m, v)))
    others = [None, 0, 'x', Bit(1), B2(1), En.a, object()]
    for tn, t, m, v, x in vals:
        ctx.state((tn, str(m), vkey(v)))
        for o in others:
            ctx.check((bool(x == o), x != o), (False, True), 'equality with another type', lambda: f'{tn} {m} {v!r} and {o!r}')
        for un, u, k, w, y in vals:
            how = lambda: f'{tn} {getattr(m, "__name__", m)} {v!r} and {un} {getattr(k, "__name__", k)} {w!r}'
            eq = bool(x == y)
            ctx.check((x != y, bool(y == x)), (not eq, eq), 'equality', how)
            if t is u:
                ctx.check(eq, m == k and vkey(v) == vkey(w), 'equality', how)
            elif not (issubclass(t, u) or issubclass(u, t)):
                ctx.check(eq, False, 'equality of unrelated types', how)
            if eq:
                ctx.check(hash(x), hash(y), 'equal values hash differently', how)
    # structures holding unions
    for t in (U, UV):
        for m in dict(TYPES[t.__name__][1]):
            T = TYPES[t.__name__][1][m]
            K = Tuple[t, Bit]
            for v in GOOD[T]:
                x, y = K(t(**{m: v}), Bit(0)), K(t(**{m: v}), Bit(0))
                ctx.check((x == y, hash(x) == hash(y)), (True, True), 'union inside a record', f'{x}')
                k = next(n for n in TYPES[t.__name__][1] if n != m)
                z = K(t(**{k: GOOD[TYPES[t.__name__][1][k]][0]}), Bit(0))
                ctx.check((x == z, x != z), (False, True), 'union inside a record', f'{x} {z}')
    # a value of a subtype of a member's type is a value of that member
    for tn, x, m in (('U', U(a=Bit(0)), 'b'), ('Sum[Bit, B2]', Sum[Bit, B2](Bit(0)), B2), ('UV', UV(x=B2(0)), 'y')):
        write(x, m, U2(1))
        t, ms = TYPES[tn]
        for k in ms:
            ctx.check(read(x, k).match, k == m, 'value of a subtype', f'{tn} {k}')
        ctx.check((type(read(x, m).value), read(x, m).value == 1), (U2, True), 'value of a subtype', tn)
        ctx.transitions += 1
        try:
            if t.from_values(x.value_dict) != x:
                ctx.fail('from_values(value_dict)', f'{tn} holding a value of a subtype of {m}')
        except TypeError as e:
            ctx.fail('from_values(value_dict)', f'{tn} holding a value of a subtype of {m}: {e}',
                     key='Sum holding a value of a subtype of its member' if tn.startswith('Sum') else None)
    # members one of which is a subtype of another
    t = Sum[B2, U2]
    for v in (B2(1), U2(1)):
        x = t(v)
        for T in (B2, U2):
            ctx.transitions += 1
            if x[T].match is not (type(v) is T):
                ctx.fail('match', f'Sum[BitVector[2], UIntVector[2]]({v!r}): {T} matches',
                         key='Sum of related members: a value of the subtype matches both' if T is B2 and type(v) is U2 else None)
    for match, safe in it.product((True, False), repeat=2):
        r = Sum.Match(match, 7, safe=safe)
        ctx.check(r.match, match, 'Match', f'{match} {safe}')
        if match or not safe:
            ctx.check(r.value, 7, 'Match', f'{match} {safe}')
        else:
            ctx.raises(TypeError, lambda: r.value, 'Match', f'{match} {safe}')
    ctx.check((UD(a=Bit(1)).both(), UD(b=B2(1)).both(), U(a=Bit(1)) == UD(a=Bit(1))), (True, False, True), 'derived', 'UD')
    ctx.traces += 1


# ----------------------------------------------------------- many members

WIDE = (4, 5, 7, 8, 9, 12, 16, 17, 32, 33, 64, 65, 100, 128, 200, 255, 256, 257)


def wide(ctx, n, kind):
    """unions of many members: every member held, every pair of members in turn"""
    if kind == 'Sum':
        for base in (BitVector, UIntVector):
            ts = tuple(base[i + 1] for i in range(n))
            t = Sum[ts]
            ms = {T: T for T in ts}
            one_wide(ctx, t, ms, {T: [T(0), T(1)] for T in ts}, n, f'Sum of {n} vectors')
    else:
        for pat in ([Bit], [Bit, B2, Bit], [En, B2, P, U1, Bit]):
            names = [f'm{i}' for i in range(n)]
            ms = {k: pat[i % len(pat)] for i, k in enumerate(names)}
            t = type(TaggedUnion)('W', (TaggedUnion,), dict(ms))
            one_wide(ctx, t, ms, GOOD, n, f'TaggedUnion of {n} members {[T.__name__ for T in pat]}')


def one_wide(ctx, t, ms, good, n, what):
    names = list(ms)
    x = None
    for i, m in enumerate(names):
        how = lambda: f'{what}: {m}'
        ctx.states += 1
        v, w = good[ms[m]]
        y = make(t, m, w)
        agrees(ctx, y, t, ms, m, w, how)
        if x is None:
            x = make(t, m, v)
        for bad in (None, 'x', En2.a, B3(0) if ms[m] is not B3 else Bit(0)):
            ctx.raises(TypeError, lambda: write(x, m, bad), 'wrong type written', how)
        write(x, m, v)
        agrees(ctx, x, t, ms, m, v, how)
        h = hash(x)
        write(x, m, w)
        agrees(ctx, x, t, ms, m, w, how)
        ctx.check((bool(x == y), hash(x) == hash(y)), (True, True), 'equality', how)
        for j, k in enumerate(names):
            if abs(i - j) % max(1, n // 16) == 0 or j in (0, n - 1):
                for u in good[ms[k]]:
                    z = make(t, k, u)
                    want = m == k and u is w
                    ctx.check((bool(x == z), x != z), (want, not want), 'equality', lambda: f'{how()} {w!r}, {k} {u!r}')
                    if k != m:
                        d = {q: None for q in names}
                        d[m], d[k] = w, u
                        ctx.raises((TypeError, ValueError), lambda: t.from_values(d), 'two members', lambda: f'{how()}, {k}')
                        if is_tu(t):
                            ctx.raises((TypeError, ValueError), lambda: t(**{m: w, k: u}), 'two members', lambda: f'{how()}, {k}')
                    if j % 8 == 0 and k != m:
                        x2 = make(t, m, w)
                        write(x2, k, u)
                        agrees(ctx, x2, t, ms, k, u, lambda: f'{how()}, then {k}')
        if n <= 33:
            d = {q: None for q in names if q != m}
            d[names[i - 1]] = good[ms[names[i - 1]]][0]
            if n > 1:
                ctx.raises((TypeError, ValueError), lambda: t.from_values(d), 'missing key', how)
    ctx.traces += 1


def jobs(tier):
    d = 4 if tier == 'thorough' else 3
    out = [Job('equality', equality, weight=2)]
    for n in WIDE if d == 4 else [n for n in WIDE if n < 65] + [100]:
        for kind in ('Sum', 'TaggedUnion'):
            out.append(Job(f'{kind} of {n}', wide, n, kind, weight=max(1, n // 10)))
    for tn in TYPES:
        out.append(Job(f'construct {tn}', construct, tn, weight=10))
        for i, a in enumerate(acts(tn)):
            out.append(Job(f'{tn} {i} {name(a)}', histories, tn, d, a, weight=20))
    return out
