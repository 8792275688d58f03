"""C24: Enum members are unique constants of their own type.

Every definition over a small set of names and values, made in every way, and
histories of definitions with collection in between, against a table model.
"""
import gc
import itertools as it
import weakref

from core import Job, attempt
from hwtypes import Bit, Enum, Product, new_instruction

PROP = 'C24'
SPACE = {
    'quick': 'Enums of 4-257 members, names of 1-200 characters, up to 1028 instructions alive; every ordered choice of 1-3 of 4 member names with values from 8 (negative, huge, bool, repeated, new_instruction(), one shared '
             'instruction), each as class, with a method, through from_fields, with an unbound and a bound base, cached and not; every pair of 90 '
             'definitions in either order; every history of 4 over 13 definitions, deletions and collections',
    'thorough': 'as quick with pairs of 240 definitions and histories of 5',
}
ASSUMPTIONS = ['members named name or value, and Enums derived from a bound Enum without members of their own, are not covered',
               'members of a derived Enum can reach those of its base; only members of the same Enum are claimed']
NAMES = ('a', 'b', 'c', 'Zed')
SHARED = new_instruction()
AUTO = object()          # a new instruction each time
VALUES = (0, 1, -1, -2, 10 ** 30, AUTO, SHARED, True, 2)
FOREIGN = (0, 1, -1, -2, True, 'a', None, 1.0, (), Bit(1), object(), SHARED)


class MyEnum(Enum):
    pass


class Plain(Enum):
    a = 1
    q = 5


def fresh(items):
    return [(k, new_instruction() if v is AUTO else v) for k, v in items]


WAYS = ('class', 'method', 'from_fields', 'base', 'derived', 'uncached', 'from_fields uncached')


def define(name, items, way):
    """the Enum, and its base"""
    d = dict(items)
    meta = type(Enum)
    if way == 'class':
        return meta(name, (Enum,), d), Enum
    if way == 'method':
        d['describe'] = lambda self: f'{self.name}!'
        d['other'] = 'text'
        return meta(name, (Enum,), d), Enum
    if way == 'from_fields':
        return Enum.from_fields(name, d), Enum
    if way == 'base':
        return meta(name, (MyEnum,), d), MyEnum
    if way == 'derived':
        return meta(name, (Plain,), d), Plain
    if way == 'uncached':
        return meta(name, (Enum,), d, cache=False), Enum
    return Enum.from_fields(name, d, cache=False), Enum


def same_value(v, w):
    """values are equal as Python values; instructions only themselves"""
    return v is w or (isinstance(v, int) and isinstance(w, int) and v == w)


def inspect(ctx, T, base, items, way, d):
    """everything about one Enum by itself"""
    names = [k for k, _ in items]
    fd = T.field_dict
    ctx.check(list(fd), names, 'field_dict', lambda: f'{d()}: {dict(fd)}')
    ctx.check([m.name for m in T.fields], names, 'fields', d)
    ctx.check(len(T.fields) == len(fd) and all(x is y for x, y in zip(T.fields, fd.values())), True, 'fields against field_dict', d)
    ctx.check(len(list(T.enumerate())) == len(names) and all(x is y for x, y in zip(T.enumerate(), T.fields)), True, 'enumerate', d)
    ctx.check((T.is_bound, issubclass(T, base), issubclass(T, Enum)), (True, True, True), 'kind', d)
    members = []
    for k, v in items:
        m = getattr(T, k)
        members.append(m)
        ctx.check((type(m) is T, isinstance(m, T), m.name, m is fd.get(k), m is getattr(T, k)), (True, True, k, True, True), 'member', lambda: f'{d()} member {k}')
        ctx.check(attempt(lambda: m.value), ('ok', v), 'value', lambda: f'{d()} member {k}')
        ctx.check(m.value is v or (isinstance(v, int) and type(m.value) is type(v)), True, 'value', lambda: f'{d()} member {k}')
        ctx.check(T(m) is m, True, 'E(m) is m', lambda: f'{d()} member {k}')
        ctx.check(repr(m), f'{T.__name__}.{k}', 'repr', d)
        for other in names:
            ctx.check((attempt(getattr, m, other), hasattr(m, other), getattr(m, other, None)), (('exc', 'AttributeError'), False, None), 'a member through a member',
                      lambda: f'{d()}: {k}.{other}')
        if way == 'method':
            ctx.check((m.describe(), m.other), (f'{k}!', 'text'), 'attributes of members', d)
        for x in FOREIGN:
            ctx.check((m == x, m != x, x == m, x != m), (False, True, False, True) if not isinstance(x, Bit) else (False, True, x == m, x != m), 'equal to a foreign value',
                      lambda: f'{d()} {k} and {x!r}')
    for x in FOREIGN + (v_of(items),):
        ctx.raises(TypeError, lambda: T(x), 'construction by value', lambda: f'{d()}: E({x!r})')
    ctx.raises(TypeError, lambda: T(), 'construction by value', d)
    ctx.raises(TypeError, lambda: fd.__setitem__('zz', members[0]) if hasattr(fd, '__setitem__') else {}[[]], 'field_dict can be written', d)
    relate(ctx, [(m, T, v) for m, (_, v) in zip(members, items)], d)
    return members


def v_of(items):
    return items[-1][1]


def relate(ctx, triples, d):
    """equality and hashes of members (m, type, value) of live Enums"""
    for (m, T, v), (n, U, w) in it.product(triples, repeat=2):
        related = issubclass(T, U) or issubclass(U, T)
        want = related and same_value(v, w)
        ctx.transitions += 1
        got = (m == n, m != n)
        if got != (want, not want):
            ctx.fail('equality', f'{d()}: {m!r} ({v!r}) and {n!r} ({w!r}): expected {want}, got {got}')
        if want and hash(m) != hash(n):
            ctx.fail('hash', f'{d()}: {m!r} and {n!r}')
        if T is not U and issubclass(U, T) is False:
            if attempt(T, n) != ('exc', 'TypeError'):
                ctx.fail('a member of another Enum accepted', f'{d()}: {T}({n!r})')
    table = {}
    for i, (m, T, v) in enumerate(triples):
        table.setdefault(m, i)
    for i, (m, T, v) in enumerate(triples):
        j = table[m]
        n, U, w = triples[j]
        ctx.check(same_value(v, w) and (issubclass(T, U) or issubclass(U, T)), True, 'as a dictionary key', lambda: f'{d()}: {m!r}')


def definitions():
    out = []
    for n in (1, 2, 3):
        for names in it.permutations(NAMES, n) if n < 3 else it.permutations(NAMES[:3], 3):
            for vals in it.product(VALUES, repeat=n):
                out.append(tuple(zip(names, vals)))
    return out


def show(items):
    return '{' + ', '.join(f'{k}: {"auto" if v is AUTO else "shared" if v is SHARED else v}' for k, v in items) + '}'


def singles(ctx, part, of):
    defs = definitions()
    plain = [(Plain.a, Plain, 1), (Plain.q, Plain, 5)]
    for i in range(part, len(defs), of):
        items = fresh(defs[i])
        ways = WAYS if i // of % 4 == 0 else (WAYS[i // of % len(WAYS)],)
        for way in ways:
            d = lambda: f'{way} {show(defs[i])}'
            ctx.state((i, way))
            T, base = define(f'S{i}{way}', items, way)
            ms = inspect(ctx, T, base, items, way, d)
            relate(ctx, plain + [(m, T, v) for m, (_, v) in zip(ms, items)], d)
            inspect(ctx, T, base, items, way, d)
            ctx.traces += 1
    if part == 0:
        ctx.sample(f'{len(defs)} definitions')


def key(name, items, way):
    """definitions with equal keys give the same class while it is alive; None: never"""
    if 'uncached' in way or way == 'method':
        return None
    base = {'base': MyEnum, 'derived': Plain}.get(way, Enum)
    return name, base, frozenset(items)


def spread(xs, n):
    return [xs[i * len(xs) // n] for i in range(n)]


def pairs(ctx, size, part, of):
    defs = spread(definitions(), size // 3)
    specs = [(name, x, way) for j, x in enumerate(defs) for name, way in (('P', 'class'), ('P', WAYS[j % len(WAYS)]), ('Q', WAYS[(j + 3) % len(WAYS)]))]
    for i in range(part, len(specs), of):
        for j in range(len(specs)):
            ctx.state((i, j))
            live = []
            for name, x, way in (specs[i], specs[j]):
                items = fresh(x)
                T, base = define(name, items, way)
                live.append((T, base, items, way, name))
            (T, b0, i0, w0, n0), (U, b1, i1, w1, n1) = live
            d = lambda: f'{n0} {w0} {show(specs[i][1])} then {n1} {w1} {show(specs[j][1])}'
            k0, k1 = key(n0, i0, w0), key(n1, i1, w1)
            same = k0 is not None and k0 == k1
            ctx.check(T is U, same, 'same definition, same Enum', d)
            tri = []
            for (V, b, its, w, n) in live:
                ctx.check(sorted(V.field_dict), sorted(k for k, _ in its), 'field_dict', d)
                for k, v in its:
                    m = getattr(V, k)
                    ctx.check((type(m) is V, m.name, same_value(m.value, v)), (True, k, True), 'member', d)
                    tri.append((m, V, v))
            relate(ctx, tri, d)
            ctx.traces += 1


def many(ctx, n):
    """Enums of n members; n instructions alive, shared and collected"""
    for mixed in (0, 1, 2):
        def val(i):
            if mixed == 0:
                return AUTO
            return (AUTO, i, -i - 1, i // 2, SHARED)[i % 5] if mixed == 1 else i * (1 << 61) - 1
        def nm(i):
            # names of many lengths and initials, in no alphabetical order
            return (f'm{i}', 'x' * (i * 7 % 23) + f'{chr(122 - i % 26)}{i}', f'{"k_" * (i % 2)}{"Long" * (i % 11)}{i}_' if i % 3 else f'q{i:0{i % 13 + 1}}')[mixed]
        items = fresh([(nm(i), val(i)) for i in range(n)])
        for way in ('class', 'from_fields', 'base', 'uncached'):
            ctx.state((n, mixed, way))
            d = lambda: f'{way} of {n} members'
            T, base = define(f'N{n}', items, way)
            ms = []
            fd = T.field_dict
            ctx.check((list(fd), [m.name for m in T.fields]), ([k for k, _ in items],) * 2, 'fields', d)
            for k, v in items:
                m = getattr(T, k)
                ms.append((m, T, v))
                ctx.check((m.name, m.value is v, type(m) is T, m is fd[k], T(m) is m), (k, True, True, True, True), 'member', lambda: f'{d()}: {k}')
            ctx.check(list(map(id, T.enumerate())), list(map(id, T.fields)), 'enumerate', d)
            relate(ctx, ms if n <= 40 else ms[:20] + ms[-20:], d)
            groups = {}
            for m, _, v in ms:
                groups.setdefault(m, []).append(v)
            want = {}
            for _, v in items:
                want.setdefault(v if isinstance(v, int) else id(v), []).append(v)
            ctx.check(sorted(map(len, groups.values())), sorted(map(len, want.values())), 'members as dictionary keys', d)
        ctx.traces += 1
    # instructions one after another, kept or dropped
    for keep in (True, False):
        autos = []
        last = None
        for i in range(4 * n):
            v = new_instruction()
            ctx.check((v == last, v is last, v == 0, v == 1), (False, False, False, False), 'new_instruction', f'{i} of {n}')
            last = v
            if keep:
                autos.append(v)
            T = type(Enum)('Auto', (Enum,), {'a': v, 'b': new_instruction()})
            ctx.check((T.a == T.b, T.a != T.b, T.a == T.a, T.a.value is v), (False, True, True, True), 'new_instruction', f'{i} of {n}')
            ctx.states += 1
        if keep:
            ctx.check((len(set(map(id, autos))), len(set(autos))), (4 * n, 4 * n), 'new_instruction', f'{4 * n} alive')


def named(ctx):
    """member names of every length 1..40 and every pair and triple of some, in every order"""
    some = [('abcdefghij' * 5)[:k] for k in range(1, 41)]
    odd = ['B', 'a' * 200, 'Über', '_under', 'under_', 'a1', 'A1', 'nameof', 'values', 'hash', 'Enum', 'MyEnum', 'mro_', 'fieldsx', 'x' * 9, 'x' * 8]
    sets = [(a,) for a in some + odd] + list(it.permutations(some[:3] + some[7:10] + odd[:7], 2)) + list(it.permutations(some[6:10] + odd[-5:], 3))
    for i, names in enumerate(sets):
        vals = [(3 - j, AUTO, SHARED, j * 10 ** 18, -j)[(i + j) % 5] for j in range(len(names))]
        items = fresh(zip(names, vals))
        for way in WAYS if i % 5 == 0 else (WAYS[i % len(WAYS)],):
            ctx.state((names, way))
            d = lambda: f'{way} {names} {vals}'
            T, base = define(f'L{i}', items, way)
            inspect(ctx, T, base, items, way, d)
        ctx.traces += 1


def histories(ctx, depth, part, of):
    """definitions, deletions and collections in every order"""
    specs = [('H', (('a', 0), ('b', 1)), 'class'), ('H', (('a', 1), ('b', 0)), 'class'), ('H', (('b', 1), ('a', 0)), 'from_fields'), ('H', (('a', 0),), 'class'),
             ('H', (('a', SHARED), ('b', 1)), 'class'), ('H', (('a', 0), ('b', 1)), 'base'), ('H', (('a', 0), ('b', 1)), 'uncached'), ('K', (('a', 0), ('b', 1)), 'class'),
             ('H', (('a', AUTO),), 'class'), ('H', (('a', 2), ('b', 1)), 'derived')]
    acts = [*range(len(specs)), 'drop first', 'drop last', 'collect']
    for lead in range(part, len(acts), of):
        for rest in it.product(acts, repeat=depth - 1):
            h = (acts[lead],) + rest
            live = []
            ctx.states += 1
            d = lambda: ' ; '.join(a if isinstance(a, str) else f'{specs[a][0]} {specs[a][2]} {show(specs[a][1])}' for a in h)
            for a in h:
                if a == 'collect':
                    if any(isinstance(x, str) and x != a for x in h):
                        gc.collect(1)
                elif isinstance(a, str):
                    if live:
                        live.pop(0 if a == 'drop first' else -1)
                        T = U = m = tri = None
                else:
                    name, x, way = specs[a]
                    items = fresh(x)
                    T, _ = define(name, items, way)
                    k = key(name, items, way)
                    for (U, its, k1, w) in live:
                        ctx.check(T is U, k is not None and k == k1, 'same definition, same Enum', d)
                    live.append((T, items, k, way))
                tri = []
                for (U, its, _, _) in live:
                    if sorted(U.field_dict) != sorted(k for k, _ in its):
                        ctx.fail('field_dict', f'{d()}: {dict(U.field_dict)}')
                    for k, v in its:
                        m = getattr(U, k)
                        ctx.transitions += 1
                        if type(m) is not U or m.name != k or not same_value(m.value, v) or U.field_dict[k] is not m:
                            ctx.fail('member', f'{d()}: {m!r} {m.value}')
                        tri.append((m, U, v))
            relate(ctx, tri, d)
            ctx.traces += 1


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for n in (4, 5, 8, 9, 10, 12, 16, 17, 32, 33, 64, 65, 100, 128, 129, 257, 300) if deep else (4, 8, 9, 16, 17, 33, 65, 129, 257):
        out.append(Job(f'{n} members', many, n, weight=5))
    out.append(Job('names', named, weight=20))
    for p in range(16):
        out.append(Job(f'definitions {p}', singles, p, 16, weight=30))
    for p in range(16):
        out.append(Job(f'pairs {p}', pairs, 240 if deep else 90, p, 16, weight=20))
    for p in range(13):
        out.append(Job(f'histories {p}', histories, 5 if deep else 4, p, 13, weight=30))
    return out
