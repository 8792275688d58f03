"""C13: enumerate yields every value of a finite ADT type exactly once.

Every type up to a size is built and its enumeration compared with the set of
values a few lines of set arithmetic give.
"""
import itertools as it

from core import Job
from hwtypes import Enum, Product, Sum, TaggedUnion, Tuple, new_instruction
from hwtypes.adt import AnonymousProduct

PROP = 'C13'
SPACE = {
    'quick': 'all Tuple, Product, AnonymousProduct, Sum and TaggedUnion types over 1-3 fields from 4 Enums (1-3 members); all over 1-2 fields '
             'from 60 of those; all over 1-2 fields from 20 of the second level; user bases and derived types; records of up to 42 fields and 83521 values, unions of up to 50 tags, Enums of up to 300 members or with '
             'members of equal value, 16 levels; each enumerated twice, in two '
             'interleaved iterators (every interleaving up to 4 values, 6 patterns beyond), and again after every yielded value was overwritten',
    'thorough': 'as quick with 120 first level and 32 second level types and a fourth level',
}
ASSUMPTIONS = ['records nested in the values of one enumeration may be shared between those values, so they are not overwritten while it runs']


class E1(Enum):
    a = 5


class E2(Enum):
    a = 0
    b = 1


def other(**members):
    """another Enum that is also called E2"""
    return type(Enum)('E2', (Enum,), dict(members))


F2 = other(b=1, c=0)


class E3(Enum):
    a = new_instruction()
    b = -1
    c = 7


class MyTuple(Tuple):
    pass


class MySum(Sum):
    pass


class MyEnum(Enum):
    pass


class G2(MyEnum):
    x = 2
    y = 3


LEAVES = [E1, E2, F2, E3]        # two of one name
KINDS = ('Tuple', 'Product', 'Anon', 'Sum', 'TU')
FN = ('f', 'g', 'h') + tuple(f'k{i}' for i in range(60))


def build(kind, ts):
    """the type, and its set of values in the model's notation"""
    n = len(ts)
    T = [t for t, _ in ts]
    V = [v for _, v in ts]
    if kind in ('Tuple', 'MyTuple'):
        c = (Tuple if kind == 'Tuple' else MyTuple)[tuple(T)]
    elif kind == 'Product':
        c = Product.from_fields('P', dict(zip(FN, T)))
    elif kind == 'Anon':
        c = AnonymousProduct[dict(zip(FN, T))]
    elif kind in ('Sum', 'MySum'):
        c = (Sum if kind == 'Sum' else MySum)[tuple(T)]
        return c, {('S', id(t), x) for t, v in ts for x in v}
    else:
        c = TaggedUnion.from_fields('P', dict(zip(FN, T)))
        return c, {('U', k, x) for k, v in zip(FN, V) for x in v}
    return c, {('R', *x) for x in it.product(*V)}


def leaf(e):
    return e, {('E', id(e), m) for m in e.field_dict}


def canon(x):
    """a value read through its public interface, in the model's notation"""
    t = type(x)
    if isinstance(x, Enum):
        return ('E', id(t), x.name)
    if isinstance(x, Tuple):
        return ('R', *(canon(v) for v in x.value_dict.values()))
    if isinstance(x, TaggedUnion):
        (k, v), = [(k, v) for k, v in x.value_dict.items() if v is not None]
        return ('U', k, canon(v))
    (k, v), = [(k, v) for k, v in x.value_dict.items() if v is not None]
    return ('S', id(k), canon(v))


def related(ts):
    return any(s is not t and (issubclass(s, t) or issubclass(t, s)) for s, t in it.permutations(ts, 2))


def verify(ctx, T, want, how, alias=False):
    ctx.state(how())
    vals = list(T.enumerate())
    ctx.transitions += len(vals)
    got = [canon(v) for v in vals]
    if len(got) != len(want) or set(got) != want:
        ctx.fail('values', f'{how()}: expected {len(want)} values, got {len(got)} ({len(set(got))} different); missing '
                           f'{list(want - set(got))[:2]}, surplus {list(set(got) - want)[:2]}')
    for v in vals:
        if type(v) is not T or not isinstance(v, T):
            ctx.fail('type of an enumerated value', f'{how()}: {v!r} of {type(v)}')
    if len(vals) <= 12 and not alias:
        for v, w in it.combinations(vals, 2):
            if v == w:
                ctx.fail('two enumerated values are equal', f'{how()}: {v!r} {w!r}')
    if not alias and len(set(vals)) != len(vals):
        ctx.fail('values collapse in a set', how())
    # two iterators side by side
    m = len(vals)
    pats = [p for p in it.product((0, 1), repeat=2 * m) if sum(p) == m] if m <= 4 else \
        [(0, 1) * m, (1, 0) * m, (0,) * m + (1,) * m, (0, 0, 1) + (1, 0) * (m - 2) + (1,), (0,) * 3 + (1,) * m + (0,) * (m - 3), (1, 1, 0, 0) * (m // 2) + (0, 1) * (m % 2)]
    for p in pats[:80]:
        its = (T.enumerate(), T.enumerate())
        seen = ([], [])
        for i in p:
            seen[i].append(canon(next(its[i])))
        for i in (0, 1):
            if set(seen[i]) != want or len(seen[i]) != m or next(its[i], None) is not None:
                ctx.fail('interleaved enumerations', f'{how()}: pattern {p}')
        ctx.transitions += 2 * m
    # abandoned, and after the values of an earlier enumeration were overwritten
    next(T.enumerate())
    for v in vals:
        scribble(v, vals[0], vals[-1])
    seen = []
    for v in T.enumerate():
        seen.append(canon(v))
        if isinstance(v, Tuple):
            for i, w in enumerate(v[:]):
                v[i] = type(w).enumerate().__next__() if hasattr(type(w), 'enumerate') else w
    if len(seen) != m or set(seen) != want:
        ctx.fail('enumeration after values were overwritten', how())
    ctx.traces += 1


def scribble(v, a, b):
    """change v, and what it holds, as much as its type allows"""
    if isinstance(v, Enum):
        return
    if isinstance(v, Tuple):
        for i, w in enumerate(v[:]):
            scribble(w, None, None)
            for x in type(v)[i].enumerate():
                v[i] = x
    elif isinstance(v, TaggedUnion):
        for w in v.value_dict.values():
            if w is not None:
                scribble(w, None, None)
        for k, t in type(v).field_dict.items():
            for x in t.enumerate():
                setattr(v, k, x)
    else:
        for w in v.value_dict.values():
            if w is not None:
                scribble(w, None, None)
        for t in type(v).fields:
            for x in t.enumerate():
                v[t] = x


def level(pool, arities, kinds=KINDS):
    for n in arities:
        for ts in it.product(pool, repeat=n):
            for kind in kinds:
                if kind in ('Sum', 'MySum'):
                    T = [t for t, _ in ts]
                    if len(set(T)) < n or related(T) or [id(t) for t in T] != sorted(id(t) for t in T):
                        continue
                yield kind, ts


def first(limit=None):
    out = []
    for kind, ts in level([leaf(e) for e in LEAVES], (1, 2)):
        c, v = build(kind, ts)
        if len(v) <= 6:
            out.append((f'{kind}({",".join(t.__name__ for t, _ in ts)})', (c, v)))
    step = max(1, len(out) // limit)
    return out[::step][:limit]


def desc(kind, ts):
    return f'{kind}({", ".join(t.__name__ for t, _ in ts)})'


def one(ctx, part, of):
    for i, (kind, ts) in enumerate(level([leaf(e) for e in LEAVES + [G2]], (1, 2, 3), KINDS + ('MyTuple', 'MySum'))):
        if i % of == part:
            T, want = build(kind, ts)
            verify(ctx, T, want, lambda: desc(kind, ts))
            if kind not in ('MyTuple', 'MySum'):
                D = type(T)('D', (T,), {})
                verify(ctx, D, want, lambda: f'class derived from {desc(kind, ts)}')


def two(ctx, part, of, limit):
    pool = [x for _, x in first(limit)]
    for i, (kind, ts) in enumerate(level(pool + [leaf(E2)], (1, 2))):
        if i % of == part:
            T, want = build(kind, ts)
            verify(ctx, T, want, lambda: desc(kind, ts))


def three(ctx, part, of, limit, lim2, deep):
    pool = [x for _, x in first(limit)]
    second = [build(kind, ts) for i, (kind, ts) in enumerate(level(pool[::4], (1, 2))) if i % 7 == 0]
    second = [x for x in second if len(x[1]) <= 12]
    second = second[::max(1, len(second) // lim2)][:lim2]
    todo = list(level(second + [leaf(E2)], (1, 2)))
    third = []
    for i, (kind, ts) in enumerate(todo):
        if i % of == part:
            T, want = build(kind, ts)
            if len(want) <= 400:
                verify(ctx, T, want, lambda: desc(kind, ts))
                third.append((T, want))
    if deep:
        third = [x for x in third if len(x[1]) <= 20][:8]
        for kind, ts in level(third, (1, 2)):
            T, want = build(kind, ts)
            verify(ctx, T, want, lambda: desc(kind, ts))


def fixed(ctx):
    for e in LEAVES + [G2]:
        T, want = leaf(e)
        verify(ctx, e, want, lambda: e.__name__)
        ctx.check([any(m is f for f in e.fields) for m in e.enumerate()], [True] * len(e.fields), 'members', e.__name__)
    verify(ctx, Tuple[()], {('R',)}, lambda: 'Tuple[()]')
    wide = build('Tuple', [leaf(E2)] * 6)
    verify(ctx, *wide, lambda: 'Tuple of six E2')
    verify(ctx, *build('TU', [wide, leaf(E1), wide]), lambda: 'union of two of them')
    ctx.sample('Tuple of six E2')


def members(n, name='M'):
    return type(Enum)(name, (Enum,), {f'm{i}': i for i in range(n)})


def large(ctx, which):
    E4, E17 = members(4), members(17)
    B1 = [leaf(E1)]
    if which == 'wide':
        for kind in ('Tuple', 'Product', 'Anon', 'MyTuple'):
            verify(ctx, *build(kind, [leaf(E4)] * 6), lambda: f'{kind} of six Enums of 4 members')
            verify(ctx, *build(kind, [leaf(E2), leaf(F2)] * 5), lambda: f'{kind} of ten Enums of 2 members')
            verify(ctx, *build(kind, B1 * 40), lambda: f'{kind} of 40 Enums of 1 member')
            verify(ctx, *build(kind, B1 * 20 + [leaf(E3)] + B1 * 20 + [leaf(E2)]), lambda: f'{kind} of 42 Enums, all but two of 1 member')
        ctx.sample('Tuple of six Enums of 4 members: 4096 values')
    elif which == 'union':
        for ts in ([leaf(E2)] * 4, [leaf(E2)] * 50, [leaf(e) for e in LEAVES] * 5, [leaf(members(i + 1)) for i in range(12)] + [leaf(E2)] * 3):
            verify(ctx, *build('TU', ts), lambda: f'TaggedUnion of {len(ts)}')
        rec = build('Tuple', [leaf(E2)] * 3)
        for ts in ([rec] * 4, [rec, leaf(E2), build('Tuple', [rec, rec]), leaf(E2), rec]):
            verify(ctx, *build('TU', ts), lambda: f'TaggedUnion of {len(ts)} records')
        for n in (5, 30):
            ts = [leaf(members(1 + i % 3, f'M{i}')) for i in range(n)]
            verify(ctx, *build('Sum', ts), lambda: f'Sum of {n} Enums')
            ts = [leaf(members(1 + i % 3)) for i in range(n)]
            verify(ctx, *build('Sum', ts), lambda: f'Sum of {n} Enums of one name')
    elif which == 'members':
        for n in (9, 33, 300):
            e = members(n)
            verify(ctx, *leaf(e), lambda: f'Enum of {n} members')
            for kind in ('Tuple', 'Product', 'Anon', 'Sum', 'TU'):
                verify(ctx, *build(kind, [leaf(e)]), lambda: f'{kind} of an Enum of {n} members')
        e = type(Enum)('Mixed', (Enum,), {'a': 1 << 70, 'b': -1, 'c': 0, 'd': new_instruction(), 'e': True, 'zero': -(1 << 70), 'A': new_instruction()})
        for t in (leaf(e), build('Tuple', [leaf(e)] * 2), build('Sum', [leaf(e)]), build('TU', [leaf(e)] * 2)):
            verify(ctx, *t, lambda: f'{t[0].__name__}: members of all kinds')
    elif which == 'alias':
        # members of one value are still members
        for vals in ((0, 0), (0, 1, 0), (1, 1, 1, 2), (0, 0, 1, 1), (*range(9), 0), (*range(12), 5, 3, 11), (7,) * 17, tuple(range(30)) * 2):
            e = type(Enum)('Alias', (Enum,), {f'm{i}': v for i, v in enumerate(vals)})
            for kind in ('E', 'Tuple', 'Product', 'Anon', 'Sum', 'TU'):
                t = leaf(e) if kind == 'E' else build(kind, [leaf(e)])
                verify(ctx, *t, lambda: f'{kind}: Enum of values {vals}', alias=True)
            verify(ctx, *build('Tuple', [leaf(e), leaf(E2), leaf(e)]), lambda: f'Tuple with Enums of values {vals}', alias=True)
    elif which == 'deep':
        for kinds in (('Tuple',), ('TU',), ('Product', 'Sum'), ('Anon', 'TU', 'Tuple', 'Sum')):
            t = leaf(E2)
            for d in range(16):
                t = build(kinds[d % len(kinds)], [t] if d % 4 else [t, leaf(E1)])
                verify(ctx, *t, lambda: f'{d + 1} levels of {kinds}')
    else:
        T, want = build('Tuple', [leaf(E17)] * 4)
        got = [tuple(int(x.name[1:]) for x in v) for v in map(lambda v: v[:], T.enumerate())]
        ctx.state('huge')
        ctx.transitions += len(got)
        ctx.check((len(got), sorted(set(got)) == sorted(it.product(range(17), repeat=4))), (17 ** 4, True), 'values', 'Tuple of four Enums of 17 members')


def jobs(tier):
    deep = tier == 'thorough'
    limit, lim2 = (120, 32) if deep else (60, 20)
    of = 32
    return ([Job('fixed', fixed, weight=2)]
            + [Job(f'large: {w}', large, w, weight=8) for w in ('wide', 'union', 'members', 'alias', 'deep', 'huge')]
            + [Job(f'first level {p}', one, p, 8, weight=3) for p in range(8)]
            + [Job(f'second level {p}', two, p, of, limit, weight=9) for p in range(of)]
            + [Job(f'third level {p}', three, p, 16, limit, lim2, deep, weight=9) for p in range(16)])
