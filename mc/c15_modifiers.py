"""C15: modifiers wrap types canonically; unwrap, strip and push are exact.

A modified type is a term over modifiers and classes.  Histories of wrapping,
dropping and collecting are run and all live types compared with the term
lattice; stacks and trees are enumerated.
"""
import gc
import itertools as it

from core import Job
from hwtypes import (AbstractBitVector, Bit, BitVector, Enum, FPVector, Product, RoundingMode, SIntVector, SMTBit, SMTBitVector, Sum, TaggedUnion,
                     Tuple, UIntVector)
from hwtypes.adt import AnonymousProduct
from hwtypes.modifiers import (AbstractModifier, get_all_modifiers, get_modifier, get_unmodified, is_modified, is_modifier, make_modifier,
                               new, push_modifiers, strip_modifiers, unwrap_modifier, wrap_modifier)

PROP = 'C15'
SPACE = {
    'quick': 'histories of <= 4 actions over 2 modifiers and 5 related types (wrap once or twice, hold a type or an instance, drop, collect), '
             'all live types compared pairwise; every stack of <= 3 of 3 modifiers over 16 types in every creation order; '
             'strip and push on every type tree of depth <= 2 with modifiers on any node (5 leaves, 4 modifier lists, 6 kinds) and a selection of depth 3; '
             'stacks of 6 modifiers, modifiers and types of one name, types of up to 4 bases, derived classes, 1680 types at once, trees of 40 fields and 14 levels',
    'thorough': 'as quick with histories of <= 5, stacks of <= 4 of 4 modifiers',
}
ASSUMPTIONS = ['a stack holds no modifier twice', 'stripped and pushed trees contain no classes derived from a bound ADT type']


class E(Enum):
    a = 0
    b = 1


class P(Product):
    a = Bit
    b = BitVector[2]

    def foo(self):
        return self.a


class U(TaggedUnion):
    a = Bit
    b = BitVector[2]


B2, U2 = BitVector[2], UIntVector[2]
F = FPVector[3, 4, RoundingMode.RNE, True]
M, N, O, Q = (make_modifier(n) for n in 'MNOQ')
MODS = (M, N, O, Q)
TYPES = [Bit, B2, U2, BitVector, SIntVector[3], SMTBit, SMTBitVector[2], F, Tuple[Bit, B2], P, U, Sum[Bit, B2], AnonymousProduct[{'a': Bit, 'b': B2}], E, int, Tuple]


# a reference is a class, or (modifier, reference)
def up(r):
    if isinstance(r, tuple):
        return [r[1]] + [(r[0], p) for p in up(r[1])]
    return list(r.__bases__)


def above(r, memo={}):
    if r not in memo:
        out = {r}
        for p in up(r):
            out |= above(p)
        memo[r] = out
    return memo[r]


def build(r):
    return r[0](build(r[1])) if isinstance(r, tuple) else r


def desc(r):
    return f'{r[0].__name__}({desc(r[1])})' if isinstance(r, tuple) else r.__name__


def stack(r):
    return stack(r[1]) + [r[0]] if isinstance(r, tuple) else []


def root(r):
    return root(r[1]) if isinstance(r, tuple) else r


def verify(ctx, r, c, how, mods=MODS):
    """what can be seen of one class without looking at others"""
    base, st = root(r), stack(r)
    ctx.check(build(r) is c, True, 'type is not canonical', how)
    ctx.check((is_modified(c), list(get_all_modifiers(c))), (bool(st), st), 'modifiers', how)
    got = unwrap_modifier(c)
    ctx.check((got[0] is base, list(got[1])), (True, st), 'unwrap_modifier', how)
    ctx.check(wrap_modifier(base, st) is c, True, 'wrap_modifier', how)
    for i in range(len(st) + 1):
        ctx.check(wrap_modifier(wrap_modifier(base, st[:i]), st[i:]) is c, True, 'wrap_modifier in two steps', how)
    if st:
        ctx.check((get_modifier(c) is st[-1], get_unmodified(c) is build(r[1]), st[-1](get_unmodified(c)) is c), (True,) * 3, 'get_modifier, get_unmodified', how)
        ctx.raises(TypeError, lambda: wrap_modifier(base, st + st[:1]), 'duplicate modifier', how)
        ctx.check((c is base, c == base), (False, False), 'modified type is the type', how)
    else:
        ctx.raises(TypeError, lambda: get_modifier(c), 'get_modifier of an unmodified type', how)
        ctx.raises(TypeError, lambda: get_unmodified(c), 'get_unmodified of an unmodified type', how)
    for m in mods:
        ctx.check(issubclass(c, m), bool(st) and st[-1] is m, 'issubclass of a modifier', lambda: f'{how()} under {m.__name__}')
    ctx.check(is_modifier(c), False, 'is_modifier', how)
    keeps(ctx, base, c, how)


def keeps(ctx, base, c, how):
    for a in ('size', 'is_sized', 'fields', 'is_bound', 'binding', 'exponent_size', 'mode'):
        if hasattr(base, a):
            ctx.check(getattr(c, a), getattr(base, a), f'{a} of a modified type', how)
    if getattr(base, 'fields', None) is not None:
        ctx.check(list(c.field_dict.items()), list(base.field_dict.items()), 'field_dict of a modified type', how)


VALUES = {Bit: (1,), B2: (2,), U2: (2,), SIntVector[3]: (2,), SMTBit: (1,), SMTBitVector[2]: (2,), F: (2,), Tuple[Bit, B2]: (Bit(1), B2(1)),
          P: (Bit(1), B2(1)), Sum[Bit, B2]: (B2(1),), AnonymousProduct[{'a': Bit, 'b': B2}]: (Bit(1), B2(1)), int: (3,)}


def instances(ctx, r, c, live, how):
    base = root(r)
    if base not in VALUES and base is not U:
        return
    x = c(*VALUES[base]) if base is not U else c(a=Bit(1))
    ctx.check(type(x) is c, True, 'type of an instance', how)
    for s, d in live.items():
        ctx.check(isinstance(x, d), s in above(r), 'isinstance', lambda: f'{how()} and {desc(s)}')
    for m in MODS:
        ctx.check(isinstance(x, m), bool(stack(r)) and stack(r)[-1] is m, 'isinstance of a modifier', lambda: f'{how()} and {m.__name__}')
    ctx.check(isinstance(x, base), True, 'instance of the unmodified type', how)
    y = base(*VALUES[base]) if base is not U else base(a=Bit(1))
    for m in MODS:
        ctx.check(isinstance(y, m), False, 'unmodified instance', how)
    if base in (Bit, B2, U2, SIntVector[3], P, U, int) or base is Sum[Bit, B2]:
        ctx.check((bool(x == y), bool(y == x)), (True, True), 'equality with the unmodified value', how)
    if base is P:
        ctx.check((x.foo() == 1, x.a == 1, x[1] == 1), (True, True, True), 'reads', how)


# ---------------------------------------------------------------- histories

HT = [B2, U2, BitVector, P, Tuple[Bit, B2]]


def acts():
    out = [('hold', (m, t)) for m in (M, N) for t in HT]
    out += [('hold', (N, (M, t))) for t in (B2, U2, P)] + [('hold', (M, (N, U2)))]
    out += [('instance', (M, U2)), ('instance', (N, (M, P)))]
    out += [('temp', (M, U2)), ('temp', (N, (M, U2))), ('temp', (M, P))]
    out += [('derive', (M, P)), ('drop',), ('drop1', (M, U2)), ('gc',), ('refused',)]
    return out


def aname(a):
    return a[0] + (' ' + desc(a[1]) if len(a) > 1 else '')


def histories(ctx, depth, first):
    A = acts()
    gc.collect()
    gc.freeze()
    todo = [(first,)]
    while todo:
        h = todo.pop()
        how = lambda: ' ; '.join(map(aname, h))
        gc.collect()
        held, inst, derived = {}, {}, []
        for a in h:
            ctx.transitions += 1
            if a[0] in ('hold', 'instance', 'temp', 'derive'):
                c = build(a[1])
                if a[1] in held and held[a[1]] is not c or a[1] in inst and type(inst[a[1]]) is not c:
                    ctx.fail('type is not canonical', f'{how()}: second {desc(a[1])} while one is alive')
                if a[0] == 'hold':
                    held[a[1]] = c
                elif a[0] == 'instance':
                    inst[a[1]] = c(*VALUES[root(a[1])])
                elif a[0] == 'derive':
                    derived.append((a[1], c, type(c)('D', (c,), {})))
                del c
            elif a[0] == 'drop':
                held, inst, derived = {}, {}, []
            elif a[0] == 'drop1':
                held.pop(a[1], None)
            elif a[0] == 'refused':
                ctx.raises(TypeError, lambda: wrap_modifier(B2, [M, N, M]), 'duplicate modifier', how)
                ctx.raises(TypeError, lambda: AbstractModifier(B2), 'AbstractModifier applied', how)
                ctx.raises(TypeError, lambda: get_modifier(B2), 'get_modifier', how)
            else:
                gc.collect()
        live = {}
        for r, c in itertools_items(held, inst, derived):
            if live.setdefault(r, c) is not c:
                ctx.fail('type is not canonical', f'{how()}: two live {desc(r)}')
        for r in list(live):
            for p in above(r):
                if isinstance(p, tuple):
                    c = build(p)
                    if live.setdefault(p, c) is not c:
                        ctx.fail('type is not canonical', f'{how()}: base {desc(p)} of {desc(r)}')
        for t in HT:
            live[t] = t
        ctx.state(tuple(sorted(map(desc, live))))
        for r, c in live.items():
            verify(ctx, r, c, lambda: f'{how()}: {desc(r)}')
            for s, d in live.items():
                ctx.check(issubclass(c, d), s in above(r), 'subtyping', lambda: f'{how()}: {desc(r)} under {desc(s)}')
        for r, x in inst.items():
            for s, d in live.items():
                ctx.check(isinstance(x, d), s in above(r), 'isinstance', lambda: f'{how()}: instance of {desc(r)} and {desc(s)}')
        for r, c, D in derived:
            ctx.check((issubclass(D, c), is_modified(D), issubclass(D, r[0]), issubclass(D, root(r))), (True, False, False, True), 'class derived from a modified type', how)
        ctx.traces += 1
        if len(h) < depth:
            for a in A:
                if not (a == h[-1] and a[0] in ('gc', 'drop', 'refused')):
                    todo.append(h + (a,))
        else:
            ctx.sample(how())


def itertools_items(held, inst, derived):
    yield from held.items()
    for r, x in inst.items():
        yield r, type(x)
    for r, c, D in derived:
        yield r, c


# ------------------------------------------------------------------- stacks

def stacks(ctx, i, depth, mods):
    t = TYPES[i]
    refs = [t]
    for n in range(1, depth + 1):
        for st in it.permutations(mods, n):
            r = t
            for m in st:
                r = (m, r)
            refs.append(r)
    gc.collect()
    gc.freeze()
    # created alone, and each pair in each order
    for r in refs:
        gc.collect()
        c = build(r)
        verify(ctx, r, c, lambda: desc(r))
        ctx.state(desc(r))
        instances(ctx, r, c, {r: c, t: t}, lambda: desc(r))
        ctx.traces += 1
    for r, s in it.permutations(refs, 2):
        c, d = build(r), build(s)
        how = lambda: f'{desc(r)} then {desc(s)}'
        ctx.check((c is d, issubclass(c, d), issubclass(d, c)), (False, s in above(r), r in above(s)), 'pair', how)
        ctx.check((build(r) is c, build(s) is d), (True, True), 'type is not canonical', how)
        ctx.check((unwrap_modifier(c)[1], unwrap_modifier(d)[1]), (stack(r), stack(s)), 'unwrap_modifier', how)
        del c, d
    live = {r: build(r) for r in refs}
    for b in [x for x in t.__mro__ if x is not object and hasattr(x, '__bases__')]:
        live[b] = b
        for m in mods:
            live[m, b] = m(b)
    for r, c in live.items():
        verify(ctx, r, c, lambda: desc(r))
        if root(r) is t:
            instances(ctx, r, c, live, lambda: desc(r))
        for s, d in live.items():
            ctx.check((issubclass(c, d), c is d), (s in above(r), r == s), 'subtyping', lambda: f'{desc(r)} under {desc(s)}')
    ctx.traces += 1


def factory(ctx):
    """make_modifier itself"""
    for pre in it.product((None, True, False), repeat=3):
        gc.collect()
        made = [make_modifier('Zed', cache=c) for c in pre if c is not None]
        flags = [c for c in pre if c is not None]
        for (i, x), (j, y) in it.combinations(enumerate(made), 2):
            ctx.check(x is y, flags[i] and flags[j], 'make_modifier', f'{flags}')
        for x in made:
            ctx.check((x.__name__, is_modifier(x), issubclass(x, AbstractModifier), is_modified(x)), ('Zed', True, True, False), 'make_modifier', f'{flags}')
            c = x(Bit)
            for y in made:
                ctx.check(issubclass(c, y), x is y, 'modifiers of one name', f'{flags}')
                ctx.check(y(Bit) is c, x is y, 'modifiers of one name', f'{flags}')
        del made
    # the modifier stays with its types
    c = make_modifier('Gone', cache=True)(Bit)
    gc.collect()
    ctx.check((get_modifier(c)(Bit) is c, make_modifier('Gone', cache=True) is get_modifier(c)), (True, True), 'modifier of a live type', 'Gone')
    ctx.check([is_modifier(t) for t in (Bit, B2, P, int)], [False] * 4, 'is_modifier', '')
    ctx.raises(TypeError, AbstractModifier, 'AbstractModifier instanced', '')
    ctx.raises(TypeError, lambda: AbstractModifier(Bit), 'AbstractModifier applied', '')
    ctx.check(M(BitVector).size if M(BitVector).is_sized else None, None, 'unsized', '')
    ctx.check((M(B2) is M(BitVector[2]), M(B2) is M(U2), M(B2) is N(B2)), (True, False, False), 'identity', '')
    ctx.traces += 1


# -------------------------------------------------------------------- trees

KINDS = ('T', 'A', 'P', 'S', 'U', 'MP')
FIELDS = ['x', 'y', 'z'] + [f'k{i}' for i in range(40)]


class MyProd(Product):
    pass


def tbuild(t):
    """t: ('leaf', cls, mods) or (kind, fields, mods); mods inner to outer"""
    if t[0] == 'leaf':
        c = t[1]
    else:
        fs = [tbuild(f) for f in t[1]]
        k = t[0]
        if k == 'T':
            c = Tuple[tuple(fs)]
        elif k == 'S':
            c = Sum[tuple(fs)]
        elif k == 'A':
            c = AnonymousProduct[dict(zip(FIELDS, fs))]
        else:
            c = {'P': Product, 'U': TaggedUnion, 'MP': MyProd}[k].from_fields('Nm', dict(zip(FIELDS, fs)))
    return wrap_modifier(c, list(t[2]))


def tstrip(t):
    return (t[0], t[1], ()) if t[0] == 'leaf' else (t[0], tuple(map(tstrip, t[1])), ())


def tpush(t, mods=()):
    mods = t[2] + mods
    return (t[0], t[1], mods) if t[0] == 'leaf' else (t[0], tuple(tpush(f, mods) for f in t[1]), ())


def tdesc(t):
    s = t[1].__name__ if t[0] == 'leaf' else f'{t[0]}({", ".join(map(tdesc, t[1]))})'
    for m in t[2]:
        s = f'{m.__name__}({s})'
    return s


def tmods(t):
    return bool(t[2]) or t[0] != 'leaf' and any(map(tmods, t[1]))


LM = [(), (M,), (M, N), (N, M)]
NM = [(), (O,), (O, Q), (Q, O)]
LV = [('leaf', c, m) for c in (Bit, B2, E, P, int) for m in LM if c is not P or len(m) < 1]
# P here is a whole record: its fields are the leaves
LV = [x if x[1] is not P else ('P', (('leaf', Bit, ()), ('leaf', B2, ())), (M,)) for x in LV]


def leafs():
    return LV


def level1():
    for n in (1, 2):
        for fs in it.product(leafs(), repeat=n):
            for k in KINDS:
                for m in NM:
                    if k == 'S' and n == 2 and fs[0] == fs[1]:
                        continue
                    if any(f[0] != 'leaf' for f in fs) and m and n == 2 and k in ('A', 'MP'):
                        continue
                    yield (k, fs, m)


def level2():
    l1 = [t for i, t in enumerate(x for x in level1() if len(x[1]) == 2 and x[2][:1] != (Q,)) if i % 97 == 0]
    R = make_modifier('R', cache=True)
    for t, u in it.product(l1, l1[::5] + LV[::4]):
        for k in ('T', 'P', 'S', 'U', 'A'):
            for m in ((), (R,)):
                if not (k == 'S' and t == u):
                    yield (k, (t, u), m)


def tree_one(ctx, t):
    T = tbuild(t)
    ctx.state(tdesc(t))
    snap = (T.fields, list(T.field_dict.items()), T.__bases__)
    got, want = strip_modifiers(T), tbuild(tstrip(t))
    ctx.transitions += 1
    if got is not want:
        ctx.fail('strip_modifiers', f'{tdesc(t)}: got {got} with fields {got.fields}')
    if strip_modifiers(got) is not got or not tmods(t) and got is not T:
        ctx.fail('strip_modifiers', f'{tdesc(t)}: not idempotent')
    ctx.transitions += 1
    got, want = push_modifiers(T), tbuild(tpush(t))
    if got is not want:
        ctx.fail('push_modifiers', f'{tdesc(t)}: expected {tdesc(tpush(t))}, got {got} with fields {got.fields}')
    if push_modifiers(got) is not got:
        ctx.fail('push_modifiers', f'{tdesc(t)}: not idempotent')
    if strip_modifiers(got) is not tbuild(tstrip(t)):
        ctx.fail('strip after push', tdesc(t))
    if (T.fields, list(T.field_dict.items()), T.__bases__) != snap:
        ctx.fail('the type is changed', tdesc(t))
    ctx.traces += 1


def trees(ctx, level, part, of):
    for i, t in enumerate({1: level1, 2: level2}[level]()):
        if i % of != part:
            continue
        tree_one(ctx, t)
    ctx.sample(tdesc(t))


def tree_special(ctx):
    for t in LV:
        if t[0] == 'leaf':
            ctx.check((strip_modifiers(tbuild(t)) is t[1], push_modifiers(tbuild(t)) is tbuild(t)), (True, True), 'leaf', tdesc(t))
    K = Product.from_fields('K', {'a': Bit}, cache=False)
    D = type(Product)('D', (P,), {})
    for T in (P, U, K, E, D, Tuple[P, K], Tuple[E, E], Sum[P, Bit], F, int):
        ctx.check(strip_modifiers(T) is T, True, 'nothing to strip', T.__name__)
        ctx.check(push_modifiers(T) is T, True, 'nothing to push', T.__name__)
        ctx.check(strip_modifiers(M(T)) is T, True, 'strip the outermost', T.__name__)
    ctx.check((strip_modifiers(Tuple[M(P), Bit]) is Tuple[P, Bit], strip_modifiers(Sum[M(Bit), Bit]) is Sum[Bit]), (True, True), 'strip', 'fixed')
    ctx.check(push_modifiers(M(Tuple[N(Bit), B2])) is Tuple[M(N(Bit)), M(B2)], True, 'push', 'fixed')
    ctx.raises(TypeError, lambda: push_modifiers(M(Tuple[M(Bit)])), 'duplicate modifier pushed', 'M(Tuple[M(Bit)])')
    for _ in range(3):
        ctx.check(push_modifiers(M(Tuple[Bit])) is Tuple[M(Bit)], True, 'push again', 'M(Tuple[Bit])')
        ctx.check(push_modifiers(Tuple[Bit]) is Tuple[Bit], True, 'push again', 'Tuple[Bit]')
    ctx.traces += 1


def related_all(ctx, live, mods):
    for r, c in live.items():
        verify(ctx, r, c, lambda: desc(r), mods)
        ctx.state(desc(r))
        for s, d in live.items():
            ctx.check((issubclass(c, d), c is d), (s in above(r), r == s), 'subtyping', lambda: f'{desc(r)} under {desc(s)}')
    ctx.traces += 1


def scale(ctx, which):
    if which == 'tall':
        ms = [make_modifier(f'T{i}') for i in range(6)]
        for t in (B2, U2, P, Tuple[Bit, B2], Bit):
            live = {t: t}
            for seq in (ms, ms[::-1], ms[1::2] + ms[::2], ms[4:] + ms[:4]):
                r = t
                for m in seq:
                    r = (m, r)
                    live[r] = build(r)
            related_all(ctx, live, ms)
            for i in range(len(ms)):
                st = ms[i:] + ms[:i]
                got = unwrap_modifier(wrap_modifier(t, st))
                ctx.check((got[0] is t, got[1]), (True, st), 'unwrap_modifier', lambda: f'six modifiers of {t.__name__}')
                for j in range(len(ms)):
                    ctx.raises(TypeError, lambda: wrap_modifier(t, st + [st[j]]), 'duplicate modifier', lambda: f'after six, number {j} again')
                    ctx.raises(TypeError, lambda: wrap_modifier(t, [st[j]] + st), 'duplicate modifier', lambda: f'before six, number {j}')
    elif which == 'names':
        ms = [make_modifier('Same') for _ in range(3)] + [make_modifier('Same', cache=True), make_modifier('SameSame')]
        W = [type(BitVector)('W', (BitVector,), {}) for _ in range(2)] + [type(BitVector)('SameW', (BitVector,), {})]
        ts = [w[2] for w in W] + [Product.from_fields('Px', {'a': Bit}), Product.from_fields('Px', {'a': B2}), Product.from_fields('Px', {'a': Bit}, cache=False)]
        live = {}
        for t in ts:
            live[t] = t
            for n in (1, 2):
                for st in it.permutations(ms, n):
                    r = t
                    for m in st:
                        r = (m, r)
                    live[r] = build(r)
        related_all(ctx, live, ms)
        for t in ts:
            for st in it.permutations(ms[:4]):
                got = unwrap_modifier(wrap_modifier(t, list(st)))
                ctx.check((got[0] is t, got[1]), (True, list(st)), 'unwrap_modifier', lambda: f'four modifiers of one name on {t.__name__}')
        for t in ts:
            ctx.check(strip_modifiers(Tuple[ms[0](t), ms[1](t)]) is Tuple[t, t], True, 'strip_modifiers', 'modifiers of one name')
            ctx.check(push_modifiers(ms[0](Tuple[ms[1](Bit), B2])) is Tuple[ms[0](ms[1](Bit)), ms[0](B2)], True, 'push_modifiers', 'modifiers of one name')
    elif which == 'bases':
        A, B, C, X = (type(BitVector)(n, (BitVector,), {}) for n in 'ABCX')
        AB = type(BitVector)('AB', (A, B), {})
        for bases in ((A, B, C), (C, B, A), (A, B, C, X), (AB, C), (AB, C, X), (X, C, AB)):
            D = type(BitVector)('D', bases, {})
            live = {}
            for t in (D, D[3]):
                for b in [x for x in t.__mro__ if x is not object]:
                    live[b] = b
                    live[M, b] = M(b)
                live[N, (M, t)] = N(M(t))
            related_all(ctx, live, (M, N))
        K = type(Product)('K', (P,), {})
        L = type(Product)('L', (K,), {})
        for t in (K, L, type(Tuple)('TT', (Tuple[Bit, B2],), {})):
            live = {}
            for b in [x for x in t.__mro__ if x is not object]:
                live[b] = b
                live[M, b] = M(b)
            related_all(ctx, live, (M, N))
    elif which == 'derived':
        # a class derived from a modified one is not modified
        for t in (Bit, B2, P, Tuple[Bit, B2], int, BitVector, U):
            for c in (M(t), N(M(t))):
                for D in (type(c)('D', (c,), {}), new(c), new(c, name=c.__name__), new(c, name=c.__name__, module=c.__module__), new(new(c))):
                    how = lambda: f'class derived from {c.__name__}'
                    ctx.state((c.__name__, D.__name__))
                    ctx.check((is_modified(D), issubclass(D, M), issubclass(D, N), list(get_all_modifiers(D)), unwrap_modifier(D) == (D, [])), (False, False, False, [], True), 'modifiers', how)
                    ctx.raises(TypeError, lambda: get_modifier(D), 'get_modifier of an unmodified type', how)
                    ctx.raises(TypeError, lambda: get_unmodified(D), 'get_unmodified of an unmodified type', how)
                    for m in (N, O, Q) if c is M(t) else (O, Q):
                        c2 = m(D)
                        ctx.check((is_modified(c2), get_modifier(c2) is m, get_unmodified(c2) is D, unwrap_modifier(c2) == (D, [m]), m(D) is c2, issubclass(c2, D), issubclass(c2, c)), (True,) * 7, 'modified derived class', how)
                    if not (hasattr(D, 'fields') and D.fields):
                        ctx.check(strip_modifiers(D) is D, True, 'strip_modifiers', how)
        ctx.traces += 1
    elif which == 'crowd':
        held = {}
        ms = [make_modifier(f'C{i}') for i in range(8)]
        for n in range(400):
            for m in ms[:3]:
                held[m, n] = m(BitVector[n]), BitVector[n]
        for n in range(60):
            for m in ms:
                held[m, 'p', n] = m(Product.from_fields(f'P{n}', {'a': BitVector[n]})), Product.from_fields(f'P{n}', {'a': BitVector[n]})
        for (m, *_), (c, t) in held.items():
            ctx.check((m(t) is c, is_modified(c), get_modifier(c) is m, get_unmodified(c) is t, wrap_modifier(t, [m]) is c), (True,) * 5, 'type is not canonical', lambda: f'{c.__name__} among {len(held)}')
            ctx.check([issubclass(c, x) for x in ms], [x is m for x in ms], 'issubclass of a modifier', lambda: c.__name__)
        ctx.states += len(held)
        ctx.traces += 1
    elif which == 'wide trees':
        R = [make_modifier(f'R{i}') for i in range(4)]
        leaf = lambda i: ('leaf', (Bit, B2, U2, E, int)[i % 5], ((), (R[0],), (R[1], R[0]), (R[0], R[1]))[i // 2 % 4])
        for n in (3, 5, 8, 17, 40):
            for k in ('T', 'P', 'S', 'U', 'A', 'MP'):
                for m in ((), (R[2],), (R[3], R[2])):
                    fs = [leaf(i) for i in range(n)]
                    fs[n // 2] = ('T', (leaf(2), leaf(3), leaf(5)), (R[2],) if not m else ())
                    fs[-1] = ('P', tuple(leaf(i) for i in range(n)), ())
                    if k == 'S':
                        fs = list(dict.fromkeys(fs))
                    tree_one(ctx, (k, tuple(fs), m))
        t = leaf(2)
        for d in range(14):
            t = (('T', 'P', 'A', 'U', 'S')[d % 5], (t, leaf(d)) if t != leaf(d) else (t,), (make_modifier(f'D{d}', cache=True),) if d % 3 else ())
            hold.append([make_modifier(f'D{d}', cache=True)])
            tree_one(ctx, t)


hold = []


def jobs(tier):
    deep = tier == 'thorough'
    out = [Job('make_modifier', factory), Job('fixed trees', tree_special)]
    for a in acts():
        if a[0] not in ('drop', 'drop1'):
            out.append(Job(f'history {aname(a)}', histories, 5 if deep else 4, a, weight=20))
    for i, t in enumerate(TYPES):
        out.append(Job(f'stacks {t.__name__}', stacks, i, 4 if deep else 3, MODS if deep else MODS[:3], weight=6))
    out += [Job(f'trees {p}', trees, 1, p, 16, weight=8) for p in range(16)]
    out += [Job(f'deeper trees {p}', trees, 2, p, 16, weight=8) for p in range(16)]
    out += [Job(f'scale: {w}', scale, w, weight=7) for w in ('tall', 'names', 'bases', 'derived', 'crowd', 'wide trees')]
    return out
