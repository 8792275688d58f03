"""C14: rebind replaces exactly the requested types.

The model is substitution on terms.  Every type up to a size, every replaced
and replacing type of a list, every option, and the family functions of
adt_util, are run and the result compared by identity with the type built from
the substituted term.
"""
import itertools as it

from core import Job
from hwtypes import (AbstractBit, AbstractBitVector, Bit, BitVector, Enum, Product, SIntVector, SMTBit, SMTBitVector, SMTUIntVector, Sum,
                     TaggedUnion, Tuple, UIntVector, z3Bit, z3BitVector)
from hwtypes.adt import AnonymousProduct
from hwtypes.adt_util import rebind_bitvector, rebind_keep_modifiers, rebind_type
from hwtypes.modifiers import make_modifier

PROP = 'C14'
SPACE = {
    'quick': 'types: every Tuple, Product, AnonymousProduct, Sum, TaggedUnion over 1-2 fields of 5 leaves, 2 fields of 24 first level types '
             '(and a third level); replaced: 5 leaves, 7 unbound or abstract types, and types occurring inside; replacing: 4 types, one of '
             'them containing the replaced one; both options; rebind_bitvector between 7 families with and without modifiers, '
             'rebind_keep_modifiers, rebind_type to 3 families; uncached and derived types; up to 33 fields and 30 levels; 2-5 fields named in every order; widths 0 to 300; types of one name; user Bit and vector classes',
    'thorough': 'as quick with 48 first level types and more third level types',
}


class E(Enum):
    a = 0
    b = 1


class MyTuple(Tuple):
    pass


class MyProd(Product):
    pass


B2, B3, U2, S2 = BitVector[2], BitVector[3], UIntVector[2], SIntVector[2]
M, N = make_modifier('M'), make_modifier('N')
KINDS = {'T': Tuple, 'MT': MyTuple, 'A': AnonymousProduct, 'P': Product, 'MP': MyProd, 'S': Sum, 'U': TaggedUnion}
NAMES = ('x', 'y', 'z') + tuple(f'k{i}' for i in range(60))
# what each leaf lies under, besides itself
UNDER = {Bit: (AbstractBit,), B2: (BitVector, AbstractBitVector, AbstractBitVector[2]), B3: (BitVector, AbstractBitVector, AbstractBitVector[3]),
         U2: (UIntVector, BitVector, B2, AbstractBitVector, AbstractBitVector[2]), E: (Enum,), int: ()}
KUNDER = {'T': (Tuple,), 'MT': (MyTuple, Tuple), 'A': (AnonymousProduct, Tuple), 'P': (Product, AnonymousProduct, Tuple),
          'MP': (MyProd, Product, AnonymousProduct, Tuple), 'S': (Sum,), 'U': (TaggedUnion, Sum)}


# a term is a class (leaf), ('mod', modifier, term), or (kind, name, ((field, term), ...))
def is_leaf(t):
    return not isinstance(t, tuple)


def real(t):
    if is_leaf(t):
        return t
    if t[0] == 'mod':
        return t[1](real(t[2]))
    k, name, fs = t
    c = KINDS[k]
    if k in ('T', 'MT'):
        return c[tuple(real(f) for _, f in fs)]
    if k == 'S':
        return c[tuple(real(f) for _, f in fs)]
    if k == 'A':
        return c[{n: real(f) for n, f in fs}]
    return c.from_fields(name, {n: real(f) for n, f in fs})


def desc(t):
    if is_leaf(t):
        return t.__name__
    if t[0] == 'mod':
        return f'{t[1].__name__}({desc(t[2])})'
    return f'{KINDS[t[0]].__name__}({", ".join(desc(f) for _, f in t[2])})'


def norm(t):
    """two terms denote one type iff they are equal here"""
    if is_leaf(t):
        return t
    if t[0] == 'mod':
        return ('mod', t[1], norm(t[2]))
    k, name, fs = t
    fs = tuple((n, norm(f)) for n, f in fs)
    if k == 'S':
        return (k, None, frozenset(f for _, f in fs))
    if k == 'U':
        return (k, name, frozenset(fs))
    return (k, name if k in ('P', 'MP') else None, tuple(f for _, f in fs) if k in ('T', 'MT') else fs)


def under(t, A):
    """is the type of term t a subtype of A: a class of UNDER/KUNDER or a term"""
    if isinstance(A, tuple):
        return norm(A) in bound_forms(t)
    if A in UNDER:
        return t is A or is_leaf(t) and A in UNDER[t]
    return A in (UNDER[t] if is_leaf(t) else KUNDER[t[0]])


def bound_forms(t):
    """the bound types t is a subtype of"""
    if is_leaf(t):
        return {t}
    k, name, fs = t
    out = {norm(t)}
    if k in ('P', 'MP'):
        out.add(norm(('A', None, fs)))
    if k in ('P', 'MP', 'A', 'MT'):
        out.add(norm(('T', None, fs)))
    if k == 'U':
        out.add(norm(('S', None, fs)))
    return out


def subst(t, A, B, sub, rec=True):
    if is_leaf(t):
        return t
    k, name, fs = t
    out = []
    for n, f in fs:
        if norm(f) == (norm(A) if isinstance(A, tuple) else A) or sub and under(f, A):
            out.append((n, B))
        elif rec:
            out.append((n, subst(f, A, B, sub)))
        else:
            out.append((n, f))
    return (k, name, tuple(out))


def node(kind, fs):
    return (kind, 'Nm', tuple(zip(NAMES, fs)))


def first(leaves):
    for n in (1, 2):
        for fs in it.product(leaves, repeat=n):
            for kind in KINDS:
                if kind == 'S' and len(set(fs)) < n:
                    continue
                yield node(kind, fs)


def second(pool, leaves):
    for f, g in it.product(pool, list(pool) + list(leaves)):
        for kind in ('T', 'A', 'P', 'S', 'U'):
            if kind == 'S' and norm(f) == norm(g):
                continue
            yield node(kind, (f, g))
            if is_leaf(g):
                yield node(kind, (g, f))


LEAVES = (Bit, B2, U2, E, B3)


def pool(n):
    p = list(first((Bit, B2, U2, E)))
    return p[::max(1, len(p) // n)][:n]


def third(n):
    p = list(second(pool(12), (Bit, B2)))
    p = p[::max(1, len(p) // n)][:n]
    for i, f in enumerate(p):
        for kind in ('T', 'P', 'S', 'U'):
            yield node(kind, (f, Bit))
            yield node(kind, (p[(i * 7 + 3) % len(p)], f) if norm(f) != norm(p[(i * 7 + 3) % len(p)]) else (f,))


def snapshot(T):
    return (T.__name__, T.fields, list(T.field_dict.items()), T.unbound_t, T.is_cached)


REPL = (B3, SMTBit, ('T', None, (('0', Bit),)), ('P', 'Rp', (('q', B2), ('r', E))))


def check_rebind(ctx, t, As):
    T = real(t)
    before = snapshot(T)
    ctx.state(norm(t))
    for A in As:
        rA = real(A)
        for B in REPL:
            rB = real(B)
            for sub in (False, True):
                for rec in (True, False):
                    want = subst(t, A, B, sub, rec)
                    ctx.transitions += 1
                    how = lambda: f'{desc(t)}.rebind({desc(A)}, {desc(B)}, {sub}, {rec})'
                    got = T.rebind(rA, rB, sub, rec)
                    if got is not real(want):
                        ctx.fail('rebind', f'{how()}: expected {desc(want)}, got {got} with fields {got.fields}')
                    if norm(want) == norm(t) and got is not T:
                        ctx.fail('rebind without a match', how())
                    if not sub and rec and got is not T.rebind(rA, rB) or rec and got is not T.rebind(rA, rB, rebind_sub_types=sub):
                        ctx.fail('rebind options', how())
                    if snapshot(got)[3:] != (T.unbound_t, True) or got.__name__ != T.__name__ and t[0] in ('P', 'MP', 'U'):
                        ctx.fail('name or unbound type of the result', how())
    if snapshot(T) != before:
        ctx.fail('rebind changes its type', desc(t))
    ctx.traces += 1


def inner(t, acc):
    for _, f in t[2]:
        if not is_leaf(f):
            acc.append(f)
            inner(f, acc)
    return acc


ABSTRACT = (AbstractBitVector, BitVector, AbstractBit, Enum, Product, Tuple, Sum, AbstractBitVector[2])


def rebinds(ctx, which, part, of, size):
    src = {1: lambda: first(LEAVES), 2: lambda: second(pool(size), (Bit, B2)), 3: lambda: third(size)}[which]()
    for i, t in enumerate(src):
        if i % of == part:
            check_rebind(ctx, t, LEAVES + ABSTRACT + tuple(inner(t, [])[:4]))
            if i < of:
                ctx.sample(desc(t))


# ---------------------------------------------------------- vector families

FAMS = (AbstractBitVector, BitVector, UIntVector, SIntVector, SMTBitVector, SMTUIntVector, z3BitVector)
FUNDER = {AbstractBitVector: (), BitVector: (AbstractBitVector,), UIntVector: (BitVector, AbstractBitVector),
          SIntVector: (BitVector, AbstractBitVector), SMTBitVector: (AbstractBitVector,), SMTUIntVector: (SMTBitVector, AbstractBitVector),
          z3BitVector: (AbstractBitVector,)}


class V:
    """a vector leaf: family and width (None: unsized)"""

    def __init__(self, fam, n):
        self.fam, self.n = fam, n
        self.__name__ = f'{fam.__name__}[{n}]'

    def __eq__(self, o):
        return isinstance(o, V) and (self.fam, self.n) == (o.fam, o.n)

    def __hash__(self):
        return hash((self.fam, self.n))


def vreal(t):
    if isinstance(t, V):
        return t.fam if t.n is None else t.fam[t.n]
    if is_leaf(t):
        return t
    if t[0] == 'mod':
        return t[1](vreal(t[2]))
    return real((t[0], t[1], tuple((n, vreal(f)) for n, f in t[2])))


def vmap(t, fn, keep):
    """fn on every leaf; modifiers of replaced leaves survive only if keep"""
    if isinstance(t, tuple):
        if t[0] == 'mod':
            r = vmap(t[2], fn, keep)
            return r if not keep and norm(r) != norm(t[2]) and is_leaf(t[2]) else ('mod', t[1], r)
        return (t[0], t[1], tuple((n, vmap(f, fn, keep)) for n, f in t[2]))
    return fn(t)


def moved(F0, F1):
    def fn(t):
        if isinstance(t, V) and (t.fam is F0 or F0 in FUNDER[t.fam]):
            return V(F1, t.n)
        return t
    return fn


def strip_same(t, F0):
    """without keep a modified vector of F0 loses its modifiers even when its family does not change"""
    if isinstance(t, tuple):
        if t[0] == 'mod':
            core = t
            while isinstance(core, tuple) and core[0] == 'mod':
                core = core[2]
            if isinstance(core, V) and moved(F0, F0)(core) is not core:
                return core
            return ('mod', t[1], strip_same(t[2], F0))
        return (t[0], t[1], tuple((n, strip_same(f, F0)) for n, f in t[2]))
    return t


def vtypes(mods, nested_mods):
    ls = [V(f, n) for f in FAMS for n in (2, 3)] + [V(BitVector, None), Bit, E]
    if mods:
        ls += [('mod', M, V(BitVector, 2)), ('mod', N, ('mod', M, V(UIntVector, 2))), ('mod', M, Bit), ('mod', M, V(SMTBitVector, 3))]
    yield from ls
    lv = ls if mods else ls[:-3:2] + ls[-3:]
    for f, g in it.product(lv[::2] if not mods else lv[1::3] + lv[-4:], repeat=2):
        for kind in ('T', 'A', 'P', 'S', 'U'):
            if kind == 'S' and f == g:
                continue
            yield node(kind, (f, g))
    inn = [node(k, fs) for k in ('T', 'P', 'S', 'U') for fs in ((V(BitVector, 2), V(UIntVector, 2)), (V(SMTBitVector, 2), Bit))]
    if nested_mods:
        inn += [('mod', M, x) for x in inn] + [('mod', N, ('mod', M, inn[0])), node('T', (('mod', N, V(BitVector, 2)), V(BitVector, 2)))]
    for f in inn:
        if f[0] == 'mod':
            yield f
        for g in inn[::3] + [V(BitVector, 2), V(SIntVector, 3), Bit]:
            for kind in ('T', 'P', 'S', 'U'):
                if not (kind == 'S' and f == g):
                    yield node(kind, (f, g))
                    yield node(kind, (g, f))


def vectors(ctx, F0, keep):
    ts = list(vtypes(True, keep))
    for t in ts:
        T = vreal(t)
        ctx.state(norm(t))
        for F1 in FAMS:
            want = vmap(t if keep else strip_same(t, F0), moved(F0, F1), keep)
            ctx.transitions += 1
            how = lambda: f'rebind_bitvector({desc(t)}, {F0.__name__}, {F1.__name__}, {keep})'
            got = rebind_bitvector(T, F0, F1, keep)
            if got is not vreal(want):
                ctx.fail('rebind_bitvector', f'{how()}: expected {desc(want)}, got {got}')
            if not keep and got is not rebind_bitvector(T, F0, F1):
                ctx.fail('rebind_bitvector default', how())
        ctx.traces += 1


def keepers(ctx):
    """rebind_keep_modifiers: subtypes of A become B, everywhere, modifiers kept"""
    A_B = [(AbstractBit, lambda t: t is Bit), (AbstractBitVector, lambda t: isinstance(t, V)),
           (UIntVector, lambda t: isinstance(t, V) and t.fam is UIntVector), (Enum, lambda t: t is E)]
    for t in vtypes(True, True):
        T = vreal(t)
        ctx.state(norm(t))
        for A, hit in A_B:
            for B in (SMTBit, V(BitVector, 2), ('T', None, (('0', Bit),)), ('P', 'Rp', (('q', V(UIntVector, 2)), ('r', E)))):
                want = vmap(t, lambda x: B if hit(x) else x, True)
                ctx.transitions += 1
                got = rebind_keep_modifiers(T, A, vreal(B))
                if got is not vreal(want):
                    ctx.fail('rebind_keep_modifiers', f'({desc(t)}, {A.__name__}, {desc(B)}): expected {desc(want)}, got {got}')
        ctx.traces += 1


def families(ctx):
    fams = [Bit.get_family(), SMTBit.get_family(), z3Bit.get_family()]
    bits = (Bit, SMTBit, z3Bit, AbstractBit)
    extra = [SMTBit, z3Bit, AbstractBit, int, str]
    ts = list(vtypes(False, False)) + extra
    ts += [('mod', M, x) for x in ts[::5] if x not in (int, str)] + [('mod', N, ('mod', M, x)) for x in ts[::11] if x not in (int, str)]
    ts += [node(k, (a, b)) for k in ('T', 'P', 'S', 'U') for a in bits for b in (V(BitVector, 2), E, int) + bits if a != b]
    for t in ts:
        T = vreal(t)
        ctx.state(norm(t))
        for fam in fams:
            def fn(x):
                if isinstance(x, V):
                    return V(fam.BitVector, x.n)
                return fam.Bit if x in bits else x
            want = vmap(t, fn, True)
            ctx.transitions += 1
            got = rebind_type(T, fam)
            if got is not vreal(want):
                ctx.fail('rebind_type', f'{desc(t)} to {fam.Bit.__name__}: expected {desc(want)}, got {got}')
            if is_leaf(t) or t[0] != 'mod':
                if rebind_type(got, fam) is not got:
                    ctx.fail('rebind_type', f'{desc(t)}: not idempotent')
        ctx.traces += 1
    for x in (3, 'x', None, Bit(1), (Bit,)):
        ctx.check(rebind_type(x, fams[0]) is x, True, 'rebind_type of no class', repr(x))


def special(ctx):
    """uncached and derived types, attributes, Enums"""
    for cache in (True, False):
        P = Product.from_fields('Un', {'a': Bit, 'b': B2}, cache=cache)
        U = TaggedUnion.from_fields('Un', {'a': Bit, 'b': B2}, cache=cache)
        for T in (P, U):
            ctx.check(T.rebind(B3, Bit) is T, True, 'rebind without a match', f'{T} cache={cache}')
            R = T.rebind(B2, B3)
            ctx.check((dict(R.field_dict), R.is_cached, R.unbound_t, R.__name__, R is T.rebind(B2, B3)),
                      ({'a': Bit, 'b': B3}, cache, T.unbound_t, 'Un', cache), 'rebind of an uncached type', f'{T} cache={cache}')
            ctx.check(dict(T.field_dict), {'a': Bit, 'b': B2}, 'rebind changes its type', f'{T}')
            O = Tuple[T, Bit]
            ctx.check((O.rebind(B3, Bit) is O, O.rebind(Bit, B3, rebind_recursive=False) is Tuple[T, B3]), (True, True), 'nested', f'{T}')
            ctx.check(O.rebind(T, E) is Tuple[E, Bit], True, 'replacing an inner record', f'{T}')
    for A, B in it.product((Bit, B2, E, int, Enum), repeat=2):
        for sub in (False, True):
            ctx.check(E.rebind(A, B, sub) is E, True, 'Enums stay', f'E.rebind({A}, {B}, {sub})')
    D = type(Tuple)('D', (Tuple[Bit, B2],), {})
    DP = type(Product)('DP', (Product.from_fields('Un', {'a': Bit, 'b': B2}),), {})
    MT, MP = M(Tuple[Bit, B2]), M(Product.from_fields('Un', {'a': Bit, 'b': B2}))
    for T in (D, DP, MT, MP):
        for O in (T, Tuple[T, E], Product.from_fields('O', {'o': T}), Sum[T, E], Sum[T], TaggedUnion.from_fields('O', {'o': T, 'p': E})):
            ctx.state(O.__name__)
            ctx.check(O.rebind(B3, E) is O, True, 'rebind without a match', f'{O}')
            ctx.check(rebind_keep_modifiers(O, UIntVector, B3) is O, True, 'rebind_keep_modifiers without a match', f'{O}')
        ctx.check(Tuple[T, E].rebind(T, Bit) is Tuple[Bit, E], True, 'replacing an inner type', f'{T}')
    # Sums collapse
    ctx.check(Sum[Bit, B2].rebind(Bit, B2) is Sum[B2], True, 'collapsing Sum', '')
    ctx.check(dict(TaggedUnion.from_fields('O', {'o': Bit, 'p': B2}).rebind(Bit, B2).field_dict), {'o': B2, 'p': B2}, 'tags survive', '')
    ctx.traces += 1


class E_(Enum):
    a = 0
    b = 1


E_.__name__ = 'E'


def vclass(name, *bases):
    return type(BitVector)(name, bases, {})


def large(ctx, which):
    if which == 'wide':
        pat = (Bit, B2, U2, E, B3)
        for n in (3, 4, 5, 6, 7, 9, 16, 33):
            for k in KINDS:
                for step in (1, 2, 3):
                    fs = [pat[i * step % 5 if i % 4 else (i // 4) % 5] for i in range(n)]
                    if n > 4:
                        fs[n // 2] = node('T', (Bit, U2))
                        fs[-2] = node('P', fs[:n - 2])
                    if k == 'S':
                        fs = list({norm(f): f for f in fs}.values())
                    check_rebind(ctx, node(k, fs), (Bit, B2, E, BitVector, Enum, AbstractBitVector[2], node('T', (Bit, U2)), Tuple))
        ctx.sample('7 kinds of 3 to 33 fields')
    elif which == 'deep':
        t = B2
        for d in range(14):
            k = ('T', 'U', 'P', 'A', 'S', 'MT')[d % 6]
            t = node(k, (t,) if d % 3 == 0 else (t, Bit) if d % 3 == 1 else (U2, t))
            check_rebind(ctx, t, (Bit, B2, U2, BitVector, AbstractBitVector, Tuple, E))
        t = B2
        for d in range(30):
            t = node(('T', 'P', 'U', 'A')[d % 4], (t,))
        check_rebind(ctx, t, (Bit, B2, BitVector))
    elif which == 'fields':
        # fields named in every order, of few types
        for names in (('b', 'a'), ('c', 'a', 'b'), ('k3', 'k20', 'k1', 'k10'), ('z', '_z', 'Z', 'ä'), ('Bit', 'name', 'x', 'T'), ('e', 'd', 'c', 'b', 'a')):
            for ns in it.permutations(names) if len(names) < 5 else (names, names[::-1], names[2:] + names[:2]):
                for fs in it.product((Bit, B2), repeat=len(ns)) if ns[0] > ns[-1] else ((Bit, B2) * 2, (B2,) * len(ns), (Bit,) + (B2,) * 4):
                    for k, nm in (('A', None), ('P', 'Nm'), ('MP', 'Bit'), ('U', 'Nm')):
                        t = (k, nm, tuple(zip(ns, fs)))
                        if len(t[2]) == len(ns):
                            check_rebind(ctx, t, (Bit, BitVector))
                            for got, want in ((rebind_type(real(t), SMTBit.get_family()), (k, nm, tuple((n, SMTBit if f is Bit else SMTBitVector[2]) for n, f in zip(ns, fs)))),
                                              (rebind_bitvector(real(t), BitVector, UIntVector), (k, nm, tuple((n, f if f is Bit else U2) for n, f in zip(ns, fs)))),
                                              (rebind_keep_modifiers(real(t), Bit, B2), (k, nm, tuple((n, B2) for n in ns)))):
                                ctx.check(got is real(want) and list(got.field_dict) == list(real(want).field_dict) and (k == 'U' or list(got.field_dict) == list(ns)), True, 'field names', lambda: f'{desc(t)} {ns}')
    elif which == 'names':
        # types of one name
        W = [vclass('W', BitVector) for _ in range(3)]
        ps = [Product.from_fields('Same', {'a': Bit}), Product.from_fields('Same', {'a': B2}), Product.from_fields('Same', {'b': Bit})]
        es = [E, E_, type(Enum)('E', (Enum,), {'a': 1})]
        for group in (W, [w[2] for w in W], ps, es):
            for a, b, c in it.permutations(group):
                for mk in (lambda x, y: Tuple[x, y], lambda x, y: Product.from_fields('R', {'x': x, 'y': y}), lambda x, y: Sum[x, y],
                           lambda x, y: TaggedUnion.from_fields('R', {'x': x, 'y': y}), lambda x, y: AnonymousProduct[{'x': x, 'y': y}]):
                    how = lambda: f'{mk(a, b)} of types of one name'
                    ctx.state(how())
                    ctx.check(mk(a, b).rebind(a, c) is mk(c, b), True, 'rebind', how)
                    ctx.check(mk(a, b).rebind(b, c) is mk(a, c), True, 'rebind', how)
                    ctx.check(mk(a, b).rebind(a, b) is mk(b, b), True, 'rebind', how)
                    ctx.check(mk(a, b).rebind(c, a) is mk(a, b), True, 'rebind without a match', how)
                    ctx.check(mk(a, b).rebind(c, a, True) is mk(a, b), True, 'rebind without a match', how)
                    ctx.check(mk(mk(a, b), a).rebind(a, c) is mk(mk(c, b), c), True, 'rebind', how)
                    ctx.check(mk(mk(a, b), mk(b, a)).rebind(mk(a, b), c) is mk(*((c, mk(b, a)) if mk(a, b) is not mk(b, a) else (c, c))), True, 'rebind', how)
                    if group[0] is W[0]:
                        ctx.check(rebind_bitvector(mk(a[4], b[4]), a, c) is mk(c[4], b[4]), True, 'rebind_bitvector', how)
        ctx.traces += 1
    elif which == 'widths':
        for n in (0, 1, 2, 8, 31, 63, 64, 65, 255, 300):
            for F0, F1 in it.product(FAMS, repeat=2):
                a, b = V(F0, n), V(F0, n + 1)
                for t in (a, node('T', (a, b)), node('P', (b, a, Bit)), node('S', (a, b)), node('U', (a, a)), node('A', (node('T', (a,)), b))):
                    T = vreal(t)
                    ctx.state(norm(t))
                    for keep in (False, True):
                        want = vmap(t, moved(F0, F1), keep)
                        ctx.check(rebind_bitvector(T, F0, F1, keep) is vreal(want), True, 'rebind_bitvector', lambda: f'{desc(t)} from {F0.__name__} to {F1.__name__}')
            for fam in (Bit.get_family(), SMTBit.get_family(), z3Bit.get_family()):
                for F0 in FAMS:
                    ctx.check(rebind_type(Tuple[F0[n], Bit], fam) is Tuple[fam.BitVector[n], fam.Bit], True, 'rebind_type', f'width {n} of {F0.__name__}')
        ctx.traces += 1
    else:
        # user classes below the families
        MyBit, MyBV, My2 = type(Bit)('MyBit', (Bit,), {}), vclass('MyBV', BitVector), vclass('My2', BitVector[2])
        MyMy = vclass('MyMy', MyBV)
        My2S = vclass('My2S', MyBV[2], SIntVector[2])
        leaves = {MyBit: None, MyBV[3]: 3, My2: 2, MyMy[5]: 5, MyMy: 0, My2S: 2, vclass('Deep', My2): 2}
        wrap = [lambda x: x, lambda x: Tuple[x, E], lambda x: Product.from_fields('R', {'x': x, 'y': x}), lambda x: Sum[x, E], lambda x: TaggedUnion.from_fields('R', {'x': E, 'y': x}),
                lambda x: AnonymousProduct[{'x': x}], lambda x: Tuple[Tuple[x], Sum[x, int]]]
        for t, n in leaves.items():
            for w in wrap:
                T = w(t)
                ctx.state(T.__name__)
                for fam in (Bit.get_family(), SMTBit.get_family(), z3Bit.get_family()):
                    to = fam.Bit if n is None else fam.BitVector[n] if n else fam.BitVector
                    ctx.check(rebind_type(T, fam) is w(to), True, 'rebind_type', lambda: f'{T} to {fam.Bit.__name__}')
                if n is not None:
                    for F0, F1 in it.product((BitVector, MyBV, SIntVector), (UIntVector, SMTBitVector, MyMy)):
                        to = t if not issubclass(t, F0) else F1[n] if n else F1
                        ctx.check(rebind_bitvector(T, F0, F1) is w(to), True, 'rebind_bitvector', lambda: f'{T} from {F0.__name__} to {F1.__name__}')
                        ctx.check(rebind_bitvector(T, F0, F1, True) is w(to), True, 'rebind_bitvector', lambda: f'{T} from {F0.__name__} to {F1.__name__}')
                for A in (Bit, BitVector, MyBV, BitVector[2], SIntVector, t):
                    hit = issubclass(t, A)
                    if w is not wrap[0]:
                        ctx.check(T.rebind(A, U2, True) is w(U2 if hit else t), True, 'rebind', lambda: f'{T}.rebind({A}, U2, True)')
                        ctx.check(T.rebind(A, U2) is w(U2 if t is A else t), True, 'rebind', lambda: f'{T}.rebind({A}, U2)')
                    ctx.check(rebind_keep_modifiers(T, A, U2) is w(U2 if hit else t), True, 'rebind_keep_modifiers', lambda: f'{T} {A}')
        ctx.traces += 1


def jobs(tier):
    deep = tier == 'thorough'
    out = [Job('special', special)] + [Job(f'large: {w}', large, w, weight=8) for w in ('wide', 'deep', 'fields', 'names', 'widths', 'user')]
    for p in range(4):
        out.append(Job(f'first level {p}', rebinds, 1, p, 4, 0, weight=5))
    size = 48 if deep else 24
    for p in range(32):
        out.append(Job(f'second level {p}', rebinds, 2, p, 32, size, weight=10))
    for p in range(16):
        out.append(Job(f'third level {p}', rebinds, 3, p, 16, 150 if deep else 40, weight=10))
    for F0 in FAMS:
        for keep in (False, True):
            out.append(Job(f'rebind_bitvector {F0.__name__} {keep}', vectors, F0, keep, weight=6))
    out += [Job('rebind_keep_modifiers', keepers, weight=6), Job('rebind_type', families, weight=6)]
    return out
