"""C09: parameterised vector and floating point types.

Explicit search: every history of up to D actions (define a family by
inheritance, bind or fail to bind a parameter, hold an instance, drop what is
held, collect garbage) is run from a clean state, and at its end every pair of
live types is compared with the subtype lattice the model computes.
"""
import gc
import itertools as it

import hwtypes
from core import Job
from hwtypes import (AbstractBitVector, AbstractFPVector, BitVector, FPVector, RoundingMode, SIntVector, SMTBitVector,
                     SMTFPVector, SMTSIntVector, SMTUIntVector, UIntVector)
from hwtypes.bit_vector import NumVector
from hwtypes.smt_bit_vector import SMTNumVector
from hwtypes.z3_bit_vector import z3BitVector, z3NumVector, z3SIntVector, z3UIntVector

PROP = 'C09'
SPACE = {
    'quick': 'every history of <= 4 actions out of about 20 (8 class definitions with single and multiple inheritance, sized '
             'bases and conflicting sizes, 6 lookups held as type or as instance, failing lookups, drop, collect) for the '
             'concrete and pysmt/z3/abstract vector lattices and of <= 3 for three floating point lattices; all pairs of live types '
             'compared at the end of each; every size 0-300 and every float format to 9+9 bits once; about 9000 vector and 7700 float types alive at once; every class '
             'with up to 3 bases out of a lattice (and a plain class), and every class with 2 bases out of those; every lattice of 4 user '
             'families with any ordered choice of bases; families of up to 8 bases and 9 levels; every choice of up to 4 bound bases',
    'thorough': 'as quick with histories of <= 5 (vectors) and <= 4 (floats), and lattices of 5 user families',
}


class World:
    """a lattice to start from, and how to bind its classes"""

    def __init__(self, root, lattice, params, bad, inst):
        self.root = root              # name of the family user classes extend
        self.lattice = lattice        # name -> (class, parent names)
        self.params = params
        self.bad = bad                # [(index, exception)]
        self.inst = inst              # type -> instance, or None


M = RoundingMode
BADBV = [(-1, ValueError), (-3, ValueError), ('a', TypeError), (None, TypeError), (3.0, TypeError), ((3,), TypeError), ('3', TypeError)]
BADFP = [((0, 3, M.RNE, True), ValueError), ((2, 0, M.RNE, True), ValueError), ((-1, 3, M.RNE, True), ValueError),
         ((2.0, 3, M.RNE, True), IndexError), ((2, 3, 1, True), IndexError), ((2, 3, M.RNE, 1), IndexError),
         ((2, 3, M.RNE), IndexError), ((True, 3, M.RNE, True), IndexError), ((2, True, M.RNE, True), IndexError)]
P1, P2, P3 = (2, 3, M.RNE, True), (2, 3, M.RNE, False), (3, 2, M.RTZ, True)
WORLDS = {
    'concrete': World('BitVector', {'Abstract': (AbstractBitVector, ()), 'BitVector': (BitVector, ('Abstract',)),
                                    'Num': (NumVector, ('BitVector',)), 'UInt': (UIntVector, ('Num',)), 'SInt': (SIntVector, ('Num',))},
                      (3, 4), BADBV, lambda t: t(1)),
    'UInt': World('UInt', {'Abstract': (AbstractBitVector, ()), 'BitVector': (BitVector, ('Abstract',)),
                           'Num': (NumVector, ('BitVector',)), 'UInt': (UIntVector, ('Num',)), 'SInt': (SIntVector, ('Num',))},
                  (0, 1), BADBV, lambda t: t(0)),
    'pysmt': World('BitVector', {'Abstract': (AbstractBitVector, ()), 'BitVector': (SMTBitVector, ('Abstract',)),
                                 'Num': (SMTNumVector, ('BitVector',)), 'UInt': (SMTUIntVector, ('Num',)), 'SInt': (SMTSIntVector, ('Num',))},
                   (3, 4), BADBV, lambda t: t(1)),
    'z3': World('BitVector', {'Abstract': (AbstractBitVector, ()), 'BitVector': (z3BitVector, ('Abstract',)),
                              'Num': (z3NumVector, ('BitVector',)), 'UInt': (z3UIntVector, ('Num',)), 'SInt': (z3SIntVector, ('Num',))},
                (3, 4), BADBV, lambda t: t(1)),
    'abstract': World('Abstract', {'Abstract': (AbstractBitVector, ())}, (3, 4), BADBV, None),
    'float': World('FPVector', {'Abstract': (AbstractFPVector, ()), 'FPVector': (FPVector, ('Abstract',))},
                   (P1, P2), BADFP, lambda t: t(1)),
    'pysmt float': World('FPVector', {'Abstract': (AbstractFPVector, ()), 'FPVector': (SMTFPVector, ('Abstract',))},
                         (P1, P3), BADFP, None),
    'abstract float': World('Abstract', {'Abstract': (AbstractFPVector, ())}, (P1, P3), BADFP, None),
}

# user classes: name -> list of bases; a base is a name or (name, parameter number)
DEFS = {
    'A': ('root',), 'B': ('root',), 'C': ('A',), 'D': ('A', 'B'),
    'E': (('A', 0),), 'F': ('A', ('root', 0)), 'G': (('A', 0), ('B', 0)), 'H': ('E',),
}
CONFLICT = {'X': (('A', 0), ('B', 1)), 'Y': ('E', ('A', 1))}


class Run:
    def __init__(self, w):
        self.w = w
        self.cls = {k: v[0] for k, v in w.lattice.items()}
        self.par = {k: v[1] for k, v in w.lattice.items()}    # name -> parent refs
        self.idx = {k: None for k in w.lattice}
        self.held = {}                                        # ref -> class or instance
        self.is_bv = 'float' not in [k for k, v in WORLDS.items() if v is w][0]

    def name(self, n):
        return self.w.root if n == 'root' else n

    def ref(self, b):
        """a base as written -> model reference: a class name or (name, parameter)"""
        return (self.name(b[0]), self.w.params[b[1]]) if isinstance(b, tuple) else self.name(b)

    def real(self, r):
        return self.cls[r[0]][r[1]] if isinstance(r, tuple) else self.cls[r]

    def index(self, r):
        return r[1] if isinstance(r, tuple) else self.idx[r]

    def up(self, r):
        if isinstance(r, tuple):
            return [r[0]] + [(p, r[1]) for p in self.par[r[0]]]
        return list(self.par[r])

    def ancestors(self, r):
        seen, todo = set(), [r]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += self.up(x)
        return seen


def meta(cls):
    return type(cls)


def is_bound(run, c):
    return c.is_sized if run.is_bv else c.is_bound


def unbound(run, c):
    return c.unsized_t if run.is_bv else c.unbound_t


def observed_index(run, c):
    return c.size if run.is_bv else c.binding


def actions(w):
    acts = [('def', n) for n in DEFS] + [('conflict', n) for n in CONFLICT]
    for t in ('root', 'A', 'C', 'D'):
        for i in ((0, 1) if t in ('root', 'A') else (0,)):
            acts.append(('hold', t, i))
    acts += [('instance', 'A', 0), ('instance', 'root', 1)] if w.inst else []
    acts += [('bad',), ('drop',), ('drop', 'instances'), ('gc',)]
    return acts


def enabled(run, a):
    if a[0] in ('def', 'conflict'):
        n = a[1]
        bases = DEFS.get(n) or CONFLICT[n]
        return n not in run.cls and all(run.name(b[0] if isinstance(b, tuple) else b) in run.cls for b in bases)
    if a[0] in ('hold', 'instance'):
        return run.name(a[1]) in run.cls
    if a[0] == 'drop':
        return bool(run.held)
    return True


def step(ctx, run, a, hist):
    w = run.w
    ctx.transitions += 1
    if a[0] == 'def':
        refs = [run.ref(b) for b in DEFS[a[1]]]
        bases = tuple(run.real(r) for r in refs)
        c = meta(bases[0])(a[1], bases, {})
        run.cls[a[1]], run.par[a[1]] = c, tuple(refs)
        ix = {run.index(r) for r in refs} - {None}
        run.idx[a[1]] = ix.pop() if ix else None
    elif a[0] == 'conflict':
        bases = tuple(run.real(run.ref(b)) for b in CONFLICT[a[1]])
        ctx.raises(TypeError, lambda: meta(bases[0])(a[1], bases, {}), 'two sizes inherited', hist)
    elif a[0] == 'hold':
        r = (run.name(a[1]), w.params[a[2]])
        c = run.real(r)
        for old in (r, r + ('i',)):
            if old in run.held:
                k = run.held[old]
                if (type(k) if old[-1] == 'i' else k) is not c:
                    ctx.fail('type is not canonical', f'{hist()}: {r} is a new class though one is alive')
        run.held[r] = c
    elif a[0] == 'instance':
        r = (run.name(a[1]), w.params[a[2]])
        run.held[r + ('i',)] = w.inst(run.real(r))
    elif a[0] == 'bad':
        bad(ctx, run, hist)
    elif a[0] == 'drop':
        run.held = {} if len(a) == 1 else {k: v for k, v in run.held.items() if k[-1] != 'i'}
    elif a[0] == 'gc':
        gc.collect()


def bad(ctx, run, hist):
    for n, c in run.cls.items():
        for idx, exc in run.w.bad:
            if run.idx[n] is None:
                ctx.raises(exc, lambda: c[idx], 'invalid parameter accepted', lambda: f'{hist()}: {n}[{idx}]')
        if run.idx[n] is not None:
            for p in run.w.params:
                ctx.raises(TypeError, lambda: c[p], 'bound type bound again', lambda: f'{hist()}: {n}[{p}]')


def final(ctx, run, hist):
    w = run.w
    refs = {n: c for n, c in run.cls.items()}
    for r, k in run.held.items():
        if r[-1] == 'i':
            # an instance keeps its type alive
            r, k = r[:2], type(k)
        if r in refs and refs[r] is not k:
            ctx.fail('type is not canonical', f'{hist()}: two live classes for {r}')
        refs[r] = k
        if run.real(r) is not k:
            ctx.fail('type is not canonical', f'{hist()}: looking {r} up again gives another class')
    for n in run.cls:
        if run.idx[n] is None:
            for p in w.params:
                c = run.cls[n][p]
                if refs.setdefault((n, p), c) is not c or run.cls[n][p] is not c:
                    ctx.fail('type is not canonical', f'{hist()}: {n}[{p}]')
    anc = {r: run.ancestors(r) for r in refs}
    ctx.state(tuple(sorted((str(k), str(sorted(map(str, v)))) for k, v in anc.items())))
    for r, c in refs.items():
        ix = run.index(r)
        ctx.transitions += 1
        if observed_index(run, c) != ix or is_bound(run, c) != (ix is not None):
            ctx.fail('parameters', f'{hist()}: {r} has {observed_index(run, c)}')
        want = None if ix is not None and not isinstance(r, tuple) else run.cls[r[0]] if isinstance(r, tuple) else c
        try:
            got = unbound(run, c)
        except AttributeError:
            got = None
        if got is not want:
            ctx.fail('unbound type', f'{hist()}: {r}: expected {want}, got {got}')
        if isinstance(r, tuple):
            if run.is_bv:
                ctx.check((len(c), c.__name__, type(c.size)), (ix, f'{c.unsized_t.__name__}[{ix}]', int), 'description', lambda: f'{hist()}: {r}')
            else:
                ctx.check((c.exponent_size, c.mantissa_size, c.mode, c.ieee_compliance, c.size), ix + (1 + ix[0] + ix[1],),
                          'description', lambda: f'{hist()}: {r}')
            for p in w.params:
                ctx.raises(TypeError, lambda: c[p], 'bound type bound again', lambda: f'{hist()}: {r}[{p}]')
        for s, d in refs.items():
            ctx.transitions += 1
            if issubclass(c, d) != (s in anc[r]):
                ctx.fail('subtyping', f'{hist()}: is {r} a subclass of {s}: expected {s in anc[r]}, got {issubclass(c, d)}')
    for r, k in run.held.items():
        if r[-1] == 'i':
            for s, d in refs.items():
                ctx.check(isinstance(k, d), s in anc[r[:2]], 'isinstance', lambda: f'{hist()}: instance of {r[:2]} and {s}')
    bad(ctx, run, hist)
    ctx.traces += 1


def histories(ctx, wname, depth, first, second=None):
    w = WORLDS[wname]
    acts = actions(w)
    gc.collect()
    gc.freeze()
    stack = [(first,) if second is None else (first, second)]
    while stack:
        h = stack.pop()
        run = Run(w)
        hist = lambda: ' ; '.join(' '.join(map(str, a)) for a in h)
        gc.collect()
        ok = True
        for a in h:
            if not enabled(run, a):
                ok = False
                break
            step(ctx, run, a, hist)
        if not ok:
            continue
        if len(h) < depth:
            for a in acts:
                if enabled(run, a) and not (a == h[-1] and a[0] in ('gc', 'bad', 'drop')):
                    stack.append(h + (a,))
        final(ctx, run, hist)
        if len(h) == depth:
            ctx.sample(f'{wname}: {hist()}')


def sizes(ctx):
    for n, (T, _) in WORLDS['concrete'].lattice.items():
        keep = []
        for i in list(range(0, 301)) + [1 << 12, 1 << 16, 1 << 20, 1 << 40]:
            t = T[i]
            keep.append(t)
            ctx.check((t.size, t is T[i], t.unsized_t is T, type(t.size)), (i, True, True, int), 'size', f'{n}[{i}]')
            ctx.state((n, i))
        for i, t in enumerate(keep):
            ctx.check(t.size == keep[i].size and T[t.size] is t, True, 'canonical', f'{n}[{t.size}]')
            for j in (i - 1, i + 1, 0):
                u = keep[j % len(keep)]
                ctx.check(issubclass(t, u), t is u, 'subtyping across sizes', f'{t} {u}')
        for i in (0, 1, 2):
            class HasIndex(int):
                pass
            ctx.check(T[HasIndex(i)] is T[i] and type(T[HasIndex(i)].size) is int, True, 'int subclass as size', f'{n}[{i}]')
        ctx.check((T[True] is T[1], T[False] is T[0], type(T[True].size)), (True, True, int), 'bool as size', n)
        ctx.traces += 1
    # a fresh family whose first lookup is a bool
    for b in (True, False):
        class Z(BitVector):
            pass
        t = Z[b]
        ctx.check((t is Z[int(b)], type(Z[int(b)].size), Z[int(b)].__name__), (True, int, f'Z[{int(b)}]'), 'bool as size', f'Z[{b}]')
    keep = {}
    for T in (FPVector, SMTFPVector, AbstractFPVector):
        for eb in range(1, 10):
            for mb in range(1, 10):
                for m in M:
                    for c in (True, False):
                        t = T[eb, mb, m, c]
                        keep[T, eb, mb, m, c] = t
                        ctx.state((T.__name__, eb, mb, m.name, c))
                        ctx.check((t.exponent_size, t.mantissa_size, t.mode, t.ieee_compliance, t.size, t.binding, t.unbound_t is T, t is T[eb, mb, m, c]),
                                  (eb, mb, m, c, 1 + eb + mb, (eb, mb, m, c), True, True), 'float parameters', f'{t}')
        ctx.check(len({id(v) for k, v in keep.items() if k[0] is T}), 9 * 9 * 5 * 2, 'distinct formats', T.__name__)
    for (T, *i), t in keep.items():
        ctx.check(T[tuple(i)] is t, True, 'canonical', f'{t}')
        for U in (FPVector, SMTFPVector, AbstractFPVector):
            ctx.check(issubclass(t, U[tuple(i)]), issubclass(T, U), 'subtyping', f'{t} {U}')
    ctx.traces += len(keep)


class Mixin:
    pass


def inherit(ctx, wname, part):
    """every class with up to three bases out of the lattice and a plain class, every class with two bases out of those,
    and what it is then a subclass of; a plain class hierarchy of the same shape is the model"""
    w = WORLDS[wname]
    run = Run(w)
    real = {k: v[0] for k, v in w.lattice.items()}
    model = {}
    for k, (_, ps) in w.lattice.items():
        model[k] = type(k, tuple(model[q] for q in ps), {})
    real['Mixin'] = model['Mixin'] = Mixin
    fam = {k for k in real if k != 'Mixin'}
    m = meta(real[w.root])

    def derive(names):
        try:
            mo = type('x', tuple(model[n] for n in names), {})
        except TypeError:
            return None
        if not any(n in fam for n in names):
            return None
        c = m('_'.join(names), tuple(real[n] for n in names), {'__module__': f'user{len(real) % 3}' if len(real) % 3 else BitVector.__module__})
        k = '(' + ','.join(names) + ')'
        return k, c, mo

    base = list(real)
    for r in (1, 2, 3):
        for ns in it.permutations(base, r):
            d = derive(ns)
            if d:
                real[d[0]], model[d[0]] = d[1:]
                fam.add(d[0])
    first = list(real)
    look = [k for k in first if k in fam]
    two = [d for i, d in enumerate(derive(ns) for ns in it.permutations(first, 2)) if d and i % 8 == part]
    two += [(k, real[k], model[k]) for k in look]
    for j, (k, c, mo) in enumerate(two):
        p = w.params[j % 2]
        order = [lambda: c[p], lambda: [real[s][p] for s in look]]
        if j % 3 == 0:
            order.reverse()
        keep = [f() for f in order]
        t = c[p]
        ctx.check((t is c[p], observed_index(run, t), unbound(run, t) is c, is_bound(run, c)), (True, p, True, False), 'multiple inheritance', lambda: f'{k}[{p}]')
        for s in look:
            want = issubclass(mo, model[s])
            ctx.transitions += 1
            for q in w.params:
                if issubclass(t, real[s][q]) != (want and p == q):
                    ctx.fail('subtyping', f'is {k}[{p}] a subclass of {s}[{q}]: expected {want and p == q}')
            if issubclass(t, real[s]) != want or issubclass(real[s][p], t) != issubclass(model[s], mo):
                ctx.fail('subtyping', f'{k}[{p}] and {s}: expected {want}')
        ctx.check(issubclass(t, Mixin), issubclass(mo, Mixin), 'subtyping', lambda: f'{k}[{p}] and a plain class')
        ctx.states += 1
        ctx.traces += 1
    ctx.sample(f'{wname}: {k}')


def compare(ctx, w, real, model, user, early, what):
    """bind every user family and compare with the plain classes of the same shape"""
    p, q = w.params[:2]
    is_bv = 'float' not in [k for k, v in WORLDS.items() if v is w][0]
    root = w.lattice[w.root][0]
    # either order of binding: a derived family first or last
    keep = [real[k][p] for k in (user[::-1] if early else user)]
    if early:
        keep += [real[k][q] for k in user]
    everything = list(w.lattice) + user
    for k in user:
        t = real[k][p]
        ctx.transitions += 1
        if t is not real[k][p] or (t.unsized_t if is_bv else t.unbound_t) is not real[k] or (t.size if is_bv else t.binding) != p:
            ctx.fail('description', f'{what()}: {k}[{p}]')
        for s in everything:
            want = issubclass(model[k], model[s])
            ctx.transitions += 1
            if issubclass(t, real[s][p]) != want or issubclass(t, real[s]) != want or issubclass(real[s][p], t) != issubclass(model[s], model[k]):
                ctx.fail('subtyping', f'{what()}: {k}[{p}] and {s}[{p}]: expected {want}')
            if early and (issubclass(t, real[s][q]) or issubclass(real[s][q], t)):
                ctx.fail('subtyping', f'{what()}: {k}[{p}] and {s}[{q}]')
        if w.inst and not isinstance(w.inst(t), root[p]):
            ctx.fail('isinstance', f'{what()}: {k}[{p}]')
    ctx.states += 1
    ctx.traces += 1


def start(w):
    real = {k: v[0] for k, v in w.lattice.items()}
    model = {}
    for k, (_, ps) in w.lattice.items():
        model[k] = type(k, tuple(model[q] for q in ps), {})
    return real, model


def shapes(ctx, wname, first, count):
    """every lattice of `count` user families, each with any ordered choice of bases among the root and the earlier ones"""
    w = WORLDS[wname]
    m = meta(w.lattice[w.root][0])
    names = 'ABCDE'[:count]

    def choices(i):
        pool = [w.root] + list(names[:i])
        for r in range(1, len(pool) + 1):
            yield from it.permutations(pool, r)

    def legal(choice):
        _, model = start(w)
        try:
            for n, bases in zip(names, choice):
                model[n] = type(n, tuple(model[b] for b in bases), {})
        except TypeError:
            return None
        return model

    todo = [((w.root,), first)]
    while todo:
        choice = todo.pop()
        model = legal(choice)
        if model is None:
            continue
        if len(choice) < count:
            todo += [choice + (c,) for c in choices(len(choice))]
            continue
        for early in (False, True):
            real, model = start(w)[0], legal(choice)
            for n, bases in zip(names, choice):
                real[n] = m(n, tuple(real[b] for b in bases), {'__module__': 'user'})
            compare(ctx, w, real, model, list(names), early, lambda: f'{wname}: ' + ' ; '.join(f'{n}({", ".join(b)})' for n, b in zip(names, choice)))
        ctx.sample(f'{wname}: {choice}')


def fans(ctx, wname):
    """families with many bases, and many levels down, some of one name"""
    w = WORLDS[wname]
    m = meta(w.lattice[w.root][0])
    for width in range(1, 9):
        for level in range(1, 9):
            for one_name in (False, True):
                real, model = start(w)
                user = []

                def new(bases):
                    k = f'n{len(user)}'
                    real[k] = m('Family' if one_name else k, tuple(real[b] for b in bases), {})
                    model[k] = type(k, tuple(model[b] for b in bases), {})
                    user.append(k)
                    return k

                fan = []
                for _ in range(width):
                    k = w.root
                    for _ in range(1 + level // 3):
                        k = new((k,))
                    fan.append(k)
                k = new(tuple(fan))
                for _ in range(level):
                    k = new((k,))
                new(tuple([k] + fan[:1]) if width > 1 else (k,))
                compare(ctx, w, real, model, user, level % 2, lambda: f'{wname}: {width} bases, {level} levels, one name: {one_name}')


def conflicts(ctx, wname):
    """a class of up to four bound bases is accepted exactly when they are bound alike"""
    w = WORLDS[wname]
    m = meta(w.lattice[w.root][0])
    root = w.lattice[w.root][0]
    is_bv = 'float' not in wname
    fams = [m(f'R{i}', (root,), {}) for i in range(4)]
    params = [2, 3, 4, 16, 300] if is_bv else [P1, P2, P3, (2, 3, M.RTZ, True), (2, 4, M.RNE, True), (3, 3, M.RNE, True)]
    keep = {(i, p): f[p] for i, f in enumerate(fams) for p in params}
    for r in (1, 2, 3, 4):
        for ps in it.product([None] + params, repeat=r):
            if not any(ps):
                continue
            if r == 4 and len(set(ps)) > 3:
                continue
            bases = tuple(fams[i] if p is None else keep[i, p] for i, p in enumerate(ps))
            ctx.states += 1
            ctx.transitions += 1
            want = len(set(ps) - {None}) == 1
            try:
                c = m('X', bases, {})
            except TypeError:
                c = None
            if (c is not None) != want:
                ctx.fail('inheriting from several bound types', f'{wname}: bases bound to {ps}: {"refused" if want else "accepted"}')
            elif c is not None:
                p, = set(ps) - {None}
                ctx.check((c.size if is_bv else c.binding, all(issubclass(c, b) for b in bases)), (p, True), 'inherited parameters', lambda: f'{wname}: {ps}')
                ctx.raises(AttributeError, lambda: c.unsized_t if is_bv else c.unbound_t, 'unbound type', lambda: f'{wname}: {ps}')
    ctx.traces += 1


def many(ctx, count):
    """a great many types alive at once, of vectors and of floats"""
    keep = {}
    for T in (BitVector, UIntVector, SMTSIntVector, AbstractBitVector):
        for i in it.chain(range(count if T is BitVector else count // 4), (1 << k for k in range(12, 90, 7)), ((1 << k) - 1 for k in range(12, 90, 7))):
            keep[T, i] = T[i]
    for (T, i), t in keep.items():
        ctx.transitions += 1
        if T[i] is not t or t.size != i or t.unsized_t is not T:
            ctx.fail('type is not canonical', f'{T.__name__}[{i}] with {len(keep)} types alive')
    ctx.check(len(set(keep.values())), len(keep), 'distinct sizes', f'{len(keep)} types')
    keep = {}
    big = list(range(1, 81)) + [100, 127, 128, 129, 255, 256, 1000, 1 << 16]
    for eb in big:
        for mb in big:
            i = (eb, mb, M.RNE if (eb + mb) % 3 else M.RTP, (eb ^ mb) % 5 != 0)
            keep[i] = AbstractFPVector[i]
    for i, t in keep.items():
        ctx.transitions += 1
        if AbstractFPVector[i] is not t or (t.exponent_size, t.mantissa_size, t.mode, t.ieee_compliance) != i:
            ctx.fail('type is not canonical', f'AbstractFPVector{list(i)} with {len(keep)} types alive')
    ctx.check(len(set(keep.values())), len(keep), 'distinct formats', f'{len(keep)} types')
    ctx.states += len(keep) * 2
    ctx.traces += 1


def jobs(tier):
    deep = tier == 'thorough'
    out = [Job('all sizes', sizes, weight=3), Job('many types', many, 20000 if deep else 6000, weight=8)]
    for wn in WORLDS:
        if wn != 'UInt':
            out.append(Job(f'fans, {wn}', fans, wn, weight=4))
            out.append(Job(f'conflicts, {wn}', conflicts, wn, weight=4))
            for first in ((WORLDS[wn].root,), ('A',), ('A', WORLDS[wn].root)):
                out.append(Job(f'shapes, {wn}, second {first}', shapes, wn, first, 5 if deep and wn in ('concrete', 'float') else 4, weight=7))
    for wn in ('concrete', 'pysmt', 'z3', 'float', 'pysmt float'):
        for part in range(8):
            out.append(Job(f'multiple inheritance, {wn} {part}', inherit, wn, part, weight=6))
    for wn, w in WORLDS.items():
        d = (4 if deep else 3) if 'float' in wn else (5 if deep else 4)
        if wn in ('z3', 'UInt') and not deep:
            d = 3
        for a in actions(w):
            if not enabled(Run(w), a):
                continue
            if d >= 4:
                for b in actions(w):
                    out.append(Job(f'{wn}: {" ".join(map(str, a))} ; {" ".join(map(str, b))}', histories, wn, d, a, b, weight=d + 5))
            # the shorter histories of this start, and all of them in small worlds
            out.append(Job(f'{wn}: {" ".join(map(str, a))}', histories, wn, 1 if d >= 4 else d, a, weight=d))
    return out
