"""C25: substitution is simultaneous, exact and pure.

Every expression up to a depth, every substitution of one or two variables by
expressions of an alphabet: the truth table of the result against the original's
table read at the replaced assignment (no term is rewritten by the model).
"""
import itertools as it
import operator as o

import pysmt.operators as op

import smteval
from core import Job
from hwtypes import SMTBit, SMTBitVector, SMTInt, SMTSIntVector, SMTUIntVector

PROP = 'C25'
SPACE = {
    'quick': 'all expressions of depth 1 over 2 vectors, 2 Bits and constants and of depth 2 with one deep operand, about 36 operators, for 3 vector types; '
             'each under all substitutions of one variable by 13 expressions and a reduced set of pairs, and of all pairs of variables for every expression of '
             'depth 1; sequences of 3 substitutions; chains to depth 60; every subset of 8 variables replaced at once; every term of depth 1 replaced in about 40 contexts by 13 expressions; up to 33 variables; each under all 256 assignments',
    'thorough': 'as quick with width 3, all pairs for depth 2 and all sequences of 3 over a bigger alphabet',
}
ASSUMPTIONS = ['the keys of a substitution are distinct variables of the replacement\'s width; the family of the result (SMTBitVector or a subtype) is '
               'left open']


class World:
    """variables, assignments and truth tables of one run"""

    def __init__(self, width, T=SMTBitVector, vec='abc', bit='pq', near=None):
        self.n = n = width
        self.T = T
        self.vec = {k: T[n](name=k) for k in vec}
        self.bit = {k: SMTBit(name=k) for k in bit}
        self.vars = {**self.vec, **self.bit}
        self.names = list(self.vars)
        self.sizes = [1 << n] * len(vec) + [2] * len(bit)
        self.near = near
        if near is None:
            self.rows = list(it.product(*map(range, self.sizes)))
        self.tabs = {}
        self.code = {}
        self.subtabs = {}

    def tab(self, term):
        """values of the term under every assignment"""
        t = self.tabs.get(term)
        if t is None:
            if term.node_type() == op.SYMBOL:
                i = self.names.index(term.symbol_name())
                t = tuple(r[i] for r in self.rows)
            else:
                args = [self.tab(x) for x in term.args()]
                if not args:
                    t = (int(term.constant_value()),) * len(self.rows)
                else:
                    at = {}
                    for i, x in enumerate(term.args()):
                        at.setdefault(x, f'x{i}')
                    src = smteval._expr(term, at.__getitem__)
                    key = (src, len(args))
                    f = self.code.get(key)
                    if f is None:
                        xs = ''.join(f'x{i},' for i in range(len(args)))
                        f = self.code[key] = eval(f'lambda A: tuple({src} for {xs} in zip(*A))', dict(smteval._ENV))
                    t = f(args)
            self.tabs[term] = t
        return t

    def moved(self, subs):
        """index of the assignment each assignment is read at"""
        key = tuple((k, v.value) for k, v in subs)
        m = self.subtabs.get(key)
        if m is None:
            new = dict((k, self.tab(v.value)) for k, v in subs)
            m = []
            for i, r in enumerate(self.rows):
                j = 0
                for k, s, v in zip(self.names, self.sizes, r):
                    j = j * s + (new[k][i] if k in new else v)
                m.append(j)
            if len(self.subtabs) > 20000:
                self.subtabs.clear()
            self.subtabs[key] = m
        return m

    def leaves(self):
        n, T = self.n, self.T
        v = [('a', self.vec['a']), ('b', self.vec['b']), ('1', T[n](1))]
        b = [('p', self.bit['p']), ('q', self.bit['q'])]
        return v, b

    def unary(self):
        n = self.n
        vv = [('~', o.invert), ('-', o.neg), ('rol', lambda x: x.bvrol(1)), ('ror', lambda x: x.bvror(1)),
              ('swap', lambda x: x[1:].concat(x[0:1]) if n > 1 else x), ('sx', lambda x: x[:1].sext(n - 1)), ('zx', lambda x: x[1:].zext(1) if n > 1 else x),
              ('rep', lambda x: x[n - 1:].repeat(n))]
        vb = [('[0]', lambda x: x[0]), ('[-1]', lambda x: x[-1]), ('any', lambda x: x != self.T[n](0)), ('int', lambda x: SMTInt(x) < 2)]
        bb = [('!', o.invert)]
        bv = [('cat', lambda p: p.ite(self.T[n](1), self.T[n](0)))]
        return vv, vb, bb, bv

    def binary(self):
        n, T = self.n, self.T
        vvv = [('+', o.add), ('-', o.sub), ('*', o.mul), ('//', lambda x, y: x.bvudiv(y)), ('%', lambda x, y: x.bvurem(y)), ('&', o.and_), ('|', o.or_),
               ('^', o.xor), ('<<', lambda x, y: x.bvshl(y)), ('>>', lambda x, y: x.bvlshr(y)), ('>>>', lambda x, y: x.bvashr(y)),
               ('sdiv', lambda x, y: x.bvsdiv(y)), ('srem', lambda x, y: x.bvsrem(y)),
               ('cat', lambda x, y: x.concat(y)[1:n + 1])]
        vvb = [('==', o.eq), ('!=', o.ne), ('<', lambda x, y: x.bvult(y)), ('<=s', lambda x, y: x.bvsle(y)), ('int<', lambda x, y: SMTInt(x) + SMTInt(y) <= 3)]
        bbb = [('&', o.and_), ('|', o.or_), ('^', o.xor), ('==', o.eq)]
        bvv = [('ite', lambda p, x, y: p.ite(x, y))]
        bbbb = [('ite', lambda p, x, y: p.ite(x, y))]
        return vvv, vvb, bbb, bvv, bbbb

    def grow(self, vl, bl, vr, br, third=True):
        """every operator over left operands (vl, bl) and right ones (vr, br)"""
        vv, vb, bb, bv = self.unary()
        vvv, vvb, bbb, bvv, bbbb = self.binary()
        V, B = [], []
        for nm, x in vl:
            V += [(f'{s}({nm})', f(x)) for s, f in vv]
            B += [(f'({nm}){s}', f(x)) for s, f in vb]
            for ny, y in vr:
                V += [(f'({nm} {s} {ny})', f(x, y)) for s, f in vvv]
                B += [(f'({nm} {s} {ny})', f(x, y)) for s, f in vvb]
        for nm, x in bl:
            B += [(f'{s}({nm})', f(x)) for s, f in bb]
            V += [(f'{s}({nm})', f(x)) for s, f in bv]
            for ny, y in br:
                B += [(f'({nm} {s} {ny})', f(x, y)) for s, f in bbb]
            if third:
                for (ny, y), (nz, z) in it.product(vr, repeat=2):
                    V += [(f'ite({nm},{ny},{nz})', bvv[0][1](x, y, z))]
                for (ny, y), (nz, z) in it.product(br, repeat=2):
                    B += [(f'ite({nm},{ny},{nz})', bbbb[0][1](x, y, z))]
        return V, B

    def targets(self):
        """replacement expressions, vectors and Bits"""
        a, b, c = self.vec.values()
        p, q = self.bit.values()
        n, T = self.n, self.T
        V = [('a', a), ('b', b), ('c', c), ('0', T[n](0)), ('2', T[n](2)), ('a+1', a + T[n](1)), ('~b', ~b), ('a&c', a & c), ('b-a', b - a),
             ('ite(p,a,b)', p.ite(a, b)), ('ite(a<b,c,1)', a.bvult(b).ite(c, T[n](1))), ('cat', c[1:].concat(a[:1]) if n > 1 else c), ('x*x', a * a)]
        B = [('p', p), ('q', q), ('0', SMTBit(0)), ('1', SMTBit(1)), ('!p', ~p), ('!q', ~q), ('p&q', p & q), ('p^q', p ^ q), ('a==b', a == b),
             ('c[0]', c[0]), ('ite(q,p,a[0])', q.ite(p, a[0])), ('b<c', b.bvult(c))]
        return V, B


def snapshot(w, objs):
    return [(x.value, w.tab(x.value)) for x in objs]


def one(ctx, w, name, x, subs, style=0):
    """x.substitute(subs) against the model; subs is ((var name, (text, object)), ...)"""
    real = [(k, t) for k, (_, t) in subs]
    args = [(w.vars[k], t) for k, t in real]
    if style == 1:
        args = [list(p) for p in args]
    before = x.value
    want0 = w.tab(before)
    keep = [t.value for _, t in real]
    r = x.substitute(*args)
    txt = lambda: f'{w.T.__name__}[{w.n}] {name} with {[(k, s) for k, (s, _) in subs]}'
    ctx.transitions += 1
    if isinstance(x, SMTBit):
        if type(r) is not SMTBit:
            ctx.fail('result type', f'{txt()}: {type(r)}')
    elif not isinstance(r, SMTBitVector) or r.size != x.size:
        ctx.fail('result width', f'{txt()}: {type(r)} for width {x.size}')
    if x.value is not before or [t.value for _, t in real] != keep or w.tab(x.value) != want0:
        ctx.fail('operand changed', f'{txt()}')
    m = w.moved(real)
    want = tuple(want0[j] for j in m)
    got = w.tab(r.value)
    if got != want:
        i = next(i for i in range(len(want)) if got[i] != want[i])
        ctx.fail('value after substitution', f'{txt()}: under {dict(zip(w.names, w.rows[i]))} expected {want[i]}, got {got[i]}')
    free = {s.symbol_name() for s in r.value.get_free_variables()}
    keys = {k for k, _ in real}
    had = {s.symbol_name() for s in before.get_free_variables()}
    may = (had - keys)
    for k, t in real:
        if k in had:
            may |= {s.symbol_name() for s in t.value.get_free_variables()}
    if not free <= may:
        ctx.fail('variable not replaced', f'{txt()}: result mentions {sorted(free - may)}')
    ctx.states += 1
    return r


def singles(w):
    V, B = w.targets()
    return [((k, t),) for k in 'abc' for t in V] + [((k, t),) for k in 'pq' for t in B]


def pairs(w, full):
    V, B = w.targets()
    if not full:
        V, B = [V[i] for i in (0, 1, 2, 5, 10)], [B[i] for i in (0, 1, 4, 8)]
    out = []
    for (k, Tk), (l, Tl) in it.permutations([('a', V), ('b', V), ('p', B), ('q', B)], 2):
        if not full and (k, l) in (('b', 'a'), ('q', 'p'), ('p', 'a'), ('q', 'a'), ('p', 'b'), ('q', 'b')):
            continue
        out += [((k, t), (l, u)) for t in Tk for u in Tl]
    return out


def depth1(w):
    v, b = w.leaves()
    V, B = w.grow(v, b, v, b)
    return v + b + V + B


def job_depth1(ctx, T, n, part, parts):
    w = World(n, T)
    ss = singles(w) + pairs(w, True)
    for name, x in depth1(w)[part::parts]:
        one(ctx, w, name, x, ())
        for i, s in enumerate(ss):
            one(ctx, w, name, x, s, i & 1)
        ctx.traces += 1
    ctx.sample(f'{T.__name__}[{n}] {name} with {len(ss)} substitutions, e.g. {[(k, s) for k, (s, _) in ss[-1]]}')


def job_depth2(ctx, T, n, part, parts, full):
    w = World(n, T)
    v, b = w.leaves()
    V1, B1 = w.grow(v, b, v, b, third=False)
    V1b, B1b = w.grow([], b, v[:2], b)
    V1 += V1b
    B1 += B1b
    two = []
    for nm, x in (V1 + B1)[part::parts]:
        l = [(nm, x)]
        if isinstance(x, SMTBit):
            two += sum(w.grow([], l, v[:2], b), [])
        else:
            two += sum(w.grow(l, [], v[:2], b), [])
    # the deep operand on the right
    vvv, vvb, bbb, bvv, bbbb = w.binary()
    for nm, x in (V1 + B1)[part::parts]:
        if isinstance(x, SMTBit):
            two += [(f'(q {s} {nm})', f(w.bit['q'], x)) for s, f in bbb]
            two += [(f'ite(p,{nm},q)', w.bit['p'].ite(x, w.bit['q']))]
        else:
            two += [(f'(a {s} {nm})', f(w.vec['a'], x)) for s, f in vvv + vvb]
            two += [(f'ite(p,{nm},b)', w.bit['p'].ite(x, w.vec['b']))]
    seen = set()
    ss = singles(w) + pairs(w, False) if full else None
    s1, s2 = singles(w), pairs(w, False)
    k = 0
    for name, x in two:
        if x.value in seen:
            continue
        seen.add(x.value)
        if full:
            use = ss
        else:
            k += 1
            use = [s1[i] for i in range(k % 3, len(s1), 3)] + [s2[i] for i in range(k % 11, len(s2), 11)]
        for s in use:
            one(ctx, w, name, x, s)
        ctx.traces += 1
    ctx.sample(f'{T.__name__}[{n}] {name}: {len(seen)} distinct expressions of depth 2')


def job_sequences(ctx, n, depth):
    """x.substitute(s).substitute(t)...: each step from the previous result, and
    earlier results stay what they were"""
    w = World(n)
    a, b, c = w.vec.values()
    p, q = w.bit.values()
    V, B = dict(w.targets()[0]), dict(w.targets()[1])
    moves = [(('a', ('b', b)), ('b', ('a', a))), (('a', ('c', c)),), (('c', ('a', a)),), (('b', ('a+1', V['a+1'])), ('a', ('~b', V['~b']))),
             (('p', ('!p', ~p)),), (('p', ('q', q)), ('q', ('p', p))), (('q', ('a==b', a == b)),), (('a', ('ite', V['ite(p,a,b)'])), ('p', ('c[0]', c[0]))),
             (('a', ('2', V['2'])), ('p', ('1', B['1']))), (('a', ('b', b)), ('b', ('c', c)), ('c', ('a', a)))]
    starts = [('a-b', a - b), ('ite(p&q,a,b*a)', (p & q).ite(a, b * a)), ('(a<b)^p', a.bvult(b) ^ p), ('q', q), ('cat', a.concat(b))]

    def go(hist, name, x, left):
        for i, s in enumerate(moves):
            before = x.value
            y = one(ctx, w, name, x, s)
            if left > 1:
                go(hist + [i], f'{name}.{i}', y, left - 1)
            ctx.check(x.value is before, True, 'earlier result changed', name)
        ctx.traces += 1
    for name, x in starts:
        go([], name, x, depth)
    ctx.sample(f'sequences of {depth} of {len(moves)} substitutions from {len(starts)} expressions')


def job_chains(ctx, n, top):
    """long chains, and expressions sharing a subterm many times"""
    w = World(n)
    a, b, c = w.vec.values()
    p, q = w.bit.values()
    ss = singles(w) + pairs(w, False)
    x, y, z = a, p, a
    for d in range(1, top + 1):
        x = [lambda x: x + b, lambda x: x ^ (a * b), lambda x: p.ite(x, b), lambda x: ~x, lambda x: x - a][d % 5](x)
        y = [lambda y: y & q, lambda y: y ^ p, lambda y: y | (a == b), lambda y: ~y, lambda y: y.ite(q, p)][d % 5](y)
        z = z * z + b
        if d % 5 == 0 or d < 8:
            for s in ss:
                one(ctx, w, f'chain {d}', x, s)
                one(ctx, w, f'Bit chain {d}', y, s)
                if d < 12:
                    one(ctx, w, f'shared {d}', z, s)
            ctx.traces += 3
    # x and its parts of other widths
    for lo in range(n):
        for hi in range(lo + 1, n + 1):
            for s in ss:
                one(ctx, w, f'a[{lo}:{hi}]', a[lo:hi], s)
                one(ctx, w, 'wide', a.concat(b).zext(3), s)
                one(ctx, w, 'wider', (a.sext(2) + b.zext(2))[lo:hi + 2], s)


def job_many(ctx, vec, bit):
    """up to all of 8 variables replaced at once: every subset, several ways"""
    w = World(1, SMTBitVector, vec, bit)
    V, B = list(w.vec.values()), list(w.bit.values())
    T = w.T
    exprs = [(k, x) for k, x in w.vars.items()]
    s = B[0] if B else V[0][0]
    for x in B[1:]:
        s = s ^ x
    for x in V:
        s = s ^ (x == T[1](1))
    m = (B[0] if B else V[0][0])
    for i, x in enumerate(B[1:] + [v[0] for v in V]):
        m = (m & x) if i % 2 else (m | ~x)
    exprs += [('xor', s), ('mixed', m)]
    if V:
        c = V[0]
        for x in V[1:]:
            c = c.concat(x)
        exprs += [('cat', c), ('sum', sum((x.zext(3) for x in V), SMTBitVector[4](0)))]
    if V and B:
        exprs.append(('ites', B[0].ite(V[0], B[-1].ite(V[-1], ~V[0]))))
    names = w.names

    def to(kind):
        """replacement of each variable"""
        out = {}
        for group in (V, B):
            for i, x in enumerate(group):
                nx, px = group[(i + 1) % len(group)], group[i - 1]
                c = T[1] if group is V else SMTBit
                out[x.value] = {'rotate': nx, 'swap': group[i ^ 1] if i ^ 1 < len(group) else x, 'not': ~nx, 'consts': c(i & 1), 'combine': nx ^ px, 'reverse': group[-1 - i]}[kind]
        return out
    for r in range(len(names) + 1):
        for ks in it.combinations(names, r):
            for kind in ('rotate', 'swap', 'not', 'consts', 'combine', 'reverse'):
                tbl = to(kind)
                subs = tuple((k, (kind, tbl[w.vars[k].value])) for k in ks)
                orders = [subs, subs[::-1]] if r > 1 else [subs]
                if r > 3:
                    orders.append(subs[r // 2:] + subs[:r // 2])
                for o_ in orders:
                    for nm, x in exprs if r < 4 or r > 6 or kind in ('rotate', 'combine') else exprs[-5:]:
                        one(ctx, w, nm, x, o_, r & 1)
        ctx.traces += 1
    ctx.sample(f'{len(exprs)} expressions of {len(names)} variables, all subsets of variables replaced')


def whole(hole, v, term, t, memo=None):
    """is term the term hole with t in place of v (nothing flattened or folded)"""
    memo = {} if memo is None else memo
    k = (hole, term)
    if k not in memo:
        memo[k] = term is t if hole is v else hole is term or (
            hole.node_type() == term.node_type() and len(hole.args()) == len(term.args()) > 0 and hole._content.payload == term._content.payload
            and all(whole(x, v, y, t, memo) for x, y in zip(hole.args(), term.args())))
    return memo[k]


def job_terms(ctx, T, n, part, of):
    """a whole subterm replaced: C[t].substitute((t, u)) is C[u]"""
    w = World(n, T)
    a, b, c = w.vec.values()
    p, q = w.bit.values()
    # terms over a, b, p to be replaced; the contexts use c and q only
    v, _ = w.leaves()
    V, B = w.grow(v[:2], [('p', p)], v[:2], [('p', p)])
    V, B = [(s, x) for s, x in V if x.size == n], list(B)
    B += [('p&(a==b)', p & (a == b))]
    vvv, vvb, bbb, _, _ = w.binary()
    vv, vb, bb, _ = w.unary()
    CV = [(f'({s} c)', lambda x, f=f: f(x, c)) for s, f in vvv + vvb] + [(f'(c {s})', lambda x, f=f: f(c, x)) for s, f in vvv + vvb]
    CV += [(s, f) for s, f in vv + vb] + [('twice', lambda x: (x + c) ^ (x * x)), ('deep', lambda x: q.ite((x | c).bvrol(1), c - x) + x), ('itself', lambda x: x),
                                          ('wide', lambda x: x.concat(c).zext(2)), ('none', lambda x: c + c), ('Bit', lambda x: (x == c) ^ q)]
    CB = [(f'({s} q)', lambda x, f=f: f(x, q)) for s, f in bbb] + [(f'(q {s})', lambda x, f=f: f(q, x)) for s, f in bbb]
    CB += [(s, f) for s, f in bb] + [('twice', lambda x: (x & q) ^ (x | ~q)), ('select', lambda x: x.ite(c, c + 1)), ('itself', lambda x: x), ('none', lambda x: q ^ 1),
                                     ('Bit', lambda x: x.ite(q, c[0]))]
    TV, TB = w.targets()
    for terms, contexts, new in ((V, CV, TV), (B, CB, TB)):
        for i, (nt, t) in enumerate(terms):
            if i % of != part or t.value.is_symbol() or t.value.is_constant():
                continue
            for j, (nc, C) in enumerate(contexts):
                x = C(t)
                v_ = w_fresh(w, t)
                if not whole(C(v_).value, v_.value, x.value, t.value):
                    ctx.count('terms merged into their context', 1)
                    continue
                for nu, u in new:
                    want = w.tab(C(u).value)
                    before = x.value
                    r = x.substitute((t, u))
                    ctx.transitions += 1
                    ctx.states += 1
                    txt = f'{T.__name__}[{n}] {nc} of {nt}, replaced by {nu}'
                    if r.value.get_type() is not x.value.get_type() or isinstance(r, SMTBit) is not isinstance(x, SMTBit):
                        ctx.fail('result type', f'{txt}: {type(r)}')
                    if w.tab(r.value) != want:
                        ctx.fail('value after substituting a term', txt)
                    if x.value is not before:
                        ctx.fail('operand changed', txt)
                    if j % 5 == 0:
                        # and a variable of the context at once
                        other = (c, b) if not isinstance(t, SMTBit) else (q, ~p)
                        if nc not in ('none',):
                            y = x.substitute((t, u), other)
                            z = C(v_).substitute((v_, u), other)
                            if w.tab(y.value) != w.tab(z.value):
                                ctx.fail('value after substituting a term and a variable', txt)
                            y = x.substitute(other, (t, u))
                            if w.tab(y.value) != w.tab(z.value):
                                ctx.fail('value after substituting a variable and a term', txt)
            ctx.traces += 1
    ctx.sample(f'{T.__name__}[{n}] {nt} within {nc}')


FRESH = {}


def w_fresh(w, t):
    k = (w.T, w.n, isinstance(t, SMTBit))
    if k not in FRESH:
        FRESH[k] = SMTBit() if k[2] else w.T[w.n]()
    return FRESH[k]


def job_crowd(ctx, n):
    """n variables replaced at once; every assignment within two flips of all zeros and all ones"""
    w = World(1, SMTBitVector, [f'v{i}' for i in range(n // 2)], [f'b{i}' for i in range(n - n // 2)], near=2)
    N = len(w.names)
    rows = set()
    for base in (0, 1):
        for r in range(3):
            for flip in it.combinations(range(N), r):
                rows.add(tuple(base ^ (i in flip) for i in range(N)))
    V, B = list(w.vec.values()), list(w.bit.values())
    bitsof = [v[0] for v in V] + B
    s = m = bitsof[0]
    for i, x in enumerate(bitsof[1:]):
        s = s ^ x
        m = (m & x) if i % 3 else (m | x)
    c = V[0]
    for x in V[1:]:
        c = c.concat(x)
    for nm, x in (('xor', s), ('mixed', m), ('cat', c)):
        used, f0 = smteval.compile_term(x.value)
        for k in sorted({1, 2, N // 2, N - 1, N} | set(range(4, 12)) & set(range(N))):
            for start in (0, N - k):
                for shift in (1, N // 2 - 1 or 1, 0):
                    subs, new = [], {}
                    for i in range(start, start + k):
                        name = w.names[i]
                        g, j = (V, i) if i < len(V) else (B, i - len(V))
                        t = g[(j + shift) % len(g)]
                        neg = shift == 0
                        subs.append((w.vars[name], ~t if neg else t))
                        new[i] = ((j + shift) % len(g) + (0 if g is V else len(V)), neg)
                    r = x.substitute(*subs)
                    used1, f1 = smteval.compile_term(r.value)
                    for row in rows:
                        e = dict(zip(w.names, row))
                        moved = {w.names[i]: (row[new[i][0]] ^ new[i][1] if i in new else row[i]) for i in range(N)}
                        ctx.transitions += 1
                        if f1(e) != f0(moved):
                            ctx.fail('value after substitution', f'{nm} of {n} variables, {k} from {start} replaced by shift {shift}: expected {f0(moved)}, got {f1(e)}')
                            break
                    ctx.states += 1
    ctx.traces += 1


def jobs(tier):
    out = []
    n = 2 if tier == 'quick' else 3
    for T in (SMTBitVector, SMTUIntVector, SMTSIntVector):
        k = 4 if tier == 'quick' else 8
        for i in range(k):
            if T is SMTBitVector or tier != 'quick':
                out.append(Job(f'depth 1 {T.__name__}[{n}] {i}', job_depth1, T, n, i, k, weight=4))
            else:
                out.append(Job(f'depth 1 {T.__name__}[{n}] {i}', job_depth1, T, n, i, 3 * k, weight=2))
        k = 16
        for i in range(k if T is SMTBitVector else 4):
            out.append(Job(f'depth 2 {T.__name__}[{n}] {i}', job_depth2, T, n, i, k, tier != 'quick', weight=5))
    for T in (SMTBitVector, SMTUIntVector, SMTSIntVector):
        for i in range(6):
            out.append(Job(f'terms {T.__name__}[{n}] {i}', job_terms, T, n, i, 6, weight=4))
    out.append(Job('depth 1 width 1', job_depth1, SMTBitVector, 1, 0, 1, weight=3))
    out.append(Job('sequences', job_sequences, 2, 3 if tier == 'quick' else 4, weight=4))
    for vec, bit in (('abcd', 'pqrs'), ('ab', 'pqrstu'), ('abcdefgh', ''), ('', 'pqrstuvw'), ('abcdef', 'pq')):
        out.append(Job(f'all subsets of {len(vec)} vectors and {len(bit)} Bits', job_many, vec, bit, weight=6))
    for n in (9, 12, 16, 17, 33) if tier == 'quick' else (9, 10, 11, 12, 16, 17, 24, 32, 33, 48):
        out.append(Job(f'{n} variables', job_crowd, n, weight=5))
    out.append(Job('chains', job_chains, 2, 60, weight=4))
    return out
