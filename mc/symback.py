"""Agreement of a symbolic backend with the integer model (C03 and C04).

Backend-specific parts are in the Backend object; everything else - which
operations, operands and programs are enumerated - is shared.
"""
import itertools as it
import operator

import bvref
from core import Job, show
from hwtypes import Bit, BitVector, SIntVector, UIntVector

AUG = {'&': operator.iand, '|': operator.ior, '^': operator.ixor, '<<': operator.ilshift, '>>': operator.irshift, '+': operator.iadd,
       '-': operator.isub, '*': operator.imul, '//': operator.ifloordiv, '%': operator.imod}
PYOP = {'&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift,
        '>>': operator.rshift, '+': operator.add, '-': operator.sub, '*': operator.mul,
        '//': operator.floordiv, '%': operator.mod, '==': operator.eq, '!=': operator.ne,
        '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


class Backend:
    """BV, U, S, B: the types; compile: term -> (names, fn); name: term -> str"""

    def __init__(self, tag, BV, U, S, B, compile_term, var_name, rotate_by, reflected, int_len_ok=True):
        self.tag, self.BV, self.U, self.S, self.B = tag, BV, U, S, B
        self.compile, self.var_name = compile_term, var_name
        self.rotate_by = rotate_by        # 'int' or 'vector'
        self.reflected = reflected        # has int op vector
        self.types = ((BV, BitVector), (U, UIntVector), (S, SIntVector))

    def fn(self, r):
        return self.compile(r.value)

    def is_signed(self, T):
        return issubclass(T, self.S)

    def table(self, T):
        out = []
        for name, (model, kind) in bvref.BINARY.items():
            if name in ('bvrol', 'bvror') and self.rotate_by == 'int':
                continue
            out.append((name, getattr(T, name), model, kind))
        for sym, (model, kind) in bvref.operators(self.is_signed(T)).items():
            out.append((sym, PYOP[sym], model, kind))
        return out


KNOWN = {bvref.bvsdiv_floor: ('sdiv', bvref.bvsdiv_smt), bvref.bvsrem_floor: ('srem', bvref.bvsrem_smt)}


def compare(ctx, be, op, model, n, a, b, got, detail):
    """got against the model; the recorded divergence of signed division is
    recognised by its exact value"""
    ctx.transitions += 1
    want = model(n, a, b)
    if got == want:
        return
    key = None
    if model in KNOWN:
        k, smt = KNOWN[model]
        if got == smt(n, a, b):
            key = f'{be.tag} {k}: SMT-LIB result instead of floor'
    ctx.fail(f'{op} on {be.tag}', f'{detail()}: expected {want}, got {got}', key)


def expect_type(ctx, be, T, n, kind, r, detail):
    want = {'v': lambda: T[n], 'b': lambda: be.B, '1': lambda: T[1]}[kind]()
    if type(r) is not want:
        ctx.fail('result type', f'{detail()}: expected {want}, got {type(r)}')
    ctx.transitions += 1


def symbolic_ops(ctx, be, n, pairs_of):
    """x op y over two variables, under every assignment"""
    vs = pairs_of(n)
    for T, C in be.types:
        x, y = T[n](), T[n]()
        nx, ny = be.var_name(x), be.var_name(y)
        for op, fn, model, kind in be.table(T):
            for l, r, same in ((x, y, False), (x, x, True)):
                t = fn(l, r)
                d = lambda: f'{T.__name__}[{n}]: x {op} {"x" if same else "y"}'
                expect_type(ctx, be, T, n, kind, t, d)
                names, f = be.fn(t)
                if not names <= {nx, ny}:
                    ctx.fail('foreign variable', f'{d()} mentions {names}')
                for a in vs:
                    for b in (a,) if same else vs:
                        got = f({nx: a, ny: b})
                        compare(ctx, be, op, model, n, a, b, got,
                                lambda: f'{d()} with x={a}, y={b}')
                        ctx.states += 1
                ctx.traces += 1
        for op, fn, model in (('bvnot', T[n].bvnot, bvref.bvnot), ('~', operator.invert, bvref.bvnot),
                              ('bvneg', T[n].bvneg, bvref.bvneg), ('neg', operator.neg, bvref.bvneg)):
            t = fn(x)
            expect_type(ctx, be, T, n, 'v', t, lambda: f'{op} x')
            f = be.fn(t)[1]
            for a in vs:
                ctx.check(f({nx: a}), model(n, a), f'{op} on {be.tag}', lambda: f'{op} {T.__name__}[{n}] x={a}')
        if be.rotate_by == 'int':
            for op, model in (('bvrol', bvref.bvrol), ('bvror', bvref.bvror)):
                for k in rotations(n):
                    t = getattr(x, op)(k)
                    expect_type(ctx, be, T, n, 'v', t, lambda: f'x.{op}({k})')
                    f = be.fn(t)[1]
                    for a in vs:
                        # the concrete operation converts the amount to the vector's type first
                        ctx.check(f({nx: a}), model(n, a, k % (1 << n)), f'{op} on {be.tag}',
                                  lambda: f'{T.__name__}[{n}] x={a}: x.{op}({k})')
        ctx.check(be.fn(x)[1]({nx: 1}), 1, 'operand changed', 'x')
    ctx.sample(f'width {n}: {len(vs)}^2 assignments of x op y, {len(be.table(be.BV[n]))} operators, 3 types')


def rotations(n):
    return sorted({-n - 1, -n, -1, 0, 1, 2, n - 1, n, n + 1, 2 * n, 2 * n + 1, (1 << n) - 1, (1 << n)})


def constant_ops(ctx, be, n, values):
    """constants with constants, variables with constants and with ints"""
    for T, C in be.types:
        x = T[n]()
        nx = be.var_name(x)
        for op, fn, model, kind in be.table(T):
            for b in values:
                c = T[n](b)
                for a in values:
                    t = fn(T[n](a), c)
                    expect_type(ctx, be, T, n, kind, t, lambda: f'const {a} {op} const {b}')
                    names, f = be.fn(t)
                    ctx.states += 1
                    compare(ctx, be, op, model, n, a, b, f({}), lambda: f'{T.__name__}[{n}]({a}) {op} ({b})')
                forms = [('x {} const', lambda: fn(x, c), False), ('const {} x', lambda: fn(c, x), True)]
                forms.append(('x {} int', lambda: fn(x, b), False))
                forms.append(('x {} negative int', lambda: fn(x, b - (1 << n)), False))
                forms.append(('x {} concrete', lambda: fn(x, C[n](b)), False))
                if be.reflected and not op.startswith('bv'):
                    forms.append(('concrete {} x', lambda: fn(C[n](b), x), True))
                    forms.append(('int {} x', lambda: fn(b, x), True))
                if op in AUG:
                    forms += [('x {}= int', lambda: AUG[op](x, b), False), ('x {}= negative int', lambda: AUG[op](x, b - (1 << n)), False),
                              ('x {}= const', lambda: AUG[op](x, c), False), ('x {}= concrete', lambda: AUG[op](x, C[n](b)), False)]
                for form, mk, flip in forms:
                    t = mk()
                    d = lambda: f'{T.__name__}[{n}] {form.format(op)}, constant {b}'
                    expect_type(ctx, be, T, n, kind, t, d)
                    names, f = be.fn(t)
                    for a in values:
                        l, r = (b, a) if flip else (a, b)
                        compare(ctx, be, op, model, n, l, r, f({nx: a}), lambda: f'{d()}, x={a}')
                ctx.traces += 1
    ctx.sample(f'width {n}: {len(values)} constants in every operand position')


LONG = (4, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129)


def structure(ctx, be, n, values, full=True):
    R = bvref
    for T, C in be.types:
        x = T[n]()
        nx = be.var_name(x)
        name = f'{T.__name__}[{n}]'

        def val(what, t, want_t, model, also=(), vals=values):
            """term t of type want_t denotes model(a) for all x=a"""
            ctx.transitions += 1
            if type(t) is not want_t:
                ctx.fail('result type', f'{name} {what}: expected {want_t}, got {type(t)}')
            f = be.fn(t)[1]
            for a in vals:
                env = {nx: a}
                for extra in also or [{}]:
                    got = f(dict(env, **extra))
                    want = model(a, **{k: v for k, v in zip(('p', 'q', 'r'), extra.values())})
                    ctx.check(got, want, f'{what.split("(")[0].split("[")[0]} on {be.tag}',
                              lambda: f'{name} {what}, x={a} {extra or ""}')
                    ctx.states += 1
            ctx.traces += 1

        # indexing and slicing
        idx = range(-n, n) if full else sorted(i for i in {0, 1, 7, 8, n // 2, n - 1, -1, -n, -n + 1} if i < n)
        for i in idx:
            val(f'x[{i}]', x[i], be.B, lambda a: a >> (i % n) & 1)
        for i in (n, n + 1, -n - 1):
            ctx.raises(IndexError, lambda: x[i], 'index out of range', f'{name}[{i}]')
        bounds = [None] + (list(range(-n - 1, n + 2)) + [n + 7, n + 65, 1 << 40] if full else [0, 1, 7, 8, n // 2, n - 1, n, -1, 1 - n, n + 1, n + 7, n + 63, n + 64, n + 65, n + 130, 1 << 40])
        for lo in bounds:
            for hi in bounds:
                sl = slice(lo, hi)
                start, stop, _ = sl.indices(n)
                if start >= stop or (lo is not None and lo < -n):
                    continue      # empty: no such SMT sort
                w = stop - start
                for form in (sl, slice(lo, hi, 1)):
                    val(f'x[{lo}:{hi}]', x[form], T[w], lambda a: a >> start & R.mask(w))
        # extension, repetition
        for k in (0, 1, 2, n, 5):
            val(f'zext({k})', x.zext(k), T[n + k], lambda a: a)
            val(f'sext({k})', x.sext(k), T[n + k], lambda a: R.wrap(n + k, R.signed(n, a)))
            val(f'ext({k})', x.ext(k), T[n + k],
                lambda a: R.wrap(n + k, R.signed(n, a)) if be.is_signed(T) else a)
        for m in ('zext', 'sext', 'ext'):
            ctx.raises(ValueError, lambda: getattr(x, m)(-1), 'negative extension', f'{name}.{m}(-1)')
        for r in (1, 2, 3):
            val(f'repeat({r})', x.repeat(r), T[n * r], lambda a: sum(a << (n * i) for i in range(r)))
        few = sorted({*values[:5], *values[-2:], R.mask(n), 1, 1 << n - 1, R.mask(n) // 3})
        for k in LONG:
            if k + n <= 300:
                val(f'zext({k})', x.zext(k), T[n + k], lambda a: a, vals=few)
                val(f'sext({k})', x.sext(k), T[n + k], lambda a: R.wrap(n + k, R.signed(n, a)), vals=few)
            if n * k <= 300:
                val(f'repeat({k})', x.repeat(k), T[n * k], lambda a: sum(a << (n * i) for i in range(k)), vals=few)
                if n * k <= 80:     # of a constant
                    for w in few:
                        val(f'const {w}.repeat({k})', T[n](w).repeat(k), T[n * k], lambda a: sum(w << (n * i) for i in range(k)), vals=few[:1])
            if k + n <= 300:
                y = T[k]()
                ny = be.var_name(y)
                ws = sorted({0, 1, R.mask(k), 1 << k - 1, R.mask(k) // 3})
                val(f'concat(y[{k}])', x.concat(y), T[n + k], lambda a, p: a | p << n, [{ny: w} for w in ws], vals=few)
                for w in ws:
                    val(f'concat(const {w})', x.concat(T[k](w)), T[n + k], lambda a: a | w << n, vals=few)
        # concat with a variable, a constant, itself
        for m in (1, 2, 3) if full else (1, 8, n):
            y = T[m]()
            ny = be.var_name(y)
            ws = R.corner_values(m)[:8]
            val(f'concat(y[{m}])', x.concat(y), T[n + m], lambda a, p: a | p << n, [{ny: w} for w in ws])
            for w in ws:
                val(f'concat(const {w})', x.concat(T[m](w)), T[n + m], lambda a: a | w << n)
                val(f'const {w}.concat(x)', T[m](w).concat(x), T[n + m], lambda a: w | a << m)
        val('concat(x)', x.concat(x), T[2 * n], lambda a: a | a << n)
        # conversions
        for m in (1, 2, n - 1, n, n + 1, n + 3):
            if m >= 1:
                for V, _ in be.types:
                    val(f'{V.__name__}[{m}](x)', V[m](x), V[m], lambda a: R.wrap(m, a))
        p = be.B()
        np_ = be.var_name(p)
        val('T(bit)', T[n](p), T[n], lambda a, p: p, [{np_: 0}, {np_: 1}])
        for seq in it.product((0, 1), repeat=min(n, 4)):
            s = list(seq) + [1] * (n - min(n, 4))
            want = sum(b << i for i, b in enumerate(s))
            val(f'T({s})', T[n](s), T[n], lambda a: want)
        val('T([bit, ...])', T[n]([p] * n), T[n], lambda a, p: R.mask(n) * p, [{np_: 0}, {np_: 1}])
        for i in range(n):       # each place alone, of ints, bools, concrete and symbolic bits
            one = [0] * n
            one[i] = 1
            for conv in (int, bool, Bit, be.B):
                val(f'T({conv.__name__} 1 at {i})', T[n]([conv(b) for b in one]), T[n], lambda a: 1 << i)
            val(f'T(p at {i})', T[n]([p if b else be.B(0) for b in one]), T[n], lambda a, p: p << i, [{np_: 0}, {np_: 1}])
        for v in {-(1 << n), -3, -1, 0, 1, R.mask(n), 1 << n, (1 << n) + 1}:
            val(f'T({v})', T[n](v), T[n], lambda a: R.wrap(n, v))
            val(f'make_constant({v})', x.make_constant(v), T[n], lambda a: R.wrap(n, v))
            val(f'make_constant({v}, 3)', T[n].make_constant(v, 3), T[3], lambda a: R.wrap(3, v))
        for v in values[:8]:
            for W, W_ in be.types:
                val(f'T({W_.__name__}({v}))', T[n](W_[n](v)), T[n], lambda a: v)
        for b in (False, True):
            val(f'T({b})', T[n](b), T[n], lambda a: int(b))
        # item assignment, of constants and of a symbolic bit
        for i in idx:
            for b in (0, 1, False, True):
                z = T[n](x)
                z[i] = b
                val(f'x[{i}] = {b}', z, T[n], lambda a: a & ~(1 << i % n) | int(b) << i % n)
            z = T[n](x)
            z[i] = p
            val(f'x[{i}] = p', z, T[n], lambda a, p: a & ~(1 << i % n) | p << i % n, [{np_: 0}, {np_: 1}])
        for i in (n, -n - 1):
            ctx.raises(IndexError, lambda: T[n](x).__setitem__(i, 1), 'assignment out of range', f'{name}[{i}]')
        for bad in (2, -1, None, 'a'):
            ctx.raises(ValueError, lambda: T[n](x).__setitem__(0, bad), 'bad bit assigned', f'{name}[0] = {bad!r}')
        # select
        y = T[n]()
        ny = be.var_name(y)
        vs = values[:6]
        val('p.ite(x, y)', p.ite(x, y), T[n], lambda a, p, q: a if p else q,
            [{np_: s, ny: b} for s in (0, 1) for b in vs])
        for s in (0, 1):
            val(f'{s}.ite(x, const)', be.B(s).ite(x, T[n](1)), T[n], lambda a: a if s else 1)
        val('x.ite(y, const)', x.ite(y, T[n](1)), T[n], lambda a, p: p if a else 1, [{ny: b} for b in vs])
        if be.tag == 'z3':
            # z3Bit also selects among ints, vectors and bits: an int takes the vector's type, two ints the wider of theirs
            for c in {-1, 0, 1, R.mask(n), 1 << n}:
                val(f'p.ite(x, {c})', p.ite(x, c), T[n], lambda a, p: a if p else R.wrap(n, c), [{np_: 0}, {np_: 1}])
                val(f'p.ite({c}, x)', p.ite(c, x), T[n], lambda a, p: R.wrap(n, c) if p else a, [{np_: 0}, {np_: 1}])
            val('p.ite(x, q)', p.ite(x, p), T[n], lambda a, p: a if p else 0, [{np_: 0}, {np_: 1}])
            U = be.BV
            for c, d in it.product({0, 1, 2, 3, 4, 6, R.mask(n), 1 << n}, repeat=2):
                w = max(c.bit_length(), d.bit_length(), 1)
                val(f'p.ite({c}, {d})', p.ite(c, d), U[w], lambda a, p: c if p else d, [{np_: 0}, {np_: 1}])
        val('x.ite(bit, bit)', x.ite(p, be.B(0)), be.B, lambda a, p: p if a else 0, [{np_: 0}, {np_: 1}])
        # add with carry
        for cname, c, envs in (('p', p, [{np_: 0}, {np_: 1}]), ('0', 0, None), ('True', True, None),
                               ('vector', T[1](p), [{np_: 0}, {np_: 1}])):
            s, co = x.adc(y, c)
            for b in vs:
                for e in envs or [None]:
                    cv = e[np_] if e else int(c)
                    full_env = {ny: b, **(e or {})}
                    val(f'adc(y, {cname})', s, T[n], lambda a, **k: R.wrap(n, a + b + cv), [full_env])
                    val(f'adc(y, {cname}) carry', co, be.B, lambda a, **k: a + b + cv >> n, [full_env])
        val('unchanged', x, T[n], lambda a: a)
    ctx.sample(f'width {n}: slices, extensions, concat, conversion, assignment, ite, adc over {len(values)} values of x')


def bit_ops(ctx, be):
    B = be.B
    p, q = B(), B()
    np_, nq = be.var_name(p), be.var_name(q)
    tab = {'&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b,
           '==': lambda a, b: int(a == b), '!=': lambda a, b: int(a != b)}
    envs = [{np_: a, nq: b} for a in (0, 1) for b in (0, 1)]

    def run(what, t, model):
        ctx.check(type(t), B, 'result type', what)
        f = be.fn(t)[1]
        for e in envs:
            ctx.state((what, tuple(e.values())))
            ctx.check(f(e), model(e[np_], e[nq]), f'{what} on {be.tag}', lambda: f'{what} with p={e[np_]}, q={e[nq]}')
        ctx.traces += 1

    leaves = [('p', p, lambda a, b: a), ('q', q, lambda a, b: b), ('0', B(0), lambda a, b: 0),
              ('1', B(1), lambda a, b: 1), ('~p', ~p, lambda a, b: 1 - a)]
    consts = [('False', False, 0), ('True', True, 1), ('int 0', 0, 0), ('int 1', 1, 1), ('Bit(0)', Bit(0), 0), ('Bit(1)', Bit(1), 1)]
    level1 = list(leaves)
    for op, m in tab.items():
        for ln, lt, lm in leaves:
            for rn, rt, rm in leaves:
                level1.append((f'({ln} {op} {rn})', PYOP[op](lt, rt),
                               lambda a, b, m=m, lm=lm, rm=rm: m(lm(a, b), rm(a, b))))
            for cn, c, v in consts:
                run(f'{ln} {op} {cn}', PYOP[op](lt, c), lambda a, b: m(lm(a, b), v))
                if be.reflected and not isinstance(c, Bit):
                    run(f'{cn} {op} {ln}', PYOP[op](c, lt), lambda a, b: m(v, lm(a, b)))
    for nme, t, m in level1:
        run(nme, t, m)
        run(f'~{nme}', ~t, lambda a, b: 1 - m(a, b))
    for op, m in tab.items():
        for ln, lt, lm in level1:
            for rn, rt, rm in leaves:
                run(f'{ln} {op} {rn}', PYOP[op](lt, rt), lambda a, b: m(lm(a, b), rm(a, b)))
    for sn, st, sm in level1[:40]:
        for ln, lt, lm in leaves:
            for rn, rt, rm in leaves:
                run(f'{sn}.ite({ln}, {rn})', st.ite(lt, rt), lambda a, b: lm(a, b) if sm(a, b) else rm(a, b))
    for v in (0, 1, False, True, Bit(0), Bit(1)):
        run(f'B({v!r})', B(v), lambda a, b: int(v))
    run('B(p)', B(p), lambda a, b: a)
    for bad in (2, -1):
        ctx.raises(ValueError, lambda: B(bad), 'bad bit', f'{B.__name__}({bad})')
    ctx.sample(f'{len(level1)} depth-1 terms over p, q')


def programs(ctx, be, n, T, C, part, parts, depth2=True):
    """every expression op2(op1(l1, l2), l3) over variables and a constant,
    under every assignment, against the same program on concrete vectors"""
    x, y = T[n](), T[n]()
    nx, ny = be.var_name(x), be.var_name(y)
    k = (1 << n) - 1 if n < 3 else 3
    signed = be.is_signed(T)
    skip = {'//', '%'} if signed else set()        # recorded divergence, see C03/C04
    ops = [(s, PYOP[s]) for s in bvref.UNSIGNED_OPS if s not in skip]
    Bs = (be.B, Bit)
    leaves = [('x', x, lambda e: e[0]), ('y', y, lambda e: e[1]), (f'{k}', T[n](k), lambda e: C[n](k))]
    envs = [(C[n](a), C[n](b)) for a in range(1 << n) for b in range(1 << n)]
    un = [('~', operator.invert), ('neg', operator.neg),
          ('ite1', lambda v: v[0].ite(v, ~v)), ('msb', lambda v: v[-1].ite(v[0], v[-1]) if n > 1 else v[0]),
          ('swap', lambda v: v[n // 2:].concat(v[:n // 2]) if n > 1 else v),
          ('ext', lambda v: v.ext(1)[1:]), ('set', _setit)]

    def run(what, t, cs):
        names, f = be.fn(t)
        for (a, b), c in zip(envs, cs):
            got = f({nx: a.as_uint(), ny: b.as_uint()})
            ctx.transitions += 1
            want = int(bool(c)) if isinstance(c, Bit) else c.as_uint()
            if got != want:
                ctx.fail(f'program on {be.tag}', f'{T.__name__}[{n}] {what} with x={a}, y={b}: expected {want}, got {got}')
        ctx.states += len(envs)
        ctx.traces += 1
        if isinstance(cs[0], Bit):
            ok = isinstance(t, be.B)
        else:
            ok = t.size == cs[0].size and type(t).unsized_t is dict(zip(
                (BitVector, UIntVector, SIntVector), (be.BV, be.U, be.S)))[type(cs[0]).unsized_t]
        if not ok:
            ctx.fail('result type', f'{T.__name__}[{n}] {what}: {type(t)} for a concrete {type(cs[0])}')

    idx = -1
    for on, op in ops:
        for ln, lt, lc in leaves:
            for rn, rt, rc in leaves:
                idx += 1
                if idx % parts != part:
                    continue
                t1 = op(lt, rt)
                c1 = [op(lc(e), rc(e)) for e in envs]
                w1 = f'({ln} {on} {rn})'
                run(w1, t1, c1)
                for unn, uf in un:
                    if isinstance(c1[0], Bit):
                        if unn != '~':
                            continue
                    run(f'{unn} {w1}', uf(t1), [uf(c) for c in c1])
                if not depth2:
                    continue
                for on2, op2 in ops:
                    for l3n, l3t, l3c in leaves:
                        if isinstance(c1[0], Bit):
                            # a Bit selects, and combines with Bits
                            if on2 == '&':
                                run(f'{w1}.ite({l3n}, y)', t1.ite(l3t, y), [c.ite(l3c(e), e[1]) for c, e in zip(c1, envs)])
                            if on2 in ('&', '|', '^', '==', '!='):
                                run(f'{w1} {on2} {l3n}[0]', op2(t1, l3t[0]), [op2(c, l3c(e)[0]) for c, e in zip(c1, envs)])
                            continue
                        run(f'{w1} {on2} {l3n}', op2(t1, l3t), [op2(c, l3c(e)) for c, e in zip(c1, envs)])
                        run(f'{l3n} {on2} {w1}', op2(l3t, t1), [op2(l3c(e), c) for c, e in zip(c1, envs)])
    ctx.sample(f'{T.__name__}[{n}] programs, e.g. {w1} then {on2} {l3n}' if depth2 else w1)


def _setit(v):
    r = type(v)(v)
    r[0] = v[-1]
    return r


def history(ctx, be, widths, types):
    """the same ints at many widths and families in turn, in one process"""
    import copy
    be = copy.copy(be)
    be.types = types
    for n in widths:
        vs = [v for v in (0, 1, 2, 3, 5, 6, 7, 200, 255, 256) if v < 1 << n]
        symbolic_ops(ctx, be, n, lambda n: vs)
        constant_ops(ctx, be, n, vs[:6])
        if n in (2, 4, 8):
            structure(ctx, be, n, vs[:5], False)


def twin_types(be):
    """user families, two of one name"""
    def mk(base, name):
        return type(name, (base,), {'__module__': 'user'})
    return (mk(be.BV, 'W'), mk(BitVector, 'W')), (mk(be.S, 'W'), mk(SIntVector, 'W'))


def all_jobs(be, tier, base):
    deep = tier == 'thorough'
    out = [Job('bit operators', bit_ops, be)]
    spread = [1, 2, 3, 4, 6, 8, 9, 16, 32, 33, 64]
    t, w = be.types, twin_types(be)
    for k, ws in enumerate((spread, spread[::-1])):
        for types in ((t[0], w[0], t[2]), (w[1], t[1], w[0]), (t[2], w[0], w[1])):
            out.append(Job(f'one process, widths in order {k + 1}, {", ".join(T.__name__ for T, _ in types)}', history, be, ws, types, weight=9))
    for n in (6, 7, 9, 10, 11, 12, 13, 15, 17, 24, 31) + ((48, 63, 65, 100, 128) if deep else ()):
        if n > (6 if deep else 5):
            out.append(Job(f'structure, width {n}', structure, be, n, bvref.corner_values(n, rich=False)[:6], False, weight=6))
    every = lambda n: list(range(1 << n))
    for n in range(1, (6 if deep else 5) + 1):
        out.append(Job(f'symbolic operators, width {n}', symbolic_ops, be, n, every, weight=n))
    for n in (5, 7, 8, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 128) if not deep else \
            [w for w in range(5, 131) if w > 6]:
        out.append(Job(f'symbolic operators, boundary, width {n}', symbolic_ops, be, n, bvref.corner_values, weight=5))
    for n in range(1, (5 if deep else 4) + 1):
        vs = every(n)
        out.append(Job(f'constants, width {n}', constant_ops, be, n, vs, weight=8))
    for n in (8, 32, 64) if not deep else (5, 8, 16, 31, 32, 33, 64, 128):
        out.append(Job(f'constants, width {n}', constant_ops, be, n, bvref.corner_values(n, rich=False)[:8 if not deep else 17], weight=9))
    for n in range(1, (6 if deep else 5) + 1):
        out.append(Job(f'structure, width {n}', structure, be, n, every(n), weight=9))
    for n in (8, 16, 32, 33, 64):
        out.append(Job(f'structure, width {n}', structure, be, n, bvref.corner_values(n, rich=False)[:8], False, weight=6))
    parts = 12
    for n in (1, 2, 3) if not deep else (1, 2, 3, 4):
        for T, C in be.types:
            for i in range(parts):
                out.append(Job(f'programs, {T.__name__}[{n}], part {i + 1}/{parts}', programs, be, n, T, C, i, parts, weight=6))
    return out
