"""C01: concrete operators against the integer model.

Space: for each width and each of the three vector families, every operand
pair (small widths) or every pair of the boundary alphabet (all widths up to
the bound), under every operator and bv* method; Bits exhaustively.
"""
import operator

import bvref
from core import Job
from hwtypes import Bit, BitVector, SIntVector, UIntVector

PROP = 'C01'
SPACE = {
    'quick': 'all operand pairs at widths 1-8; boundary-alphabet pairs at widths 9-72 and around 96, 128, 192, 256, '
             '512, 1024; the same 15 ints at 18 widths and 7 types (4 user families of one name) in turn in one process, 6 orders; types BitVector, UIntVector, SIntVector; all operators, bv* methods, unary operators; augmented assignments in chains at 11 widths; Bit: all',
    'thorough': 'as quick with all operand pairs at widths 1-10 and boundary pairs at every width to 300',
}
ASSUMPTIONS = ['values between the boundary alphabet points at widths above the exhaustive bound are not enumerated']

PYOP = {'&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift,
        '>>': operator.rshift, '+': operator.add, '-': operator.sub, '*': operator.mul,
        '//': operator.floordiv, '%': operator.mod, '==': operator.eq, '!=': operator.ne,
        '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
TYPES = (BitVector, UIntVector, SIntVector)


def _twin(base):
    class Word(base):
        pass
    return Word


# user families, all of one name
TWINS = tuple(_twin(B) for B in (BitVector, SIntVector, BitVector, UIntVector))


def table(T):
    out = [(name, getattr(T, name), model, kind) for name, (model, kind) in bvref.BINARY.items()]
    out += [(sym, PYOP[sym], model, kind)
            for sym, (model, kind) in bvref.operators(issubclass(T, SIntVector)).items()]
    return out


def rows(ctx, n, lefts, rights, types=TYPES):
    for U in types:
        T = U[n]
        ops = table(T)
        one = U[1]
        bs = [(b, T(b)) for b in rights]
        for a in lefts:
            x = T(a)
            ctx.states += len(bs)
            for name, fn, model, kind in ops:
                for b, y in bs:
                    r = fn(x, y)
                    want = model(n, a, b)
                    if kind == 'b':
                        ok = type(r) is Bit and bool(r) == want
                    elif kind == 'v':
                        ok = type(r) is T and r.as_uint() == want
                    else:
                        ok = type(r) is one and r.as_uint() == want
                    if not ok:
                        ctx.fail(f'{name} on {U.__name__}',
                                 f'{T.__name__}({a}) {name} {T.__name__}({b}): expected '
                                 f'{want} ({kind}), got {r!r} of type {type(r)}')
                ctx.transitions += len(bs)
            for name, fn, model in (('~', operator.invert, bvref.bvnot), ('neg', operator.neg, bvref.bvneg),
                                    ('bvnot', T.bvnot, bvref.bvnot), ('bvneg', T.bvneg, bvref.bvneg)):
                r = fn(x)
                ctx.transitions += 1
                if type(r) is not T or r.as_uint() != model(n, a):
                    ctx.fail(f'{name} on {U.__name__}', f'{name} {T.__name__}({a}): expected '
                             f'{model(n, a)}, got {r!r}')
            # a row ends by checking that no operation disturbed its operands
            ctx.check(x.as_uint(), a, 'operand changed', lambda: f'{T.__name__}({a}) after all operators')
            ctx.traces += 1
        for b, y in bs:
            ctx.check(y.as_uint(), b, 'operand changed', lambda: f'right operand {T.__name__}({b})')
    ctx.sample(f'width {n}: {len(lefts)}x{len(rights)} pairs x {len(table(BitVector[n]))} operators x 3 types, '
               f'e.g. SIntVector[{n}]({lefts[-1]}) // ({rights[-1]}) = '
               f'{bvref.bvsdiv_floor(n, lefts[-1], rights[-1])}')


def history(ctx, widths, orders):
    """one process computes with the same ints at many widths and types, in turn"""
    for types in orders:
        for n in widths:
            top = (1 << n) - 1
            vs = sorted({v for v in (0, 1, 2, 3, 5, 6, 7, 8, 127, 128, 200, 255, 256, 1 << 31, 1 << 32) if v <= top} | {top})
            rows(ctx, n, vs, vs, types)


AUG = {'&': operator.iand, '|': operator.ior, '^': operator.ixor, '<<': operator.ilshift, '>>': operator.irshift, '+': operator.iadd,
       '-': operator.isub, '*': operator.imul, '//': operator.ifloordiv, '%': operator.imod}


def augmented(ctx, n, vals):
    """x op= y then op2= z, over vectors and ints"""
    M = 1 << n
    for U in TYPES + TWINS[:2]:
        T = U[n]
        ref = bvref.operators(issubclass(U, SIntVector))
        forms = [(b, y) for b in vals for y in (T(b), b, b - M)]
        for a in vals:
            for b, y in forms:
                ctx.states += 1
                for s, f in AUG.items():
                    x = T(a)
                    keep = x
                    x = f(x, y)
                    w = ref[s][0](n, a, b)
                    ctx.check((type(x), x.as_uint(), keep.as_uint()), (T, w, a), f'{s}= on {U.__name__}', lambda: f'{T.__name__}({a}) {s}= {y!r}')
                    for s2 in ('>>', '+', '//', '-'):
                        for k in (1, M - 1):
                            z = AUG[s2](AUG[s2](x, k), T(k))
                            w2 = ref[s2][0](n, ref[s2][0](n, w, k), k)
                            ctx.check((type(z), z.as_uint(), x.as_uint()), (T, w2, w), f'{s2}= on {U.__name__}',
                                      lambda: f'{T.__name__}({a}) {s}= {y!r}, {s2}= {k} twice')
            ctx.traces += 1


def bits(ctx):
    ops = {'&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b,
           '==': lambda a, b: int(a == b), '!=': lambda a, b: int(a != b)}

    class MyBit(Bit):
        pass
    forms = {Bit: (0, 1), int: (0, 1), bool: (0, 1)}
    for a in (0, 1):
        x = Bit(a)
        ctx.check(bool(~x), not a, '~ on Bit', f'~Bit({a})')
        ctx.check(type(~x), Bit, '~ type', f'~Bit({a})')
        ctx.check((bool(x), int(x)), (bool(a), a), 'Bit conversion', f'Bit({a})')
        for b in (0, 1):
            for F in (Bit, int, bool):
                y = F(b)
                for s, m in ops.items():
                    for l, r, d in ((x, y, f'Bit({a}) {s} {y!r}'), (y, x, f'{y!r} {s} Bit({a})')):
                        g = PYOP[s](l, r)
                        if s in AUG:
                            h = AUG[s](l, r)
                            ctx.check((type(h), bool(h)), (Bit, bool(m(a, b))), f'{s}= on Bit', d)
                        ctx.state((a, b, F.__name__, s, d))
                        ctx.check((type(g), bool(g)), (Bit, bool(m(a, b))), f'{s} on Bit', d)
            ctx.traces += 1
            ctx.check(hash(Bit(a)) == hash(Bit(b)), a == b, 'Bit hash', f'{a},{b}')
        for ctor in (a, bool(a), Bit(a), BitVector[3](a), float(a)):
            ctx.check(bool(Bit(ctor)), bool(a), 'Bit construction', lambda: f'Bit({ctor!r})')


def widths(tier):
    if tier == 'quick':
        return list(range(8, 73)) + [95, 96, 97, 127, 128, 129, 191, 192, 255, 256, 257, 511, 512, 513, 1024]
    return list(range(8, 301)) + [511, 512, 513, 1023, 1024, 1025, 2048, 4096]


def jobs(tier):
    out = [Job('bits', bits)]
    for n in (1, 2, 3, 4, 8, 16, 32, 33, 64, 65, 128):
        out.append(Job(f'augmented assignments, width {n}', augmented, n, range(1 << n) if n < 4 else bvref.corner_values(n, rich=False)[:8], weight=3))
    spread = [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 31, 32, 33, 48, 64, 65, 100, 128]
    for k, ws in enumerate((spread, spread[::-1], spread[::2] + spread[1::2][::-1])):
        for types in (TYPES + TWINS, TWINS[::-1] + TYPES[::-1]):
            out.append(Job(f'one process, widths in order {k + 1}, {types[0].__name__} first', history, ws, (types,), weight=4))
    top = 8 if tier == 'quick' else 10
    for n in range(1, top + 1):
        vs = list(range(1 << n))
        k = max(1, (1 << (2 * n)) // 2048)
        for i in range(k):
            out.append(Job(f'all pairs, width {n}, part {i + 1}/{k}', rows, n, vs[i::k], vs, weight=4 if n > 5 else 2))
    for n in widths(tier):
        if n > top:
            vs = bvref.corner_values(n, rich=tier == 'thorough' or n in (8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 128))
            out.append(Job(f'boundary pairs, width {n}', rows, n, vs, vs, weight=3 if len(vs) > 25 else 1))
    return out
