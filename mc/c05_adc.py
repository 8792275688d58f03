"""C05: add with carry, chained over words, and signed overflow.

Model: integer addition.  Concrete, pysmt and z3 vectors; symbolic results are
evaluated under every assignment.
"""
import itertools as it

import bvref
import smteval
import z3eval
from core import Job
from hwtypes import (Bit, BitVector, SIntVector, SMTBit, SMTBitVector, SMTSIntVector, SMTUIntVector, UIntVector,
                     overflow)
from hwtypes.z3_bit_vector import z3Bit, z3BitVector, z3SIntVector, z3UIntVector

PROP = 'C05'
SPACE = {
    'quick': 'all a, b, carry at widths 1-6 and boundary operands at 33 widths to 257, the same values at 12 widths and 5 families in turn in one process (4 orders), carry as Bit, bool, int, list and '
             'one bit vectors of each family, other operand as vector or int; every split of every total width <= 6 into '
             'words and equal words of 7 and 8 bits in total, all operands; overflow of all operands at widths 1-7; the same '
             'for pysmt and z3 terms (widths 1-4, chains to 5 bits) under every assignment',
    'thorough': 'as quick with operands to width 8, word splits to total 8, overflow to width 9, symbolic widths 1-5, '
                'chains to 6 bits',
}
TYPES = (BitVector, UIntVector, SIntVector)
WIDE = (7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 61, 62, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257)
BACKENDS = {
    'pysmt': ((SMTBitVector, SMTUIntVector, SMTSIntVector), SMTBit, smteval.compile_term, lambda v: v.value.symbol_name()),
    'z3': ((z3BitVector, z3UIntVector, z3SIntVector), z3Bit, z3eval.compile_term, lambda v: v.value.decl().name()),
}


def carries(c):
    yield from (Bit(c), bool(c), c, [c], [Bit(c)], BitVector[1](c), UIntVector[1](c), SIntVector[1](c))


def ovf(n, a, b):
    s = bvref.signed(n, a) + bvref.signed(n, b)
    return int(not -(1 << n - 1) <= s < 1 << n - 1)


def concrete(ctx, n, vs, forms, types=TYPES):
    m = (1 << n) - 1
    for T in types:
        for a in vs:
            for b in vs:
                x, y = T[n](a), T[n](b)
                ctx.states += 1
                for c in (0, 1):
                    tot = a + b + c
                    for carry in carries(c) if forms else (Bit(c),):
                        s, co = x.adc(y, carry)
                        ctx.transitions += 1
                        if (type(s), s.as_uint(), type(co), int(co)) != (T[n], tot & m, Bit, tot >> n):
                            ctx.fail('adc', f'{T.__name__}[{n}]({a}).adc({b}, {carry!r}): expected ({tot & m}, {tot >> n}), got ({s!r}, {co!r})')
                    if forms:
                        others = [b, b - (1 << n), [b >> i & 1 for i in range(n)]] + [V[n](b) for V in TYPES]
                        for other in others:
                            s, co = x.adc(other, Bit(c))
                            ctx.check((type(s), s.as_uint(), type(co), int(co)), (T[n], tot & m, Bit, tot >> n), 'adc',
                                      lambda: f'{T.__name__}[{n}]({a}).adc({other!r}, Bit({c}))')
                if (x.as_uint(), y.as_uint()) != (a, b):
                    ctx.fail('operand changed', f'{T}({a}).adc({b})')
                s1 = x.adc(y, 1)[0]
                o = overflow(x, y, s1)
                w = bvref.signed(n, a) + bvref.signed(n, b) + 1
                ctx.check((type(o), int(o)), (Bit, int(not -(1 << n - 1) <= w < 1 << n - 1)), 'overflow', lambda: f'overflow({a}, {b}, {T.__name__}[{n}] sum with carry)')
                o = overflow(x, y, x + y)
                ctx.check((type(o), int(o)), (Bit, ovf(n, a, b)), 'overflow', lambda: f'overflow({a}, {b}, {T.__name__}[{n}] sum)')
        ctx.traces += len(vs)
    ctx.sample(f'{len(vs)}^2 operand pairs at width {n}, carry 0 and 1')


def compositions(n):
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield (k,) + r


def chain(ctx, words, types=TYPES):
    """add two numbers word by word, least significant first"""
    n = sum(words)
    m = (1 << n) - 1
    offs = [sum(words[:i]) for i in range(len(words))]
    for T in types:
        Ws = [T[w] for w in words]
        for a in range(1 << n):
            A = [W(a >> o) for W, o in zip(Ws, offs)]
            for b in range(1 << n):
                B = [W(b >> o) for W, o in zip(Ws, offs)]
                for c in (0, 1):
                    carry = Bit(c)
                    out = None
                    for p, q in zip(A, B):
                        s, carry = p.adc(q, carry)
                        out = s if out is None else out.concat(s)
                        ctx.transitions += 1
                    one, oc = T[n](a).adc(T[n](b), c)
                    if (out.as_uint(), int(carry)) != (a + b + c & m, a + b + c >> n):
                        ctx.fail('adc chain', f'{T.__name__} words {words}: {a} + {b} + {c}: got {out!r} carry {carry!r}')
                    if out.as_uint() != one.as_uint() or int(carry) != int(oc) or type(out) is not type(one):
                        ctx.fail('adc chain', f'{T.__name__} words {words}: {a} + {b} + {c}: one word {one!r}, {oc!r}; chained {out!r}, {carry!r}')
                ctx.states += 1
        ctx.traces += 1
    ctx.sample(f'words {words}: all operands and carries')


def symbolic(ctx, tag, n, vs):
    types, B, comp, nm = BACKENDS[tag]
    m = (1 << n) - 1
    for T in types:
        x, y, p = T[n](), T[n](), B()
        nx, ny, np_ = nm(x), nm(y), nm(p)
        cs = [('p', p, (0, 1)), ('vector', T[1](p), (0, 1)), ('0', 0, (0,)), ('1', 1, (1,)), ('False', False, (0,)),
              ('True', True, (1,)), ('B(1)', B(1), (1,)), ('T[1](1)', T[1](1), (1,))]
        others = [('y', y, vs)] + [(str(k), k, (k,)) for k in vs[:8]] + [(f'const {k}', T[n](k), (k,)) for k in vs[:8]] + [('x', x, None)]
        for cn, c, cvs in cs:
            for on, o, ovs in others:
                s, co = x.adc(o, c)
                ctx.check((type(s), type(co)), (T[n], B), 'adc type', lambda: f'{T.__name__}[{n}] x.adc({on}, {cn})')
                fs, fc = comp(s.value)[1], comp(co.value)[1]
                for a in vs:
                    for b in (a,) if ovs is None else ovs:
                        for cv in cvs:
                            env = {nx: a, ny: b, np_: cv}
                            ctx.states += 1
                            t = a + b + cv
                            ctx.check((fs(env), fc(env)), (t & m, t >> n), f'{tag} adc',
                                      lambda: f'{T.__name__}[{n}] x.adc({on}, {cn}), x={a}, {on}={b}, carry {cv}')
                ctx.traces += 1
        for on, o, ovs in others:
            o = T[n](o) if isinstance(o, int) else o
            f = comp(overflow(x, o, x + o).value)[1]
            for a in vs:
                for b in (a,) if ovs is None else ovs:
                    ctx.check(f({nx: a, ny: b}), ovf(n, a, b), f'{tag} overflow', lambda: f'{T.__name__}[{n}] overflow(x={a}, {on}={b})')
        ctx.check(comp(x.value)[1]({nx: vs[-1]}), vs[-1], 'operand changed', f'{T}')
    ctx.sample(f'{tag} width {n}: {len(vs)}^2 x 2 assignments of x.adc(y, p)')


def symbolic_chain(ctx, tag, words):
    types, B, comp, nm = BACKENDS[tag]
    n = sum(words)
    m = (1 << n) - 1
    for T in types:
        X, Y, p = [T[w]() for w in words], [T[w]() for w in words], B()
        carry, out = p, None
        for u, v in zip(X, Y):
            s, carry = u.adc(v, carry)
            out = s if out is None else out.concat(s)
        ctx.check((type(out), type(carry)), (T[n], B), 'adc chain type', f'{tag} {words}')
        fo, fc = comp(out.value)[1], comp(carry.value)[1]
        offs = [sum(words[:i]) for i in range(len(words))]
        nX, nY, np_ = list(map(nm, X)), list(map(nm, Y)), nm(p)
        for a in range(1 << n):
            ea = {k: a >> o & (1 << w) - 1 for k, o, w in zip(nX, offs, words)}
            for b in range(1 << n):
                eb = {k: b >> o & (1 << w) - 1 for k, o, w in zip(nY, offs, words)}
                for c in (0, 1):
                    env = {**ea, **eb, np_: c}
                    t = a + b + c
                    ctx.states += 1
                    ctx.check((fo(env), fc(env)), (t & m, t >> n), f'{tag} adc chain', lambda: f'{T.__name__} words {words}: {a} + {b} + {c}')
        ctx.traces += 1


class Word(BitVector):
    pass


def twin():
    class Word(SIntVector):
        pass
    return Word


def history(ctx, widths, types):
    """words of many widths and families in turn, in one process"""
    for n in widths:
        concrete(ctx, n, [v for v in (0, 1, 2, 3, 5, 7, 8, 127, 255, 256) if v < 1 << n], True, types)
        for w in (1, 2, 3):
            chain(ctx, (w, n) if n < 4 else (w,), types)


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    spread = [1, 2, 3, 4, 5, 8, 9, 16, 32, 33, 64, 65]
    for k, ws in enumerate((spread, spread[::-1])):
        for types in (TYPES + (Word, twin()), (twin(), Word) + TYPES[::-1]):
            out.append(Job(f'one process, widths in order {k + 1}, {types[0].__name__} first', history, ws, types, weight=9))
    for n in range(1, (8 if deep else 6) + 1):
        out.append(Job(f'adc, width {n}', concrete, n, list(range(1 << n)), n <= 6, weight=n if n < 6 else 20))
    if not deep:
        out.append(Job('adc, width 7, one carry form', concrete, 7, list(range(128)), False, weight=12))
    for n in WIDE if not deep else range(9, 258):
        out.append(Job(f'adc, boundary, width {n}', concrete, n, bvref.corner_values(n, rich=deep), False, weight=2))
    for n in range(1, (8 if deep else 6) + 1):
        for words in compositions(n):
            for T in TYPES:
                out.append(Job(f'{T.__name__} words {words}', chain, words, (T,), weight=n))
    if not deep:
        for words in ((1,) * 7, (3, 4), (4, 4)):
            for T in TYPES:
                out.append(Job(f'{T.__name__} words {words}', chain, words, (T,), weight=15))
    for tag in BACKENDS:
        for n in range(1, (5 if deep else 4) + 1):
            out.append(Job(f'{tag}, width {n}', symbolic, tag, n, list(range(1 << n)), weight=5))
        for n in (8, 31, 32, 33, 64, 65):
            out.append(Job(f'{tag}, boundary, width {n}', symbolic, tag, n, bvref.corner_values(n, rich=False), weight=5))
        for n in range(1, (6 if deep else 5) + 1):
            for words in compositions(n):
                out.append(Job(f'{tag} words {words}', symbolic_chain, tag, words, weight=n))
    return out
