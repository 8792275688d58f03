"""C02: construction, slicing, joining and conversion against a list of bits.

The model of a vector is (family, [bit0, bit1, ...]).  Part one enumerates
every value, constructor argument, index and slice at small widths; part two
is a breadth first search over chains of structural operations; part three
repeats the single operations at widths around machine word boundaries.
"""
import itertools as it
from collections import deque

import bvref
from core import Job, attempt
from hwtypes import Bit, BitVector, SIntVector, UIntVector
from hwtypes.bit_vector import NumVector

PROP = 'C02'
SPACE = {
    'quick': 'all values at widths 0-5 (every constructor form, index, slice with bounds -n-2..n+2 and steps '
             '+-1..3, extension, repeat, assignment), one-hot and boundary values at widths 6-70 and around 128, 256, 512; '
             'operation chains of length <= 4 over 13 operations from 9 starting vectors; sequences, copies and extensions of 15 to 4097 '
             'at 6 widths; the same 11 values at 12 widths and 5 families (two of one name) in turn in one process, 4 orders; '
             'lists of bits changed by the caller; 3 families, and 4 derived ones to width 3',
    'thorough': 'as quick, all values to width 7, every width to 200, chains of length <= 5',
}
TYPES = (BitVector, UIntVector, SIntVector)


class HasInt:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


class HasIndex(int):
    pass


def to_bits(n, v):
    return [v >> i & 1 for i in range(n)]


def from_bits(bs):
    return sum(b << i for i, b in enumerate(bs))


def observe(ctx, x, U, bs, d):
    """every observer of x against the bit list bs of a vector of family U"""
    n, u = len(bs), from_bits(bs)
    s = bvref.signed(n, u)
    got = dict(type=type(x), as_uint=x.as_uint(), value=x.value, len=len(x), size=x.size, num_bits=x.num_bits,
               bits=list(map(int, x.bits())), bools=x.as_bool_list(), bool=bool(x), binary=x.binary_string(),
               as_binary=x.as_binary_string(), each=[type(b) is Bit and int(b) for b in x])
    want = dict(type=U[n], as_uint=u, value=u, len=n, size=n, num_bits=n, bits=bs, bools=[bool(b) for b in bs],
                bool=u != 0, binary=''.join(map(str, reversed(bs))),
                as_binary='0b' + ''.join(map(str, reversed(bs))), each=bs)
    i = s if issubclass(U, SIntVector) else u
    got.update(as_sint=x.as_sint(), as_int=x.as_int(), int=int(x), str=str(x))
    want.update(as_sint=s, as_int=s, int=i, str=str(i))
    for l in (x.bits(), x.as_bool_list()):
        # a list belongs to the caller
        if isinstance(l, list):
            l[:] = [1 - int(b) for b in l]
            if n % 2:
                l.append(1)
    if list(map(int, x.bits())) != bs or x.as_bool_list() != want['bools']:
        ctx.fail('bits() after changing an earlier list', f'{d}: expected {bs}, got {x.bits()}, {x.as_bool_list()}')
    ctx.transitions += len(want)
    if got != want:
        bad = [k for k in want if got[k] != want[k]]
        ctx.fail(f'{bad[0]} of a {U.__name__}', f'{d}: expected {[(k, want[k]) for k in bad]}, '
                 f'got {[(k, got[k]) for k in bad]}')


def constructors(ctx, n):
    import decimal
    import fractions
    lim = 1 << n
    for U in TYPES:
        T = U[n]
        observe(ctx, T(), U, to_bits(n, 0), f'{T}()')
        for v in range(-2 * lim - 1, 4 * lim + 1):
            bs = to_bits(n, v)
            ctx.state((U.__name__, n, v))
            for c in (v, HasIndex(v), HasInt(v), float(v), fractions.Fraction(v), decimal.Decimal(v)):
                observe(ctx, T(c), U, bs, f'{T}({c!r})')
            observe(ctx, T.make_constant(v), U, bs, f'{T}.make_constant({v})')
            for m in (1, 2, 5):
                observe(ctx, T.make_constant(v, m), U, to_bits(m, v), f'{T}.make_constant({v}, {m})')
            ctx.traces += 1
        for b in (False, True):
            for c in (b, Bit(b)):
                observe(ctx, T(c), U, to_bits(n, int(b)), f'{T}({c!r})')
        for k in range(0, n + 3):
            for seq in it.product((0, 1), repeat=k):
                want = (list(seq) + [0] * n)[:n]
                for c in (list(seq), tuple(seq), [bool(b) for b in seq], [Bit(b) for b in seq]):
                    observe(ctx, T(c), U, want, f'{T}({c!r})')
        for m in range(0, n + 3):
            for V in TYPES:
                for v in range(1 << m):
                    observe(ctx, T(V[m](v)), U, to_bits(n, v), f'{T}({V.__name__}[{m}]({v}))')
        for c in (None, object(), {}, BitVector):
            ctx.raises(TypeError, lambda: T(c), 'unconvertible value accepted', f'{T}({c!r})')
    ctx.sample(f'width {n}: ints {-2 * lim - 1}..{4 * lim}, bit lists to length {n + 2}, vectors to width {n + 2}')


def rewrites(ctx, n, values, depth):
    """every history of item assignments, everything observed before each"""
    for U in TYPES:
        T = U[n]
        idx = list(range(n)) if n <= 4 else [0, n // 2, n - 1]
        acts = [(i, b) for i in idx for b in (0, 1)]
        for v in values:
            for h in it.product(acts, repeat=depth):
                bs = to_bits(n, v)
                x, y = T(v), T(v)
                d = f'{U.__name__}[{n}]({v}) ' + ' '.join(f'x[{i}] = {b}' for i, b in h)
                seen = {hash(x): list(bs)}
                for k, (i, b) in enumerate(h):
                    if k:
                        observe(ctx, x, U, bs, d)
                    x[i] = b
                    bs[i] = b
                    fresh = T(from_bits(bs))
                    ctx.check((hash(x), bool(x == fresh), bool(x != fresh), {x: 1}.get(fresh), {fresh: 1}.get(x)), (hash(fresh), True, False, 1, 1),
                              'hash after an assignment', d)
                observe(ctx, x, U, bs, d)
                if y.as_uint() != v or hash(y) != hash(T(v)):
                    ctx.fail('another vector changed', d)
                ctx.states += 1
                ctx.traces += 1


def indexing(ctx, n, values, all_slices=True):
    bounds = [None] + list(range(-n - 2, n + 3))
    if not all_slices:
        ks = sorted({k for c in (0, 1, 2, 7, 8, 31, 32, 33, 63, 64, n // 2, n - 1, n, n + 1) for k in (c, -c)})
        bounds = [None] + ks
    for U in TYPES:
        for v in values:
            bs = to_bits(n, v)
            x = U[n](v)
            d = f'{U.__name__}[{n}]({v})'
            ctx.state((U.__name__, n, v))
            observe(ctx, x, U, bs, d)
            for i in range(-n - 2, n + 2):
                if -n <= i < n:
                    g = x[i]
                    ctx.check((type(g), int(g)), (Bit, bs[i]), 'index', lambda: f'{d}[{i}]')
                else:
                    ctx.raises(IndexError, lambda: x[i], 'index out of range', lambda: f'{d}[{i}]')
            for i in (None, 'a', 1.0):
                ctx.raises(TypeError, lambda: x[i], 'bad index', lambda: f'{d}[{i!r}]')
            ctx.raises(ValueError, lambda: x[::0], 'zero step', lambda: f'{d}[::0]')
            for a in bounds:
                for b in bounds:
                    for c in (None, 1, 2, 3, -1, -2) if all_slices else (None, 1, 2, -1):
                        g = x[a:b:c]
                        w = bs[a:b:c]
                        ctx.transitions += 1
                        if type(g) is not U[len(w)] or g.as_uint() != from_bits(w):
                            ctx.fail('slice', f'{d}[{a}:{b}:{c}]: expected bits {w}, got {g!r}')
            ctx.check(x.as_uint(), v, 'operand changed', d)
            ctx.traces += 1
    ctx.sample(f'width {n}: {len(values)} values, slice bounds {bounds[:3]}..{bounds[-1]}')


def joining(ctx, n, values, exts, reps, others):
    for U in TYPES:
        for v in values:
            bs = to_bits(n, v)
            x = U[n](v)
            d = f'{U.__name__}[{n}]({v})'
            ctx.state((U.__name__, n, v))
            for k in exts:
                z = bs + [0] * k
                s = bs + [bs[-1]] * k if n else None
                for form in (k, BitVector[16](k)):
                    observe(ctx, x.zext(form), U, z, f'{d}.zext({form!r})')
                    if n:
                        observe(ctx, x.sext(form), U, s, f'{d}.sext({form!r})')
                        observe(ctx, x.ext(form), U, s if issubclass(U, SIntVector) else z, f'{d}.ext({form!r})')
            for r in reps:
                observe(ctx, x.repeat(r), U, bs * r, f'{d}.repeat({r})')
            for k in (-1, -2):
                for m in ('zext', 'sext', 'ext'):
                    ctx.raises(ValueError, lambda: getattr(x, m)(k), 'negative extension', lambda: f'{d}.{m}({k})')
            for r in (0, -1):
                ctx.raises(ValueError, lambda: x.repeat(r), 'repeat <= 0', lambda: f'{d}.repeat({r})')
            for m, w in others:
                for V in TYPES:
                    y = V[m](w)
                    e = f'{d}.concat({V.__name__}[{m}]({w}))'
                    if issubclass(V, U):
                        observe(ctx, x.concat(y), U, bs + to_bits(m, w), e)
                    else:
                        ctx.raises(TypeError, lambda: x.concat(y), 'concat across families', e)
                    ctx.check(y.as_uint(), w, 'operand changed', e)
            for bad in (1, True, Bit(1), None, [1]):
                ctx.raises(TypeError, lambda: x.concat(bad), 'concat of a non vector', lambda: f'{d}.concat({bad!r})')
            # item assignment
            for i in range(-n - 1, n + 1):
                for b in (0, 1):
                    for form in (b, bool(b), Bit(b)):
                        y = U[n](v)
                        e = f'y = {d}; y[{i}] = {form!r}'
                        if -n <= i < n:
                            y[i] = form
                            want = list(bs)
                            want[i] = b
                            ctx.transitions += 1
                            if type(y) is not U[n] or y.as_uint() != from_bits(want):
                                ctx.fail('item assignment', f'{e}: expected {want}, got {y!r}')
                        else:
                            ctx.raises(IndexError, lambda: y.__setitem__(i, form), 'assignment out of range', e)
                            ctx.check(y.as_uint(), v, 'rejected assignment changed the vector', e)
            if n:
                for bad in (2, -1, None, 'a', BitVector[1](1), 1.0, [1]):
                    y = U[n](v)
                    ctx.raises(ValueError, lambda: y.__setitem__(0, bad), 'bad bit assigned', lambda: f'{d}[0] = {bad!r}')
                    ctx.check(y.as_uint(), v, 'rejected assignment changed the vector', lambda: f'{d}[0] = {bad!r}')
                for w in set((v, v ^ 1, v ^ (1 << (n - 1)))):
                    same = bool(x == U[n](w))
                    ctx.check(same, w == v, '== of one type', lambda: f'{d} == {w}')
                    if w == v:
                        ctx.check(hash(x), hash(U[n](w)), 'hash of equal values', lambda: d)
                        ctx.check({x: 1}.get(U[n](w)), 1, 'dictionary key', lambda: d)
            ctx.check(x.as_uint(), v, 'operand changed', d)
            ctx.traces += 1
    ctx.sample(f'width {n}: extensions {list(exts)[:4]}, repeats {list(reps)}, {len(others)} concat operands')


OPS = {
    'x[1:]': (lambda x: x[1:], lambda b: b[1:]),
    'x[:-1]': (lambda x: x[:-1], lambda b: b[:-1]),
    'x[::-1]': (lambda x: x[::-1], lambda b: b[::-1]),
    'x[::2]': (lambda x: x[::2], lambda b: b[::2]),
    'x[1:3]': (lambda x: x[1:3], lambda b: b[1:3]),
    'x.concat(x)': (lambda x: x.concat(x), lambda b: b + b),
    'x[2:].concat(x[:2])': (lambda x: x[2:].concat(x[:2]), lambda b: b[2:] + b[:2]),
    'x.repeat(3)': (lambda x: x.repeat(3), lambda b: b * 3),
    'x.zext(1)': (lambda x: x.zext(1), lambda b: b + [0]),
    'x.sext(2)': (lambda x: x.sext(2), lambda b: b + [b[-1]] * 2),
    'x.ext(1)': (lambda x: x.ext(1), None),
    'x[0] = ~x[0]': (lambda x: _set(x, 0, ~x[0]), lambda b: [1 - b[0]] + b[1:]),
    'x[-1] = x[0]': (lambda x: _set(x, -1, x[0]), lambda b: b[:-1] + [b[0]] if len(b) else b),
}


def _set(x, i, b):
    x[i] = b
    return x


def chains(ctx, n, v, depth, width_cap=40):
    """breadth first over operation chains; a state is (family, bits)"""
    for U in TYPES:
        start = ()
        seen = {tuple(to_bits(n, v))}
        ctx.state((U.__name__, tuple(to_bits(n, v))))
        front = deque([(start, to_bits(n, v))])
        while front:
            hist, bs = front.popleft()
            if len(hist) == depth:
                continue
            for name, (impl, model) in OPS.items():
                if not bs and name not in ('x[1:]', 'x[::-1]', 'x.concat(x)', 'x.zext(1)', 'x.repeat(3)'):
                    continue
                # rebuild the state by its history: live objects are never shared
                x = U[n](v)
                for h in hist:
                    x = OPS[h][0](x)
                if name == 'x.ext(1)':
                    want = bs + [bs[-1] if issubclass(U, SIntVector) else 0]
                else:
                    want = model(list(bs))
                y = impl(x)
                ctx.transitions += 1 + len(hist)
                d = f'x = {U.__name__}[{n}]({v}); ' + '; '.join(hist + (name,))
                observe(ctx, y, U, want, d)
                ctx.traces += 1
                key = tuple(want)
                if key not in seen and len(want) <= width_cap:
                    seen.add(key)
                    ctx.state((U.__name__, key))
                    front.append((hist + (name,), want))
        ctx.sample(f'from {U.__name__}[{n}]({v}): {len(seen)} states, last history {d}')


class MyVector(BitVector):
    pass


class MySigned(SIntVector):
    pass


class Hexed(UIntVector):
    """a user type that prints differently"""
    def __repr__(self):
        return hex(self.as_uint())


def user_types(ctx, fn, *args):
    """the same exploration with types a user derives"""
    global TYPES
    TYPES = (MyVector, NumVector, MySigned, Hexed)
    fn(ctx, *args)


def large(ctx, n):
    """long sequences, many copies, long extensions"""
    counts = (15, 16, 17, 31, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025, 4097)
    for U in TYPES:
        T = U[n]
        for v in bvref.corner_values(n)[:7]:
            bs = to_bits(n, v)
            x = T(v)
            d = f'{U.__name__}[{n}]({v})'
            for k in counts:
                if n * k <= 12000:
                    observe(ctx, x.repeat(k), U, bs * k, f'{d}.repeat({k})')
                observe(ctx, x.zext(k), U, bs + [0] * k, f'{d}.zext({k})')
                observe(ctx, x.sext(k), U, bs + [bs[-1]] * k, f'{d}.sext({k})')
                # a sequence of k bits, of any kind, for a vector of n: the first n of them
                for pat in (lambda i: i % 3 == 0, lambda i: i % 7 in (1, 2), lambda i: i >= k - 2, lambda i: i < n):
                    seq = [int(pat(i)) for i in range(k)]
                    want = (seq + [0] * n)[:n]
                    for form in (seq, tuple(seq), [Bit(b) for b in seq], [bool(b) for b in seq]):
                        observe(ctx, T(form), U, want, f'{U.__name__}[{n}](sequence of {k})')
                    w = seq[:k]
                    observe(ctx, U[k](w), U, w, f'{U.__name__}[{k}](sequence of {k})')
                big = U[k](to_bits(k, v * 0x10001 + 5))
                bb = to_bits(k, v * 0x10001 + 5)
                observe(ctx, x.concat(big), U, bs + bb, f'{d}.concat(of {k})')
                for a, b, c in ((k - 3, None, None), (None, 7, None), (-k - 5, 3, None), (3, -2, 5), (None, None, -1), (k // 2, k + 9, None)):
                    observe(ctx, big[a:b:c], U, bb[a:b:c], f'{U.__name__}[{k}][{a}:{b}:{c}]')
                # an int or a vector with far more bits than fit
                for extra in (v | 5 << n + k, -(v + 1) - (3 << n + k)):
                    observe(ctx, T(extra), U, to_bits(n, extra), f'{U.__name__}[{n}](int of {extra.bit_length()} bits)')
                    observe(ctx, T(HasInt(extra)), U, to_bits(n, extra), f'{U.__name__}[{n}](__int__ of {extra.bit_length()} bits)')
                    observe(ctx, T(U[n + k](extra)), U, to_bits(n, extra), f'{U.__name__}[{n}](vector of {n + k})')
                ctx.state((U.__name__, n, v, k))
            ctx.traces += 1
    ctx.sample(f'width {n}: counts {counts}')


def history(ctx, widths, types):
    """the same values at many widths and families in turn, in one process"""
    global TYPES
    TYPES = types
    for n in widths:
        vs = [v for v in (0, 1, 2, 3, 5, 6, 7, 10, 127, 255, 256) if v < 1 << n]
        for U in types:
            T = U[n]
            for v in vs:
                bs = to_bits(n, v)
                d = f'{U.__name__}[{n}]({v}), after other widths'
                x = T(v)
                observe(ctx, x, U, bs, d)
                for c in (T(bs), T(tuple(bs)), T(HasInt(v)), T.make_constant(v), T(x), T(v - (1 << n)), x[:], x[0:n], x.zext(0)):
                    observe(ctx, c, U, bs, f'{d}, made again')
                for k in (1, 2, 3, 4, 5, 8, 16):
                    observe(ctx, x.zext(k), U, bs + [0] * k, f'{d}.zext({k})')
                    observe(ctx, x.sext(k), U, bs + [bs[-1]] * k, f'{d}.sext({k})')
                    observe(ctx, x.repeat(k), U, bs * k, f'{d}.repeat({k})')
                    observe(ctx, U[k](x), U, (bs + [0] * k)[:k], f'{U.__name__}[{k}]({d})')
                    observe(ctx, x[:k], U, bs[:k], f'{d}[:{k}]')
                    observe(ctx, x[-k:], U, bs[-k:], f'{d}[-{k}:]')
                    observe(ctx, x[::k], U, bs[::k], f'{d}[::{k}]')
                    observe(ctx, x.concat(U[k](v)), U, bs + to_bits(k, v), f'{d}.concat([{k}])')
                    observe(ctx, U[k](v).concat(x), U, to_bits(k, v) + bs, f'[{k}].concat({d})')
                ctx.state((U, n, v))
        ctx.traces += 1
    ctx.sample(f'{len(types)} families, widths in the order {widths}')


def twins():
    class MyVector(SIntVector):
        pass
    return MyVector


def unsized(ctx):
    """a vector made without a width takes that of the value"""
    vals = [*range(66)] + [(1 << k) + d for k in (8, 16, 31, 32, 33, 63, 64, 65, 128) for d in (-1, 0, 1)]
    for T in TYPES:
        for v in vals:
            n = max(len(bin(v)) - 2, 1)
            bs = to_bits(n, v)
            for c in (v, HasInt(v), HasIndex(v)):
                observe(ctx, T(c), T, bs, f'{T.__name__}({type(c).__name__} {v})')
            if v == int(float(v)):
                observe(ctx, T(float(v)), T, bs, f'{T.__name__}({float(v)})')
        for b in (0, 1):
            for c in (bool(b), Bit(b), [b], (Bit(b),), BitVector[1](b)):
                observe(ctx, T(c), T, [b], f'{T.__name__}({c!r})')
        for k in range(7):
            for bs in it.product((0, 1), repeat=k):
                for n, c in ((k, [*bs]), (k, tuple(map(Bit, bs))), (k, [bool(b) for b in bs])):
                    if k:
                        observe(ctx, T(c), T, list(bs), f'{T.__name__}({c})')
                for U in TYPES:
                    observe(ctx, T(U[k](from_bits(bs))), T, list(bs), f'{T.__name__}({U.__name__}[{k}]({from_bits(bs)}))')
        ctx.raises(TypeError, lambda: T(), 'no value', T.__name__)
        for bad in (None, object(), {}):
            ctx.raises(TypeError, lambda: T(bad), 'not a value', f'{T.__name__}({bad!r})')
    ctx.traces += 1


def jobs(tier):
    deep = tier == 'thorough'
    out = [Job('vectors made without a width', unsized, weight=2)]
    for n in (1, 2, 3, 4, 9, 64, 65, 130):
        out.append(Job(f'item assignments, width {n}', rewrites, n, range(1 << n) if n < 4 else sorted(set(bvref.corner_values(n)[:5])), 2 + (n < 3), weight=3))
    top = 7 if deep else 5
    for n in range(0, top + 1):
        out.append(Job(f'constructors, width {n}', constructors, n, weight=n))
        vs = list(range(1 << n))
        step = max(1, len(vs) // 16)
        for k in range(0, len(vs), 16):
            part = vs[k:k + 16]
            out.append(Job(f'indexing, width {n}, values {part[0]}..', indexing, n, part, weight=n))
        others = [(m, w) for m in range(0, 4) for w in range(1 << m)]
        for k in range(0, len(vs), 32):
            part = vs[k:k + 32]
            out.append(Job(f'joining, width {n}, values {part[0]}..', joining, n, part, range(0, 6), range(1, 5), others, weight=n))
        if n <= 3 or deep and n <= 5:
            out.append(Job(f'user types: constructors, width {n}', user_types, constructors, n, weight=n))
            out.append(Job(f'user types: indexing, width {n}', user_types, indexing, n, vs, weight=n))
            out.append(Job(f'user types: joining, width {n}', user_types, joining, n, vs, range(0, 6), range(1, 5), others[:7], weight=n))
    spread = [1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 33, 64]
    for k, ws in enumerate((spread, spread[::-1])):
        for types in ((BitVector, UIntVector, SIntVector, MyVector, twins()), (twins(), SIntVector, MyVector, UIntVector, BitVector)):
            out.append(Job(f'one process, widths in order {k + 1}, {types[0].__name__} first', history, ws, types, weight=4))
    for n in (1, 2, 3, 5, 8, 13, 16, 31, 32, 33, 64, 65, 100, 128) if deep else (1, 3, 5, 8, 32, 65):
        out.append(Job(f'long sequences and many copies, width {n}', large, n, weight=5))
        out.append(Job(f'user types: long sequences and many copies, width {n}', user_types, large, n, weight=5))
    wide = list(range(top + 1, 201 if deep else 71)) + [127, 128, 129, 255, 256, 257, 512]
    for n in wide:
        vs = bvref.corner_values(n)[:9] + [1 << k for k in (n // 3, n // 2, n - 2)]
        full = n <= 10
        out.append(Job(f'wide indexing, width {n}', indexing, n, sorted(set(vs)), full, weight=2))
        others = [(m, w) for m in (1, 8, 32, 64) for w in bvref.corner_values(m)[:6]]
        out.append(Job(f'wide joining, width {n}', joining, n, sorted(set(vs[:6])),
                       (0, 1, 7, 8, 31, 32, 33, 64), (1, 2, 3, 7), others, weight=2))
    for n, v in ((1, 1), (2, 2), (3, 1), (3, 6), (4, 9), (5, 19), (8, 0xA3), (16, 0x8001), (33, 0x100000001)):
        out.append(Job(f'chains from [{n}]({v})', chains, n, v, 5 if deep else 4, 40 if not deep else 80, weight=9))
    return out
