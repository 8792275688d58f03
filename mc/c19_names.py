"""C19: symbolic variables are fresh and names are unique.

Histories of creations (automatic, prefixed, named, of each kind and size),
refused creations and deletions, each replayed from scratch with names of its
own, against a model that knows which names are alive and which symbols were
ever created.  Two threads creating variables are interleaved line by line.
"""
import gc
import itertools as it
import re
import sys

import pysmt.shortcuts as smt
import z3
from pysmt.exceptions import PysmtException
from pysmt.typing import BOOL, BVType, INT

import sched
from core import Job, attempt
from hwtypes.smt_bit_vector import AUTOMATIC
from hwtypes import (Bit, BitVector, RoundingMode, SMTBit, SMTBitVector, SMTFPVector, SMTInt, SMTSIntVector, SMTUIntVector, z3Bit, z3BitVector,
                     z3SIntVector)

PROP = 'C19'
SPACE = {
    'quick': 'pysmt: every history of 3 actions over 8 kinds (Bit, 3 widths and families of vector, Int, 2 FP types, a Bit subclass) x (automatic, prefix, '
             'prefix that looks numbered, 3 explicit names that look like prefixed ones, the next automatic name), 10 refused constructions, deletions '
             'and symbols made with pysmt directly (77 actions); every history of 6 actions over 9 of them; z3: every history of 4 actions over 24, '
             '6 over 7; every refused combination of 11 names, 6 prefixes and 6 values of each kind; 2-thread schedules with at most 2 preemptions',
    'thorough': 'pysmt depth 4 over the full alphabet, 7 over the reduced one; z3 depth 5 and 8; 3 preemptions',
}
ASSUMPTIONS = ['an explicit name that pysmt knows with another sort is refused by pysmt itself; the model only asks that nothing is reserved',
               'a z3 constant is identified by name and sort; automatic z3 names are only fresh among the live objects',
               'the life of an object ends when its last reference goes (CPython reference counting)']


class MyBit(SMTBit):
    pass


KINDS = {
    'Bit': (SMTBit, BOOL), 'BV4': (SMTBitVector[4], BVType(4)), 'S4': (SMTSIntVector[4], BVType(4)), 'U7': (SMTUIntVector[7], BVType(7)),
    'Int': (SMTInt, INT), 'FP34': (SMTFPVector[3, 4, RoundingMode.RNE, True], BVType(8)), 'FP12': (SMTFPVector[2, 1, RoundingMode.RTZ, False], BVType(4)),
    'MyBit': (MyBit, BOOL),
}
Z = {'Bit': (z3Bit, 'Bool'), 'BV4': (z3BitVector[4], 'BV4'), 'S7': (z3SIntVector[7], 'BV7')}
AUTO = re.compile(r'V_(\d+)')


class World:
    """one history: the implementation and the model side by side"""

    def __init__(self, ctx, tag, z=False):
        self.ctx, self.tag, self.z = ctx, tag, z
        self.objs = []            # (object, name)
        self.alive = set()
        self.sorts = {}           # model: symbol name -> sort, of this history
        self.held = []            # exceptions kept alive

    def name(self, n):
        return n.replace('~', self.tag)


def fresh_check(w, name, d):
    """name must belong to no symbol created before in the process"""
    if name in SEEN:
        w.ctx.fail('not fresh', f'{d}: {name!r} was created before')
    SEEN[name] = True


SEEN = {}


def symbol(o, z):
    if isinstance(o, SMTFPVector):
        v = o.reinterpret_as_bv().value
    else:
        v = o.value
    return v.decl().name() if z else v.symbol_name()


def note(name):
    m = AUTO.fullmatch(name)
    if m:
        LAST[0] = max(LAST[0], int(m.group(1)))


LAST = [0]


def create(w, kind, mode, arg, d):
    """one creation; returns False when the history cannot go on"""
    cls, sort = (Z if w.z else KINDS)[kind]
    ctx = w.ctx
    ctx.transitions += 1
    if mode == 'auto' or mode == 'prefix':
        kw = {} if mode == 'auto' else {'prefix': w.name(arg)}
        o = cls(**kw)
        name = symbol(o, w.z)
        note(name)
        if w.z:
            if name in w.alive:
                ctx.fail('not fresh', f'{d()}: {name!r} belongs to a live object')
        else:
            if name in w.sorts:
                ctx.fail('not fresh', f'{d()}: {name!r} exists already')
            fresh_check(w, name, d())
            if mode == 'prefix' and not re.fullmatch(re.escape(kw['prefix']) + r'_\d+', name):
                ctx.fail('prefix ignored', f'{d()}: {name!r} for prefix {kw["prefix"]!r}')
    else:
        name = w.name(arg) if mode == 'name' else f'V_{LAST[0] + arg}'
        if name in w.alive:
            ctx.raises(ValueError, lambda: cls(name=name), 'a live name was given again', d)
            return
        known = w.sorts.get(name)
        if not w.z and known is None and name in SEEN:
            known = smt.get_env().formula_manager.symbols[name].symbol_type()     # an automatic one of an earlier history
        if not w.z and known is not None and known is not sort:
            ctx.raises(PysmtException, lambda: cls(name=name), 'sort clash', d)
            return
        o = cls(name=name)
        if symbol(o, w.z) != name:
            ctx.fail('name not used', f'{d()}: {symbol(o, w.z)!r} for name {name!r}')
        SEEN[name] = True
        note(name)
    if type(o) is not cls:
        ctx.fail('type', f'{d()}: {type(o)}')
    if not w.z:
        v = smt.get_env().formula_manager.symbols.get(name)
        if v is None or v.symbol_type() is not sort:
            ctx.fail('sort', f'{d()}: {name}')
    w.objs.append((o, name))
    w.alive.add(name)
    w.sorts[name] = sort


def refuse(w, kind, what, d):
    cls = (Z if w.z else KINDS)[kind][0]
    n = w.name('~n')
    val = {'Bit': True, 'MyBit': 1}.get(kind, 1)
    before = dict.fromkeys(w.alive)
    calls = {
        'name+value': ((TypeError,), lambda: cls(val, name=n)),
        'prefix+value': ((TypeError,), lambda: cls(val, prefix=w.name('~'))),
        'name+prefix': ((ValueError,), lambda: cls(name=n, prefix=w.name('~'))),
        'name not str': ((TypeError,), lambda: cls(name=7)),
        'bad value': ((TypeError, ValueError), lambda: cls(object())),
        'name+bad value': ((TypeError,), lambda: cls(object(), name=n)),
    }
    exc, fn = calls[what]
    w.ctx.raises(exc, fn, f'refusal of {what}', d)


def raw(w, what, d):
    """symbols of the same solver environment that hwtypes did not create"""
    if what == 'next':
        name = f'V_{LAST[0] + 1}'
    elif what == 'pre':
        name = w.name('~_0')
    else:
        s = smt.FreshSymbol(BOOL)
        if s.symbol_name() in SEEN:
            w.ctx.fail('not fresh', f'{d()}: pysmt fresh symbol')
        SEEN[s.symbol_name()] = True
        w.sorts[s.symbol_name()] = BOOL
        return
    table = smt.get_env().formula_manager.symbols
    if name not in table:
        smt.Symbol(name, BOOL)
        SEEN[name] = True
        w.sorts[name] = BOOL


def distinct(w, path):
    """the live variables are pairwise different symbols, each as created"""
    for o, name in w.objs:
        w.ctx.transitions += 1
        if symbol(o, w.z) != name:
            w.ctx.fail('a symbol changed', f'{" ; ".join(path)}: {name} is now {symbol(o, w.z)}')
    if len({n for _, n in w.objs}) != len(w.objs):
        w.ctx.fail('two live objects share a symbol', f'{" ; ".join(path)}: {[n for _, n in w.objs]}')


def run(w, acts):
    path = []
    for a in acts:
        path.append(' '.join(map(str, a)))
        d = lambda: f'{"z3 " if w.z else ""}{" ; ".join(path)}'
        if a[0] == 'del':
            if w.objs:
                w.alive.discard(w.objs.pop(a[1])[1])
        elif a[0] == 'raw':
            raw(w, a[1], d)
        elif a[0] == 'refuse':
            refuse(w, a[1], a[2], d)
        elif a[0] == 'hold':
            # a refused creation whose exception is kept, as a debugger does
            cls, sort = KINDS[a[1]]
            name = w.name('~n')
            known = w.sorts.get(name)
            if name not in w.alive and known is not None and known is not sort:
                try:
                    cls(name=name)
                except PysmtException as e:
                    w.held.append(e)
            else:
                continue
        elif a[0] == 'derive':
            # an expression over the newest object outlives it
            if w.objs and isinstance(w.objs[-1][0], SMTBit):
                w.held.append(~w.objs[-1][0])
        else:
            create(w, *a, d)
    distinct(w, path)


def alphabet(z, full):
    out = []
    if z:
        for k in (Z if full else ('Bit', 'BV4')):
            out.append((k, 'auto', None))
            out.append((k, 'name', '~n'))
            if full:
                out += [(k, 'name', '~m'), (k, 'next', 1), (k, 'next', 2)]
                out.append(('refuse', k, 'name+value'))
                out.append(('refuse', k, 'name not str'))
        out += [('del', 0), ('del', -1)]
        if not full:
            out.append(('Bit', 'next', 1))
        else:
            out.append(('refuse', 'BV4', 'bad value'))
        return out
    if not full:
        return [('BV4', 'auto', None), ('Bit', 'prefix', '~'), ('BV4', 'name', '~_0'), ('Bit', 'next', 1), ('Bit', 'name', '~_1'), ('FP34', 'auto', None),
                ('Int', 'name', '~n'), ('del', 0), ('del', -1)]
    for k in KINDS:
        out.append((k, 'auto', None))
        fp = k.startswith('FP')
        if not fp:
            out.append((k, 'prefix', '~'))
            if k in ('Bit', 'BV4', 'Int'):
                out.append((k, 'prefix', '~_0'))
        out += [(k, 'name', '~n'), (k, 'name', '~_0'), (k, 'name', '~_1')]
        if k in ('Bit', 'BV4', 'Int', 'FP34'):
            out += [(k, 'next', 1), (k, 'next', 2)]
    for k in ('Bit', 'BV4', 'Int'):
        out += [('refuse', k, x) for x in ('name+value', 'name+prefix')]
    out += [('refuse', 'Bit', 'prefix+value'), ('refuse', 'FP34', 'name+value'), ('refuse', 'BV4', 'name not str'), ('refuse', 'U7', 'name+bad value')]
    out += [('del', 0), ('del', -1), ('raw', 'next'), ('raw', 'pre'), ('raw', 'fresh'), ('hold', 'BV4'), ('hold', 'Bit'), ('derive',)]
    return out


def histories(ctx, z, full, depth, part, of):
    acts = alphabet(z, full)
    gc.disable()
    n = 0
    for lead in range(part, len(acts), of):
        for rest in it.product(acts, repeat=depth - 1):
            h = (acts[lead],) + rest
            w = World(ctx, f'h{n}.{part}x', z)
            n += 1
            run(w, h)
            ctx.states += 1
            ctx.traces += 1
            if n % 50000 == 0:
                gc.collect()
    if part == 0:
        ctx.sample(f'{"z3" if z else "pysmt"}: {len(acts)} actions, depth {depth}')


def refused(ctx, kind, z):
    """every combination of value, name and prefix that is refused, with names and
    prefixes that are equal, lie inside one another or are odd; a refused name stays free"""
    cls, sort = (Z if z else KINDS)[kind]
    prefixes = not z and not kind.startswith('FP')
    free = cls()
    vals = {'Bit': [True, 0, 1], 'MyBit': [False, 1]}.get(kind, [0, 1, 3]) + [free] + ([free.value] if not kind.startswith('FP') else [])
    n = 0
    for name, prefix, v in it.product(['', 'a~', 'b~_0', 'b~_7', 'V_9~', '~ x', 7, None, True, b'a~', AUTOMATIC], ['', 'a~', 'b~', 'b~_0', 'a', AUTOMATIC], ['no'] + vals):
        if prefix is not AUTOMATIC and not prefixes or name is AUTOMATIC and prefix is AUTOMATIC:
            continue
        tag = f'r{kind}{n}x'
        n += 1
        sub = lambda x: x.replace('~', tag) if isinstance(x, str) else x
        name_, prefix_ = sub(name), sub(prefix)
        if name == '' and prefix is AUTOMATIC and isinstance(v, str):
            continue    # an empty name is a name
        kw = {}
        if name is not AUTOMATIC:
            kw['name'] = name_
        if prefix is not AUTOMATIC:
            kw['prefix'] = prefix_
        args = () if isinstance(v, str) else (v,)
        how = lambda: f'{kind}{args} {kw}'
        ctx.state((kind, str(name), str(prefix), str(type(v))))
        known = None if z else set(smt.get_env().formula_manager.symbols)
        if args:
            exc = (TypeError,)
        elif 'name' in kw and 'prefix' in kw:
            exc = (ValueError, TypeError) if not isinstance(name, str) else (ValueError,)
        elif 'name' in kw and not isinstance(name, str):
            exc = (TypeError,)
        else:
            continue
        ctx.raises(exc, lambda: cls(*args, **kw), 'refusal', how)
        if known is not None:
            ctx.check(set(smt.get_env().formula_manager.symbols) - known, set(), 'symbols left by a refusal', how)
        if isinstance(name_, str) and tag in name_:
            x = cls(name=name_)
            ctx.check(symbol(x, z), name_, 'a refused name stays free', how)
            ctx.raises(ValueError, lambda: cls(name=name_), 'a live name was given again', how)
            del x
            gc.collect()
            ctx.check(symbol(cls(name=name_), z), name_, 'a released name can be given again', how)
        ctx.traces += 1


def threads(ctx, a, b, bound):
    """two threads each create two variables; all four symbols differ"""
    n = it.count()

    def make():
        tag = f't{next(n)}'

        def body(what):
            def go():
                out = []
                for kind, mode in what:
                    kw = {} if mode == 'auto' else {'prefix': tag} if mode == 'prefix' else {'name': tag + '_0'}
                    try:
                        out.append(KINDS[kind][0](**kw))
                    except (ValueError, PysmtException):
                        out.append(None)
                return out
            return go
        return [body(a), body(b)]

    def verdict(results, schedule):
        if any(r[0] != 'ok' for r in results):
            ctx.fail('thread raised', f'{a} | {b} schedule {schedule}: {results}')
            return
        names = [symbol(o, False) for r in results for o in r[1] if o is not None]
        ctx.transitions += len(names)
        ctx.traces += 1
        if len(set(names)) != len(names):
            ctx.fail('two threads share a symbol', f'{a} | {b} schedule {schedule}: {names}')
    k = sched.explore(None, verdict, bound, lambda f: f.endswith(('smt_bit_vector.py', 'smt_int.py', 'smt_fp_vector.py')), make)
    ctx.states += k
    ctx.count('schedules', k)


def jobs(tier):
    deep = tier == 'thorough'
    out = []
    for p in range(16):
        out.append(Job(f'histories, full alphabet {p}', histories, False, True, 4 if deep else 3, p, 16, weight=50))
    for p in range(9):
        out.append(Job(f'histories, reduced alphabet {p}', histories, False, False, 7 if deep else 6, p, 9, weight=60))
    for p in range(8):
        out.append(Job(f'z3 histories, full alphabet {p}', histories, True, True, 5 if deep else 4, p, 8, weight=60))
    for p in range(7):
        out.append(Job(f'z3 histories, reduced alphabet {p}', histories, True, False, 8 if deep else 6, p, 7, weight=30))
    for z, ks in ((False, KINDS), (True, Z)):
        for k in ks:
            out.append(Job(f'refused arguments{" z3" * z} {k}', refused, k, z, weight=3))
    seqs = [[('Bit', 'auto'), ('BV4', 'prefix')], [('BV4', 'prefix'), ('Bit', 'auto')], [('Int', 'prefix'), ('Int', 'auto')], [('FP34', 'auto'), ('Bit', 'prefix')]]
    for a, b in it.combinations_with_replacement(seqs, 2):
        out.append(Job(f'threads {a} | {b}', threads, a, b, 3 if deep else 2, weight=30))
    return out
