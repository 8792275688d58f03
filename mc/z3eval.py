"""Evaluate z3 terms on Python ints, without asking z3 to evaluate anything.

compile_term(expr) -> (names, fn), as in smteval.
"""
import z3

import bvref

_ENV = {'R': bvref}


def _udiv_i(n, a, b):
    return bvref.bvudiv(n, a, b)


def bvsmod(n, a, b):
    """SMT-LIB bvsmod: sign of the divisor, zero divisor gives the dividend"""
    sa, sb = bvref.signed(n, a), bvref.signed(n, b)
    if sb == 0:
        return a
    r = abs(sa) % abs(sb)
    if r == 0:
        return 0
    if sa >= 0 and sb > 0:
        v = r
    elif sa < 0 and sb > 0:
        v = sb - r
    elif sa >= 0 and sb < 0:
        v = r + sb
    else:
        v = -r
    return bvref.wrap(n, v)


_ENV['bvsmod'] = bvsmod

_BV2 = {
    z3.Z3_OP_BUDIV: 'R.bvudiv', z3.Z3_OP_BUDIV_I: 'R.bvudiv',
    z3.Z3_OP_BUREM: 'R.bvurem', z3.Z3_OP_BUREM_I: 'R.bvurem',
    z3.Z3_OP_BSDIV: 'R.bvsdiv_smt', z3.Z3_OP_BSDIV_I: 'R.bvsdiv_smt',
    z3.Z3_OP_BSREM: 'R.bvsrem_smt', z3.Z3_OP_BSREM_I: 'R.bvsrem_smt',
    z3.Z3_OP_BSMOD: 'bvsmod', z3.Z3_OP_BSMOD_I: 'bvsmod',
    z3.Z3_OP_BSHL: 'R.bvshl', z3.Z3_OP_BLSHR: 'R.bvlshr', z3.Z3_OP_BASHR: 'R.bvashr',
    z3.Z3_OP_EXT_ROTATE_LEFT: 'R.bvrol', z3.Z3_OP_EXT_ROTATE_RIGHT: 'R.bvror',
    z3.Z3_OP_BNAND: 'R.bvnand', z3.Z3_OP_BNOR: 'R.bvnor', z3.Z3_OP_BXNOR: 'R.bvxnor',
    z3.Z3_OP_BSUB: 'R.bvsub', z3.Z3_OP_BCOMP: 'R.bveq',
    z3.Z3_OP_ULEQ: 'R.bvule', z3.Z3_OP_ULT: 'R.bvult', z3.Z3_OP_UGEQ: 'R.bvuge', z3.Z3_OP_UGT: 'R.bvugt',
    z3.Z3_OP_SLEQ: 'R.bvsle', z3.Z3_OP_SLT: 'R.bvslt', z3.Z3_OP_SGEQ: 'R.bvsge', z3.Z3_OP_SGT: 'R.bvsgt',
}
# a zero divisor in the _0 variants means the division is by the constant 0
_ASSOC = {z3.Z3_OP_BADD: ' + ', z3.Z3_OP_BMUL: ' * '}
_BITS = {z3.Z3_OP_BAND: ' & ', z3.Z3_OP_BOR: ' | ', z3.Z3_OP_BXOR: ' ^ '}


def _expr(t, r):
    k = t.decl().kind()
    a = t.children()
    if k == z3.Z3_OP_BNUM:
        return repr(t.as_long())
    if k == z3.Z3_OP_TRUE:
        return '1'
    if k == z3.Z3_OP_FALSE:
        return '0'
    if k == z3.Z3_OP_UNINTERPRETED and not a:
        return f'env[{t.decl().name()!r}]'
    if k in _BV2:
        n = a[0].size()
        assert len(a) == 2
        return f'{_BV2[k]}({n}, {r[0]}, {r[1]})'
    if k in _ASSOC:
        return f'R.wrap({t.size()}, {_ASSOC[k].join(r)})'
    if k in _BITS:
        return '(' + _BITS[k].join(r) + ')'
    if k == z3.Z3_OP_BNOT:
        return f'R.bvnot({t.size()}, {r[0]})'
    if k == z3.Z3_OP_BNEG:
        return f'R.bvneg({t.size()}, {r[0]})'
    if k == z3.Z3_OP_CONCAT:
        s = r[0]
        for x, y in zip(a[1:], r[1:]):
            s = f'({s} << {x.size()} | {y})'
        return s
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = t.params()
        return f'({r[0]} >> {lo} & {bvref.mask(hi - lo + 1)})'
    if k == z3.Z3_OP_ROTATE_LEFT:
        return f'R.bvrol({t.size()}, {r[0]}, {t.params()[0]})'
    if k == z3.Z3_OP_ROTATE_RIGHT:
        return f'R.bvror({t.size()}, {r[0]}, {t.params()[0]})'
    if k == z3.Z3_OP_ZERO_EXT:
        return r[0]
    if k == z3.Z3_OP_SIGN_EXT:
        return f'R.wrap({t.size()}, R.signed({a[0].size()}, {r[0]}))'
    if k == z3.Z3_OP_REPEAT:
        n = a[0].size()
        return '(' + ' | '.join(f'{r[0]} << {i * n}' for i in range(t.size() // n)) + ')'
    if k == z3.Z3_OP_AND:
        return '(' + ' & '.join(r) + ')'
    if k == z3.Z3_OP_OR:
        return '(' + ' | '.join(r) + ')'
    if k == z3.Z3_OP_NOT:
        return f'(1 - {r[0]})'
    if k == z3.Z3_OP_XOR:
        return '(' + ' ^ '.join(r) + ')'
    if k == z3.Z3_OP_IMPLIES:
        return f'((1 - {r[0]}) | {r[1]})'
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
        return f'int({r[0]} == {r[1]})'
    if k == z3.Z3_OP_DISTINCT:
        assert len(a) == 2
        return f'int({r[0]} != {r[1]})'
    if k == z3.Z3_OP_ITE:
        return f'({r[1]} if {r[0]} else {r[2]})'
    if k == z3.Z3_OP_BIT2BOOL:
        return f'({r[0]} >> {t.params()[0]} & 1)'
    raise NotImplementedError(f'{t.decl()} (kind {k}) in {t}')


def compile_term(term):
    order, names, seen = [], set(), {}
    stack = [(term, False)]
    while stack:
        t, done = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        if done:
            seen[i] = f'v{len(seen)}'
            order.append(t)
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(t.decl().name())
        else:
            stack.append((t, True))
            for x in t.children():
                stack.append((x, False))
    lines = ['def f(env):']
    for t in order:
        lines.append(f'    {seen[t.get_id()]} = {_expr(t, [seen[x.get_id()] for x in t.children()])}')
    lines.append(f'    return {seen[term.get_id()]}')
    env = dict(_ENV)
    exec('\n'.join(lines), env)
    return names, env['f']
