"""Evaluate pysmt terms: SMT-LIB semantics written out on Python ints.

compile_term(term) -> (names, fn) where fn(dict name -> int) is the term's
value: an int in [0, 2**w) for vectors, an int for Int, 0/1 for Bool.
This does not use pysmt's simplifier or any solver.
"""
import pysmt.operators as op

import bvref


def int_div(a, b):
    """SMT-LIB div: a = b*q + r with 0 <= r < |b|"""
    q = a // abs(b)
    return q if b > 0 else -q


_ENV = {'R': bvref, 'int_div': int_div}
_BV2 = {
    op.BV_AND: 'bvand_', op.BV_OR: 'bvor_', op.BV_XOR: 'bvxor_',
    op.BV_ADD: 'bvadd', op.BV_SUB: 'bvsub', op.BV_MUL: 'bvmul',
    op.BV_UDIV: 'bvudiv', op.BV_UREM: 'bvurem', op.BV_SDIV: 'bvsdiv_smt', op.BV_SREM: 'bvsrem_smt',
    op.BV_LSHL: 'bvshl', op.BV_LSHR: 'bvlshr', op.BV_ASHR: 'bvashr',
    op.BV_COMP: 'bveq', op.BV_ULT: 'bvult', op.BV_ULE: 'bvule', op.BV_SLT: 'bvslt', op.BV_SLE: 'bvsle',
}


def _width(t):
    return t.get_type().width


def _expr(t, ref):
    """Python expression for node t, whose arguments are the names ref(arg)"""
    k, a = t.node_type(), t.args()
    r = [ref(x) for x in a]
    if k == op.SYMBOL:
        return f'env[{t.symbol_name()!r}]'
    if k == op.BV_CONSTANT or k == op.INT_CONSTANT:
        return repr(int(t.constant_value()))
    if k == op.BOOL_CONSTANT:
        return repr(int(t.constant_value()))
    if k in _BV2:
        n = _width(a[0])
        assert all(_width(x) == n for x in a) and len(a) == 2
        return f'R.{_BV2[k]}({n}, {r[0]}, {r[1]})'
    if k == op.BV_NOT:
        return f'R.bvnot({_width(t)}, {r[0]})'
    if k == op.BV_NEG:
        return f'R.bvneg({_width(t)}, {r[0]})'
    if k == op.BV_CONCAT:
        assert len(a) == 2
        return f'({r[0]} << {_width(a[1])} | {r[1]})'
    if k == op.BV_EXTRACT:
        lo, hi = t.bv_extract_start(), t.bv_extract_end()
        assert 0 <= lo <= hi < _width(a[0]) and _width(t) == hi - lo + 1
        return f'({r[0]} >> {lo} & {bvref.mask(hi - lo + 1)})'
    if k in (op.BV_ROL, op.BV_ROR):
        s = t.bv_rotation_step()
        assert 0 <= s < _width(t) or _width(t) == 1
        return f"R.{'bvrol' if k == op.BV_ROL else 'bvror'}({_width(t)}, {r[0]}, {s})"
    if k == op.BV_ZEXT:
        assert _width(t) == _width(a[0]) + t.bv_extend_step()
        return r[0]
    if k == op.BV_SEXT:
        assert _width(t) == _width(a[0]) + t.bv_extend_step()
        return f'R.wrap({_width(t)}, R.signed({_width(a[0])}, {r[0]}))'
    if k == op.BV_TONATURAL:
        return r[0]
    if k == op.AND:
        return '(' + ' & '.join(r) + ')'
    if k == op.OR:
        return '(' + ' | '.join(r) + ')'
    if k == op.NOT:
        return f'(1 - {r[0]})'
    if k == op.IMPLIES:
        return f'((1 - {r[0]}) | {r[1]})'
    if k in (op.IFF, op.EQUALS):
        return f'int({r[0]} == {r[1]})'
    if k == op.ITE:
        return f'({r[1]} if {r[0]} else {r[2]})'
    if k == op.LE:
        return f'int({r[0]} <= {r[1]})'
    if k == op.LT:
        return f'int({r[0]} < {r[1]})'
    if k == op.PLUS:
        return '(' + ' + '.join(r) + ')'
    if k == op.TIMES:
        return '(' + ' * '.join(r) + ')'
    if k == op.MINUS:
        return f'({r[0]} - {r[1]})'
    if k == op.DIV:
        return f'int_div({r[0]}, {r[1]})'
    if k == op.POW:
        return f'({r[0]} ** {r[1]})'
    raise NotImplementedError(f'{op.op_to_str(k)} in {t}')


def compile_term(term):
    order, names, seen = [], set(), {}

    def visit(t):
        stack = [(t, False)]
        while stack:
            t, done = stack.pop()
            if t in seen:
                continue
            if done:
                seen[t] = f'v{len(seen)}'
                order.append(t)
                if t.node_type() == op.SYMBOL:
                    names.add(t.symbol_name())
            else:
                stack.append((t, True))
                for x in t.args():
                    stack.append((x, False))

    visit(term)
    lines = ['def f(env):']
    for t in order:
        # ITE branches may divide by zero only where SMT leaves Int division
        # unspecified; those terms are never compared
        lines.append(f'    {seen[t]} = {_expr(t, seen.__getitem__)}')
    lines.append(f'    return {seen[term]}')
    env = dict(_ENV)
    exec('\n'.join(lines), env)
    return names, env['f']


def evaluate(term, env):
    return compile_term(term)[1](env)
