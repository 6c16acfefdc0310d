"""Formal derivative of a term with respect to a real variable."""
from fractions import Fraction
from . import term as T
from . import rules
from .term import R


def d(t, x):
    if t is x:
        return T.ONE
    if x not in T.free_vars(t):
        return T.ZERO
    if t.op == 'add':
        return T.add(*[d(a, x) for a in t.args])
    if t.op == 'mul':
        out = []
        for i, a in enumerate(t.args):
            da = d(a, x)
            if da is not T.ZERO:
                out.append(T.mul(da, *[b for k, b in enumerate(t.args) if k != i]))
        return T.add(*out) if out else T.ZERO
    if t.op == 'div':
        a, b = t.args
        return T.div(T.sub(T.mul(d(a, x), b), T.mul(a, d(b, x))), T.mul(b, b))
    if t.op == 'fn':
        f, a = t.args[0], t.args[1]
        da = d(a, x)
        if f == 'exp':
            return T.mul(da, t)
        if f == 'log':
            return T.div(da, a)
        if f == 'sqrt':
            return T.div(da, T.mul(T.const(2, R), t))
        if f == 'sin':
            return T.mul(da, rules.cos(a))
        if f == 'cos':
            return T.neg(T.mul(da, rules.sin(a)))
        if f == 'erf':
            return T.mul(da, T.div(T.const(2, R), rules.sqrt(T.PI)), rules.exp(T.neg(T.mul(a, a))))
    raise ValueError('no derivative for %s' % t.op)
