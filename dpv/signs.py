"""Syntactic sign analysis with the per-element preconditions of input arrays."""
from . import term as T

ALL = frozenset((-1, 0, 1))
_cache = {}
_fact = {}


def fact_sign(name, t):
    """possible signs of any element of an input array, from its precondition"""
    from . import smt
    pre = smt.FACTS.get(name)
    if pre is None:
        return ALL
    r = _fact.get((name, pre))
    if r is None:
        x = T.var('_sg', t.sort)
        p = pre(x)
        z = T.mk('const', T.const(0, t.sort).args, t.sort)
        r = set()
        for s, c in ((-1, T.mk('lt', (x, z), T.B)), (0, T.mk('eq', (x, z), T.B)), (1, T.mk('lt', (z, x), T.B))):
            if smt.check([p], T.mk('not', (c,), T.B), 500)[0] != 'proved':
                r.add(s)
        r = frozenset(r)
        _fact[(name, pre)] = r
    return r


def sign(t):
    r = _cache.get(t)
    if r is None:
        r = _sign(t)
        _cache[t] = r
    return r


def _mul(a, b):
    return frozenset(x * y for x in a for y in b)


def _add(a, b):
    out = set()
    for x in a:
        for y in b:
            if x == 0:
                out.add(y)
            elif y == 0 or x == y:
                out.add(x)
            else:
                out |= {-1, 0, 1}
    return frozenset(out)


def _sign(t):
    if t.op == 'const':
        v = T.cval(t)
        return frozenset((0 if v == 0 else 1 if v > 0 else -1,))
    if t is T.PI:
        return frozenset((1,))
    if t.op == 'var':
        return ALL
    if t.op == 'add':
        s = frozenset((0,))
        for a in t.args:
            s = _add(s, sign(a))
            if len(s) == 3:
                return s
        return s
    if t.op == 'mul':
        cnt = {}
        for a in t.args:
            cnt[a] = cnt.get(a, 0) + 1
        s = frozenset((1,))
        for a, n in cnt.items():
            p = sign(a)
            if n % 2 == 0:
                p = _mul(p, p) if len(p) == 1 else frozenset(x * x for x in p)
            s = _mul(s, p)
        return s
    if t.op == 'div':
        b = sign(t.args[1])
        if 0 in b:
            return ALL
        return _mul(sign(t.args[0]), b)
    if t.op == 'ite':
        c, a, b = t.args
        sa, sb = sign(a), sign(b)
        return sa | sb
    if t.op == 'fn':
        n = t.args[0]
        if n == 'exp' or n.endswith('_pos'):
            return frozenset((1,))
        if n in ('abs', 'sqrt'):
            a = sign(t.args[1])
            if n == 'sqrt' and -1 in a:
                return ALL
            return frozenset(x * x for x in a)
        if n == 'acos' or n.endswith('_nn'):
            return frozenset((0, 1))
        if n in ('erf', 'atan', 'asin'):
            return sign(t.args[1])
        if len(t.args) > 1 and t.sort != T.B:
            return fact_sign(n, t)
        return ALL
    if t.op == 'bigsum' and t.sort == T.R:
        b = sign(t.args[-1])
        return b | {0} if not (1 in b and -1 in b) else ALL
    if t.op == 'toreal' and len(t.args) == 1:
        return sign(t.args[0])
    return ALL


T.SIGN = sign
