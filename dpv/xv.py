"""Extended reals as terms: value + NaN / +inf / -inf flags (no forking).  Elements of arrays
whose dimensions are symbolic."""
from fractions import Fraction
from . import term as T
from . import rules
from . import sym
from .term import R, I, B, TRUE, FALSE, ZERO, and_, or_, not_, ite
from .paths import ctx, Ctx, Unsupported


class X(object):
    __slots__ = ('v', 'nan', 'p', 'n')

    def __init__(self, v, nan=FALSE, p=FALSE, n=FALSE):
        self.v, self.nan, self.p, self.n = v, nan, p, n

    def special(self):
        return or_(self.nan, self.p, self.n)

    def finite(self):
        return not_(self.special())

    def isfin(self):
        return self.nan is FALSE and self.p is FALSE and self.n is FALSE

    def __repr__(self):
        return 'X(%s%s%s%s)' % (self.v, '' if self.nan is FALSE else ' nan:%s' % self.nan,
                                '' if self.p is FALSE else ' +inf:%s' % self.p, '' if self.n is FALSE else ' -inf:%s' % self.n)


def x(a):
    """scalar -> X"""
    if isinstance(a, X):
        return a
    a = sym.lift(a)
    if a.k == 'r':
        return X(sym.real(a.t))
    return X(ZERO, TRUE if a.k == 'nan' else FALSE, TRUE if a.k == '+' else FALSE, TRUE if a.k == '-' else FALSE)


def pos(t):
    return T.lt(T.const(0, t.sort), t)


def negt(t):
    return T.lt(t, T.const(0, t.sort))


def zero(t):
    return T.eq(t, T.const(0, t.sort))


def add(a, b):
    if a.isfin() and b.isfin():
        return X(T.add(a.v, b.v))
    nan = or_(a.nan, b.nan, and_(a.p, b.n), and_(a.n, b.p))
    nn = not_(nan)
    return X(T.add(a.v, b.v), nan, and_(nn, or_(a.p, b.p)), and_(nn, or_(a.n, b.n)))


def neg(a):
    return X(T.neg(a.v), a.nan, a.n, a.p)


def sub(a, b):
    return add(a, neg(b))


def spos(a):
    """a > 0 including +inf"""
    return and_(not_(a.nan), or_(a.p, and_(not_(a.n), pos(a.v))))


def sneg(a):
    return and_(not_(a.nan), or_(a.n, and_(not_(a.p), negt(a.v))))


def szero(a):
    return and_(a.finite(), zero(a.v))


def mul(a, b):
    if a.isfin() and b.isfin():
        return X(T.mul(a.v, b.v))
    inf = or_(a.p, a.n, b.p, b.n)
    nan = or_(a.nan, b.nan, and_(or_(a.p, a.n), szero(b)), and_(or_(b.p, b.n), szero(a)))
    ok = and_(inf, not_(nan))
    same = or_(and_(spos(a), spos(b)), and_(sneg(a), sneg(b)))
    return X(T.mul(a.v, b.v), nan, and_(ok, same), and_(ok, not_(same)))


def div(a, b):
    if b.isfin() and b.v.op == 'const' and T.cval(b.v) != 0:
        k = T.cval(b.v)
        v = T.div(a.v, b.v)
        return X(v, a.nan, a.p if k > 0 else a.n, a.n if k > 0 else a.p)
    bz = szero(b)
    if Ctx.cur is not None and bz is not FALSE:
        kn = ctx().pcset.get(bz)
        if kn is None and not T.free_vars(bz) & ctx().ghost.get('bound', set()):
            r = ctx().refuted(bz)
            kn = (False if r else None) if r is not None else (None if ctx().sat(bz) else False)
        if kn is False:
            bz = FALSE
    if a.isfin() and b.isfin() and bz is FALSE:
        return X(T.div(a.v, b.v))
    binf = or_(b.p, b.n)
    ainf = or_(a.p, a.n)
    az = szero(a)
    nan = or_(a.nan, b.nan, and_(ainf, binf), and_(az, bz))
    inf = and_(not_(nan), or_(ainf, bz))
    # a zero divisor counts as +0
    bneg = sneg(b)
    p = and_(inf, or_(and_(spos(a), not_(bneg)), and_(sneg(a), bneg)))
    n = and_(inf, not_(p))
    v = T.div(a.v, b.v)
    v = ite(binf, ZERO, v)
    return X(v, nan, p, n)


def exp(a):
    t = a.v
    p = a.p
    v = rules.exp(t)
    if Ctx.cur is not None and ctx().mode.get('range'):
        f = a.finite()
        p = or_(p, and_(f, T.lt(T.const(sym.EXP_MAX, R), t)))
        v = ite(and_(f, T.lt(t, T.const(sym.EXP_MIN, R))), ZERO, v)
    v = ite(a.n, ZERO, v)
    return X(v, a.nan, p, FALSE)


def log(a):
    t = a.v
    f = a.finite()
    z, ng = zero(t), negt(t)
    if Ctx.cur is not None:
        for c in (z, ng):
            pass
    if sym._sumsq(t):
        ng = FALSE
    if t.op == 'fn' and t.args[0] == 'exp':
        z = FALSE
    return X(rules.log(t), or_(a.nan, a.n, and_(f, ng)), a.p, and_(f, z))


def sqrt(a):
    t = a.v
    ng = FALSE if sym._sumsq(t) else and_(a.finite(), negt(t))
    return X(rules.sqrt(t), or_(a.nan, a.n, ng), a.p, FALSE)


def erf(a):
    return X(ite(a.p, T.ONE, ite(a.n, T.const(-1, R), rules.erf(a.v))), a.nan)


def fabs(a):
    return X(rules.absv(a.v), a.nan, or_(a.p, a.n), FALSE)


def real1(name):
    def f(a):
        return X(rules.mkfn(name, a.v), a.special())
    return f


sin, cos, tan = real1('sin'), real1('cos'), real1('tan')


def cmpx(op, a, b):
    """boolean term"""
    ok = and_(not_(a.nan), not_(b.nan))
    fin = and_(a.finite(), b.finite())
    if op == 'eq':
        return and_(ok, or_(and_(a.p, b.p), and_(a.n, b.n), and_(fin, T.eq(a.v, b.v))))
    if op == 'ne':
        return not_(cmpx('eq', a, b))
    if op == 'lt':
        return and_(ok, or_(and_(a.n, not_(b.n)), and_(b.p, not_(a.p)), and_(fin, T.lt(a.v, b.v))))
    if op == 'gt':
        return cmpx('lt', b, a)
    if op == 'le':
        return or_(cmpx('lt', a, b), cmpx('eq', a, b))
    if op == 'ge':
        return or_(cmpx('lt', b, a), cmpx('eq', a, b))
    raise Unsupported(op)


def sel(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return X(ite(c, a.v, b.v), ite(c, a.nan, b.nan), ite(c, a.p, b.p), ite(c, a.n, b.n))


def same(a, b):
    """term: identical extended reals (NaN equals NaN)"""
    return and_(T.iff(a.nan, b.nan), or_(a.nan, and_(T.iff(a.p, b.p), T.iff(a.n, b.n),
                                                     or_(a.p, a.n, b.nan, b.p, b.n, T.eq(a.v, b.v)))))


def to_scalar(a):
    """X -> S, forking on the flags"""
    c = ctx()
    if c.branch(a.nan):
        return sym.NAN()
    if c.branch(a.p):
        return sym.PINF()
    if c.branch(a.n):
        return sym.NINF()
    return sym.wrap(a.v)


def reduce_sum(v, n, e):
    """sum over 0<=v<n of X-element e (v free in e)"""
    if e.isfin():
        return X(T.big('bigsum', v, n, e.v))
    anyn = T.big('exists', v, n, e.nan)
    anyp = T.big('exists', v, n, e.p)
    anym = T.big('exists', v, n, e.n)
    nan = or_(anyn, and_(anyp, anym))
    val = T.big('bigsum', v, n, ite(e.special(), ZERO, e.v))
    return X(val, nan, and_(not_(nan), anyp), and_(not_(nan), anym))


def reduce_prod(v, n, e):
    if e.isfin():
        return X(T.big('bigprod', v, n, e.v))
    raise Unsupported('product over non-finite elements')


NEG = T.var('-oo', R)
POS = T.var('+oo', R)


def reduce_max(v, n, e):
    anyn = T.big('exists', v, n, e.nan)
    anyp = T.big('exists', v, n, e.p)
    alln = T.big('forall', v, n, e.n) if e.n is not FALSE else FALSE
    val = T.big('bigmax', v, n, ite(e.n, NEG, e.v))
    return X(val, anyn, and_(not_(anyn), anyp), and_(not_(anyn), not_(anyp), alln))


def reduce_min(v, n, e):
    return neg(reduce_max(v, n, neg(e)))
