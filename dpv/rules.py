"""Smart constructors for interpreted function symbols (sound simplifications only)."""
from fractions import Fraction
from .term import *          # noqa
from . import term as T


def _sign_lead(t):
    """+1/-1 'leading' sign used to orient odd/even functions"""
    if t.op == 'const':
        return -1 if cval(t) < 0 else 1
    if t.op == 'mul' and t.args[0].op == 'const':
        return -1 if cval(t.args[0]) < 0 else 1
    if t.op == 'add':
        for a in t.args:          # sorted by id: deterministic
            if a.op != 'const':
                return _sign_lead(a)
    return 1


def pimult(t):
    """q with t == q*pi (Fraction), else None"""
    if t is T.PI:
        return Fraction(1)
    if t.op == 'const' and cval(t) == 0:
        return Fraction(0)
    if t.op == 'mul' and len(t.args) == 2 and t.args[0].op == 'const' and t.args[1] is T.PI:
        return Fraction(cval(t.args[0]))
    return None


_SQ = {}


def sqrt_const(c):
    """sqrt of a nonnegative rational as term: r * sqrt(squarefree)"""
    c = Fraction(c)
    n = c.numerator * c.denominator
    r, k = 1, 2
    while k * k <= n and k < 2000:
        while n % (k * k) == 0:
            n //= k * k
            r *= k
        k += 1
    import math
    s = math.isqrt(n)
    if s * s == n:
        r, n = r * s, 1
    coef = const(Fraction(r, c.denominator), R)
    if n == 1:
        return coef
    return mul(coef, fn('sqrt', const(n, R)))


_INV = {'tan': 'atan', 'sin': 'asin', 'cos': 'acos'}


def mkfn(name, *a, sort=R):
    if name in _INV and a[0].op == 'fn' and a[0].args[0] == _INV[name]:
        return a[0].args[1]
    if name == 'exp':
        t = a[0]
        if is_const(t) and cval(t) == 0:
            return ONE
        if t.op == 'fn' and t.args[0] == 'ln_pos':
            return t.args[1]
    elif name == 'log':
        if is_const(a[0]) and cval(a[0]) == 1:
            return ZERO
    elif name == 'sqrt':
        t = a[0]
        if is_const(t) and cval(t) >= 0:
            return sqrt_const(cval(t))
    elif name in ('sin', 'tan', 'erf', 'asin', 'atan', 'arcsinh', 'sinh'):
        t = a[0]
        if is_const(t) and cval(t) == 0:
            return ZERO
        if _sign_lead(t) < 0:
            return neg(mkfn(name, neg(t)))
        if name == 'sin':
            r = _sincos(t, True)
            if r is not None:
                return r
    elif name in ('cos', 'abs', 'cosh'):
        t = a[0]
        if is_const(t) and cval(t) == 0:
            return ONE if name != 'abs' else ZERO
        if name == 'abs' and is_const(t):
            return const(abs(cval(t)), t.sort)
        if _sign_lead(t) < 0:
            return mkfn(name, neg(t), sort=sort)
        if name == 'cos':
            r = _sincos(t, False)
            if r is not None:
                return r
    elif name == 'sign':
        if is_const(a[0]):
            v = cval(a[0])
            return const((v > 0) - (v < 0), R)
    elif name == 'floor':
        if a[0].sort == I:
            return a[0]
        if is_const(a[0]):
            return const(cval(a[0]).__floor__(), I)
    return fn(name, *a, sort=sort)


_TAB = {}


def _sincos(t, is_sin):
    q = pimult(t)
    if q is None:
        return None
    q = q % 2
    if is_sin:
        q = (q - Fraction(1, 2)) % 2      # sin x = cos(x - pi/2)
    if q > 1:
        q = 2 - q                          # cos(2pi - x) = cos x
    sgn = 1
    if q > Fraction(1, 2):
        q, sgn = 1 - q, -1
    h = Fraction(1, 2)
    tab = {Fraction(0): ONE, h: ZERO, Fraction(1, 3): const(h, R),
           Fraction(1, 4): mul(const(h, R), fn('sqrt', const(2, R))),
           Fraction(1, 6): mul(const(h, R), fn('sqrt', const(3, R)))}
    r = tab.get(q)
    return None if r is None else mul(const(sgn, R), r)


def exp(t): return mkfn('exp', t)
def log(t): return mkfn('log', t)
def sqrt(t): return mkfn('sqrt', t)
def sin(t): return mkfn('sin', t)
def cos(t): return mkfn('cos', t)
def erf(t): return mkfn('erf', t)


def absv(t):
    if T.SIGN is not None:
        s = T.SIGN(t)
        if -1 not in s:
            return t
        if 1 not in s:
            return T.neg(t)
    return mkfn('abs', t, sort=t.sort)
