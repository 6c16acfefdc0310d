"""Symbolic scalars.  A real is (kind, term): kind in {'r','nan','+','-'} is concrete on every
path (operations whose kind depends on the data fork the path), so IEEE special values are
tracked exactly while finite arithmetic is mathematical (no rounding)."""
import math
import numbers
from fractions import Fraction
import numpy as _np
from . import term as T
from . import rules
from .term import R, I, B
from .paths import ctx, Unsupported, Ctx

EXP_MAX = Fraction(709)         # exp above this is +inf in the range model
EXP_MIN = Fraction(-745)


def frac(x):
    x = float(x)
    r = Fraction(repr(x))
    if r.denominator > 10 ** 12:
        # the double nearest to a quotient of small whole numbers (2./3) stands for the quotient
        q = r.limit_denominator(1000)
        if float(q) == x:
            return q
    return r


class SB(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __and__(self, o):
        return mkb(T.and_(self.t, tb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkb(T.or_(self.t, tb(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkb(T.not_(T.iff(self.t, tb(o))))
    __rxor__ = __xor__

    def __invert__(self):
        return mkb(T.not_(self.t))

    def __eq__(self, o):
        return mkb(T.iff(self.t, tb(o)))

    def __ne__(self, o):
        return mkb(T.not_(T.iff(self.t, tb(o))))
    __hash__ = None

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __int__(self):
        return 1 if bool(self) else 0

    def _num(self):
        return 1 if bool(self) else 0

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __repr__(self):
        return 'SB(%s)' % (self.t,)


def mkb(t):
    if t is T.TRUE:
        return True
    if t is T.FALSE:
        return False
    return SB(t)


def tb(x):
    if isinstance(x, SB):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return T.const(bool(x))
    raise Unsupported('not a boolean: %r' % (x,))


def isnum(x):
    return isinstance(x, (S, numbers.Real, _np.number, _np.bool_)) or isinstance(x, SB)


def lift(x):
    """any scalar -> S"""
    if isinstance(x, S):
        return x
    if isinstance(x, SB):
        return SI(T.const(x._num(), I))
    if isinstance(x, (bool, _np.bool_)):
        return SI(T.const(int(x), I))
    if isinstance(x, (int, _np.integer)):
        return SI(T.const(int(x), I))
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x:
            return S(T.ZERO, 'nan')
        if x == math.inf:
            return S(T.ZERO, '+')
        if x == -math.inf:
            return S(T.ZERO, '-')
        return S(T.const(frac(x), R))
    if isinstance(x, Fraction):
        return S(T.const(x, R))
    if isinstance(x, T.Term):
        return SI(x) if x.sort == I else S(x)
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise Unsupported('cannot lift %r' % type(x))


def wrap(t):
    return SI(t) if t.sort == I else S(t)


NAN, PINF, NINF = (lambda: S(T.ZERO, 'nan')), (lambda: S(T.ZERO, '+')), (lambda: S(T.ZERO, '-'))


def _liftable(x):
    return isinstance(x, (S, SB, numbers.Real, _np.number, _np.bool_))


def _sgn(t):
    """sign of a finite term, forking"""
    if t.op == 'const':
        v = T.cval(t)
        return (v > 0) - (v < 0)
    z = T.const(0, t.sort)
    if ctx().branch(T.eq(t, z)):
        return 0
    return 1 if ctx().branch(T.lt(z, t)) else -1


class S(object):
    __slots__ = ('t', 'k')

    def __init__(self, t, k='r'):
        self.t, self.k = t, k

    def __repr__(self):
        return {'nan': 'S<nan>', '+': 'S<inf>', '-': 'S<-inf>'}.get(self.k) or 'S(%s)' % (self.t,)

    # ---- arithmetic
    def _bin(self, o, f):
        if not _liftable(o):
            return NotImplemented
        return f(self, lift(o))

    def _rbin(self, o, f):
        if not _liftable(o):
            return NotImplemented
        return f(lift(o), self)

    def __add__(self, o): return self._bin(o, add)
    def __radd__(self, o): return self._rbin(o, add)
    def __sub__(self, o): return self._bin(o, sub)
    def __rsub__(self, o): return self._rbin(o, sub)
    def __mul__(self, o): return self._bin(o, mul)
    def __rmul__(self, o): return self._rbin(o, mul)
    def __truediv__(self, o): return self._bin(o, div)
    def __rtruediv__(self, o): return self._rbin(o, div)
    def __floordiv__(self, o): return self._bin(o, floordiv)
    def __rfloordiv__(self, o): return self._rbin(o, floordiv)
    def __mod__(self, o): return self._bin(o, mod)
    def __rmod__(self, o): return self._rbin(o, mod)
    def __pow__(self, o): return self._bin(o, power)
    def __rpow__(self, o): return self._rbin(o, power)
    def __neg__(self): return mul(lift(-1), self)
    def __pos__(self): return self
    def __abs__(self): return fabs(self)

    # ---- comparisons
    def __lt__(self, o): return cmp('lt', self, o)
    def __le__(self, o): return cmp('le', self, o)
    def __gt__(self, o): return cmp('gt', self, o)
    def __ge__(self, o): return cmp('ge', self, o)

    def __eq__(self, o):
        if not _liftable(o):
            return False if o is None or isinstance(o, (str, tuple, list, dict)) else NotImplemented
        return cmp('eq', self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SB) else (not r)

    def __hash__(self):
        return hash((self.t.id, self.k))

    def __bool__(self):
        if self.k != 'r':
            return True
        return not ctx().branch(T.eq(self.t, T.const(0, self.t.sort)))

    def __float__(self):
        if self.k == 'nan':
            return math.nan
        if self.k == '+':
            return math.inf
        if self.k == '-':
            return -math.inf
        if self.t.op == 'const':
            return float(T.cval(self.t))
        raise Unsupported('float() of a symbolic value reached native code')

    def __int__(self):
        if self.k == 'r' and self.t.op == 'const':
            return int(T.cval(self.t))
        raise Unsupported('int() of a symbolic value reached native code')

    def __index__(self):
        if self.t.sort == I:
            return self.__int__()
        raise TypeError('not an integer')

    def __round__(self, n=None):
        return self

    # ---- the numpy object-loop protocol
    def sin(self): return usin(self)
    def cos(self): return ucos(self)
    def tan(self): return utan(self)
    def exp(self): return uexp(self)
    def log(self): return ulog(self)
    def sqrt(self): return usqrt(self)
    def arccos(self): return uarccos(self)
    def arcsin(self): return uarcsin(self)
    def arctan(self): return uarctan(self)
    def arctan2(self, o): return uarctan2(self, o)
    def conjugate(self): return self
    def fabs(self): return fabs(self)

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    @property
    def shape(self): return ()

    @property
    def ndim(self): return 0

    def item(self): return self
    def copy(self): return self
    def flatten(self): return _np.array([self], dtype=object)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def astype(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self


class SI(S):
    """symbolic mathematical integer"""
    __slots__ = ()

    def __init__(self, t, k='r'):
        self.t, self.k = t, k


def fin(*xs):
    return all(x.k == 'r' for x in xs)


def add(a, b):
    if fin(a, b):
        return wrap(T.add(a.t, b.t))
    if a.k == 'nan' or b.k == 'nan' or (a.k != 'r' and b.k != 'r' and a.k != b.k):
        return NAN()
    return S(T.ZERO, a.k if a.k != 'r' else b.k)


def negate(a):
    return {'r': lambda: wrap(T.neg(a.t)), 'nan': NAN, '+': NINF, '-': PINF}[a.k]()


def sub(a, b):
    return add(a, negate(b))


def mul(a, b):
    if fin(a, b):
        return wrap(T.mul(a.t, b.t))
    if a.k == 'nan' or b.k == 'nan':
        return NAN()
    s = 1
    for x in (a, b):
        s *= {'+': 1, '-': -1}.get(x.k) or _sgn(x.t)
    return NAN() if s == 0 else (PINF() if s > 0 else NINF())


def real(t):
    return t if t.sort == R else (T.const(T.cval(t), R) if t.op == 'const' else T.mk('mul', (T.ONE, t), R))


def div(a, b):
    if a.k == 'nan' or b.k == 'nan':
        return NAN()
    if b.k != 'r':
        return NAN() if a.k != 'r' else S(T.ZERO)
    m = ctx().mode.get('div', 'fork') if Ctx.cur else 'fork'
    if b.t.op == 'const':
        z = T.cval(b.t) == 0
    elif m == 'oblige':
        ctx().oblige('no-division-by-zero', T.not_(T.eq(b.t, T.const(0, b.t.sort))))
        ctx().assume(T.not_(T.eq(b.t, T.const(0, b.t.sort))))
        z = False
    else:
        z = ctx().branch(T.eq(b.t, T.const(0, b.t.sort)))
    if z:
        # numpy semantics; the sign of a zero is taken as positive
        if a.k == 'r':
            s = _sgn(a.t)
            return NAN() if s == 0 else (PINF() if s > 0 else NINF())
        return S(T.ZERO, a.k)
    if a.k != 'r':
        return S(T.ZERO, a.k) if _sgn(b.t) > 0 else S(T.ZERO, '-' if a.k == '+' else '+')
    r = T.div(a.t, b.t)
    return S(r)


def floordiv(a, b):
    if not fin(a, b):
        return NAN()
    r = T.idiv(a.t, b.t)
    return wrap(r)


def mod(a, b):
    if not fin(a, b):
        return NAN()
    return wrap(T.imod(a.t, b.t))


def power(a, b):
    if b.k == 'r' and b.t.op == 'const':
        e = T.cval(b.t)
        if e.denominator == 1:
            n = int(e)
            if n == 0:
                return lift(1)
            r = a
            for _ in range(abs(n) - 1):
                r = mul(r, a)
            return r if n > 0 else div(lift(1), r)
        if e == Fraction(1, 2):
            return usqrt(a)
        if e == Fraction(3, 2):
            return mul(usqrt(a), a)
        if e == Fraction(-1, 2):
            return div(lift(1), usqrt(a))
    raise Unsupported('power %r ** %r' % (a, b))


_ORD = {'-': 0, 'r': 1, '+': 2}


def cmp(op, a, o):
    if not _liftable(o):
        return NotImplemented
    b = lift(o)
    if a.k == 'nan' or b.k == 'nan':
        return False
    if fin(a, b):
        if op == 'eq':
            return mkb(T.eq(a.t, b.t))
        if op == 'lt':
            return mkb(T.lt(a.t, b.t))
        if op == 'le':
            return mkb(T.le(a.t, b.t))
        if op == 'gt':
            return mkb(T.lt(b.t, a.t))
        return mkb(T.le(b.t, a.t))
    x, y = _ORD[a.k], _ORD[b.k]
    return {'eq': x == y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op]


def fabs(a):
    if a.k == 'nan':
        return a
    if a.k != 'r':
        return PINF()
    kn = ctx().pcset
    z = T.const(0, a.t.sort)
    if a.t.op != 'const':
        if ctx().mode.get('abs') == 'fork':
            return a if ctx().branch(T.le(z, a.t)) else negate(a)
        if kn.get(T.le(z, a.t)) or kn.get(T.lt(z, a.t)):
            return a
    return wrap(rules.absv(a.t))


# ---- functions
def _real1(name):
    def f(a):
        a = lift(a)
        if a.k != 'r':
            return NAN()
        return S(rules.mkfn(name, real(a.t)))
    return f


usin, ucos, utan = _real1('sin'), _real1('cos'), _real1('tan')


def uexp(a):
    a = lift(a)
    if a.k == 'r':
        t = real(a.t)
        if Ctx.cur is not None and ctx().mode.get('range'):
            if ctx().branch(T.lt(T.const(EXP_MAX, R), t)):
                return PINF()
            if ctx().branch(T.lt(t, T.const(EXP_MIN, R))):
                return S(T.ZERO)
        return S(rules.exp(t))
    return {'nan': NAN, '+': PINF, '-': lambda: S(T.ZERO)}[a.k]()


def ulog(a):
    a = lift(a)
    if a.k == 'r':
        t = real(a.t)
        if t.op == 'const':
            v = T.cval(t)
            if v == 0:
                return NINF()
            if v < 0:
                return NAN()
            return S(rules.log(t))
        if ctx().branch(T.eq(t, T.ZERO)):
            return NINF()
        if ctx().branch(T.lt(t, T.ZERO)):
            return NAN()
        return S(rules.log(t))
    return {'nan': NAN, '+': PINF, '-': NAN}[a.k]()


def domain(cond, what):
    """cond must hold for the operation to be real-valued"""
    if cond is T.TRUE:
        return True
    m = ctx().mode.get('domain', 'fork')
    if m == 'oblige':
        ctx().oblige('domain of ' + what, cond)
        ctx().assume(cond)
        return True
    if m == 'assume':
        ctx().note('assumed: argument of %s inside its domain' % what)
        ctx().assume(cond)
        return True
    return ctx().branch(cond)


def usqrt(a):
    a = lift(a)
    if a.k == 'r':
        t = real(a.t)
        if t.op != 'const' and _sumsq(t):
            return S(rules.sqrt(t))
        if not domain(T.le(T.ZERO, t), 'sqrt'):
            return NAN()
        return S(rules.sqrt(t))
    return {'nan': NAN, '+': PINF, '-': NAN}[a.k]()


def _sumsq(t):
    """syntactically a sum of squares / nonnegative things"""
    if t.op == 'const':
        return T.cval(t) >= 0
    if T.SIGN is not None and -1 not in T.SIGN(t):
        return True
    if t.op == 'add':
        return all(_sumsq(a) for a in t.args)
    if t.op == 'mul':
        args = list(t.args)
        if args[0].op == 'const':
            if T.cval(args[0]) < 0:
                return False
            args = args[1:]
        cnt = {}
        for a in args:
            cnt[a] = cnt.get(a, 0) + 1
        return all(n % 2 == 0 or _sumsq(a) for a, n in cnt.items())
    if t.op == 'fn':
        return t.args[0] in ('exp', 'abs', 'sqrt', 'acos')
    return False


def uarccos(a):
    a = lift(a)
    if a.k != 'r':
        return NAN()
    t = real(a.t)
    if not domain(T.and_(T.le(T.const(-1, R), t), T.le(t, T.ONE)), 'arccos'):
        return NAN()
    if t.op == 'const' and T.cval(t) in (0, 1, -1):
        return S({0: T.mul(T.const(Fraction(1, 2), R), T.PI), 1: T.ZERO, -1: T.PI}[int(T.cval(t))])
    return S(rules.mkfn('acos', t))


def uarcsin(a):
    a = lift(a)
    if a.k != 'r':
        return NAN()
    t = real(a.t)
    if not domain(T.and_(T.le(T.const(-1, R), t), T.le(t, T.ONE)), 'arcsin'):
        return NAN()
    if t.op == 'const' and T.cval(t) in (0, 1, -1):
        return S(T.mul(T.const(Fraction(int(T.cval(t)), 2), R), T.PI))
    return S(rules.mkfn('asin', t))


def uarctan(a):
    a = lift(a)
    if a.k == 'r':
        return S(rules.mkfn('atan', real(a.t)))
    if a.k == 'nan':
        return a
    return S(T.mul(T.const(Fraction(1 if a.k == '+' else -1, 2), R), T.PI))


def uarctan2(y, x):
    y, x = lift(y), lift(x)
    if not fin(x, y):
        return NAN()
    ty, tx = real(y.t), real(x.t)
    if ty.op == 'const' and tx.op == 'const':
        vy, vx = T.cval(ty), T.cval(tx)
        if vy == 0:
            return S(T.ZERO if vx >= 0 else T.PI)
        if vx == 0:
            return S(T.mul(T.const(Fraction(1 if vy > 0 else -1, 2), R), T.PI))
    return S(rules.mkfn('atan2', ty, tx))


def uerf(a):
    a = lift(a)
    if a.k == 'r':
        t = real(a.t)
        if Ctx.cur is not None and ctx().mode.get('erf_saturates'):
            # 1+erf(x) is exactly 0 or 2 in double precision beyond |x| = 6
            if ctx().branch(T.lt(T.const(6, R), t)):
                return S(T.ONE)
            if ctx().branch(T.lt(t, T.const(-6, R))):
                return S(T.const(-1, R))
        return S(rules.erf(t))
    return {'nan': NAN, '+': lambda: S(T.ONE), '-': lambda: S(T.const(-1, R))}[a.k]()


def sign(a):
    a = lift(a)
    if a.k == 'r':
        s = _sgn(a.t)
        return lift(s)
    return {'nan': NAN, '+': lambda: lift(1), '-': lambda: lift(-1)}[a.k]()


def toint(x):
    """int() : truncation"""
    x = lift(x)
    if not fin(x):
        raise ValueError('cannot convert float infinity/NaN to integer')
    if x.t.sort == I:
        return x
    fl = rules.mkfn('floor', x.t, sort=I)
    if ctx().branch(T.le(T.ZERO, x.t)):
        return SI(fl)
    return SI(T.neg(rules.mkfn('floor', T.neg(x.t), sort=I)))


def floor_(x):
    x = lift(x)
    if not fin(x):
        return x
    return wrap(rules.mkfn('floor', x.t, sort=I))


# ---- inputs
def real_var(name):
    return S(T.var(name, R))


def int_var(name):
    return SI(T.var(name, I))


def fresh_real(p='v'):
    return S(T.fresh(p, R))


def fresh_int(p='n'):
    return SI(T.fresh(p, I))


def assume(b):
    ctx().assume(tb(b))


def oblige(name, b, **meta):
    ctx().oblige(name, tb(b), **meta)


def eqt(a, b):
    """term: a and b are the same extended real (NaN == NaN)"""
    a, b = lift(a), lift(b)
    if a.k != b.k:
        return T.FALSE
    return T.TRUE if a.k != 'r' else T.eq(real(a.t), real(b.t))
