"""numpy facade: concrete shapes, symbolic elements (real numpy with object dtype does the
indexing / broadcasting / reshaping; arithmetic is done by the symbolic scalars).
Arrays with symbolic dimensions (arr.SymArr) are dispatched to arr.py."""
import types
import builtins
import numpy as np
from fractions import Fraction
from . import term as T
from . import sym
from .sym import S, SB, SI, lift
from .paths import Infeasible, ctx, Unsupported, Ctx


def is_symarr(x):
    return getattr(x, '_symarr', False)


def anysym(*xs):
    for x in xs:
        if is_symarr(x):
            return True
        if isinstance(x, (list, tuple)) and anysym(*x):
            return True
    return False


def obj(x):
    """array -> object array (bool and integer arrays are left alone)"""
    if isinstance(x, np.ndarray) and x.dtype.kind == 'f':
        r = x.astype(object)
        return r
    return x


def elementwise(f, *args, **k):
    out = k.get('out')
    if all(not isinstance(a, (np.ndarray, list, tuple)) for a in args):
        return f(*args)
    mat = any(isinstance(a, np.matrix) for a in args)
    arrs = [a if isinstance(a, np.ndarray) else _arr(a) for a in args]
    r = np.frompyfunc(f, len(args), 1)(*[np.asarray(a, dtype=object) for a in arrs])
    if not isinstance(r, np.ndarray):
        return r
    return np.asmatrix(r) if mat else r


def _arr(x):
    """array() on nested lists without numpy trying float(S)"""
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (list, tuple)):
        if _hassym(x):
            return np.array(_plain(x), dtype=object)
        return np.array(x)
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _hassym(x):
    if isinstance(x, (list, tuple)):
        return any(_hassym(y) for y in x)
    if isinstance(x, np.ndarray):
        return x.dtype == object
    return isinstance(x, (S, SB))


def _plain(x):
    if isinstance(x, np.ndarray):
        return x.tolist() if x.ndim else x.item()
    if isinstance(x, (list, tuple)):
        return [_plain(y) for y in x]
    return x


def _norm_dtype(dtype):
    """None/float -> object storage"""
    if dtype is None or dtype is symfloat or dtype is float or dtype in (np.float64, 'float', 'd'):
        return object
    if dtype is symint or dtype is int:
        return int
    return dtype


# ---- builtins seen by the verified code
class _FM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, S) and not isinstance(x, SI))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float) or (issubclass(c, S) and not issubclass(c, SI))

    def __call__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.flat[0]
        if isinstance(x, S):
            return S(sym.real(x.t), x.k)
        if is_symarr(x):
            return x.item()
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float
    __hash__ = type.__hash__


class symfloat(metaclass=_FM):
    pass


class _IM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or isinstance(x, SI)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int) or issubclass(c, SI)

    def __call__(cls, x=0, *a):
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.flat[0]
        if isinstance(x, S):
            return sym.toint(x)
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int
    __hash__ = type.__hash__


class symint(metaclass=_IM):
    pass


def sym_max(*a, **k):
    return _mm(a, k, builtins.max, lambda x, y: y > x)


def sym_min(*a, **k):
    return _mm(a, k, builtins.min, lambda x, y: y < x)


def _mm(a, k, native, better):
    if len(a) == 1 and getattr(a[0], '_symarr', False) is True and a[0].ndim == 1 and not k and a[0].vshape[0].op != 'const':
        # no NaN: Python's max/min of a vector is its extreme
        from . import arr
        return (arr.np_max if native is builtins.max else arr.np_min)(a[0])
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(isinstance(x, S) for x in xs):
        return native(*a, **k)
    if k.get('key'):
        return native(*a, **k)
    r = xs[0]
    for x in xs[1:]:
        if better(r, x):
            r = x
    return r


def sym_len(x):
    f = getattr(x, '__symlen__', None)
    if f is not None:
        return f()
    f = getattr(type(x), '__len__', None)
    return f(x) if type(f).__name__ == 'function' and not hasattr(type(x), '_symarr') else builtins.len(x)


def sym_round(x, n=None):
    if isinstance(x, S):
        raise Unsupported('round of symbolic')
    return builtins.round(x, n) if n is not None else builtins.round(x)


def sym_range(*a):
    a = [x.__int__() if isinstance(x, S) and x.t.op == 'const' else x for x in a]
    if any(isinstance(x, S) for x in a):
        from . import loops
        return loops.SymRange(*a)
    return builtins.range(*a)


def sym_sum(it, start=0):
    if is_symarr(it):
        return it.sum()
    return builtins.sum(it, start)


def sym_abs(x):
    return builtins.abs(x)


# ---- the module
class NP(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.random = Random()
        self.linalg = Linalg()
        self.testing = np.testing

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, type) or not callable(v):
            return v

        def generic(*a, **k):
            if anysym(*a, *k.values()):
                from . import arr
                f = getattr(arr, 'np_' + name, None)
                if f is None:
                    raise Unsupported('numpy.%s on arrays of symbolic shape' % name)
                return f(*a, **k)
            a = [_arr(x) if isinstance(x, (list, tuple)) and _hassym(x) and name not in LISTY else x for x in a]
            k = {q: (_norm_dtype(x) if q == 'dtype' else x) for q, x in k.items()}
            r = v(*a, **k)
            return obj(r) if not isinstance(r, (list, tuple)) else r
        generic.__name__ = name
        return generic

    @property
    def pi(self):
        return S(T.PI)


LISTY = ('concatenate', 'hstack', 'vstack', 'append', 'where', 'ix_')


def dispatch(name):
    """decorator: symbolic-shape arguments go to arr.np_<name>"""
    def deco(f):
        def g(*a, **k):
            if anysym(*a, *k.values()):
                from . import arr
                h = getattr(arr, 'np_' + name, None)
                if h is None:
                    raise Unsupported('numpy.%s on arrays of symbolic shape' % name)
                return h(*a, **k)
            return f(*a, **k)
        g.__name__ = name
        setattr(NP, name, staticmethod(g))
        return g
    return deco


def _ew(name, f):
    def g(x, *a, **k):
        return elementwise(f, x)
    dispatch(name)(g)


def _wrapnum(f):
    return f


for _n, _f in (('sin', sym.usin), ('cos', sym.ucos), ('tan', sym.utan), ('exp', sym.uexp), ('log', sym.ulog),
               ('sqrt', sym.usqrt), ('arccos', sym.uarccos), ('arcsin', sym.uarcsin), ('arctan', sym.uarctan),
               ('sign', sym.sign), ('floor', sym.floor_), ('fabs', lambda x: sym.fabs(lift(x)))):
    _ew(_n, _f)


def _abs1(x):
    return sym.fabs(x) if isinstance(x, S) else builtins.abs(x)


for _n in ('abs', 'absolute'):
    _ew(_n, _abs1)


@dispatch('arctan2')
def arctan2(y, x):
    return elementwise(sym.uarctan2, y, x)


def _pred(name, f):
    def g(x, *a, **k):
        r = elementwise(f, x)
        return r.astype(bool) if isinstance(r, np.ndarray) else r
    dispatch(name)(g)


_pred('isnan', lambda x: x.k == 'nan' if isinstance(x, S) else bool(np.isnan(x)))
_pred('isinf', lambda x: x.k in '+-' if isinstance(x, S) else bool(np.isinf(x)))
_pred('isfinite', lambda x: x.k == 'r' if isinstance(x, S) else bool(np.isfinite(x)))


class Numbers(np.ndarray):
    """an array whose elements are numbers: storing a one-element array stores its number, as a float array does"""
    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray) and v.size == 1 and not isinstance(np.ndarray.__getitem__(self, k), np.ndarray):
            v = v.reshape(-1).view(np.ndarray)[0]
        np.ndarray.__setitem__(self, k, v)


def _mk(name):
    f = getattr(np, name)

    def g(shape, dtype=None, *a, **k):
        if isinstance(shape, S):
            shape = (shape,)
        if isinstance(shape, (tuple, list)) and any(isinstance(s, S) and s.t.op != 'const' for s in shape):
            from . import arr
            return arr.make(name, tuple(shape), dtype)
        d = _norm_dtype(dtype)
        if isinstance(shape, (tuple, list)):
            shape = tuple(int(s) for s in shape)
        if d is object:
            r = np.empty(shape, dtype=object)
            r[...] = {'zeros': 0.0, 'ones': 1.0, 'empty': 0.0}[name]
            if name == 'empty':
                for i in np.ndindex(r.shape):
                    r[i] = sym.fresh_real('uninit')
            return r.view(Numbers)
        return f(shape, d)
    setattr(NP, name, staticmethod(g))


for _n in ('zeros', 'ones', 'empty'):
    _mk(_n)


@dispatch('zeros_like')
def zeros_like(x, *a, **k):
    return NP.zeros(np.shape(x))


@dispatch('ones_like')
def ones_like(x, *a, **k):
    return NP.ones(np.shape(x))


@dispatch('array')
def array(x, dtype=None, **k):
    k.pop('copy', None)
    r = _arr(x)
    if r is x and isinstance(r, np.ndarray):
        r = np.array(r)
    d = dtype
    if d is not None and _norm_dtype(d) is not object:
        return r.astype(_norm_dtype(d))
    r = np.array(r, **k) if k else r
    if d is not None:
        return r.astype(object)
    return obj(r)


@dispatch('asarray')
def asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and dtype is None:
        return np.asarray(x)
    return np.asarray(array(x, dtype))


@dispatch('atleast_1d')
def atleast_1d(x):
    return x if getattr(x, 'ndim', 0) >= 1 else NP.array([x])


@dispatch('asmatrix')
def asmatrix(x):
    return np.asmatrix(x if isinstance(x, np.ndarray) else obj(_arr(x)))


class _MatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.matrix) or getattr(x, '_ismatrix', False)

    def __call__(cls, x, dtype=None, **k):
        if anysym(x):
            from . import arr
            return arr.np_matrix(x)
        if isinstance(x, str):
            return np.asmatrix(np.matrix(x).astype(object))
        r = _arr(x)
        return np.asmatrix(np.array(obj(r)))

    def __eq__(cls, o):
        return o is cls or o is np.matrix
    __hash__ = type.__hash__


class symmatrix(metaclass=_MatMeta):
    pass


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray) or is_symarr(x)

    def __call__(cls, *a, **k):
        return np.ndarray(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is np.ndarray
    __hash__ = type.__hash__


class symndarray(metaclass=_NDMeta):
    pass


NP.matrix = symmatrix
NP.ndarray = symndarray


class _F64(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.float64)

    def __call__(cls, x=0.0):
        return symfloat(x)

    def __eq__(cls, o):
        return o is cls or o is np.float64
    __hash__ = type.__hash__


class symf64(metaclass=_F64):
    pass


NP.float64 = symf64


def _minmax(name, better):
    def two(a, b):
        a2, b2 = lift(a), lift(b)
        if a2.k == 'nan':
            return a
        if b2.k == 'nan':
            return b
        return b if better(a2, b2) else a

    def red(x, axis=None, **k):
        x = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
        if x.dtype != object:
            return getattr(np, name)(x, axis=axis, **k)
        u = np.frompyfunc(two, 2, 1)
        kd = k.pop('keepdims', False)
        if k:
            raise Unsupported('keywords %s' % list(k))
        if kd:
            return u.reduce(x, axis=axis if axis is not None else tuple(range(x.ndim)), keepdims=True)
        return u.reduce(x, axis=axis) if axis is not None else u.reduce(np.asarray(x).ravel())
    return two, red


_max2, _amax = _minmax('max', lambda a, b: a < b)
_min2, _amin = _minmax('min', lambda a, b: b < a)
for _n, _f in (('max', _amax), ('amax', _amax), ('min', _amin), ('amin', _amin)):
    dispatch(_n)(_f)


@dispatch('maximum')
def maximum(a, b):
    return elementwise(_max2, a, b)


@dispatch('minimum')
def minimum(a, b):
    return elementwise(_min2, a, b)


@dispatch('where')
def where(c, *a):
    if not a:
        return np.where(c)

    def pick(c, x, y):
        return x if c else y
    return elementwise(pick, c, *a)


@dispatch('mod')
def np_mod(a, b):
    return elementwise(lambda x, y: lift(x) % lift(y), a, b)


@dispatch('power')
def np_power(a, b):
    return elementwise(lambda x, y: lift(x) ** lift(y), a, b)


@dispatch('multiply')
def np_multiply(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.multiply(a, b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return np.multiply(_arr(a), _arr(b))
    return a * b


@dispatch('sum')
def np_sum(x, axis=None, **k):
    if isinstance(x, (list, tuple)):
        x = _arr(x)
    if not isinstance(x, np.ndarray):
        return x
    return np.sum(x, axis=axis, **k)


@dispatch('prod')
def np_prod(x, axis=None, **k):
    if isinstance(x, (list, tuple)):
        x = _arr(x)
    return np.prod(x, axis=axis, **k)


@dispatch('dot')
def np_dot(a, b):
    a, b = _arr(a), _arr(b)
    return np.dot(a, b)


@dispatch('array_equal')
def np_array_equal(a, b):
    a, b = _arr(a), _arr(b)
    if a.shape != b.shape:
        return False
    return all(bool(x == y) for x, y in zip(a.flat, b.flat))


@dispatch('all')
def np_all(x, axis=None, **k):
    if isinstance(x, SB):
        return bool(x)
    x = np.asarray(x)
    if x.dtype == object and axis is None:
        return all(bool(e) for e in x.flat)
    return np.all(x, axis=axis, **k)


@dispatch('any')
def np_any(x, axis=None, **k):
    if isinstance(x, SB):
        return bool(x)
    x = np.asarray(x)
    if x.dtype == object and axis is None:
        return any(bool(e) for e in x.flat)
    return np.any(x, axis=axis, **k)


@dispatch('logical_not')
def np_not(x):
    return elementwise(lambda e: (~e if isinstance(e, SB) else not e), x)


def _finite(x):
    return x


@dispatch('nan_to_num')
def np_nan_to_num(x, *a, **k):
    def f(e):
        e2 = lift(e)
        if e2.k == 'nan':
            return lift(0.0)
        if e2.k != 'r':
            raise Unsupported('nan_to_num(inf)')
        return e
    return elementwise(f, x)


@dispatch('isclose')
def np_isclose(a, b, rtol=1e-05, atol=1e-08):
    def f(x, y):
        return bool(abs(lift(x) - lift(y)) <= lift(atol) + lift(rtol) * abs(lift(y)))
    r = elementwise(f, a, b)
    return r.astype(bool) if isinstance(r, np.ndarray) else r


@dispatch('cross')
def np_cross(a, b):
    a, b = np.asarray(_arr(a)), np.asarray(_arr(b))
    if a.ndim > 1 or b.ndim > 1:
        if a.shape != b.shape or a.shape[-1] != 3:
            raise Unsupported('cross of %r and %r' % (a.shape, b.shape))
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape[:-1]):
            r[i] = np_cross(a[i], b[i])
        return r
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object)


class Linalg(object):
    def norm(self, x, ord=None, axis=None):
        if is_symarr(x):
            from . import arr
            return arr.np_norm(x, axis)
        x = np.asarray(_arr(x))
        sq = np.frompyfunc(lambda e: lift(e) * lift(e), 1, 1)(x)
        s = np.sum(sq, axis=axis)
        return elementwise(sym.usqrt, s)

    def __getattr__(self, n):
        def f(*a, **k):
            h = ctx().mode.get('linalg.' + n)
            if h is None:
                raise Unsupported('numpy.linalg.%s has no contract here' % n)
            return h(*a, **k)
        return f


class Random(object):
    """fresh unconstrained draws within the support of each generator; recorded in ctx().ghost['draws']"""
    def _rec(self, kind, v, **p):
        ctx().ghost.setdefault('draws', []).append((kind, v, p))
        return v

    def _shape(self, size):
        if size is None:
            return None
        if isinstance(size, (int, np.integer, S)):
            return (int(size),)
        return tuple(int(s) for s in size)

    def _fill(self, size, one):
        sh = self._shape(size)
        if sh is None:
            return one()
        r = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            r[i] = one()
        return r

    def normal(self, loc=0.0, scale=1.0, size=None):
        def one():
            z = self._rec('normal', sym.fresh_real('N'), loc=0.0, scale=1.0)
            return z if isinstance(loc, float) and isinstance(scale, float) and (loc, scale) == (0.0, 1.0) else lift(loc) + lift(scale) * z
        if size is None and isinstance(loc, np.ndarray):
            return np.array([self.normal(l, s) for l, s in np.broadcast(loc, scale)], dtype=object).reshape(np.shape(loc))
        return self._fill(size, one)

    def _symsize(self, size):
        return any(isinstance(x, SI) for x in size)

    def _symarr(self, size, dist):
        from . import arr
        d = ctx().ghost.setdefault('draw_arrays', [])
        if len(d) >= ctx().mode.get('max_draws', 10 ** 9):
            raise Infeasible()      # see the contract: a repeated redraw
        nm = '%s_draw%d' % (dist, len(d))
        a = arr.input_array(nm, list(size))
        d.append((nm, dist, a))
        return a

    def randn(self, *size):
        if self._symsize(size):
            return self._symarr(size, 'normal')
        return self._fill(size if size else None, lambda: self._rec('normal', sym.fresh_real('N'), loc=0.0, scale=1.0))

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def _u01(self):
        v = sym.fresh_real('U')
        ctx().assume(T.le(T.ZERO, v.t))
        ctx().assume(T.lt(v.t, T.ONE))
        return v

    def rand(self, *size):
        if self._symsize(size):
            a = self._symarr(size, 'uniform')
            if a.ndim == 1:
                k = T.fresh('k', T.I)
                v = a.xat((k,)).v
                ctx().assume(T.big('forall', k, a.vshape[0], T.and_(T.le(T.ZERO, v), T.lt(v, T.ONE))))
            return a
        return self._fill(size if size else None, lambda: self._rec('uniform', self._u01(), low=0.0, high=1.0))

    def random(self, size=None):
        return self._fill(size, lambda: self._rec('uniform', self._u01(), low=0.0, high=1.0))
    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        def one():
            u = self._u01()
            v = lift(low) + u * (lift(high) - lift(low))
            return self._rec('uniform', v, low=low, high=high)
        return self._fill(size, one)

    def choice(self, *a, **k):
        raise Unsupported('random.choice')

    def seed(self, *a):
        return None

    def randint(self, low, high=None, size=None):
        def one():
            v = sym.fresh_int('RI')
            lo, hi = (0, low) if high is None else (low, high)
            ctx().assume(T.and_(T.le(lift(lo).t, v.t), T.lt(v.t, lift(hi).t)))
            return v
        return self._fill(size, one)

    def __getattr__(self, n):
        raise Unsupported('numpy.random.%s' % n)


class Math(object):
    sin, cos, tan, exp, log, sqrt = map(staticmethod, (sym.usin, sym.ucos, sym.utan, sym.uexp, sym.ulog, sym.usqrt))
    acos, asin, atan, atan2, erf = map(staticmethod, (sym.uarccos, sym.uarcsin, sym.uarctan, sym.uarctan2, sym.uerf))

    @property
    def pi(self):
        return S(T.PI)

    def __getattr__(self, n):
        import math
        return getattr(math, n)


class Special(object):
    @staticmethod
    def erf(x):
        if anysym(x):
            from . import arr
            return arr.np_erf(x)
        return elementwise(sym.uerf, x)

    def __getattr__(self, n):
        raise Unsupported('scipy.special.%s' % n)


class Scipy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'scipy')
        self.special = Special()
        self.stats = Stats()
        self.linalg = Linalg()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        from .load import _Anything
        return _Anything('scipy.' + n)


class Stats(object):
    class norm(object):
        @staticmethod
        def pdf(x, loc=0.0, scale=1.0):
            if anysym(x, loc, scale):
                from . import arr
                z = arr.np_divide(arr.np_subtract(x, loc), scale)
                return arr.np_divide(arr.np_exp(arr.np_multiply(arr.np_multiply(z, z), Fraction(-1, 2))),
                                     arr.np_multiply(scale, sym.usqrt(2 * S(T.PI))))

            def f(x, m, s):
                z = (lift(x) - lift(m)) / lift(s)
                return sym.uexp(-(z * z) / 2) / (lift(s) * sym.usqrt(2 * S(T.PI)))
            return elementwise(f, x, loc, scale)

        @staticmethod
        def cdf(x, loc=0.0, scale=1.0):
            if anysym(x, loc, scale):
                from . import arr
                z = arr.np_divide(arr.np_subtract(x, loc), scale)
                return arr.np_divide(arr.np_add(1, arr.np_erf(arr.np_divide(z, sym.usqrt(2)))), 2)

            def f(x, m, s):
                z = (lift(x) - lift(m)) / lift(s)
                return (1 + sym.uerf(z / sym.usqrt(2))) / 2
            return elementwise(f, x, loc, scale)

    class beta(object):
        @staticmethod
        def pdf(x, a, b):
            return S(T.fn('beta_pdf', lift(x).t, lift(a).t, lift(b).t))

    def __getattr__(self, n):
        raise Unsupported('scipy.stats.%s' % n)
