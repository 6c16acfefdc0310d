"""Arrays whose dimensions may be symbolic integers.

An array is a buffer (shape + element function from index terms to X / boolean terms / integer
terms) seen through a strided view, so that in-place writes through views behave as numpy's."""
import builtins
import numpy as np
from . import term as T
from . import xv, sym
from .term import R, I, B, TRUE, FALSE, ZERO, and_, or_, not_, ite
from .sym import S, SI, SB, lift
from .paths import ctx, Ctx, Unsupported

MAXCONC = 64
_IZ = T.IZERO


def dim(d):
    """int or S -> Term (sort I)"""
    if isinstance(d, T.Term):
        return d
    if isinstance(d, S):
        return d.t
    return T.const(int(d), I)


def dimval(t):
    """Term -> int when constant else SI"""
    return int(T.cval(t)) if t.op == 'const' else SI(t)


def isone(t):
    return t.op == 'const' and T.cval(t) == 1


def conc(t):
    return int(T.cval(t)) if t.op == 'const' else None


class Buf(object):
    __slots__ = ('shape', 'f', 'kind')

    def __init__(self, shape, f, kind):
        self.shape, self.f, self.kind = shape, f, kind


def ivar(p='i'):
    return T.fresh(p, I)


def _noargs(r, k):
    if any(x is not None for x in r):
        raise Unsupported('positional reduction arguments')
    return k


class Flags(dict):
    def __getitem__(self, k):
        return True


class SymArr(object):
    _symarr = True
    __array_ufunc__ = None
    __array_priority__ = 1000
    flags = Flags()

    def __init__(self, buf, vshape=None, vmap=None, ismatrix=False):
        """vmap: per buffer dim ('fix', term) | ('dim', view axis, start, step)"""
        self.buf = buf
        if vshape is None:
            vshape = list(buf.shape)
            vmap = [('dim', i, T.IZERO, 1) for i in range(len(vshape))]
        self.vshape, self.vmap = list(vshape), vmap
        self._ismatrix = ismatrix

    # ---- basics
    @property
    def shape(self):
        return tuple(dimval(d) for d in self.vshape)

    @property
    def ndim(self):
        return len(self.vshape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def dtype(self):
        return {'f': np.dtype(float), 'b': np.dtype(bool), 'i': np.dtype(int)}[self.buf.kind]

    @property
    def kind(self):
        return self.buf.kind

    def __symlen__(self):
        return dimval(self.vshape[0])

    def __len__(self):
        d = conc(self.vshape[0])
        if d is None:
            raise Unsupported('native len of symbolic dimension')
        return d

    def __iter__(self):
        d = conc(self.vshape[0])
        if d is None:
            from . import loops
            raise Unsupported('native iteration over a symbolic dimension')
        return iter([self[i] for i in range(d)])

    def at(self, idx):
        """element at view index terms"""
        b = []
        for m in self.vmap:
            if m[0] == 'fix':
                b.append(m[1])
            else:
                b.append(T.add(m[2], T.mul(T.const(m[3], I), idx[m[1]])))
        return self.buf.f(tuple(b))

    def xat(self, idx):
        e = self.at(idx)
        if self.kind == 'b':
            return xv.X(ite(e, T.ONE, ZERO))
        if self.kind == 'i':
            return xv.X(sym.real(e))
        return e

    def copy(self, *a):
        snap = SymArr(Buf(self.buf.shape, self.buf.f, self.buf.kind), self.vshape, self.vmap)
        return make_arr(self.vshape, snap.at, self.kind, self._ismatrix)
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt=None, copy=True, **k):
        from . import snp
        if dt in (int, bool) or dt is snp.symint:
            raise Unsupported('astype %s' % dt)
        if self.kind == 'f':
            return self.copy() if copy else self
        return make_arr(self.vshape, self.xat, 'f')

    def __repr__(self):
        return 'SymArr(%s,%s)' % (self.shape, self.kind)

    # ---- reshaping views
    def _view(self, vshape, vmap):
        return SymArr(self.buf, vshape, vmap)

    def permute(self, order):
        inv = {o: i for i, o in enumerate(order)}
        return SymArr(self.buf, [self.vshape[o] for o in order],
                      [m if m[0] == 'fix' else ('dim', inv[m[1]], m[2], m[3]) for m in self.vmap], self._ismatrix)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        return self.permute(list(axes) if axes else list(range(self.ndim))[::-1])

    @property
    def T(self):
        return self.transpose()

    def expand(self, axis):
        if axis < 0:
            axis += self.ndim + 1
        vs = self.vshape[:axis] + [T.IONE] + self.vshape[axis:]
        return SymArr(self.buf, vs, [m if m[0] == 'fix' or m[1] < axis else ('dim', m[1] + 1, m[2], m[3]) for m in self.vmap])

    def drop(self, axis, at=_IZ):
        """remove a view axis, fixing its index"""
        vs = self.vshape[:axis] + self.vshape[axis + 1:]
        vm = []
        for m in self.vmap:
            if m[0] == 'fix' or m[1] < axis:
                vm.append(m)
            elif m[1] == axis:
                vm.append(('fix', T.add(m[2], T.mul(T.const(m[3], I), at))))
            else:
                vm.append(('dim', m[1] - 1, m[2], m[3]))
        return self._view(vs, vm)

    def squeeze(self, axis=None):
        if self._ismatrix:
            raise Unsupported('squeeze of a matrix')
        r = self
        axes = range(self.ndim) if axis is None else ([axis] if not isinstance(axis, tuple) else axis)
        axes = [a % self.ndim for a in axes]
        out = []
        for a in axes:
            d = self.vshape[a]
            if isone(d):
                out.append(a)
            elif conc(d) is None and axis is None:
                # squeeze() drops the axis exactly when the dimension is one
                if ctx().branch(T.eq(d, T.IONE)):
                    out.append(a)
            elif axis is not None:
                if not ctx().branch(T.eq(d, T.IONE)):
                    raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
                out.append(a)
        for a in sorted(out, reverse=True):
            r = r.drop(a)
        return r

    def flatten(self, *a):
        n = self.squeezedim()
        if n is None:
            raise Unsupported('flatten of a multi-dimensional symbolic array')
        ax, d = n
        if self._ismatrix:
            base = self.copy()
            return make_arr([T.IONE, d], lambda idx: base.at(tuple(idx[1] if i == ax else T.IZERO for i in range(base.ndim))), self.kind, True)
        return make_arr([d], lambda idx: self.at(tuple(idx[0] if i == ax else T.IZERO for i in range(self.ndim))), self.kind)
    ravel = flatten

    def squeezedim(self):
        if self._ismatrix or self.ndim == 1 or True:
            big = [i for i in range(self.ndim) if not isone(self.vshape[i])]
            if len(big) > 1:
                return None
            if not big:
                return 0, T.IONE
            return big[0], self.vshape[big[0]]

    def reshape(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = sh[0]
        sh = list(sh)
        if len(sh) == 1 and isinstance(sh[0], int) and sh[0] == -1:
            return self.flatten()
        big = [i for i in range(self.ndim) if not isone(self.vshape[i])]
        if any(isinstance(d, int) and d == -1 for d in sh):
            free = [i for i, d in enumerate(sh) if isinstance(d, int) and d == -1]
            rest = [dim(d) for i, d in enumerate(sh) if i not in free and not isone(dim(d))]
            left = [self.vshape[i] for i in big]
            for d in rest:
                if d in left:
                    left.remove(d)
                else:
                    raise Unsupported('reshape')
            if len(free) != 1 or len(left) > 1:
                raise Unsupported('reshape')
            sh[free[0]] = left[0] if left else 1
        sh = [dim(d) for d in sh]
        if len(sh) == 2 and self.ndim == 3 and conc(sh[0]) is not None and conc(self.vshape[0]) is not None and conc(self.vshape[1]) is not None \
                and conc(sh[0]) == conc(self.vshape[0]) * conc(self.vshape[1]) and sh[1] is self.vshape[2]:
            # the two leading dimensions become one
            w, tot, base = conc(self.vshape[1]), conc(sh[0]), self.copy()

            def merged(idx):
                at = lambda r: base.at((T.const(r // w, I), T.const(r % w, I), idx[1]))
                if conc(idx[0]) is not None:
                    return at(conc(idx[0]))
                e = at(tot - 1)
                for r in reversed(range(tot - 1)):
                    e = _sel(self.kind, T.eq(idx[0], T.const(r, I)), at(r), e)
                return e
            return make_arr(sh, merged, self.kind, self._ismatrix)
        nb = [i for i, d in enumerate(sh) if not isone(d)]
        if len(nb) != len(big):
            raise Unsupported('reshape')
        for p, q in zip(nb, big):
            if sh[p] is not self.vshape[q] and ctx().known(T.eq(sh[p], self.vshape[q])) is not True:
                if len(big) == 1 and ctx().branch(T.not_(T.eq(sh[p], self.vshape[q]))):
                    raise ValueError('cannot reshape array of size %s into shape %s' % (self.vshape[q], sh))
                if len(big) > 1:
                    raise Unsupported('reshape')
        pos = dict(zip(big, nb))
        base = self.copy()
        return make_arr(sh, lambda idx: base.at(tuple(idx[pos[i]] if i in pos else T.IZERO for i in range(base.ndim))), self.kind, self._ismatrix)

    def item(self):
        return self._scalar(self.at(tuple(T.IZERO for _ in self.vshape)))

    def _scalar(self, e):
        if self.kind == 'b':
            return sym.mkb(e)
        if self.kind == 'i':
            return SI(e)
        return xv.to_scalar(e)

    # ---- indexing
    def _norm(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        n = len([k for k in key if k is not None and k is not Ellipsis])
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - n)
            else:
                out.append(k)
        while len([k for k in out if k is not None]) < self.ndim:
            out.append(slice(None))
        return out

    def _index(self, key):
        """basic indexing -> view ; advanced -> ('mask'|'gather', ...)"""
        key = self._norm(key)
        r, ax, adv = self, 0, None
        for k in key:
            if k is None:
                r = r.expand(ax)
                ax += 1
            elif isinstance(k, slice):
                r = r._slice(ax, k)
                ax += 1
            elif isinstance(k, SymArr) or isinstance(k, (np.ndarray, list)):
                if adv is not None:
                    raise Unsupported('two advanced indices')
                adv = (ax, k)
                ax += 1
            else:
                t = dim(k)
                d = r.vshape[ax]
                if t.op == 'const' and T.cval(t) < 0:
                    t = T.add(t, d)
                if not (t.op == 'const' and d.op == 'const'):
                    ctx().oblige('index in range', and_(T.le(T.IZERO, t), T.lt(t, d))) if ctx().mode.get('bounds') else None
                elif not (0 <= T.cval(t) < T.cval(d)):
                    raise IndexError('index %s is out of bounds for axis %d' % (t, ax))
                r = r.drop(ax, t)
        return r, adv

    def _slice(self, ax, k):
        if k.start is None and k.stop is None and k.step is None:
            return self
        d = self.vshape[ax]
        step = 1 if k.step is None else int(k.step)
        if step != 1:
            raise Unsupported('slice step')
        lo = T.IZERO if k.start is None else dim(k.start)
        hi = d if k.stop is None else dim(k.stop)
        if lo.op == 'const' and T.cval(lo) < 0:
            lo = T.add(d, lo)
        if hi.op == 'const' and T.cval(hi) < 0:
            hi = T.add(d, hi)
        # clip
        if hi is not d and not (hi.op == 'const' and d.op == 'const' and T.cval(hi) <= T.cval(d)):
            if ctx().branch(T.lt(d, hi)):
                hi = d
        if lo is not T.IZERO and ctx().branch(T.lt(hi, lo)):
            lo = hi
        vs = list(self.vshape)
        vs[ax] = T.sub(hi, lo)
        return self._view(vs, [m if m[0] == 'fix' or m[1] != ax else ('dim', ax, T.add(m[2], T.mul(T.const(m[3], I), lo)), m[3])
                               for m in self.vmap])

    def __getitem__(self, key):
        if hasattr(key, 'indices') and not isinstance(key, slice):
            key = key.indices()
        if isinstance(key, SymArr) and key.kind == 'b' and key.ndim == self.ndim and self.ndim > 1:
            sh = [not isone(d) for d in self.vshape]
            if sum(sh) > 1:
                raise Unsupported('multi-dimensional mask read')
            return self.flatten()[key.flatten()]
        r, adv = self._index(key)
        if adv is not None:
            q = r._gather(*adv)
            if self._ismatrix:
                if q.ndim != 2:
                    raise Unsupported('advanced indexing of a matrix')
                q._ismatrix = True
            return q
        if r.ndim == 0:
            return r._scalar(r.at(()))
        if self._ismatrix:
            # a matrix stays two-dimensional
            if r.ndim == 1:
                k = self._norm(key)
                r = r.expand(0 if not isinstance(k[0], slice) else 1)
            if r.ndim == 2:
                r._ismatrix = True
        return r

    def _gather(self, ax, k):
        if isinstance(k, (list, np.ndarray)):
            k = from_numpy(np.asarray(k))
        mask = None
        if k.kind == 'b':
            mask = k.copy()
            k = nonzero1(k)
        if k.ndim != 1:
            raise Unsupported('gather with %d-d index' % k.ndim)
        base = self.copy()
        vs = list(self.vshape)
        vs[ax] = k.vshape[0]
        r = make_arr(vs, lambda idx: base.at(idx[:ax] + (k.at((idx[ax],)),) + idx[ax + 1:]), self.kind)
        if mask is not None and base.ndim == 1:
            r.chosen = (mask, base)
        return r

    def _masked(self, m, val):
        """self[m] = base[m2], where m2 selects the same positions as m (obligation)"""
        if getattr(val, 'chosen', None) is None or self.ndim != 1 or m.ndim != 1:
            raise Unsupported('masked write of an array')
        m2, base = val.chosen
        c = ctx()
        i = T.fresh('pos', T.I)
        c.oblige('both masks of the assignment choose the same elements', T.and_(T.eq(m2.vshape[0], m.vshape[0]), T.or_(
            T.not_(T.and_(T.le(T.IZERO, i), T.lt(i, m.vshape[0]))), T.eq(m.at((i,)), m2.at((i,))))))
        self._write(lambda idx: m.at(idx), lambda idx: _conv(base, idx, self.kind))

    def __setitem__(self, key, val):
        if isinstance(key, SymArr) and key.kind == 'b' and key.ndim == self.ndim:
            m = key.copy()
            if isinstance(val, SymArr) and val.ndim > 0:
                return self._masked(m, val)
            self._write(lambda idx: m.at(idx), _const_elem(val, self.kind))
            return
        r, adv = self._index(key)
        if adv is not None:
            ax, k = adv
            if isinstance(k, SymArr) and k.kind == 'b':
                m = k.copy()
                if isinstance(val, SymArr) and val.ndim > 0:
                    raise Unsupported('masked write of an array along an axis')
                r._write(lambda idx: m.at((idx[ax],)), _const_elem(val, self.kind))
                return
            raise Unsupported('scatter write')
        if isinstance(val, (SymArr, np.ndarray, list)):
            v = toarr(val)
            vv = v.copy()
            off = r.ndim - vv.ndim
            if off < 0:
                for _ in range(-off):
                    vv = vv.drop(0)
                off = 0

            def f(idx):
                ii = tuple(T.IZERO if isone(d) else idx[off + j] for j, d in enumerate(vv.vshape))
                return _conv(vv, ii, r.kind)
            r._write(lambda idx: TRUE, f)
        else:
            r._write(lambda idx: TRUE, _const_elem(val, r.kind))

    def _write(self, cond, elem):
        """buffer[j] := elem(view index) where j is in the view and cond holds"""
        old = self.buf.f
        vmap, vshape = self.vmap, list(self.vshape)
        bshape = self.buf.shape
        kind = self.kind

        def f(b):
            cs, idx = [], [T.IZERO] * len(vshape)
            for q, m in enumerate(vmap):
                if m[0] == 'fix':
                    cs.append(T.eq(b[q], m[1]))
                else:
                    i = T.sub(b[q], m[2])
                    idx[m[1]] = i
                    if not (m[2] is T.IZERO and vshape[m[1]] is bshape[q]):
                        cs.append(T.le(T.IZERO, i))
                        cs.append(T.lt(i, vshape[m[1]]))
            c = and_(*cs) if cs else TRUE
            if c is FALSE:
                return old(b)
            c = and_(c, cond(tuple(idx)))
            if c is FALSE:
                return old(b)
            return _sel(kind, c, elem(tuple(idx)), old(b) if c is not TRUE else None)
        self.buf.f = memo(f)

    # ---- arithmetic
    def _bin(self, o, f):
        return binop(f, self, o)

    def __add__(self, o): return binop(xv.add, self, o)
    def __radd__(self, o): return binop(xv.add, o, self)
    def __sub__(self, o): return binop(xv.sub, self, o)
    def __rsub__(self, o): return binop(xv.sub, o, self)

    def __mul__(self, o):
        if self._ismatrix or getattr(o, '_ismatrix', False) or isinstance(o, np.matrix):
            if isinstance(o, (SymArr, np.ndarray)):
                return np_dot(self, o)
        if self.kind == 'b' and isinstance(o, SymArr) and o.kind == 'b':
            return boolop(and_, self, o)
        return binop(xv.mul, self, o)

    def __rmul__(self, o):
        if (self._ismatrix or isinstance(o, np.matrix)) and isinstance(o, (SymArr, np.ndarray)):
            return np_dot(o, self)
        return binop(xv.mul, o, self)

    def __truediv__(self, o): return binop(xv.div, self, o)
    def __rtruediv__(self, o): return binop(xv.div, o, self)
    def __neg__(self): return unop(xv.neg, self)
    def __abs__(self): return unop(xv.fabs, self)

    def __pow__(self, n):
        n = lift(n)
        if n.t.op == 'const' and T.cval(n.t) == 2:
            return binop(xv.mul, self, self)
        raise Unsupported('array power')

    def _inplace(self, r):
        self[tuple([slice(None)] * self.ndim)] = r
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    def __lt__(self, o): return cmpop('lt', self, o)
    def __le__(self, o): return cmpop('le', self, o)
    def __gt__(self, o): return cmpop('gt', self, o)
    def __ge__(self, o): return cmpop('ge', self, o)
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return cmpop('eq', self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return cmpop('ne', self, o)
    __hash__ = object.__hash__

    def __and__(self, o): return boolop(and_, self, o)
    def __or__(self, o): return boolop(or_, self, o)
    def __invert__(self): return make_arr(self.vshape, lambda i, s=self.copy(): not_(s.at(i)), 'b')

    def __bool__(self):
        if all(isone(d) for d in self.vshape):
            return bool(self.item())
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    # ---- reductions
    def sum(self, axis=None, *r, **k): return np_sum(self, axis, **_noargs(r, k))
    def prod(self, axis=None, *r, **k): return np_prod(self, axis, **_noargs(r, k))
    def max(self, axis=None, *r, **k): return np_max(self, axis, **_noargs(r, k))
    def min(self, axis=None, *r, **k): return np_min(self, axis, **_noargs(r, k))
    def any(self, axis=None, **k): return np_any(self, axis, **k)
    def all(self, axis=None, **k): return np_all(self, axis, **k)
    def mean(self, axis=None, **k):
        if axis is None:
            return np_sum(self) / self.size
        return np_sum(self, axis) / self.shape[axis]

    def tolist(self):
        if self.ndim == 1 and conc(self.vshape[0]) is not None:
            return [self[i] for i in range(conc(self.vshape[0]))]
        return self

    @property
    def A(self):
        return self


def _sel(kind, c, a, b):
    if c is TRUE:
        return a
    if kind == 'f':
        return xv.sel(c, a, b)
    return ite(c, a, b)


def _conv(a, idx, kind):
    e = a.at(idx)
    if a.kind == kind:
        return e
    if kind == 'f':
        return a.xat(idx)
    raise Unsupported('store of %s into %s array' % (a.kind, kind))


def _const_elem(v, kind):
    if isinstance(v, SymArr):
        v = v.item()
    if isinstance(v, np.ndarray):
        v = v.item()
    if kind == 'b':
        e = sym.tb(v)
    elif kind == 'i':
        e = lift(v).t
    else:
        e = xv.x(v)
    return lambda idx: e


def memo(f):
    c = {}

    def g(idx):
        r = c.get(idx)
        if r is None:
            r = c[idx] = f(idx)
        return r
    return g


def make_arr(shape, f, kind='f', ismatrix=False):
    return SymArr(Buf(tuple(dim(d) for d in shape), memo(f), kind), ismatrix=ismatrix)


def make(name, shape, dtype=None):
    if name == 'zeros':
        if dtype is bool:
            return make_arr(shape, lambda i: FALSE, 'b')
        return make_arr(shape, lambda i: xv.X(ZERO))
    if name == 'ones':
        if dtype is bool:
            return make_arr(shape, lambda i: TRUE, 'b')
        return make_arr(shape, lambda i: xv.X(T.ONE))
    n = T.fresh('uninit', I).args[0]
    return make_arr(shape, lambda i: xv.X(T.fn(n, *i)))


def input_array(name, shape, kind='f', ninf=False, special=False, pre=None):
    """arbitrary array: element = uninterpreted function of the index (optionally with -inf
    entries); pre: precondition on every element, term -> boolean term"""
    shape = [dim(d) for d in shape]
    from . import smt
    if pre is not None:
        smt.FACTS[name] = pre
    else:
        smt.FACTS.pop(name, None)

    def f(idx):
        ii = tuple(i for i in idx)
        if kind == 'b':
            return T.fn(name, *ii, sort=B)
        if kind == 'i':
            return T.fn(name, *ii, sort=I)
        v = T.fn(name, *ii)
        n = T.fn(name + '_ninf', *ii, sort=B) if ninf or special else FALSE
        if special:
            return xv.X(v, T.fn(name + '_nan', *ii, sort=B), FALSE, n)
        return xv.X(v, FALSE, FALSE, n)
    return make_arr(shape, f, kind)


def from_numpy(a):
    a = np.asarray(a)
    kind = 'b' if a.dtype == bool else ('i' if a.dtype.kind in 'iu' else 'f')
    if a.dtype == object and a.size and all(isinstance(e, (bool, SB, np.bool_)) for e in a.flat):
        kind = 'b'

    def conv(e):
        if kind == 'b':
            return sym.tb(e)
        if kind == 'i':
            return T.const(int(e), I)
        return xv.x(e)

    def f(idx):
        fixed = []
        for q, i in enumerate(idx):
            if i.op == 'const':
                fixed.append(int(T.cval(i)))
            else:
                # select over a small concrete dimension
                r = None
                for j in reversed(range(a.shape[q])):
                    e = f(idx[:q] + (T.const(j, I),) + idx[q + 1:])
                    r = e if r is None else _sel(kind, T.eq(i, T.const(j, I)), e, r)
                return r
        return conv(a[tuple(fixed)])
    return make_arr(a.shape, f, kind, isinstance(a, np.matrix))


def toarr(v):
    if isinstance(v, SymArr):
        return v
    if isinstance(v, (list, tuple)):
        if any(isinstance(e, SymArr) for e in v):
            return np_array(v)
        from . import snp
        return from_numpy(snp._arr(v))
    if isinstance(v, np.ndarray):
        return from_numpy(v)
    e = xv.x(v) if not isinstance(v, (bool, SB)) else None
    if e is None:
        tb = sym.tb(v)
        return make_arr((), lambda i: tb, 'b')
    return make_arr((), lambda i: e)


def bshape(shapes):
    n = builtins.max(len(s) for s in shapes)
    out = []
    for k in range(n):
        ds = [s[len(s) - n + k] for s in shapes if len(s) - n + k >= 0]
        r = T.IONE
        for d in ds:
            if isone(d):
                continue
            if isone(r):
                r = d
            elif r is not d:
                if r.op == 'const' and d.op == 'const':
                    raise ValueError('operands could not be broadcast together')
                c = ctx()
                if not c.branch(T.eq(r, d)):
                    if c.branch(T.eq(d, T.IONE)):
                        continue
                    if c.branch(T.eq(r, T.IONE)):
                        r = d
                        continue
                    raise ValueError('operands could not be broadcast together with shapes %s %s' % (r, d))
                if d.op == 'const':
                    r = d
        out.append(r)
    return out


def bidx(a, idx, out):
    off = len(out) - a.ndim
    r = []
    for j, d in enumerate(a.vshape):
        if isone(d) and not isone(out[off + j]):
            r.append(T.IZERO)
        elif d is not out[off + j] and Ctx.cur is not None and ctx().pcset.get(T.eq(d, T.IONE)):
            r.append(T.IZERO)
        else:
            r.append(idx[off + j])
    return tuple(r)


def binop(f, a, b):
    for q in (a, b):
        if not (isinstance(q, (SymArr, np.ndarray, list, tuple)) or sym.isnum(q)):
            return NotImplemented
    mat = getattr(a, '_ismatrix', False) or getattr(b, '_ismatrix', False)
    a, b = toarr(a).copy(), toarr(b).copy()
    out = bshape([a.vshape, b.vshape])
    return make_arr(out, lambda i: f(a.xat(bidx(a, i, out)), b.xat(bidx(b, i, out))), 'f', mat)


def cmpop(op, a, b):
    a, b = toarr(a).copy(), toarr(b).copy()
    out = bshape([a.vshape, b.vshape])
    if a.kind == 'b' and b.kind == 'b' and op in ('eq', 'ne'):
        g = (lambda p, q: T.iff(p, q)) if op == 'eq' else (lambda p, q: not_(T.iff(p, q)))
        return make_arr(out, lambda i: g(a.at(bidx(a, i, out)), b.at(bidx(b, i, out))), 'b')
    return make_arr(out, lambda i: xv.cmpx(op, a.xat(bidx(a, i, out)), b.xat(bidx(b, i, out))), 'b')


def boolop(f, a, b):
    a, b = toarr(a).copy(), toarr(b).copy()
    out = bshape([a.vshape, b.vshape])
    return make_arr(out, lambda i: f(a.at(bidx(a, i, out)), b.at(bidx(b, i, out))), 'b')


def unop(f, a):
    a = toarr(a).copy()
    return make_arr(a.vshape, lambda i: f(a.xat(i)), 'f', a._ismatrix)


def _un(f):
    def g(a, *r, **k):
        kw(k)
        if any(x is not None for x in r):
            raise Unsupported('out argument')
        return unop(f, a)
    return g


np_exp = _un(xv.exp)
np_log = _un(xv.log)
np_sqrt = _un(xv.sqrt)
np_sin = _un(xv.sin)
np_cos = _un(xv.cos)
def np_erf(a): return unop(xv.erf, a)
np_abs = _un(xv.fabs)


np_absolute = np_fabs = np_abs


def _xsign(e):
    one, z = T.ONE, ZERO
    v = ite(or_(e.p, and_(not_(e.n), T.lt(z, e.v))), one, ite(or_(e.n, and_(not_(e.p), T.lt(e.v, z))), T.const(-1, R), z))
    return xv.X(v, e.nan)


def np_sign(a, *r, **k): return unop(_xsign, a)
def np_real(a): return a



def _boolun(f):
    def g(a, *r, **k):
        a = toarr(a).copy()
        return make_arr(a.vshape, lambda i: f(a.xat(i)), 'b')
    return g


np_isnan = _boolun(lambda e: e.nan)
np_isinf = _boolun(lambda e: or_(e.p, e.n))
np_isfinite = _boolun(lambda e: e.finite())
def np_logical_not(a): return ~toarr(a)
def np_logical_and(a, b): return boolop(and_, a, b)
def np_logical_or(a, b): return boolop(or_, a, b)
def np_add(a, b): return toarr(a) + b
def np_subtract(a, b): return toarr(a) - b
def np_multiply(a, b): return binop(xv.mul, a, b)
def np_divide(a, b): return toarr(a) / b


def np_maximum(a, b):
    def f(p, q):
        r = xv.sel(xv.cmpx('lt', p, q), q, p)
        return xv.sel(or_(p.nan, q.nan), xv.X(ZERO, TRUE), r)
    return binop(f, a, b)


def np_minimum(a, b):
    def f(p, q):
        r = xv.sel(xv.cmpx('lt', q, p), q, p)
        return xv.sel(or_(p.nan, q.nan), xv.X(ZERO, TRUE), r)
    return binop(f, a, b)


def np_where(c, *a):
    c = toarr(c).copy()
    if not a:
        if c.kind != 'b':
            c = cmpop('ne', c, 0)
        if c.ndim == 1:
            return (nonzero1(c),)
        raise Unsupported('where on %d-d' % c.ndim)
    x, y = toarr(a[0]).copy(), toarr(a[1]).copy()
    out = bshape([c.vshape, x.vshape, y.vshape])
    return make_arr(out, lambda i: xv.sel(c.at(bidx(c, i, out)), x.xat(bidx(x, i, out)), y.xat(bidx(y, i, out))))


def _axis(a, axis):
    return axis % a.ndim


def kw(k, *allowed):
    bad = [x for x in k if x not in allowed and k[x] is not None]
    if bad:
        raise Unsupported('keyword %s' % ', '.join(bad))


def _reduce(a, axis, red, fold, keepdims=False):
    a = toarr(a).copy()
    if keepdims:
        axes = range(a.ndim) if axis is None else (axis if isinstance(axis, tuple) else (axis,))
        axes = sorted(x % a.ndim for x in axes)
        mat, a._ismatrix = a._ismatrix, False
        r = a
        for ax in axes[::-1]:
            r = _reduce1(r, ax, red, fold)
        for ax in axes:
            r = r.expand(ax)
        r._ismatrix = mat
        return r
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = _reduce(a, ax, red, fold)
            if not isinstance(a, SymArr):
                return a
        return a
    if axis is None:
        while a.ndim > 0:
            a = _reduce1(a, a.ndim - 1, red, fold)
        return a.item()
    r = _reduce1(a, _axis(a, axis), red, fold)
    if a._ismatrix:
        r = r.expand(_axis(a, axis))
        r._ismatrix = True
        return r
    return r.item() if r.ndim == 0 else r


def _reduce1(a, ax, red, fold):
    n = a.vshape[ax]
    vs = a.vshape[:ax] + a.vshape[ax + 1:]
    c = conc(n)
    if c is not None and c <= MAXCONC:
        def f(idx):
            r = None
            for j in range(c):
                e = a.xat(idx[:ax] + (T.const(j, I),) + idx[ax:])
                r = e if r is None else fold(r, e)
            if r is None:
                return red(None, None, None)
            return r
    else:
        def f(idx):
            v = T.fresh('k', I)
            return red(v, n, a.xat(idx[:ax] + (v,) + idx[ax:]))
    return make_arr(vs, f)


def _rsum(v, n, e):
    return xv.X(ZERO) if v is None else xv.reduce_sum(v, n, e)


def _rprod(v, n, e):
    return xv.X(T.ONE) if v is None else xv.reduce_prod(v, n, e)


def _nonempty(n):
    if n is None or not ctx().branch(T.lt(T.IZERO, n)):
        raise ValueError('zero-size array to reduction operation maximum which has no identity')


def _rmax(v, n, e):
    _nonempty(n)
    return xv.reduce_max(v, n, e)


def _rmin(v, n, e):
    _nonempty(n)
    return xv.reduce_min(v, n, e)


def _fmax(p, q):
    return xv.sel(or_(p.nan, q.nan), xv.X(ZERO, TRUE), xv.sel(xv.cmpx('lt', p, q), q, p))


def _fmin(p, q):
    return xv.sel(or_(p.nan, q.nan), xv.X(ZERO, TRUE), xv.sel(xv.cmpx('lt', q, p), q, p))


def np_sum(a, axis=None, keepdims=False, **k):
    kw(k, 'dtype')
    a = toarr(a)
    if a.kind == 'b' and axis is None and a.ndim == 1:
        return count(a)
    return _reduce(a, axis, _rsum, xv.add, keepdims)


def np_prod(a, axis=None, keepdims=False, **k):
    kw(k, 'dtype')
    return _reduce(a, axis, _rprod, xv.mul, keepdims)


def np_max(a, axis=None, keepdims=False, **k):
    kw(k)
    return _reduce(a, axis, _rmax, _fmax, keepdims)


def np_min(a, axis=None, keepdims=False, **k):
    kw(k)
    return _reduce(a, axis, _rmin, _fmin, keepdims)


np_amax, np_amin = np_max, np_min


def _bred(op, unit):
    def g(a, axis=None, **k):
        kw(k)
        a = toarr(a).copy()
        if a.kind != 'b':
            a = cmpop('ne', a, 0)

        def one(a, ax):
            n = a.vshape[ax]
            vs = a.vshape[:ax] + a.vshape[ax + 1:]

            def f(idx):
                c = conc(n)
                if c is not None and c <= MAXCONC:
                    es = [a.at(idx[:ax] + (T.const(j, I),) + idx[ax:]) for j in range(c)]
                    return (or_ if op == 'exists' else and_)(*es) if es else unit
                v = T.fresh('k', I)
                return T.big(op, v, n, a.at(idx[:ax] + (v,) + idx[ax:]))
            return make_arr(vs, f, 'b')
        if axis is None:
            while a.ndim:
                a = one(a, a.ndim - 1)
            return a.item()
        return one(a, axis % a.ndim)
    return g


np_any, np_all = _bred('exists', FALSE), _bred('forall', TRUE)


def count(a):
    """number of true elements of a 1-d mask"""
    n = a.vshape[0]
    v = T.fresh('k', I)
    return SI(T.big('bigsum', v, n, ite(a.at((v,)), T.IONE, T.IZERO)))


_nz = {}


def nonzero1(m):
    """index array of the true entries of a 1-d mask: an increasing enumeration nz of
    {i : m[i]}, of length count(m).  Facts are instantiated by the prover (see prove.py)."""
    m = m.copy()
    n = m.vshape[0]
    v = T.fresh('k', I)
    body = m.at((v,))
    if body is TRUE:
        return make_arr([n], lambda i: i[0], 'i')
    cnt = T.big('bigsum', v, n, ite(body, T.IONE, T.IZERO))
    if n is T.IONE:
        return make_arr([cnt], lambda i: T.IZERO, 'i')
    key = T.big('exists', v, n, body)           # canonical name of the mask
    name = 'nz%d' % key.id
    c = ctx()
    reg = c.ghost.setdefault('nz', {})
    if name not in reg:
        for nm2, (m2, n2, cnt2) in reg.items():
            # the same mask written differently has the same enumeration
            if n2 is n and not c.sat(and_(T.le(T.IZERO, v), T.lt(v, n), T.not_(T.iff(body, m2.at((v,)))))):
                return make_arr([cnt2], lambda idx: T.fn(nm2, idx[0], sort=I), 'i')
    reg[name] = (m, n, cnt)
    T.GATHER[cnt] = (name, lambda w: m.at((w,)), n)
    c.assume(T.le(T.IZERO, cnt))
    c.assume(T.le(cnt, n))

    def f(idx):
        e = T.fn(name, idx[0], sort=I)
        return e
    return make_arr([cnt], f, 'i')


def np_nonzero(a):
    a = toarr(a)
    if a.kind != 'b':
        a = cmpop('ne', a, 0)
    if a.ndim == 1:
        return (nonzero1(a),)
    big = [i for i in range(a.ndim) if not isone(a.vshape[i])]
    if len(big) <= 1:
        b = big[0] if big else a.ndim - 1
        nz = nonzero1(a.flatten())
        zero = make_arr(nz.vshape, lambda i: T.IZERO, 'i')
        return tuple(nz if i == b else zero for i in range(a.ndim))
    raise Unsupported('nonzero of a multi-dimensional symbolic array')


def np_expand_dims(a, axis): return toarr(a).expand(axis)
def np_squeeze(a, axis=None): return toarr(a).squeeze(axis)
def np_transpose(a, axes=None): return a.transpose() if axes is None else a.transpose(axes)
def np_shape(a): return a.shape
def np_ndim(a): return a.ndim
def np_size(a): return a.size
def np_copy(a): return a.copy()


def np_array(a, dtype=None, **k):
    if isinstance(a, SymArr):
        return SymArr(a.copy().buf)
    els = [toarr(e) for e in a]
    out = bshape([e.vshape for e in els])
    els = [e.copy() for e in els]
    kind = 'b' if all(e.kind == 'b' for e in els) else 'f'

    def f(idx):
        r = None
        for j in reversed(range(len(els))):
            e = els[j].at(idx[1:]) if kind == 'b' else els[j].xat(idx[1:])
            r = e if r is None else _sel(kind, T.eq(idx[0], T.const(j, I)), e, r)
        return r
    return make_arr([T.const(len(els), I)] + out, f, kind)


def np_asarray(a, dtype=None, **k):
    if isinstance(a, SymArr):
        return SymArr(a.buf, a.vshape, a.vmap, False)
    return np_array(a)


np_ascontiguousarray = np_asarray


def np_matrix(a, *r, **k):
    a = np_array(a)
    if a.ndim == 1:
        a = a.expand(0)
    if a.ndim > 2:
        # numpy drops the unit dimensions and refuses more than two others
        keep = [k for k, d in enumerate(a.vshape) if not isone(d) and not ctx().branch(T.eq(d, T.IONE))]
        if len(keep) > 2:
            raise ValueError('shape too large to be a matrix.')
        b = a
        if len(keep) == 2:
            p, q = keep
            a = make_arr([b.vshape[p], b.vshape[q]], lambda i: b.xat(tuple(i[0] if k == p else i[1] if k == q else T.IZERO for k in range(b.ndim))))
        elif len(keep) == 1:
            p = keep[0]
            a = make_arr([T.IONE, b.vshape[p]], lambda i: b.xat(tuple(i[1] if k == p else T.IZERO for k in range(b.ndim))))
        else:
            a = make_arr([T.IONE, T.IONE], lambda i: b.xat((T.IZERO,) * b.ndim))
    a = a.copy()
    a._ismatrix = True
    return a


np_asmatrix = np_matrix


def np_zeros_like(a, *r, **k): return make('zeros', a.vshape)
def np_ones_like(a, *r, **k): return make('ones', a.vshape)


def np_tensordot(a, b, axes=2):
    if axes != 1 and axes != ([-1], [0]):
        raise Unsupported('tensordot axes')
    a, b = toarr(a).copy(), toarr(b).copy()
    na, nb = a.vshape[-1], b.vshape[0]
    if na is not nb:
        if not ctx().branch(T.eq(na, nb)):
            raise ValueError('shape-mismatch for sum')
        n = na if na.op == 'const' else nb
    else:
        n = na
    la = a.ndim - 1

    def f(idx):
        c = conc(n)
        if c is not None and c <= MAXCONC:
            r = xv.X(ZERO)
            for j in range(c):
                jt = T.const(j, I)
                r = xv.add(r, xv.mul(a.xat(idx[:la] + (jt,)), b.xat((jt,) + idx[la:])))
            return r
        v = T.fresh('k', I)
        return xv.reduce_sum(v, n, xv.mul(a.xat(idx[:la] + (v,)), b.xat((v,) + idx[la:])))
    out = make_arr(a.vshape[:-1] + b.vshape[1:], f)
    if ctx().mode.get('opaque') is not None:
        return opaque(out, ctx().mode['opaque'])
    return out


def canon(rank):
    return tuple(T.var('_c%d' % i, I) for i in range(rank))


def opaque(a, pre=None):
    """name the elements of an array: same definition, same name (a definitional abstraction)"""
    from . import smt
    c = canon(a.ndim)
    e = a.xat(c)
    if not e.isfin():
        return a
    tab = ctx().ghost.setdefault('opaque', {})
    nm = tab.get(e.v)
    if nm is None:
        nm = tab[e.v] = 'amp%d' % len(tab)
        if callable(pre):
            smt.FACTS[nm] = pre
        else:
            smt.FACTS.pop(nm, None)
    return make_arr(a.vshape, lambda i: xv.X(T.fn(nm, *i)))


def named(defn, idx):
    """the opaque name of a definition (a term over canon indices) at idx, or the definition itself"""
    nm = ctx().ghost.get('opaque', {}).get(defn)
    return T.fn(nm, *idx) if nm is not None else T.subst(defn, dict(zip(canon(len(idx)), idx)))


def np_dot(a, b):
    mat = getattr(a, '_ismatrix', False) or getattr(b, '_ismatrix', False) or isinstance(a, np.matrix) or isinstance(b, np.matrix)
    a, b = toarr(a), toarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return binop(xv.mul, a, b)
    if b.ndim <= 2:
        r = np_tensordot(a, b, 1)
        r._ismatrix = mat
        return r.item() if r.ndim == 0 else r
    raise Unsupported('dot of >2-d')


def np_concatenate(arrs, axis=0):
    arrs = [toarr(a).copy() for a in arrs]
    axis = axis % arrs[0].ndim
    mat = arrs[0]._ismatrix
    arrs = [a for a in arrs if not (a.ndim > axis and conc(a.vshape[axis]) == 0)] or arrs[:1]
    shapes = bshape([a.vshape[:axis] + a.vshape[axis + 1:] for a in arrs])
    tot = T.add(*[a.vshape[axis] for a in arrs]) if len(arrs) > 1 else arrs[0].vshape[axis]
    kind = arrs[0].kind if all(a.kind == arrs[0].kind for a in arrs) else 'f'

    def f(idx):
        i = idx[axis]
        off, offs = T.IZERO, []
        for a in arrs:
            offs.append(off)
            off = T.add(off, a.vshape[axis])
        r = None
        for a, o in reversed(list(zip(arrs, offs))):
            ii = idx[:axis] + (T.sub(i, o),) + idx[axis + 1:]
            e = a.at(ii) if kind != 'f' else a.xat(ii)
            r = e if r is None else _sel(kind, T.lt(i, T.add(o, a.vshape[axis])), e, r)
        return r
    return make_arr(shapes[:axis] + [tot] + shapes[axis:], f, kind, mat)


def np_append(a, b, axis=None):
    a, b = toarr(a), toarr(b)
    if axis is None:
        a = a.flatten() if a.ndim != 1 else a
        b = b.flatten() if b.ndim != 1 else b
        axis = 0
    return np_concatenate([a, b], axis)


def np_vstack(arrs):
    return np_concatenate([toarr(a).expand(0) if toarr(a).ndim == 1 else toarr(a) for a in arrs], 0)


def np_hstack(arrs):
    arrs = [toarr(a) for a in arrs]
    return np_concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def np_norm(a, axis=None):
    return np_sqrt(np_sum(a * a, axis)) if axis is not None else sym.usqrt(np_sum(a * a))


def np_outer(a, b):
    a, b = toarr(a).copy(), toarr(b).copy()
    return make_arr([a.vshape[0], b.vshape[0]], lambda i: xv.mul(a.xat((i[0],)), b.xat((i[1],))))


def np_mean(a, axis=None): return a.mean(axis)
def np_diag(a): raise Unsupported('diag')
def np_cross(a, b):
    a, b = toarr(a).copy(), toarr(b).copy()
    if a.ndim != b.ndim or conc(a.vshape[-1]) != 3 or conc(b.vshape[-1]) != 3:
        raise Unsupported('cross of these shapes')
    sh = bshape([a.vshape, b.vshape])
    p = [a[..., k] if a.ndim == 1 else a[(slice(None),) * (a.ndim - 1) + (k,)] for k in range(3)]
    q = [b[(slice(None),) * (b.ndim - 1) + (k,)] for k in range(3)]
    c = [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]]
    c = [toarr(x).copy() for x in c]

    def f(idx):
        r = c[2].xat(idx[:-1])
        for k in (1, 0):
            r = _sel('f', T.eq(idx[-1], T.const(k, I)), c[k].xat(idx[:-1]), r)
        return r
    return make_arr(sh, f)


def np_kron(a, b):
    a, b = toarr(a), toarr(b)
    if a.ndim == 2 and b.ndim == 1 and isone(a.vshape[1]):
        a, b = a.copy(), b.copy()
        return make_arr([a.vshape[0], b.vshape[0]], lambda i: xv.mul(a.xat((i[0], T.IZERO)), b.xat((i[1],))))
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported('kron of %d-d arrays' % a.ndim)
    a, b = a.copy(), b.copy()
    if isone(a.vshape[0]):
        return a[0] * b
    if isone(b.vshape[0]):
        return a * b[0]
    raise Unsupported('kron of arrays of symbolic length')


def np_array_equal(a, b):
    a, b = toarr(a), toarr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.vshape, b.vshape):
        if not ctx().branch(T.eq(x, y)):
            return False
    return np_all(a == b)


def np_argsort(a, *r, **k): raise Unsupported('argsort symbolic')


def np_cumsum(a, axis=None):
    a = toarr(a).copy()
    if a.ndim != 1:
        raise Unsupported('cumsum')

    def f(idx):
        v = T.fresh('k', I)
        return xv.reduce_sum(v, T.add(idx[0], T.IONE), a.xat((v,)))
    return make_arr(a.vshape, f)


def np_atleast_1d(x):
    if isinstance(x, SymArr) and x.ndim >= 1:
        return x
    raise Unsupported('numpy.atleast_1d of a number')
