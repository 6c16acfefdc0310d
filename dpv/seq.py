"""Immutable sequences of symbolic length (lists of station names), the set operations on them,
and comprehensions over them.  A name is an integer of its own; only equality of names is known."""
import builtins
from . import term as T, sym
from .term import I, B
from .paths import ctx, Unsupported


class Name(object):
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, Name):
            return sym.mkb(T.eq(self.t, o.t))
        return NotImplemented

    def __ne__(self, o):
        return sym.mkb(T.not_(T.eq(self.t, o.t)))

    def __hash__(self):
        raise Unsupported('hash of a symbolic name')

    def __repr__(self):
        return 'Name(%s)' % self.t


class Star(object):
    """all elements of a sequence, unpacked into a call or an extend"""
    def __init__(self, seq):
        self.seq = seq


class Seq(object):
    _symarr = False

    def __init__(self, n, at, name=None):
        self.n, self.at, self.name = n, at, name

    def __symlen__(self):
        return sym.SI(self.n) if self.n.op != 'const' else self.n.args[0]

    def __len__(self):
        raise TypeError('length of a symbolic sequence')

    def __iter__(self):
        return iter([Star(self)])

    def __getitem__(self, k):
        if isinstance(k, Star):
            k = k.seq
        if isinstance(k, Seq):
            return Seq(k.n, lambda i: self.at(sym.toint(k.at(i)).t if not isinstance(k.at(i), sym.SI) else k.at(i).t))
        if isinstance(k, slice):
            if k == slice(None):
                return self
            raise Unsupported('slice of a symbolic sequence')
        i = sym.lift(k).t if not isinstance(k, sym.SI) else k.t
        return self.at(i)

    def copy(self):
        return self

    def member(self, u):
        k = T.fresh('k', I)
        return T.big('exists', k, self.n, T.eq(self.at(k).t, u.t))

    def index(self, u):
        """first position: Python's list.index (ValueError when absent)"""
        if not ctx().branch(self.member(u)):
            raise ValueError('name is not in the list')
        i = T.fn('index_' + self.name, u.t, sort=I)
        c = ctx()
        c.assume(T.le(T.IZERO, i))
        c.assume(T.lt(i, self.n))
        c.assume(T.eq(self.at(i).t, u.t))
        return sym.SI(i)

    def indices(self):
        from . import arr
        return arr.make_arr([self.n], lambda i: self.at(i[0]).t, 'i')

    def __eq__(self, o):
        raise Unsupported('comparison of symbolic sequences')
    __hash__ = None


def names(name, n):
    """an arbitrary list of n distinct names"""
    n = n.t if hasattr(n, 't') else n
    return Seq(n, lambda i: Name(T.fn(name, i, sort=I)), name)


class SymSet(object):
    def __init__(self, srcs):
        self.srcs = srcs

    def __and__(self, o):
        if not isinstance(o, SymSet):
            raise Unsupported('set operation')
        return SymSet(self.srcs + o.srcs)

    def member(self, u):
        return T.and_(*[s.member(u) for s in self.srcs])

    def __symlen__(self):
        return self.enum().__symlen__()

    def __len__(self):
        raise TypeError('length of a symbolic set')

    def __iter__(self):
        return iter([Star(self.enum())])

    def enum(self):
        """the elements, each once, in some order"""
        c = ctx()
        key = tuple(s.name for s in self.srcs)
        memo = c.ghost.setdefault('sets', {})
        k = len(memo)
        nm = 'common%d' % k
        memo[nm] = key
        m = T.var('n_' + nm, I)
        c.assume(T.le(T.IZERO, m))
        for s in self.srcs:
            c.assume(T.le(m, s.n))
        r = Seq(m, lambda i: Name(T.fn(nm, i, sort=I)), nm)
        r.sources = self.srcs
        return r


def seq_of(x):
    """a python list of Star markers stands for the concatenation of the sequences"""
    out = []
    for e in x:
        if not isinstance(e, Star):
            raise Unsupported('mixed list of names')
        out.append(e.seq)
    return out


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.set)

    def __call__(cls, *a):
        if a and isinstance(a[0], Seq):
            return SymSet([a[0]])
        if a and isinstance(a[0], SymSet):
            return a[0]
        return builtins.set(*a)


class symset(metaclass=_SetMeta):
    pass


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.list)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.list)

    def __call__(cls, *a):
        if a and isinstance(a[0], SymSet):
            return a[0].enum()
        if a and isinstance(a[0], Seq):
            return a[0]
        if a and getattr(a[0], '_symarr', False) is True and a[0].vshape[0].op != 'const':
            v = a[0].copy()
            return Seq(v.vshape[0], lambda i: v[sym.SI(i)])
        return builtins.list(*a)


class symlist(metaclass=_ListMeta):
    pass


def symsorted(x, *a, **k):
    if isinstance(x, SymSet):
        return x.enum()
    if isinstance(x, Seq):
        if getattr(x, 'sources', None):
            return x            # an arbitrary enumeration already
        raise Unsupported('sorting a symbolic sequence')
    return builtins.sorted(x, *a, **k)


def symenumerate(x, start=0):
    if isinstance(x, Seq):
        return Seq(x.n, lambda i: (sym.SI(i), x.at(i)))
    return builtins.enumerate(x, start)


def comp(fn, it, cond=None):
    """[fn(x) for x in it if cond(x)]"""
    if not isinstance(it, (Seq, SymSet)):
        if cond is None:
            return [fn(x) for x in it]
        return [fn(x) for x in it if cond(x)]
    if isinstance(it, SymSet):
        it = it.enum()
    c = ctx()
    if cond is None:
        memo = {}
        # evaluated once at a generic position, under the fact that it is a position of the list
        k = T.fresh('pos', I)
        c.assume(T.le(T.IZERO, k))
        c.assume(T.lt(k, it.n))
        for s in getattr(it, 'sources', ()):
            c.assume(s.member(it.at(k)))
        v = fn(it.at(k))
        if isinstance(v, sym.SI):
            return Seq(it.n, lambda i: sym.SI(T.subst(v.t, {k: i})))
        if isinstance(v, Name):
            return Seq(it.n, lambda i: Name(T.subst(v.t, {k: i})))
        raise Unsupported('comprehension element')
    from . import arr
    k = T.fresh('pos', I)
    m = cond(it.at(k))
    m = sym.tb(m)
    v = fn(it.at(k))
    nz = arr.nonzero1(arr.make_arr([it.n], lambda i: T.subst(m, {k: i[0]}), 'b'))
    t = v.t
    if isinstance(v, sym.SI):
        return Seq(nz.vshape[0], lambda i: sym.SI(T.subst(t, {k: nz.at((i,))})))
    if isinstance(v, Name):
        return Seq(nz.vshape[0], lambda i: Name(T.subst(t, {k: nz.at((i,))})))
    raise Unsupported('comprehension element')


def contains(x, s):
    if isinstance(s, (Seq, SymSet)) and isinstance(x, Name):
        src = getattr(s, 'sources', None)
        if src:
            return sym.mkb(T.and_(*[q.member(x) for q in src]))
        return sym.mkb(s.member(x))
    return x in s
