"""C08: random source sampling draws from the stated prior."""
import math
import os
import numpy as np
from dpv import report, load, seq, sym, arr, xv, rules, conc, term as T
from dpv.paths import ctx, Infeasible
from dpv.term import R, I
CHECK = report.Check('C08')
CHECK.covers('MTfit.algorithms.base._6sphere_random_mt', 'MTfit.algorithms.base.BaseAlgorithm.random_dc', 'MTfit.algorithms.base.BaseAlgorithm.random_clvd',
             'MTfit.algorithms.base.BaseAlgorithm.random_type', 'MTfit.algorithms.base.BaseAlgorithm.random_orthogonal_eigenvectors',
             'MTfit.algorithms.base.BaseAlgorithm.eigenvectors_mt_2_mt6')
CHECK.assume('numpy.random.randn/rand return independent standard normal / uniform numbers; the standard normal vector is rotation invariant, '
             'so a map that commutes with rotations has a rotation-invariant (uniform) image',
             'events of probability zero (a zero draw, parallel draws) are excluded',
             'the redraw loop of random_orthogonal_eigenvectors is followed for up to one redraw')
ZERO, ONE = T.ZERO, T.ONE


def base():
    B = load.Loader().load('MTfit.algorithms.base')
    n = sym.int_var('n')
    sym.assume(n >= 1)
    o = object.__new__(B.BaseAlgorithm)
    o.number_samples = n
    return B, o, n


def cols(M, j):
    return [M.xat((T.const(k, I), j)).v for k in range(6)]


def draws():
    return [a for a in ctx().ghost.get('draw_arrays', ()) if a[1] == 'normal']


def own_column(t, j):
    """draw arrays are read in column j only (samples are independent); yields offending terms"""
    seen, bad, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if x in seen or not hasattr(x, 'args'):
            continue
        seen.add(x)
        if x.op == 'fn' and '_draw' in str(x.args[0]) and x.args[-1] is not j:
            bad.append(x)
        todo += [a for a in x.args if hasattr(a, 'op')]
    return bad


def nonzero_columns(a, j):
    return T.not_(T.and_(*[T.eq(a.xat((T.const(k, I), j)).v, ZERO) for k in range(int(a.vshape[0].args[0]))]))


@CHECK.proof('random_mt: normalised isotropic draw')
def p_mt():
    B, o, n = base()
    M = B._6sphere_random_mt(o)
    c = ctx()
    c.oblige('shape (6, n)', T.and_(T.const(M.ndim == 2), T.eq(M.vshape[0], T.const(6, I)), T.eq(M.vshape[1], n.t)))
    d = draws()
    c.oblige('one draw of six normals per sample', T.const(len(d) == 1 and d[0][2].ndim == 2))
    a = d[0][2]
    j = T.var('j', I)
    c.assume(T.le(T.IZERO, j))
    c.assume(T.lt(j, n.t))
    c.oblige('draw has six rows', T.and_(T.eq(a.vshape[0], T.const(6, I)), T.eq(a.vshape[1], n.t)))
    c.assume(nonzero_columns(a, j))
    x = [a.xat((T.const(k, I), j)).v for k in range(6)]
    r = rules.sqrt(T.add(*[T.mul(v, v) for v in x]))
    m = cols(M, j)
    c.oblige('unit norm', T.eq(T.add(*[T.mul(v, v) for v in m]), ONE))
    for k in range(6):
        c.oblige('component %d is its draw over the norm' % k, T.eq(m[k], T.div(x[k], r)))
        c.oblige('samples are independent %d' % k, T.const(not own_column(m[k], j)))


def tensor(m):
    r = rules.sqrt(T.const(2))
    return [[m[0], T.div(m[3], r), T.div(m[4], r)], [T.div(m[3], r), m[1], T.div(m[5], r)], [T.div(m[4], r), T.div(m[5], r), m[2]]]


def det(M):
    return T.add(T.mul(M[0][0], T.sub(T.mul(M[1][1], M[2][2]), T.mul(M[1][2], M[1][2]))),
                 T.neg(T.mul(M[0][1], T.sub(T.mul(M[0][1], M[2][2]), T.mul(M[1][2], M[0][2])))),
                 T.mul(M[0][2], T.sub(T.mul(M[0][1], M[1][2]), T.mul(M[1][1], M[0][2]))))


def rot(axis):
    t = T.var('t', R)
    c, s = rules.cos(t), rules.sin(t)
    return [[c, T.neg(s), ZERO], [s, c, ZERO], [ZERO, ZERO, ONE]] if axis == 'z' else [[ONE, ZERO, ZERO], [ZERO, c, T.neg(s)], [ZERO, s, c]]


def dot(u, v):
    return T.add(*[T.mul(x, y) for x, y in zip(u, v)])


def rotated(t, arrays, Q, j):
    """the term with every drawn vector v replaced by Q v"""
    m = {}
    for a in arrays:
        x = [a.xat((T.const(k, I), j)).v for k in range(3)]
        for i in range(3):
            m[x[i]] = dot(Q[i], x)
    return T.subst(t, m)


def triad_contract(axis):
    def f():
        B, o, n = base()
        c = ctx()
        c.mode['max_draws'] = 3      # a second redraw repeats the first one with new names
        j = T.var('j', I)
        c.assume(T.le(T.IZERO, j))
        c.assume(T.lt(j, n.t))
        abc = o.random_orthogonal_eigenvectors()
        c.oblige('three vectors', T.const(len(abc) == 3))
        d = [a[2] for a in draws()]
        # the draws used: the last two arrays of normals, three per sample
        used = [d[0], d[-1]]
        for a in used:
            c.oblige('draw of three normals per sample', T.and_(T.eq(a.vshape[0], T.const(3, I)), T.eq(a.vshape[1], n.t)))
            c.assume(nonzero_columns(a, j))
        V = []
        for nm, v in zip('abc', abc):
            v = arr.toarr(v)
            c.oblige('%s: shape (3, n)' % nm, T.and_(T.const(v.ndim == 2), T.eq(v.vshape[0], T.const(3, I)), T.eq(v.vshape[1], n.t)))
            V.append([v.xat((T.const(k, I), j)).v for k in range(3)])
        for nm, v in zip('abc', V):
            for k in range(3):
                c.oblige('%s: samples are independent %d' % (nm, k), T.const(not own_column(v[k], j)))
        X = [[a.xat((T.const(k, I), j)).v for k in range(3)] for a in used]
        cr = lambda u, v: [T.sub(T.mul(u[1], v[2]), T.mul(u[2], v[1])), T.sub(T.mul(u[2], v[0]), T.mul(u[0], v[2])), T.sub(T.mul(u[0], v[1]), T.mul(u[1], v[0]))]
        p = cr(X[0], X[1])
        c.assume(T.not_(T.and_(*[T.eq(q, ZERO) for q in p])))
        c.assume(T.lt(ZERO, dot(p, p)))
        c.assume(T.lt(ZERO, dot(X[0], X[0])))
        for i in range(2):
            c.oblige('%s is a unit vector' % 'ab'[i], T.eq(dot(V[i], V[i]), ONE))
        c.oblige('b perpendicular to a', T.eq(dot(V[0], V[1]), ZERO))
        ab = cr(V[0], V[1])
        for k in range(3):
            c.oblige('c = a x b [%d]' % k, T.eq(V[2][k], ab[k]))
        Q = rot(axis)
        for i in range(2):
            for k in range(3):
                c.oblige('%s[%d] turns with the draws' % ('ab'[i], k), T.eq(rotated(V[i][k], used, Q, j), dot(Q[k], V[i])))
    return f


for _x in 'zx':
    CHECK.proof('random_orthogonal_eigenvectors (rotation about %s)' % _x)(triad_contract(_x))


def triad():
    """every right-handed orthonormal triad (Euler angles)"""
    p, q, r = [T.var(x, R) for x in ('phi', 'theta', 'psi')]
    cp, sp, cq, sq, cr_, sr = rules.cos(p), rules.sin(p), rules.cos(q), rules.sin(q), rules.cos(r), rules.sin(r)
    m, a, n = T.mul, T.add, T.neg
    A = [a(m(cp, cr_), n(m(sp, cq, sr))), a(m(sp, cr_), m(cp, cq, sr)), m(sq, sr)]
    Bv = [a(n(m(cp, sr)), n(m(sp, cq, cr_))), a(n(m(sp, sr)), m(cp, cq, cr_)), m(sq, cr_)]
    C = [m(sp, sq), n(m(cp, sq)), cq]
    return A, Bv, C


@CHECK.proof('lemmas on triads')
def p_lemmas():
    c = ctx()
    A, B, C = triad()
    for nm, u, v, w in (('a.a', A, A, ONE), ('b.b', B, B, ONE), ('c.c', C, C, ONE), ('a.b', A, B, ZERO), ('a.c', A, C, ZERO), ('b.c', B, C, ZERO)):
        c.oblige(nm, T.eq(dot(u, v), w))
    u, v = [[T.var('%s%d' % (n, k), R) for k in range(3)] for n in 'uv']
    cr = lambda u, v: [T.sub(T.mul(u[1], v[2]), T.mul(u[2], v[1])), T.sub(T.mul(u[2], v[0]), T.mul(u[0], v[2])), T.sub(T.mul(u[0], v[1]), T.mul(u[1], v[0]))]
    for ax in 'zx':
        Q = rot(ax)
        t = lambda w: [dot(Q[k], w) for k in range(3)]
        for k in range(3):
            c.oblige('cross product turns with its factors (%s, %d)' % (ax, k), T.eq(cr(t(u), t(v))[k], t(cr(u, v))[k]))


def assemble_contract(which, lam):
    def f():
        B, o, n = base()
        c = ctx()
        j = T.var('j', I)
        c.assume(T.le(T.IZERO, j))
        c.assume(T.lt(j, n.t))
        V = triad()
        el = [T.subst(x, {T.var(v, R): T.fn(v, j) for v in ('phi', 'theta', 'psi')}) for w in V for x in w]
        def mk(w):
            def at(i):
                e = w[2]
                for k in (1, 0):
                    e = T.ite(T.eq(i[0], T.const(k, I)), w[k], e)
                return xv.X(T.subst(e, {T.var(v, R): T.fn(v, i[1]) for v in ('phi', 'theta', 'psi')}))
            return arr.make_arr([T.const(3, I), n.t], at)
        abc = [mk(w) for w in V]
        o.random_orthogonal_eigenvectors = lambda: abc
        M = getattr(o, 'random_' + which)()
        c.oblige('shape (6, n)', T.and_(T.const(M.ndim == 2), T.eq(M.vshape[0], T.const(6, I)), T.eq(M.vshape[1], n.t)))
        m = cols(M, j)
        G = tensor(m)
        want = [[T.add(*[T.mul(lam[k], el[3 * k + x], el[3 * k + y]) for k in range(3)]) for y in range(3)] for x in range(3)]
        ctx().ghost['W'] = want
        if which == 'dc':
            for x in range(3):
                for y in range(x + 1):
                    c.oblige('M[%d,%d] is sum of eigenvalue times axis times axis' % (x, y), T.eq(G[x][y], want[x][y]))
        else:
            U = T.and_(*[T.eq(G[x][y], want[x][y]) for x in range(3) for y in range(x + 1)])
            D = T.and_(*[T.eq(G[x][y], T.neg(want[x][y])) for x in range(3) for y in range(x + 1)])
            d = ctx().ghost['draws'][-1]
            pick = d[1].t
            c.oblige('positive or negative CLVD', T.or_(U, D))
    return f


_h = T.div(ONE, rules.sqrt(T.const(2)))
_s = rules.sqrt(T.const(6))
CHECK.proof('random_dc: eigenvalues (1,0,-1)/sqrt2 on the random triad')(assemble_contract('dc', [_h, ZERO, T.neg(_h)]))
CHECK.proof('random_clvd: eigenvalues +-(2,-1,-1)/sqrt6 on the random triad')(assemble_contract('clvd', [T.div(T.const(2), _s), T.div(T.const(-1), _s), T.div(T.const(-1), _s)]))


# ---- run-time contracts -----------------------------------------------------------------------
S2 = math.sqrt(2)


def mats(m):
    m = np.asarray(m, dtype=float)
    return np.array([[m[0], m[3] / S2, m[4] / S2], [m[3] / S2, m[1], m[5] / S2], [m[4] / S2, m[5] / S2, m[2]]]).transpose(2, 0, 1)


def reference(kind, n, rng):
    if kind == 'mt':
        x = rng.standard_normal((6, n))
        return x / np.sqrt((x ** 2).sum(0))
    q = rng.standard_normal((n, 4))
    q /= np.sqrt((q ** 2).sum(1))[:, None]
    w, x, y, z = q.T
    Rm = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                   [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]).transpose(2, 0, 1)
    lam = np.array([1, 0, -1]) / S2 if kind == 'dc' else np.array([2, -1, -1]) / math.sqrt(6)
    M = np.einsum('nik,k,njk->nij', Rm, lam, Rm)
    return np.array([M[:, 0, 0], M[:, 1, 1], M[:, 2, 2], S2 * M[:, 0, 1], S2 * M[:, 0, 2], S2 * M[:, 1, 2]])


def ks(x, y):
    x, y = np.sort(x), np.sort(y)
    z = np.concatenate([x, y])
    d = np.abs(np.searchsorted(x, z, 'right') / len(x) - np.searchsorted(y, z, 'right') / len(y)).max()
    en = math.sqrt(len(x) * len(y) / (len(x) + len(y)))
    return d, 2 * math.exp(-2 * (en * d) ** 2)


def runner(mode):
    def run(b):
        pk = conc.pkg(mode)
        pk.activate()
        B = pk['algorithms.base']
        MC = pk['algorithms.monte_carlo']
        b.rule = 'exact source-type checks on every sample; two-sample Kolmogorov-Smirnov tests (p < 1e-8) of linear and quadratic functionals against an independent uniform sampler'
        rng = b.np
        gen = np.random.default_rng(rng.randint(2 ** 31))
        # forked workers (the generate option) draw independently of each other
        for kind in ('mt', 'dc', 'clvd'):
            a = B.BaseAlgorithm(number_samples=3)
            got = []
            for w in range(2):
                r, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.write(wr, np.ascontiguousarray(np.asarray(getattr(a, 'random_' + kind)(), dtype=float)).tobytes())
                    finally:
                        os._exit(0)
                os.close(wr)
                with os.fdopen(r, 'rb') as f:
                    got.append(np.frombuffer(f.read()))
                os.waitpid(pid, 0)
            b.case(('fork', kind), kind)
            b.check(len(got[0]) == len(got[1]) == 18 and not np.array_equal(got[0], got[1]), 'two worker processes draw the same %s samples' % kind, kind=kind)
        np.random.seed(rng.randint(2 ** 31))
        reseed = np.random.seed
        np.random.seed = lambda *a: None        # the sampler reseeds from the clock: make the run repeatable
        try:
            body(b, B, MC, rng, gen)
        finally:
            np.random.seed = reseed

    def body(b, B, MC, rng, gen):
        def exact(m, kind, n, inp):
            b.cur = inp
            m = np.asarray(m, dtype=float)
            if not b.check(m.shape == (6, n), 'shape %r' % (m.shape,), **inp):
                return False
            b.check(np.allclose((m ** 2).sum(0), 1, atol=1e-12), 'samples are not unit norm', **inp)
            b.check(len(np.unique(m.round(13), axis=1).T) == n, 'repeated samples', **inp)
            if kind != 'mt':
                lam = np.sort(np.linalg.eigvalsh(mats(m)), axis=1)
                want = np.array([-1, 0, 1]) / S2 if kind == 'dc' else np.array([-1, -1, 2]) / math.sqrt(6)
                ok = np.abs(lam - want).max(1) < 1e-9
                if kind == 'clvd':
                    ok |= np.abs(lam + want[::-1]).max(1) < 1e-9
                b.check(ok.all(), 'eigenvalues %r are not those of a %s' % (lam[~ok][:1].tolist(), kind), **inp)
            return True
        for it in range(b.count(40)):
            n = int(rng.choice([1, 2, 7, 100]))
            for kind, f in (('mt', lambda a: a.random_mt()), ('dc', lambda a: a.random_dc()), ('clvd', lambda a: a.random_clvd()),
                            ('mt', lambda a: a.random_sample()), ('mt', lambda a: B._6sphere_random_mt(n))):
                a = B.BaseAlgorithm(number_samples=n)
                inp = dict(kind=kind, n=n)
                b.case(('exact', it, kind), inp)
                x = f(a)
                if exact(x, kind, n, inp):
                    y = np.asarray(f(a))
                    b.check(y.shape == (6, n) and not np.isclose(np.asarray(x)[0], y[0], rtol=1e-12, atol=0).any(), 'two calls return the same sample', **inp)
            for kw, kind in ((dict(dc=True), 'dc'), (dict(sample_distribution='clvd'), 'clvd'), ({}, 'mt')):
                inp = dict(kind=kind, n=n, options=str(kw))
                a = B.BaseAlgorithm(number_samples=n, **kw)
                b.case(('sample', it, kind), inp)
                exact(a.random_sample(), kind, n, inp)
                a = MC.IterationSample(number_samples=n, **kw)
                exact(a.random_sample(), kind, n, inp)
                if kind != 'clvd':
                    a = MC.IterationSample(number_samples=n, number_events=3, **kw)
                    r = a.random_sample()
                    b.check(len(r) == 3, 'one sample set per event', **inp)
                    for x in r:
                        exact(x, kind, n, inp)
                    b.check(not np.allclose(np.asarray(r[0]), np.asarray(r[1])), 'events share their random sources', **inp)
        # distributions
        N = 20000
        for kind in ('mt', 'dc', 'clvd'):
            ref = reference(kind, 200000, gen)
            for rep in range(b.count(3)):
                a = B.BaseAlgorithm(number_samples=N if kind != 'clvd' else 500)
                parts = 1 if kind != 'clvd' else N // 500
                m = np.hstack([np.asarray(getattr(a, 'random_' + kind)()) for _ in range(parts)])
                if kind == 'clvd':      # both polarities are CLVD patterns; compare orientations
                    s = np.sign(np.einsum('nii->n', mats(m) @ mats(m) @ mats(m)))
                    m = m * s
                inp = dict(kind=kind, n=N, repetition=rep)
                b.cur = inp
                g = gen.standard_normal((8, 3))
                g /= np.sqrt((g ** 2).sum(1))[:, None]
                g[:3] = np.eye(3)
                M, Mr = mats(m), mats(ref)
                fs = [('g.M.g', lambda A, M, u=u: np.einsum('i,nij,j->n', u, M, u)) for u in g]
                fs += [('g.M.h', lambda A, M, u=g[i], v=g[(i + 1) % 8]: np.einsum('i,nij,j->n', u, M, v)) for i in range(8)]
                fs += [('component %d' % k, lambda A, M, k=k: A[k]) for k in range(6)]
                fs += [('product %d %d' % (i, j), lambda A, M, i=i, j=j: A[i] * A[j]) for i in range(6) for j in range(i)]
                for nm, h in fs:
                    b.case(('ks', kind, rep, nm), inp)
                    d, p = ks(h(m, M), h(ref, Mr))
                    b.check(p > 1e-8, '%s of random %s sources is not distributed as for uniform sources (KS distance %.4f)' % (nm, kind, d), **inp)
                for k in range(6):
                    x = m[k] - m[k].mean()
                    for lag in (1, 2, 3):
                        r = (x[lag:] * x[:-lag]).mean() / (x * x).mean()
                        b.check(abs(r) < 6.5 / math.sqrt(N), 'successive %s samples are correlated (%.4f)' % (kind, r), **inp)
    return run


CHECK.runtime('pure Python')(runner('pure'))
CHECK.runtime('compiled', compiled=True)(runner('c'))
