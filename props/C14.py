"""C14: eigen-decomposition and source-type coordinates are faithful and scale-free."""
import itertools
import math
from fractions import Fraction
import numpy as np
from dpv import report, load, sym, rules, conc, mtref as Q, term as T
from dpv.paths import ctx
from dpv.term import R
CHECK = report.Check('C14')
MV = 'MTfit.convert.moment_tensor_conversion'
CHECK.covers(*([MV + '.' + n for n in ('MT33_TNPE', 'MT6_TNPE', 'MT6_MT33', 'MT33_GD', 'E_tk', 'tk_uv', 'E_uv', 'E_GD', 'GD_E', 'MT6c_D6', 'c21_cvoigt', 'basic_cdc_GD', 'GD_basic_cdc')]
               + ['MTfit.convert.cmoment_tensor_conversion.%s (bounded)' % n for n in ('MT6_TNPE', 'E_GD', 'MT_output_convert', 'MT6c_D6')]))
CHECK.assume('numpy.linalg.eigh / eigvalsh return real ascending eigenvalues, orthonormal eigenvectors and rebuild a symmetric matrix (checked at run time on the bounded inputs)',
             'numpy.linalg.solve returns the solution of the linear system; a positive definite stiffness makes it unique',
             'the zero tensor has no source type and is excluded',
             'arctan2 and arccos return principal values, so a coordinate is fixed by its sine and cosine')
ZERO, ONE = T.ZERO, T.ONE
C = lambda v: T.const(Fraction(v), R)
SQ = lambda n: rules.sqrt(C(n))


def num(v):
    if isinstance(v, np.ndarray):
        v = v.flat[0] if v.size == 1 else None
    return sym.real(sym.lift(v).t)


def c_ok(what, v):
    ctx().oblige(what, T.const(bool(v)))
    return v


def V():
    return load.Loader().plain(MV)


def dot(a, b):
    return T.add(*[T.mul(x, y) for x, y in zip(a, b)])


def spectral(pre='', order=True):
    """a symmetric matrix with its decomposition: eigenvalues e (ascending), orthonormal columns l[.][k], entries m"""
    e = [sym.real_var('%se%d' % (pre, i)).t for i in range(3)]
    l = [[sym.real_var('%sl%d%d' % (pre, i, k)).t for k in range(3)] for i in range(3)]
    if order:
        ctx().assume(T.le(e[0], e[1]))
        ctx().assume(T.le(e[1], e[2]))
    for a in range(3):
        for b in range(a, 3):
            ctx().assume(T.eq(dot([l[i][a] for i in range(3)], [l[i][b] for i in range(3)]), ONE if a == b else ZERO))
    return e, l


def rebuilt(e, l, i, j):
    return T.add(*[T.mul(e[k], l[i][k], l[j][k]) for k in range(3)])


def S(ts):
    return np.array([sym.S(t) for t in ts], dtype=object)


@CHECK.proof('MT33_TNPE: largest to smallest, orthonormal, rebuilds')
def tnpe():
    M = V()
    e, l = spectral()
    m = [[sym.real_var('m%d%d' % (min(i, j), max(i, j))).t for j in range(3)] for i in range(3)]

    def entries(x):
        return all(num(x[i, j]) is m[i][j] for i in range(3) for j in range(3))

    def eigh(x, *a, **k):
        c_ok('decomposes the given tensor', entries(x))
        return S(e), np.matrix(np.array([[sym.S(l[i][k]) for k in range(3)] for i in range(3)], dtype=object))
    ctx().mode['linalg.eigh'] = eigh
    T_, N_, P_, E = M.MT33_TNPE(np.matrix(np.array([[sym.S(m[i][j]) for j in range(3)] for i in range(3)], dtype=object)))
    ax = [[num(x) for x in np.asarray(v, dtype=object).ravel()] for v in (T_, N_, P_)]
    ev = [num(x) for x in np.asarray(E, dtype=object).ravel()]
    c_ok('three axes, three eigenvalues', [len(a) for a in ax] == [3, 3, 3] and len(ev) == 3)
    c = ctx()
    c.oblige('ordered from largest to smallest', T.and_(T.le(ev[1], ev[0]), T.le(ev[2], ev[1])))
    for a in range(3):
        for b in range(a, 3):
            c.oblige('axes %d %d orthonormal' % (a, b), T.eq(dot(ax[a], ax[b]), ONE if a == b else ZERO))
    for i in range(3):
        for j in range(i, 3):
            c.oblige('entry %d%d rebuilt' % (i, j), T.eq(T.add(*[T.mul(ev[k], ax[k][i], ax[k][j]) for k in range(3)]), rebuilt(e, l, i, j)))


@CHECK.proof('MT6_TNPE: each column decomposed on its own')
def tnpe6():
    for n in (1, 2, 3):
        M = V()
        x = np.matrix(np.array([[sym.S(sym.real_var('x%d_%d' % (i, j)).t) for j in range(n)] for i in range(6)], dtype=object))
        seen = []

        def one(m33):
            k = len(seen)
            seen.append([num(m33[i, j]) for i in range(3) for j in range(3)])
            vec = lambda p: np.matrix(np.array([[sym.real_var('%s%d_%d' % (p, k, i))] for i in range(3)], dtype=object))
            return vec('t'), vec('n'), vec('p'), np.array([sym.real_var('e%d_%d' % (k, i)) for i in range(3)], dtype=object)
        M.MT33_TNPE = one
        T_, N_, P_, E = M.MT6_TNPE(x)
        c_ok('one decomposition per column', len(seen) == n)
        for k in range(n):
            h = [num(x[i, k]) for i in range(6)]
            r = T.div(ONE, SQ(2))
            want = [h[0], T.mul(r, h[3]), T.mul(r, h[4]), T.mul(r, h[3]), h[1], T.mul(r, h[5]), T.mul(r, h[4]), T.mul(r, h[5]), h[2]]
            for i, (g, w) in enumerate(zip(seen[k], want)):
                ctx().oblige('column %d entry %d' % (k, i), T.eq(g, w))
            for p, A in (('t', T_), ('n', N_), ('p', P_), ('e', E)):
                c_ok('results kept in place', all(num(A[i, k]) is sym.real_var('%s%d_%d' % (p, k, i)).t for i in range(3)))


# ---- Hudson coordinates
def eigs(strict=False):
    a, b, c = [sym.real_var('E%d' % i).t for i in (0, 1, 2)]
    ctx().assume(T.le(b, a))
    ctx().assume(T.le(c, b))
    if strict:
        ctx().assume(T.lt(c, a))
    ctx().assume(T.or_(T.not_(T.eq(a, ZERO)), T.not_(T.eq(c, ZERO))))
    return [a, b, c]


def uv(perm):
    def f():
        M = V()
        e = eigs()
        u, v = M.E_uv(S([e[i] for i in perm]))
        u, v = num(u), num(v)
        big = T.ite(T.le(T.neg(e[2]), e[0]), e[0], T.neg(e[2]))        # largest absolute eigenvalue
        c = ctx()
        c.oblige('u by definition', T.eq(T.mul(u, big), T.mul(C('-2/3'), T.sub(T.add(e[0], e[2]), T.mul(C(2), e[1])))))
        c.oblige('v by definition', T.eq(T.mul(v, big), T.mul(C('1/3'), T.add(*e))))
        c.oblige('|u| at most 4/3', T.and_(T.le(C('-4/3'), u), T.le(u, C('4/3'))))
        c.oblige('|v| at most 1', T.and_(T.le(C(-1), v), T.le(v, ONE)))
    return f


for _p in itertools.permutations(range(3)):
    CHECK.proof('Hudson coordinates, eigenvalues given in order %s' % ''.join(map(str, _p)), budget=60.0)(uv(_p))


@CHECK.proof('tk_uv of arrays acts element by element')
def tkuv():
    M = V()
    t, k = [sym.real_var('t%d' % i).t for i in (0, 1)], [sym.real_var('k%d' % i).t for i in (0, 1)]
    for x in k:
        ctx().assume(T.and_(T.le(C(-1), x), T.le(x, ONE)))
    for x, y in zip(t, k):
        ctx().assume(T.and_(T.le(x, T.sub(ONE, y)), T.le(x, T.add(ONE, y)), T.le(T.neg(x), T.sub(ONE, y)), T.le(T.neg(x), T.add(ONE, y))))
    u, v = M.tk_uv(S(t), S(k))
    for i in range(2):
        a, b = M.tk_uv(sym.S(t[i]), sym.S(k[i]))
        ctx().oblige('u', T.eq(num(u[i]), num(a)))
        ctx().oblige('v', T.eq(num(v[i]), num(b)))


# ---- lune coordinates
def gd_inverse(perm):
    def f():
        M = V()
        e = eigs(strict=True)
        g, d = M.E_GD(S([e[i] for i in perm]))
        g, d = num(g), num(d)
        n2 = dot(e, e)
        c = ctx()
        sg, cg, sd, cd = rules.sin(g), rules.cos(g), rules.sin(d), rules.cos(d)
        c.oblige('latitude in its range', T.le(ZERO, cd))
        r = M.GD_E(sym.S(g), sym.S(d))
        r = [num(x) for x in np.asarray(r, dtype=object).ravel()]
        c_ok('three eigenvalues', len(r) == 3)
        n = rules.sqrt(n2)
        for i in range(3):
            c.oblige('eigenvalue %d recovered' % i, T.eq(T.mul(r[i], n), e[i]))
    return f


for _p in itertools.permutations(range(3)):
    CHECK.proof('lune coordinates invert the eigenvalue map, order %s' % ''.join(map(str, _p)), budget=60.0)(gd_inverse(_p))


@CHECK.proof('lune longitude range: descending eigenvalues give |longitude| at most pi/6')
def lon():
    # cosines and sines of a lune point whose eigenvalues are in descending order and not all equal
    cg, sg, cd, sd = [sym.real_var(n).t for n in ('cg', 'sg', 'cd', 'sd')]
    c = ctx()
    c.assume(T.eq(T.add(T.mul(cg, cg), T.mul(sg, sg)), ONE))
    c.assume(T.le(ZERO, cd))
    s3 = sym.real_var('root3').t
    c.assume(T.and_(T.lt(ZERO, s3), T.eq(T.mul(s3, s3), C(3))))
    m = [T.add(T.mul(s3, cd, cg), T.neg(T.mul(cd, sg)), sd), T.add(T.mul(C(2), cd, sg), sd), T.add(T.neg(T.mul(s3, cd, cg)), T.neg(T.mul(cd, sg)), sd)]
    c.assume(T.and_(T.le(m[1], m[0]), T.le(m[2], m[1]), T.lt(m[2], m[0])))
    c.oblige('cosine at least that of pi/6', T.le(T.mul(C('1/2'), s3), cg))


@CHECK.proof('lune coordinates of isotropic sources')
def gd_iso():
    M = V()
    for s in (1, -1):
        a = sym.real_var('a%d' % s)
        ctx().assume(T.lt(ZERO, T.mul(C(s), a.t)))
        g, d = M.E_GD(S([a.t] * 3))
        ctx().oblige('longitude', T.eq(num(g), ZERO))
        ctx().oblige('latitude', T.eq(num(d), T.mul(C(Fraction(s, 2)), T.PI)))


@CHECK.proof('eigenvalues of a lune point: unit, and mapped back to it', budget=60.0)
def gd_back():
    M = V()
    g, d = sym.real_var('gamma'), sym.real_var('delta')
    sg, cg, sd, cd = rules.sin(g.t), rules.cos(g.t), rules.sin(d.t), rules.cos(d.t)
    c = ctx()
    c.assume(T.le(T.mul(C('1/2'), SQ(3)), cg))
    c.assume(T.and_(T.le(sg, C('1/2')), T.le(C('-1/2'), sg)))
    c.assume(T.lt(ZERO, cd))
    E = M.GD_E(g, d)
    e = [num(x) for x in np.asarray(E, dtype=object).ravel()]
    c.oblige('unit', T.eq(dot(e, e), ONE))
    want = [T.add(T.mul(SQ(3), cd, cg), T.neg(T.mul(cd, sg)), T.mul(SQ(2), sd)), T.add(T.mul(C(2), cd, sg), T.mul(SQ(2), sd)), T.add(T.neg(T.mul(SQ(3), cd, cg)), T.neg(T.mul(cd, sg)), T.mul(SQ(2), sd))]
    for a, w in zip(e, want):
        c.oblige('the eigenvalue map', T.eq(T.mul(SQ(6), a), w))


# ---- stiffness
VI = Q.VI


@CHECK.proof('potency tensor: multiplying by the stiffness gives the moment tensor', budget=60.0)
def potency():
    for shape in ((6,), (6, 1)):
        M = V()
        cs = [sym.real_var('c%d' % i).t for i in range(21)]
        m = [sym.real_var('m%d' % i).t for i in range(6)]
        D = [sym.real_var('D%d' % i).t for i in range(6)]

        def solve(A, b):
            for i in range(6):
                ctx().assume(T.eq(dot([num(A[i, k]) for k in range(6)], D), num(b[i, 0])))
            return np.matrix(np.array([[sym.S(x)] for x in D], dtype=object))
        ctx().mode['linalg.solve'] = solve
        mm = S(m).reshape(shape)
        r = [num(x) for x in np.asarray(M.MT6c_D6(mm, [sym.S(x) for x in cs]), dtype=object).ravel()]
        c_ok('six components', len(r) == 6)
        h = T.div(ONE, SQ(2))
        full = lambda x: [[x[0], T.mul(h, x[3]), T.mul(h, x[4])], [T.mul(h, x[3]), x[1], T.mul(h, x[5])], [T.mul(h, x[4]), T.mul(h, x[5]), x[2]]]
        c6, k = {}, 0
        for i in range(6):
            for j in range(i, 6):
                c6[i, j] = c6[j, i] = cs[k]
                k += 1
        Df, Mf = full(r), full(m)
        for i in range(3):
            for j in range(i, 3):
                ctx().oblige('component %d%d' % (i, j), T.eq(T.add(*[T.mul(c6[VI[i, j], VI[a, b]], Df[a][b]) for a in range(3) for b in range(3)]), Mf[i][j]))


# ---- crack + double-couple
@CHECK.proof('crack + double-couple parameters survive the lune', budget=60.0)
def cdc():
    M = V()
    al, nu = sym.real_var('alpha'), sym.real_var('nu')
    c = ctx()
    ca, sa = rules.cos(al.t), rules.sin(al.t)
    c.assume(T.and_(T.lt(ZERO, ca), T.le(ca, ONE), T.le(ZERO, sa)))
    c.assume(T.and_(T.lt(C(-1), nu.t), T.lt(nu.t, C('1/2'))))
    c.assume(T.not_(T.eq(al.t, T.mul(C('1/2'), T.PI))))
    g, d = M.basic_cdc_GD(al, nu)
    a2, n2 = M.GD_basic_cdc(g, d)
    c.oblige('opening angle', T.eq(rules.cos(num(a2)), ca))
    c.oblige('Poisson ratio', T.eq(num(n2), nu.t))


# ---- run-time contracts -----------------------------------------------------------------------
TOL = 1e-6


def frame(rng):
    return Q.rot(rng) if rng.rand() < .7 else np.eye(3)[rng.permutation(3)]


def stiffness(rng):
    k = rng.randint(4)
    if k < 2:
        mu = 10 ** rng.uniform(-2, 2)
        lam_ = mu * rng.uniform(-0.6, 5)
        return [float(x) for x in (lam_ + 2 * mu, lam_, lam_, 0, 0, 0, lam_ + 2 * mu, lam_, 0, 0, 0, lam_ + 2 * mu, 0, 0, 0, mu, 0, 0, mu, 0, mu)]
    A = rng.randn(6, 6)
    A = A.dot(A.T) + 0.3 * np.eye(6)
    w = np.array([1, 1, 1, R2_, R2_, R2_])
    A = A / np.outer(w, w)                      # Kelvin form positive definite
    return [float(A[i, j]) for i in range(6) for j in range(i, 6)]


R2_ = math.sqrt(2)


def runner(mode):
    def run(b):
        pk = conc.pkg(mode)
        M = pk['convert.moment_tensor_conversion']
        b.check((M.cmoment_tensor_conversion is not None) == (mode == 'c'), 'extension present: %r' % (M.cmoment_tensor_conversion is not None))
        b.rule = 'orthonormality, order and reconstruction of the axes to 1e-6; lune and Hudson coordinates against their definitions under permutation and scaling; potency tensor against c_ijkl; crack+DC round trip'
        pk.activate()
        rng = b.np

        def axes(T_, N_, P_, E, A, what, **inp):
            E = np.asarray(E).ravel()
            B = np.c_[np.asarray(T_).ravel(), np.asarray(N_).ravel(), np.asarray(P_).ravel()]
            sc = max(np.max(np.abs(A)), 1e-300)
            b.check(not (np.iscomplexobj(B) or np.iscomplexobj(E)), what + ': complex result', **inp)
            b.check(B.shape == (3, 3) and E.shape == (3,) and np.all(np.isfinite(B)) and np.allclose(B.T.dot(B), np.eye(3), atol=TOL), what + ': axes not orthonormal: %r' % B.tolist(), **inp)
            b.check(np.all(np.diff(E) <= 1e-12 * sc), what + ': eigenvalues not in descending order: %r' % E.tolist(), **inp)
            b.check(np.allclose((B * E).dot(B.T), A, atol=TOL * sc), what + ': tensor not rebuilt: %r' % (B * E).dot(B.T).tolist(), **inp)
        for it in range(b.count(500)):
            n = int(rng.choice([1, 1, 2, 3, 5, 6, 7]))
            sc = float(rng.choice([1., 1., 10 ** rng.uniform(-8, 8)]))
            Es = [Q.spectrum(rng) for _ in range(n)]
            As = []
            for E in Es:
                F = frame(rng)
                A = sc * F.dot(np.diag(E)).dot(F.T)
                As.append((A + A.T) / 2)
            inp = dict(matrices=[A.tolist() for A in As], mode=mode)
            b.case((n, it), inp)
            b.cur = inp
            x = np.array([Q.six(A) for A in As]).T
            t, nn, p, e = M.MT6_TNPE(x if n > 1 or rng.rand() < .5 else np.matrix(x))
            b.check(all(np.shape(v) == (3, n) for v in (t, nn, p, e)), 'shapes %r for %d tensors' % ([np.shape(v) for v in (t, nn, p, e)], n), **inp)
            for k in range(n):
                axes(np.asarray(t)[:, k], np.asarray(nn)[:, k], np.asarray(p)[:, k], np.asarray(e)[:, k], As[k], 'MT6_TNPE column %d' % k, **inp)
            axes(*M.MT33_TNPE(np.matrix(As[0])), As[0], 'MT33_TNPE', **inp)
            cols = []
            for E, A in zip(Es, As):
                if not np.any(E):
                    cols.append(None)
                    continue
                S_ = np.sort(E)[::-1]
                ref = S_ / np.linalg.norm(S_)
                hu = Q.hudson(E)
                cols.append((ref, hu))
                for how, ev in (('sorted', S_), ('permuted', rng.permutation(E)), ('scaled', S_ * 10 ** rng.uniform(-8, 8))):
                    inp2 = dict(eigenvalues=[float(q) for q in ev], mode=mode)
                    u, v = [float(np.ravel(q)[0]) for q in M.E_uv(np.array(ev))]
                    b.check(abs(u) <= 4. / 3 + 1e-9 and abs(v) <= 1 + 1e-9, 'Hudson coordinates out of range: %r, %r (%s)' % (u, v, how), **inp2)
                    b.check(abs(u - hu[0]) < TOL and abs(v - hu[1]) < TOL, 'Hudson coordinates %r, %r, by definition %r (%s)' % (u, v, hu, how), **inp2)
                    g, d = [float(np.ravel(q)[0]) for q in M.E_GD(np.array(ev))]
                    b.check(abs(g) <= math.pi / 6 + 1e-9 and abs(d) <= math.pi / 2 + 1e-9, 'lune coordinates out of range: %r, %r (%s)' % (g, d, how), **inp2)
                    b.check(np.allclose(Q.lam(g, d), ref, atol=TOL), 'lune coordinates %r, %r have eigenvalues %r, expected %r (%s)' % (g, d, Q.lam(g, d).tolist(), ref.tolist(), how), **inp2)
                g, d = [float(np.ravel(q)[0]) for q in M.MT33_GD(np.matrix(A))]
                b.check(np.allclose(Q.lam(g, d), ref, atol=TOL), 'MT33_GD: %r, %r have eigenvalues %r, expected %r' % (g, d, Q.lam(g, d).tolist(), ref.tolist()), **inp)
            if n > 1 and all(cols):
                if n == 3 and rng.rand() < .5:
                    pass
                G, D = M.E_GD(np.asarray(e))
                for k in range(n):
                    b.check(np.shape(G) == (n,) and np.allclose(Q.lam(G[k], D[k]), cols[k][0], atol=TOL), 'batched lune coordinates of column %d' % k, **inp)
                if n != 1:
                    u, v = M.tk_uv(*M.E_tk(np.asarray(e)))
                    for k in range(n):
                        b.check(np.shape(u) == (n,) and np.allclose((u[k], v[k]), cols[k][1], atol=TOL), 'batched Hudson coordinates of column %d: %r, expected %r' % (k, (u[k], v[k]), cols[k][1]), **inp)
            if all(cols):
                o = M.output_convert(x / np.linalg.norm(x, axis=0))
                for k in range(n):
                    b.check(np.allclose((o['u'][k], o['v'][k]), cols[k][1], atol=TOL), 'reported u, v %r, expected %r' % ((o['u'][k], o['v'][k]), cols[k][1]), **inp)
                    b.check(abs(o['g'][k]) <= math.pi / 6 + 1e-9 and abs(o['d'][k]) <= math.pi / 2 + 1e-9 and np.allclose(Q.lam(o['g'][k], o['d'][k]), cols[k][0], atol=TOL), 'reported g, d %r, %r' % (o['g'][k], o['d'][k]), **inp)
        for it in range(b.count(400)):
            g, d = [float(rng.choice([rng.uniform(-1, 1), rng.uniform(-1, 1), -1, 0, 1, 1 - 1e-7])) * w for w in (math.pi / 6, math.pi / 2)]
            inp = dict(gamma=g, delta=d, mode=mode)
            b.case(('gd', it), inp)
            b.cur = inp
            e = np.asarray(M.GD_E(g, d)).ravel()
            b.check(np.allclose(e, Q.lam(g, d), atol=1e-12), 'eigenvalues %r, expected %r' % (e.tolist(), Q.lam(g, d).tolist()), **inp)
            g2, d2 = [float(np.ravel(q)[0]) for q in M.E_GD(e)]
            b.check(abs(d2 - d) < 1e-6 and abs(g2 - g) * math.cos(d) < 1e-7, 'lune point came back as %r, %r' % (g2, d2), **inp)
            k = int(rng.choice([2, 3, 4]))
            gs, ds = rng.uniform(-1, 1, k) * math.pi / 6, rng.uniform(-1, 1, k) * math.pi / 2
            e = np.asarray(M.GD_E(gs, ds))
            b.check(e.shape == (3, k) and np.allclose(e.T, [Q.lam(*q) for q in zip(gs, ds)], atol=1e-12), 'batched eigenvalues', gammas=gs.tolist(), deltas=ds.tolist(), mode=mode)
        for it in range(b.count(300)):
            c = stiffness(rng)
            D = Q.mat(rng.randn(6))
            m = Q.six(Q.stiff(c, D))
            inp = dict(c=c, m=m.tolist(), mode=mode)
            b.case(('c', it), inp)
            b.cur = inp
            x = np.array(m) if rng.rand() < .5 else np.array(m)[:, None]
            r = np.asarray(M.MT6c_D6(x, c)).ravel()
            V6 = np.array(M.c21_cvoigt(c))
            cond = np.linalg.cond(Q.c66(c))
            b.check(r.shape == (6,) and np.allclose(Q.stiff(c, Q.mat(r)), Q.mat(m), atol=1e-10 * cond * np.max(np.abs(m))), 'potency tensor %r times the stiffness is not the moment tensor' % r.tolist(), **inp)
            b.check(V6.shape == (6, 6) and np.allclose(V6, V6.T), 'stiffness matrix not symmetric', **inp)
            nrm = math.sqrt(sum(Q.c66(c)[Q.VI[i, j], Q.VI[k, l]] ** 2 for i in range(3) for j in range(3) for k in range(3) for l in range(3)))
            b.check(abs(M.c_norm(c) - nrm) < 1e-9 * nrm, 'stiffness norm %r, expected %r' % (M.c_norm(c), nrm), **inp)
            iso = M.isotropic_c(c=c)
            b.check(len(iso) == 21 and bool(M.is_isotropic_c(list(iso))), 'isotropic average %r is not isotropic' % (iso,), **inp)
            lam_, mu = float(iso[1]), float(iso[15])
            if bool(M.is_isotropic_c(c)):
                b.check(np.allclose(iso, c, atol=1e-5 * nrm), 'isotropic stiffness changed by averaging: %r' % (iso,), **inp)
                b.check(np.allclose(M.isotropic_c(float(c[1]), float(c[15])), c, atol=1e-5 * nrm), 'stiffness of two Lame parameters', **inp)
            # nearest isotropic tensor: the residual is orthogonal to both isotropic tensors
            V1, V2 = Q.c66(c), Q.c66([float(q) for q in iso])
            r1 = sum(V1[Q.VI[i, i], Q.VI[j, j]] - V2[Q.VI[i, i], Q.VI[j, j]] for i in range(3) for j in range(3))
            r2 = sum(V1[Q.VI[i, j], Q.VI[i, j]] - V2[Q.VI[i, j], Q.VI[i, j]] for i in range(3) for j in range(3))
            b.check(abs(r1) + abs(r2) < 1e-9 * nrm, 'isotropic approximation is not the nearest isotropic stiffness (%r, %r)' % (r1, r2), **inp)
        for it in range(b.count(400)):
            al = float(rng.choice([rng.uniform(0, math.pi / 2), rng.uniform(0, math.pi / 2), 0., 1e-6, math.pi / 2 - 1e-3]))
            nu = float(rng.choice([rng.uniform(-.999, .499), 0., 0.25, -.99, .49]))
            inp = dict(alpha=al, poisson=nu, mode=mode)
            b.case(('cdc', it), inp)
            b.cur = inp
            k = int(rng.choice([0, 1, 3]))
            a, p = (al, nu) if k == 0 else (np.array([al] * k), np.array([nu] * k))
            g, d = M.basic_cdc_GD(a, p)
            a2, p2 = M.GD_basic_cdc(g, d)
            b.check(np.all(np.abs(np.ravel(a2) - al) < 2e-7 + (1e-9 if al > 1e-3 else 1e-3 * 1e-3 * 30)) and np.all(np.abs(np.ravel(p2) - nu) < 1e-6), 'opening angle and Poisson ratio came back as %r, %r' % (a2, p2), **inp)
            # against the model itself: M = lambda tr(D) I + 2 mu D, D = sym(n u) with angle pi/2 - alpha... eigenvalues
            E = cdc_eigs(al, nu)
            gg, dd = float(np.ravel(g)[0]), float(np.ravel(d)[0])
            b.check(np.allclose(Q.lam(gg, dd), E, atol=1e-6), 'crack + double-couple eigenvalues %r, expected %r' % (Q.lam(gg, dd).tolist(), E.tolist()), **inp)
    return run


def cdc_eigs(al, nu):
    """unit eigenvalues of the moment tensor of a fault whose slip makes the angle alpha with its normal"""
    n, u = np.array([0., 0, 1]), np.array([math.sin(al), 0, math.cos(al)])
    D = np.outer(n, u) + np.outer(u, n)
    mu, lam_ = 1 - 2 * nu, 2 * nu               # lambda/mu = 2 nu/(1-2 nu)
    A = lam_ * np.trace(D) / 2 * np.eye(3) + mu * D
    e = np.sort(np.linalg.eigvalsh(A))[::-1]
    return e / np.linalg.norm(e)


CHECK.runtime('pure Python')(runner('pure'))
CHECK.runtime('compiled', compiled=True)(runner('c'))
