"""C12: Tape parameters, 3x3 and six-vector forms of a source are mutually inverse."""
import math
from fractions import Fraction
import numpy as np
from dpv import report, load, sym, rules, conc, mtref as Q, term as T
from dpv.paths import ctx
from dpv.term import R
from props import C13, C14
from props.C13 import num, C, dot, col, vec, normal, slip, plane
CHECK = report.Check('C12')
MV = 'MTfit.convert.moment_tensor_conversion'
CHECK.covers(*([MV + '.' + n for n in ('MT6_Tape', 'Tape_MT33', 'Tape_MT6', 'MT33_MT6', 'MT6_MT33', 'GD_E', 'E_GD', 'SDR_TNP', 'TNP_SDR', 'FP_SDR', 'TP_FP', 'SDR_SDR', 'MT33_TNPE', 'output_convert')]
               + ['MTfit.convert.cmoment_tensor_conversion.%s (bounded)' % n for n in ('Tape_MT6', 'MT6_TNPE', 'TP_SDR', 'SDR_SDR', 'E_GD', 'MT_output_convert')]))
CHECK.assume('numpy/scipy symmetric eigen-solver contract: real ascending eigenvalues, orthonormal eigenvectors, the matrix rebuilt (checked at run time on the bounded inputs)',
             'arctan2 / arccos return the principal value, so an angle is fixed by its sine and cosine and its range',
             'every pair of perpendicular unit vectors is +/-(normal, slip) of some strike, dip in [0,pi/2] and rake')
ZERO, ONE = T.ZERO, T.ONE


def c_ok(what, v):
    ctx().oblige(what, T.const(bool(v)))
    return v


def V():
    return load.Loader().plain(MV)


R2 = rules.sqrt(C(2))
IJ = ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))


def unit_six():
    """six numbers of unit norm"""
    x = [sym.real_var('m%d' % i) for i in range(6)]
    s = T.add(*[T.mul(a.t, a.t) for a in x])
    ctx().assume(T.eq(s, ONE))
    return x


def wanted33(x):
    t = [a.t for a in x]
    o = lambda v: T.div(v, R2)
    return [[t[0], o(t[3]), o(t[4])], [o(t[3]), t[1], o(t[5])], [o(t[4]), o(t[5]), t[2]]]


def forms(kind):
    def f():
        M = V()
        x = unit_six()
        a = np.array(x, dtype=object)
        if kind != 'flat':
            a = a.reshape(6, 1) if kind != 'row' else a.reshape(1, 6)
        if kind == 'matrix':
            a = np.asmatrix(a)
        G = M.MT6_MT33(a)
        c_ok('a 3x3 form', np.shape(G) == (3, 3))
        w = wanted33(x)
        for i in range(3):
            for j in range(3):
                ctx().oblige('entry %d%d' % (i, j), T.eq(num(G[i, j]), w[i][j]))
        b = M.MT33_MT6(G)
        c_ok('six components', np.size(b) == 6)
        n = rules.sqrt(T.add(*[T.mul(v.t, v.t) for v in x]))
        for i, v in enumerate(vec(b)):
            # the norm is one by the precondition: v equals x_i / |x|
            ctx().oblige('component %d is that of the unit tensor' % i, T.eq(v, T.div(x[i].t, n)))
        ctx().oblige('the norm of the given tensor is one', T.eq(T.mul(n, n), ONE))
    return f


for _k in ('flat', 'column', 'row', 'matrix'):
    CHECK.proof('six-vector to 3x3 and back, %s' % _k)(forms(_k))


@CHECK.proof('3x3 to six-vector: unit norm, same tensor up to its size')
def six():
    M = V()
    a = [[sym.real_var('a%d%d' % (min(i, j), max(i, j))) for j in range(3)] for i in range(3)]
    n2 = T.add(*[T.mul(a[i][j].t, a[i][j].t) for i in range(3) for j in range(3)])
    ctx().assume(T.lt(ZERO, n2))
    n = rules.sqrt(n2)
    v = vec(M.MT33_MT6(np.matrix(np.array(a, dtype=object))))
    for (i, j), q in zip(IJ, v):
        ctx().oblige('component of %d%d' % (i, j), T.eq(q, T.div(T.mul(R2, a[i][j].t) if i != j else a[i][j].t, n)))


def lune(g, d):
    """unit eigenvalues of lune coordinates, from the definition"""
    # Tape & Tape (2012): U = 1/sqrt6 [[r3,0,-r3],[-1,2,-1],[r2,r2,r2]], transposed, of the point at colatitude pi/2 - d, longitude g
    x, y, z = T.mul(rules.cos(d), rules.cos(g)), T.mul(rules.cos(d), rules.sin(g)), rules.sin(d)
    r3, r6 = rules.sqrt(C(3)), rules.sqrt(C(6))
    return [T.div(T.add(T.mul(a, r3, x), T.mul(b, y), T.mul(R2, z)), r6) for a, b in ((C(1), C(-1)), (C(0), C(2)), (C(-1), C(-1)))]


def source(pre=''):
    g, d, s, h, r = [sym.real_var(pre + n) for n in 'gdkhs']
    c = ctx()
    six_, half, two = T.mul(C('1/6'), T.PI), T.mul(C('1/2'), T.PI), T.mul(C(2), T.PI)
    for v, lo, hi in ((g, T.neg(six_), six_), (d, T.neg(half), half), (h, ZERO, ONE), (r, T.neg(half), half)):
        c.assume(T.and_(T.le(lo, v.t), T.le(v.t, hi)))
    c.assume(T.and_(T.le(ZERO, s.t), T.lt(s.t, two)))
    return g, d, s, h, r


def reference(p):
    """sum of eigenvalue times axis times axis, axes from normal and slip"""
    g, d, s, h, r = [x.t for x in p]
    dip = rules.mkfn('acos', h)
    n, u = normal(s, dip), slip(s, dip, r)
    l = lune(g, d)
    cr = [T.sub(T.mul(n[1], u[2]), T.mul(n[2], u[1])), T.sub(T.mul(n[2], u[0]), T.mul(n[0], u[2])), T.sub(T.mul(n[0], u[1]), T.mul(n[1], u[0]))]
    half = C('1/2')
    t, q = [[f(a, b) for a, b in zip(n, u)] for f in (T.add, T.sub)]
    return [[T.add(T.mul(half, l[0], t[i], t[j]), T.mul(l[1], cr[i], cr[j]), T.mul(half, l[2], q[i], q[j])) for j in range(3)] for i in range(3)]


@CHECK.proof('Tape_MT33: eigenvalues of the lune point on the axes of the plane', budget=60.0)
def tape33():
    M = V()
    p = source()
    G = M.Tape_MT33(*p)
    W = reference(p)
    c_ok('3x3', np.shape(G) == (3, 3))
    for i in range(3):
        for j in range(i, 3):
            ctx().oblige('entry %d%d' % (i, j), T.eq(num(G[i, j]), W[i][j]))
            if i != j:
                ctx().oblige('symmetric %d%d' % (i, j), T.eq(num(G[i, j]), num(G[j, i])))


def tape6(n):
    def f():
        M = V()
        ps = [source('%d_' % i if n else '') for i in range(max(n, 1))]
        seen = []

        def t33(*a, **k):
            seen.append(a)
            return ('M33', len(seen) - 1)
        M.Tape_MT33 = t33
        outs = [[sym.real_var('o%d_%d' % (i, j)) for j in range(6)] for i in range(max(n, 1))]
        M.MT33_MT6 = lambda m: (c_ok('the six-vector of that tensor', m[0] == 'M33'), np.matrix(np.array(outs[m[1]], dtype=object)[:, None]))[1]
        args = [p for p in zip(*ps)] if n else ps[0]
        g = M.Tape_MT6(*([np.array(a, dtype=object) for a in args] if n else args))
        c_ok('one six-vector per parameter set', np.shape(g) == (6, max(n, 1)))
        for i in range(max(n, 1)):
            if c_ok('set %d converted on its own' % i, len(seen) > i and len(seen[i]) == 5):
                for a, b in zip(seen[i], ps[i]):
                    ctx().oblige('parameters of set %d, in order' % i, T.eq(num(a), b.t))
                for j in range(6):
                    ctx().oblige('set %d, component %d' % (i, j), T.eq(num(g[j, i]), outs[i][j].t))
    return f


CHECK.proof('Tape_MT6: a single set')(tape6(0))
CHECK.proof('Tape_MT6: a batch, each on its own')(tape6(2))


class Callees(object):
    """contracts of the functions MT6_Tape and output_convert are built on"""
    def __init__(self, M, tag):
        v = lambda n: sym.real_var(n + tag)
        one = lambda x: np.array([x], dtype=object)
        half, two = T.mul(C('1/2'), T.PI), T.mul(C(2), T.PI)
        self.T, self.N, self.P, self.E, self.m33 = [(n, tag) for n in ('T', 'N', 'P', 'E', 'M33')]
        self.gd = v('g'), v('d')
        self.uv, self.tk = (v('u'), v('v')), (v('tau'), v('ka'))
        self.p1, self.p2 = [v(n + '1') for n in 'kds'], [v(n + '2') for n in 'kds']
        for p in (self.p1, self.p2):
            ctx().assume(T.and_(T.le(ZERO, p[0].t), T.lt(p[0].t, two)))
            ctx().assume(T.and_(T.le(ZERO, p[1].t), T.le(p[1].t, half)))
            ctx().assume(T.and_(T.le(T.neg(T.PI), p[2].t), T.le(p[2].t, T.PI)))
        # the auxiliary plane of a rake beyond a right angle has a rake within one (lemma below)
        a, b = [T.and_(T.le(T.neg(half), p[2].t), T.le(p[2].t, half)) for p in (self.p1, self.p2)]
        ctx().assume(T.or_(a, b))
        self.one = one


def install(M, sets, inputs):
    """inputs: recognises the six-vector of set i"""
    by = lambda kind: {getattr(s, kind): s for s in sets}

    def m33(x):
        i = inputs(x)
        c_ok('a six-vector of the input', i is not None)
        return sets[i].m33

    def tnpe(m):
        s = by('m33')[m]
        return s.T, s.N, s.P, s.E
    M.MT6_MT33, M.MT33_TNPE = m33, tnpe
    M.E_GD = lambda e: by('E')[e].gd
    M.E_tk = lambda e: by('E')[e].tk

    def tk_uv(t, k):
        for s in sets:
            if t is s.tk[0] and k is s.tk[1]:
                return s.uv
        c_ok('tau, k of one source', False)
    M.tk_uv = tk_uv

    def tnp_sdr(t, n, p):
        s = by('T')[t]
        c_ok('axes of one source', (n, p) == (s.N, s.P))
        return tuple(s.one(x) for x in s.p1)

    def sdr_sdr(*a):
        a = [num(x) for x in a]
        for s in sets:
            for p, q in ((s.p1, s.p2), (s.p2, s.p1)):
                if all(T.eq(x, y.t) is T.TRUE for x, y in zip(a, p)):
                    return tuple(s.one(x) for x in q)
        c_ok('the angles of one plane', False)
    M.TNP_SDR, M.SDR_SDR = tnp_sdr, sdr_sdr


def check_set(s, got, pre=''):
    half = T.mul(C('1/2'), T.PI)
    g, d, k, h, r = got
    ctx().oblige(pre + 'lune coordinates of the eigenvalues', T.and_(T.eq(g, s.gd[0].t), T.eq(d, s.gd[1].t)))
    is_ = lambda p: T.and_(T.eq(k, p[0].t), T.eq(h, rules.cos(p[1].t)), T.eq(r, p[2].t))
    ctx().oblige(pre + 'strike, dip cosine and slip of one of the planes', T.or_(is_(s.p1), is_(s.p2)))
    ctx().oblige(pre + 'slip in [-pi/2,pi/2]', T.and_(T.le(T.neg(half), r), T.le(r, half)))
    ctx().oblige(pre + 'strike in [0,2pi)', T.and_(T.le(ZERO, k), T.lt(k, T.mul(C(2), T.PI))))


def six_tape(n):
    def f():
        M = V()
        sets = [Callees(M, str(i)) for i in range(max(n, 1))]
        x = np.array([[sym.real_var('x%d_%d' % (j, i)) for i in range(max(n, 1))] for j in range(6)], dtype=object)

        def which(v):
            v = np.asarray(v, dtype=object).ravel()
            for i in range(x.shape[1]):
                if len(v) == 6 and all(T.eq(num(a), b.t) is T.TRUE for a, b in zip(v, x[:, i])):
                    return i
        install(M, sets, which)
        r = M.MT6_Tape(x if n else x[:, 0])
        c_ok('five parameters', len(r) == 5 and all(np.size(v) == max(n, 1) for v in r))
        for i, s in enumerate(sets):
            check_set(s, [num(np.ravel(v)[i]) for v in r], 'tensor %d: ' % i)
    return f


CHECK.proof('MT6_Tape: one tensor')(six_tape(0))
CHECK.proof('MT6_Tape: a column')(six_tape(1))
CHECK.proof('MT6_Tape: a batch, each on its own')(six_tape(2))


def converted(n):
    def f():
        M = V()
        sets = [Callees(M, str(i)) for i in range(n)]
        x = np.array([[sym.real_var('x%d_%d' % (j, i)) for i in range(n)] for j in range(6)], dtype=object)

        def which(v):
            v = np.asarray(v, dtype=object).ravel()
            for i in range(x.shape[1]):
                if len(v) == 6 and all(T.eq(num(a), b.t) is T.TRUE for a, b in zip(v, x[:, i])):
                    return i
        install(M, sets, which)
        o = M.output_convert(x)
        deg = T.div(C(180), T.PI)
        for i, s in enumerate(sets):
            at = lambda k: num(np.ravel(o[k])[i])
            check_set(s, [at(k) for k in 'gdkhs'], 'tensor %d: ' % i)
            ctx().oblige('tensor %d: u, v of the eigenvalues' % i, T.and_(T.eq(at('u'), s.uv[0].t), T.eq(at('v'), s.uv[1].t)))
            tri = [T.and_(*[T.eq(at(k + j), T.mul(deg, a.t)) for k, a in zip('SDR', p)]) for j, p in (('1', s.p1), ('2', s.p2), ('1', s.p2), ('2', s.p1))]
            ctx().oblige('tensor %d: the two planes in degrees' % i, T.or_(T.and_(tri[0], tri[1]), T.and_(tri[2], tri[3])))
    return f


CHECK.proof('output_convert: a single tensor')(converted(1))
CHECK.proof('output_convert: a batch, each on its own')(converted(2))


@CHECK.proof('lemma: the auxiliary plane turns a rake beyond a right angle into one within')
def lemma():
    p, q = plane('p'), plane('q')
    n, u, n2, u2 = normal(p[0].t, p[1].t), slip(*[x.t for x in p]), normal(q[0].t, q[1].t), slip(*[x.t for x in q])
    z = lambda a, b: T.sub(T.mul(a[0], b[1]), T.mul(a[1], b[0]))
    for x, a, b in ((p, n, u), (q, n2, u2)):
        ctx().oblige('cos(rake) sin(dip) is the vertical part of slip x normal', T.eq(T.mul(rules.cos(x[2].t), rules.sin(x[1].t)), z(b, a)))
    # n2 = e u, u2 = e n with e = +-1: slip x normal changes sign
    a, b = [[sym.real_var(k + str(i)).t for i in range(3)] for k in 'ab']
    for e in (1, -1):
        ctx().oblige('opposite sign', T.eq(z([T.mul(C(e), v) for v in a], [T.mul(C(e), v) for v in b]), T.neg(z(b, a))))


@CHECK.proof('double-couple eigenvalues have zero longitude and latitude')
def dc():
    M = V()
    l = sym.real_var('l')
    sym.assume(l > 0)
    for perm in ((0, 1, 2), (2, 1, 0), (1, 2, 0)):
        e = [l, sym.S(ZERO), sym.S(T.neg(l.t))]
        g, d = [num(v) for v in M.E_GD(np.array([e[k] for k in perm], dtype=object))]
        ctx().oblige('longitude', T.eq(g, ZERO))
        ctx().oblige('latitude', T.eq(d, ZERO))


# the callee contracts, proved on the callees (shared with C13 and C14)
CHECK.proof('E_GD: inverse of the eigenvalue map', budget=60.0)(C14.gd_inverse((0, 1, 2)))
CHECK.proof('E_GD: inverse of the eigenvalue map, other order', budget=60.0)(C14.gd_inverse((2, 0, 1)))
CHECK.proof('E_GD: longitude range')(C14.lon)
CHECK.proof('E_GD: isotropic sources')(C14.gd_iso)
CHECK.proof('GD_E: unit, and mapped back', budget=60.0)(C14.gd_back)
CHECK.proof('MT33_TNPE: largest to smallest, orthonormal, rebuilds')(C14.tnpe)
CHECK.proof('TNP_SDR: a plane of the same source')(C13.tnp_sdr)
CHECK.proof('SDR_SDR: the auxiliary plane')(C13.aux)
CHECK.proof('FP_SDR gives the original angles, normal up', budget=60.0)(C13.fp_sdr(1, False))


BOX = [(-math.pi / 6, math.pi / 6), (-math.pi / 2, math.pi / 2), (0, 2 * math.pi - 1e-12), (0, 1), (-math.pi / 2, math.pi / 2)]


def runner(mode):
    def run(b):
        pk = conc.pkg(mode)
        M = pk['convert.moment_tensor_conversion']
        b.check((M.cmoment_tensor_conversion is not None) == (mode == 'c'), 'extension present: %r' % (M.cmoment_tensor_conversion is not None))
        b.rule = 'six-vector and 3x3 forms are those of the definition (1e-9), parameters produced in range and rebuild the tensor to 1e-6, orientation back where the tensor fixes it, double-couples at (0,0)'
        pk.activate()
        rng = b.np

        def params(q, A, what, **inp):
            q = np.array(q, float)
            ok = np.all(np.isfinite(q)) and all(lo - 1e-12 <= x <= hi + 1e-12 for x, (lo, hi) in zip(q, BOX)) and q[2] < 2 * math.pi
            b.check(ok, '%s: parameters out of range %r' % (what, q.tolist()), **inp)
            if ok:
                w = Q.tape(*[min(max(x, lo), hi) for x, (lo, hi) in zip(q, BOX)])
                b.check(np.allclose(w, A, atol=1e-6), '%s: %r gives another tensor %r' % (what, q.tolist(), Q.six(w).tolist()), **inp)

        def every(x, As, **inp):
            n = len(As)
            full = [np.ravel(np.asarray(v, float)) for v in M.MT6_Tape(x.copy())]
            o = M.output_convert(x.copy())
            b.check(all(v.shape == (n,) for v in full) and all(np.shape(o[k]) == (n,) for k in 'gdkhsuv'), 'shapes %r, %r' % ([v.shape for v in full], [np.shape(o[k]) for k in 'gdkhsuv']), **inp)
            for k in range(n):
                params([v[k] for v in full], As[k], 'MT6_Tape column %d' % k, **inp)
                params([o[c][k] for c in 'gdkhs'], As[k], 'output_convert column %d' % k, **inp)
            for how, y in (('flat', x[:, 0].copy()), ('matrix', np.matrix(x[:, :1]))):
                one = [float(np.ravel(v)[0]) for v in M.MT6_Tape(y)]
                params(one, As[0], 'MT6_Tape of one (%s)' % how, **inp)
                B = np.asarray(M.MT6_MT33(y))
                b.check(B.shape == (3, 3) and np.allclose(B, As[0], atol=1e-9), '3x3 form (%s) %r' % (how, B.tolist()), **inp)
                z = np.asarray(M.MT33_MT6(M.MT6_MT33(y)), float)
                b.check(np.allclose(z.ravel(), x[:, 0], atol=1e-9), 'six-vector back from 3x3 (%s): %r' % (how, z.tolist()), **inp)
            return full, o
        for it in range(b.count(500)):
            n = int(rng.choice([1, 1, 2, 3, 5, 6]))
            P = np.array([[rng.choice([rng.uniform(lo, hi), rng.uniform(lo, hi), lo, hi, (lo + hi) / 2, lo + 10 ** rng.uniform(-12, -3) * (hi - lo), hi - 10 ** rng.uniform(-12, -3) * (hi - lo)]) for lo, hi in BOX] for _ in range(n)], float)
            inp = dict(parameters=P.tolist(), mode=mode)
            b.case(('p', n, it), inp)
            b.cur = inp
            As = [Q.tape(*p) for p in P]
            keep = P.copy()
            x = np.asarray(M.Tape_MT6(*[P[:, k].copy() for k in range(5)]), float)
            b.check(x.shape == (6, n), 'shape %r for %d sets' % (x.shape, n), **inp)
            for k in range(n):
                b.check(np.allclose(x[:, k], Q.six(As[k]), atol=1e-9), 'Tape_MT6 of %r gives %r' % (P[k].tolist(), x[:, k].tolist()), **inp)
                B = np.asarray(M.Tape_MT33(*P[k]))
                b.check(np.allclose(B, As[k], atol=1e-9), 'Tape_MT33 gives %r' % B.tolist(), **inp)
                b.check(abs(np.linalg.norm(x[:, k]) - 1) < 1e-12 and abs(np.linalg.norm(B) - 1) < 1e-9, 'not of unit norm', **inp)
            full, o = every(x, As, **inp)
            for k in range(n):
                g, d, s, h, r = P[k]
                for nm, q in (('MT6_Tape', [v[k] for v in full]), ('output_convert', [o[c][k] for c in 'gdkhs'])):
                    # latitude is ill-conditioned next to the poles, longitude there has no meaning
                    b.check(abs(math.sin(q[1]) - math.sin(d)) < 1e-7 and abs(q[0] - g) * math.cos(d) < 1e-6, '%s: lune point came back as %r, %r' % (nm, q[0], q[1]), **inp)
                    l = Q.lam(g, d)
                    if l[0] - l[1] > 1e-3 and l[1] - l[2] > 1e-3 and 1e-4 < h < 1 - 1e-4 and abs(r) < math.pi / 2 - 1e-4:
                        b.check(Q.angdiff(q[2], s) < 1e-4 and abs(q[3] - h) < 1e-4 and abs(q[4] - r) < 1e-4, '%s: orientation came back as %r' % (nm, list(q[2:])), **inp)
                if g == 0 and d == 0 or (P[k, 0] == 0. and P[k, 1] == 0.):
                    b.check(abs(full[0][k]) < 1e-7 and abs(full[1][k]) < 1e-7, 'double-couple maps to %r, %r' % (full[0][k], full[1][k]), **inp)
        for it in range(b.count(500)):
            n = int(rng.choice([1, 1, 2, 4, 6, 7]))
            As, Es = [], []
            while len(As) < n:
                E = Q.spectrum(rng)
                if not np.any(E):
                    continue
                F = Q.rot(rng) if rng.rand() < .7 else np.eye(3)[rng.permutation(3)]
                A = F.dot(np.diag(E)).dot(F.T)
                A = (A + A.T) / 2
                As.append(A / np.linalg.norm(A))
                Es.append(np.sort(E) / np.linalg.norm(E))
            x = np.array([Q.six(A) for A in As]).T
            inp = dict(tensors=x.tolist(), mode=mode)
            b.case(('m', n, it), inp)
            b.cur = inp
            full, o = every(x, As, **inp)
            back = np.asarray(M.Tape_MT6(*full), float)
            b.check(np.allclose(back, x, atol=1e-6), 'tensors come back as %r' % back.tolist(), **inp)
            for k in range(n):
                if abs(Es[k][1]) < 1e-12 and abs(Es[k][0] + Es[k][2]) < 1e-12:
                    b.check(abs(full[0][k]) < 1e-7 and abs(full[1][k]) < 1e-7 and abs(o['g'][k]) < 1e-7 and abs(o['d'][k]) < 1e-7, 'double-couple maps to %r, %r' % (full[0][k], full[1][k]), **inp)
            y = np.asarray(M.MT33_MT6(np.matrix(As[0]) * 10 ** rng.uniform(-6, 6)), float).ravel()
            b.check(np.allclose(y, x[:, 0], atol=1e-9), 'six-vector of a scaled tensor %r' % y.tolist(), **inp)
    return run


CHECK.runtime('pure Python')(runner('pure'))
CHECK.runtime('compiled', compiled=True)(runner('c'))
