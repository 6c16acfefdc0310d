"""C13: strike/dip/rake, principal axes and normal/slip describe one and the same source."""
import math
from fractions import Fraction
import numpy as np
from dpv import report, load, sym, rules, conc, mtref as Q, term as T
from dpv.paths import ctx
from dpv.term import R
CHECK = report.Check('C13')
MV = 'MTfit.convert.moment_tensor_conversion'
CHECK.covers(*([MV + '.' + n for n in ('SDR_TNP', 'FP_TNP', 'TP_FP', 'TNP_SDR', 'FP_SDR', 'SDR_FP', 'SDR_SDR', 'normal_SD', 'FP_SDSD', 'SDR_SDSD', 'SDSD_FP')]
               + [MV + '.%s (bounded)' % n for n in ('MT33_SDR', 'output_convert')] + ['MTfit.convert.cmoment_tensor_conversion.%s (bounded)' % n for n in ('TP_SDR', 'SDR_SDR', 'MT_output_convert')]))
CHECK.assume('arctan2 returns the principal value, so an angle is fixed by its sine and cosine and its range',
             'every pair of perpendicular unit vectors is +/-(normal, slip) of some strike, dip in [0,pi/2] and rake (the parametrisation of the preconditions)',
             'angles of exactly horizontal planes (strike and rake not unique) and of exactly vertical planes (two descriptions) are compared through the tensor')
ZERO, ONE = T.ZERO, T.ONE
C = lambda v: T.const(Fraction(v), R)


def num(v):
    if isinstance(v, np.ndarray):
        v = v.flat[0] if v.size == 1 else None
    return sym.real(sym.lift(v).t)


def c_ok(what, v):
    ctx().oblige(what, T.const(bool(v)))
    return v


def V():
    return load.Loader().plain(MV)


def dot(a, b):
    return T.add(*[T.mul(x, y) for x, y in zip(a, b)])


def plane(pre='', steep=True, r=True):
    """angles of a plane: sines and cosines in range; steep: away from horizontal"""
    s, d = sym.real_var(pre + 's'), sym.real_var(pre + 'd')
    c = ctx()
    half, two = T.mul(C('1/2'), T.PI), T.mul(C(2), T.PI)
    c.assume(T.and_(T.le(ZERO, s.t), T.lt(s.t, two)))
    c.assume(T.and_(T.le(ZERO, d.t), T.le(d.t, half)))
    c.assume(T.le(ZERO, rules.cos(d.t)))
    c.assume(T.lt(ZERO, rules.sin(d.t)) if steep else T.le(ZERO, rules.sin(d.t)))
    if not r:
        return s, d
    k = sym.real_var(pre + 'r')
    c.assume(T.and_(T.le(T.neg(T.PI), k.t), T.le(k.t, T.PI)))
    return s, d, k


def tr(x):
    return rules.sin(x), rules.cos(x)


def normal(s, d):
    (ss, cs), (sd, cd) = tr(s), tr(d)
    return [T.neg(T.mul(ss, sd)), T.mul(cs, sd), T.neg(cd)]


def slip(s, d, r):
    (ss, cs), (sd, cd), (sr, cr) = tr(s), tr(d), tr(r)
    return [T.add(T.mul(cr, cs), T.mul(cd, sr, ss)), T.sub(T.mul(cr, ss), T.mul(cd, sr, cs)), T.neg(T.mul(sd, sr))]


def col(ts):
    return np.matrix(np.array([[sym.S(t)] for t in ts], dtype=object))


def vec(x):
    return [num(v) for v in np.asarray(x, dtype=object).ravel()]


def same(what, a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        ctx().oblige('%s, component %d' % (what, i), T.eq(x, y))


def orthonormal(what, vs):
    for i in range(len(vs)):
        for j in range(i, len(vs)):
            ctx().oblige('%s %d %d orthonormal' % (what, i, j), T.eq(dot(vs[i], vs[j]), ONE if i == j else ZERO))


def tensor(what, a, b, n, u):
    """a b^T + b a^T == n u^T + u n^T"""
    for i in range(3):
        for j in range(i, 3):
            ctx().oblige('%s, entry %d%d' % (what, i, j), T.eq(T.add(T.mul(a[i], b[j]), T.mul(b[i], a[j])), T.add(T.mul(n[i], u[j]), T.mul(u[i], n[j]))))


def axes(what, T_, P_, n, u):
    for i in range(3):
        for j in range(i, 3):
            ctx().oblige('%s, entry %d%d' % (what, i, j), T.eq(T.sub(T.mul(T_[i], T_[j]), T.mul(P_[i], P_[j])), T.add(T.mul(n[i], u[j]), T.mul(u[i], n[j]))))


def angles(what, got, want):
    for g, w, n in zip(got, want, ('strike', 'dip', 'rake')):
        ctx().oblige('%s: sine of the %s' % (what, n), T.eq(rules.sin(g), rules.sin(w)))
        ctx().oblige('%s: cosine of the %s' % (what, n), T.eq(rules.cos(g), rules.cos(w)))


def ranges(what, got):
    half, two = T.mul(C('1/2'), T.PI), T.mul(C(2), T.PI)
    ctx().oblige(what + ': strike in [0,2pi)', T.and_(T.le(ZERO, got[0]), T.lt(got[0], two)))
    ctx().oblige(what + ': dip in [0,pi/2]', T.and_(T.le(ZERO, rules.sin(got[1])), T.le(ZERO, rules.cos(got[1]))))
    if len(got) > 2:
        ctx().oblige(what + ': rake in [-pi,pi]', T.and_(T.le(T.neg(T.PI), got[2]), T.le(got[2], T.PI)))


@CHECK.proof('SDR_TNP: orthonormal axes of the double-couple')
def sdr_tnp():
    M = V()
    s, d, r = plane(steep=False)
    T_, N_, P_ = [vec(x) for x in M.SDR_TNP(s, d, r)]
    orthonormal('axes', [T_, N_, P_])
    axes('the tensor of the plane', T_, P_, normal(s.t, d.t), slip(s.t, d.t, r.t))


@CHECK.proof('SDR_FP: unit perpendicular vectors of the double-couple')
def sdr_fp():
    M = V()
    s, d, r = plane(steep=False)
    a, b = [vec(x) for x in M.SDR_FP(s, d, r)]
    orthonormal('vectors', [a, b])
    tensor('the tensor of the plane', a, b, normal(s.t, d.t), slip(s.t, d.t, r.t))


@CHECK.proof('several planes at once: axes, each on its own')
def several():
    M = V()
    ctx().mode['div'] = 'oblige'
    p = [plane('%d_' % i, steep=False) for i in range(2)]
    T_, N_, P_ = M.SDR_TNP(*[np.array([x[j] for x in p], dtype=object) for j in range(3)])
    c_ok('a column per plane', all(np.shape(x) == (3, 2) for x in (T_, N_, P_)))
    for i, (s, d, r) in enumerate(p):
        t, q = [[num(x[k, i]) for k in range(3)] for x in (T_, P_)]
        axes('axes of plane %d' % i, t, q, normal(s.t, d.t), slip(s.t, d.t, r.t))


@CHECK.proof('several planes at once: vectors, each on its own')
def several_fp():
    M = V()
    p = [plane('%d_' % i, steep=False) for i in range(2)]
    h = T.div(ONE, rules.sqrt(C(2)))
    nu = [(normal(s.t, d.t), slip(s.t, d.t, r.t)) for s, d, r in p]
    t, q = [np.matrix(np.array([[sym.S(T.mul(h, f(n[k], u[k]))) for n, u in nu] for k in range(3)], dtype=object)) for f in (T.add, T.sub)]
    A, B = M.TP_FP(t, q)
    c_ok('a column per plane', all(np.shape(x) == (3, 2) for x in (A, B)))
    for i, (n, u) in enumerate(nu):
        a, b = [[num(x[k, i]) for k in range(3)] for x in (A, B)]
        tensor('vectors of plane %d' % i, a, b, n, u)


@CHECK.proof('FP_TNP and TP_FP: inverse of each other, same tensor')
def fp_tnp():
    M = V()
    s, d, r = plane(steep=False)
    n, u = normal(s.t, d.t), slip(s.t, d.t, r.t)
    for a, b, w in ((n, u, 'normal, slip'), (u, n, 'slip, normal')):
        t, nn, p = M.FP_TNP(col(a), col(b))
        T_, N_, P_ = vec(t), vec(nn), vec(p)
        orthonormal('axes of %s' % w, [T_, N_, P_])
        axes('axes of %s' % w, T_, P_, n, u)
        a2, b2 = M.TP_FP(t, p)
        same('first vector back (%s)' % w, vec(a2), a)
        same('second vector back (%s)' % w, vec(b2), b)


def sdsd(sg):
    def f():
        M = V()
        s, d = plane(r=False)
        n = [T.mul(C(sg), x) for x in normal(s.t, d.t)]
        g = [num(x) for x in M.normal_SD(col(n))]
        angles('plane of the normal', g, [s.t, d.t])
        ranges('plane of the normal', g)
    return f


def fp_sdr(sg, steep):
    def f():
        M = V()
        s, d, r = plane()
        if steep:
            ctx().assume(T.lt(C('1/100'), rules.cos(d.t)))
        n, u = [[T.mul(C(sg), x) for x in v] for v in (normal(s.t, d.t), slip(s.t, d.t, r.t))]
        g = [num(x) for x in M.FP_SDR(col(n), col(u))]
        ranges('angles', g)
        angles('the original angles', g, [s.t, d.t, r.t])
    return f


# an overall sign of both vectors changes nothing; away from vertical planes (where -n has the same dip) the angles come back
CHECK.proof('normal_SD of a downward normal')(sdsd(1))
CHECK.proof('FP_SDR gives the original angles, normal up', budget=60.0)(fp_sdr(1, False))
CHECK.proof('FP_SDR gives the original angles, normal down', budget=60.0)(fp_sdr(-1, True))


def recorded(M):
    """callee contract of FP_SDR (proved above): angles whose normal and slip are, up to a common sign, its arguments"""
    seen, out = [], (object(), object(), object())

    def fp_sdr(a, b):
        seen.append((vec(a), vec(b)))
        orthonormal('the vectors handed to FP_SDR', seen[-1])
        return out
    M.FP_SDR = fp_sdr
    return seen, out


def is_out(r, out):
    return isinstance(r, tuple) and len(r) == 3 and all(a is b for a, b in zip(r, out))


@CHECK.proof('TNP_SDR: a plane of the same source')
def tnp_sdr():
    M = V()
    s, d, r = plane(steep=False)
    n, u = normal(s.t, d.t), slip(s.t, d.t, r.t)
    h = T.div(ONE, rules.sqrt(C(2)))
    t, p = [T.mul(h, T.add(a, b)) for a, b in zip(n, u)], [T.mul(h, T.sub(a, b)) for a, b in zip(n, u)]
    seen, out = recorded(M)
    g = M.TNP_SDR(col(t), col(t), col(p))
    if c_ok('the angles are those of one pair of vectors', is_out(g, out) and len(seen) == 1):
        tensor('the same tensor', seen[0][0], seen[0][1], n, u)


@CHECK.proof('SDR_SDR: the auxiliary plane')
def aux():
    M = V()
    s, d, r = plane(steep=False)
    n, u = normal(s.t, d.t), slip(s.t, d.t, r.t)
    seen, out = recorded(M)
    g = M.SDR_SDR(s, d, r)
    if c_ok('the angles are those of one pair of vectors', is_out(g, out) and len(seen)):
        a, b = seen[0] if len(seen) == 1 else seen[-1]
        same('its normal is the slip', a, u)
        same('its slip is the normal', b, n)


@CHECK.proof('MT33_SDR: a plane of the T and P axes')
def mt33_sdr():
    M = V()
    s, d, r = plane(steep=False)
    n, u = normal(s.t, d.t), slip(s.t, d.t, r.t)
    h = T.div(ONE, rules.sqrt(C(2)))
    t, p = [T.mul(h, T.add(a, b)) for a, b in zip(n, u)], [T.mul(h, T.sub(a, b)) for a, b in zip(n, u)]
    seen, out = recorded(M)
    mt = object()
    M.MT33_TNPE = lambda m: (c_ok('the axes of the given tensor', m is mt), (col(t), None, col(p), None))[1]
    g = M.MT33_SDR(mt)
    if c_ok('the angles are those of one pair of vectors', is_out(g, out) and len(seen) == 1):
        tensor('the same tensor', seen[0][0], seen[0][1], n, u)


@CHECK.proof('SDSD_FP and FP_SDSD')
def sdsd_fp():
    M = V()
    a, b = plane('a', r=False), plane('b', r=False)
    x, y = M.SDSD_FP(a[0], a[1], b[0], b[1])
    vs = [vec(x), vec(y)]
    same('normals of the two planes', vs[0] + vs[1], normal(b[0].t, b[1].t) + normal(a[0].t, a[1].t))
    seen = []
    M.normal_SD = lambda v: (seen.append(v), ('s%d' % len(seen), 'd%d' % len(seen)))[1]
    c_ok('each normal converted once, in order', M.FP_SDSD('n1', 'n2') == ('s1', 'd1', 's2', 'd2') and seen == ['n1', 'n2'])


TOL = 1e-7
PI = math.pi


def anyplane(rng):
    """strike, dip, rake including every boundary and neighbourhoods of boundaries"""
    e = 10 ** rng.uniform(-12, -4)
    s = rng.choice([rng.uniform(0, 2 * PI), 0, PI / 2, PI, 1.5 * PI, 2 * PI - e, e, PI + e, PI - e, math.radians(rng.randint(360))])
    d = rng.choice([rng.uniform(0, PI / 2), rng.uniform(0, PI / 2), 0, PI / 2, e, PI / 2 - e, PI / 4, math.radians(rng.randint(91))])
    r = rng.choice([rng.uniform(-PI, PI), rng.uniform(-PI, PI), 0, PI / 2, -PI / 2, PI, -PI, e, -e, PI - e, PI / 2 + e, -PI / 2 - e, math.radians(rng.randint(-180, 181))])
    return float(s), float(d), float(r)


def runner(mode):
    def run(b):
        pk = conc.pkg(mode)
        M = pk['convert.moment_tensor_conversion']
        b.check((M.cmoment_tensor_conversion is not None) == (mode == 'c'), 'extension present: %r' % (M.cmoment_tensor_conversion is not None))
        b.rule = 'axes orthonormal, all descriptions rebuild the tensor of n u + u n to 1e-7, angles in range, original angles come back away from horizontal / vertical, auxiliary plane is an involution'
        pk.activate()
        rng = b.np
        cols = lambda x: np.asarray(x, float).reshape(3, -1)
        tri = lambda t: np.array([np.ravel(np.asarray(x, float)) for x in t])

        def inrange(t, what, **inp):
            t = np.asarray(t)
            b.check(np.all(np.isfinite(t)) and 0 <= t[0] < 2 * PI and 0 <= t[1] <= PI / 2 + 1e-12 and abs(t[2]) <= PI + 1e-12, '%s: angles out of range %r' % (what, t.tolist()), **inp)

        def rebuilds(t, want, what, **inp):
            inrange(t, what, **inp)
            b.check(np.allclose(Q.dc(*t), want, atol=TOL), '%s: %r is another source' % (what, np.asarray(t).tolist()), **inp)

        def auxiliary(t, u, what, tol=TOL, **inp):
            """u is the other nodal plane of t: its normal is the slip of t and the other way round"""
            b.check(abs(abs(Q.normal(*u[:2]).dot(Q.slip(*t))) - 1) < tol and abs(abs(Q.normal(*t[:2]).dot(Q.slip(*u))) - 1) < tol, '%s: %r is not the auxiliary plane of %r' % (what, list(u), list(t)), **inp)

        def same(t, p, what, **inp):
            s, d, r = p
            if d < 1e-6:
                return                           # horizontal: strike and rake are not separate
            if d > PI / 2 - 1e-6:                # vertical: either side
                if abs(t[1] - d) < 2e-6 and Q.angdiff(t[0], s + PI) < 1e-6 and Q.angdiff(t[2], -r) < 1e-6:
                    return
            b.check(Q.angdiff(t[0], s) * math.sin(d) < 1e-7 and abs(t[1] - d) < 1e-6 and Q.angdiff(t[2], r) * math.sin(d) < 1e-6, '%s: came back as %r' % (what, np.asarray(t).tolist()), **inp)
        for it in range(b.count(700)):
            n = int(rng.choice([1, 1, 2, 3, 4, 7]))
            P = np.array([anyplane(rng) for _ in range(n)]).T
            if n > 1 and rng.rand() < .3:
                P[0, 1] = (P[0, 0] + rng.uniform(-1, 1)) % (2 * PI)
            inp = dict(strike=P[0].tolist(), dip=P[1].tolist(), rake=P[2].tolist(), mode=mode)
            b.case((n, it), inp)
            b.cur = inp
            scalar = n == 1 and rng.rand() < .5
            args = [float(x[0]) for x in P] if scalar else [x.copy() for x in P]
            keep = [np.array(x) for x in args]
            want = [Q.dc(*P[:, k]) for k in range(n)]
            tnp = [cols(x) for x in M.SDR_TNP(*args)]
            nu = [cols(x) for x in M.SDR_FP(*args)]
            b.check(all(x.shape == (3, n) for x in tnp + nu), 'shapes %r for %d planes' % ([x.shape for x in tnp + nu], n), **inp)
            b.check(all(np.array_equal(x, y) for x, y in zip(keep, args)), 'input angles overwritten', **inp)
            for k in range(n):
                B = np.c_[tnp[0][:, k], tnp[1][:, k], tnp[2][:, k]]
                b.check(np.allclose(B.T.dot(B), np.eye(3), atol=1e-9), 'axes not orthonormal: %r' % B.tolist(), **inp)
                b.check(np.allclose(Q.tpmat(B[:, 0], B[:, 2]), want[k], atol=TOL), 'T and P axes of another source', **inp)
                x, y = nu[0][:, k], nu[1][:, k]
                b.check(abs(x.dot(x) - 1) < 1e-9 and abs(y.dot(y) - 1) < 1e-9 and abs(x.dot(y)) < 1e-9, 'normal and slip not unit and perpendicular', **inp)
                b.check(np.allclose((np.outer(x, y) + np.outer(y, x)) / math.sqrt(2), want[k], atol=TOL), 'normal and slip of another source', **inp)
                nn, uu = Q.normal(*P[:2, k]), Q.slip(*P[:, k])
                b.check(abs(abs(x.dot(nn)) - 1) < 1e-7 and abs(abs(y.dot(uu)) - 1) < 1e-7 or abs(abs(x.dot(uu)) - 1) < 1e-7 and abs(abs(y.dot(nn)) - 1) < 1e-7, 'normal and slip are not those of the plane', **inp)
            mx = [np.matrix(x) for x in tnp]
            nm = [np.matrix(x) for x in nu]
            v = M.TP_FP(mx[0], mx[2])
            for k in range(n):
                x, y = [cols(q)[:, k] for q in v]
                b.check(np.allclose((np.outer(x, y) + np.outer(y, x)) / math.sqrt(2), want[k], atol=TOL) and abs(x.dot(x) - 1) < 1e-9, 'TP_FP: another source', **inp)
            ax = [cols(x) for x in M.FP_TNP(*nm)]
            for k in range(n):
                B = np.c_[ax[0][:, k], ax[1][:, k], ax[2][:, k]]
                b.check(np.allclose(B.T.dot(B), np.eye(3), atol=1e-9) and np.allclose(Q.tpmat(B[:, 0], B[:, 2]), want[k], atol=TOL), 'FP_TNP: another source or axes not orthonormal', **inp)
            back = tri(M.TNP_SDR(*mx))
            f1, f2 = tri(M.FP_SDR(*nm)), tri(M.FP_SDR(*nm[::-1]))
            aux = tri(M.SDR_SDR(*args))
            inv = tri(M.SDR_SDR(*[float(x[0]) for x in aux] if scalar else [x.copy() for x in aux]))
            b.check(all(x.shape == (3, n) for x in (back, f1, f2, aux, inv)), 'shapes %r for %d planes' % ([x.shape for x in (back, f1, f2, aux, inv)], n), **inp)
            b.check(all(np.array_equal(x, y) for x, y in zip(keep, args)), 'input angles overwritten', **inp)
            for k in range(n):
                p = P[:, k]
                near = np.argmin([abs(abs(Q.normal(*t[:2, k]).dot(Q.normal(*p[:2]))) - 1) for t in (f1, f2)])
                rebuilds(back[:, k], want[k], 'TNP_SDR', **inp)
                rebuilds(f1[:, k], want[k], 'FP_SDR', **inp)
                rebuilds(f2[:, k], want[k], 'FP_SDR of the other ordering', **inp)
                same((f1, f2)[near][:, k], p, 'normal and slip', **inp)
                auxiliary(p, (f2, f1)[near][:, k], 'FP_SDR', **inp)
                rebuilds(aux[:, k], want[k], 'SDR_SDR', **inp)
                auxiliary(p, aux[:, k], 'SDR_SDR', **inp)
                rebuilds(inv[:, k], want[k], 'SDR_SDR twice', **inp)
                same(inv[:, k], p, 'SDR_SDR twice', **inp)
                q = back[:, k]
                if abs(abs(Q.normal(*q[:2]).dot(Q.normal(*p[:2]))) - 1) < 1e-9:
                    same(q, p, 'TNP_SDR', **inp)
                else:
                    auxiliary(p, q, 'TNP_SDR', **inp)
            if n == 1:
                t = tri(M.MT33_SDR(np.matrix(want[0])))[:, 0]
                rebuilds(t, want[0], 'MT33_SDR', **inp)
            sd = tri(M.SDR_SDSD(*args))
            fs = tri(M.FP_SDSD(*nm))
            b.check(sd.shape == fs.shape == (4, n), 'SDSD shapes %r' % ((sd.shape, fs.shape),), **inp)
            for k in range(n):
                for nmv, q in (('SDR_SDSD', sd[:, k]), ('FP_SDSD', fs[:, k])):
                    a1, a2 = Q.normal(*q[:2]), Q.normal(*q[2:])
                    nn, uu = Q.normal(*P[:2, k]), Q.slip(*P[:, k])
                    b.check(max(min(abs(abs(a1.dot(nn)) - 1), 2), abs(abs(a2.dot(uu)) - 1)) < 1e-7 or max(abs(abs(a1.dot(uu)) - 1), abs(abs(a2.dot(nn)) - 1)) < 1e-7, '%s: %r are not the two planes' % (nmv, q.tolist()), **inp)
                    b.check(0 <= q[0] < 2 * PI and 0 <= q[2] < 2 * PI and -1e-12 <= q[1] <= PI / 2 + 1e-12 and -1e-12 <= q[3] <= PI / 2 + 1e-12, '%s out of range: %r' % (nmv, q.tolist()), **inp)
            x = np.array([Q.six(m) for m in want]).T
            full = rng.rand() < .4
            if full:                             # any unit tensor: its planes come from the T and P axes
                Fs = [Q.rot(rng) for _ in range(n)]
                es = np.sort(rng.randn(3, n), axis=0)[::-1]
                es /= np.linalg.norm(es, axis=0)
                x = np.array([Q.six(F.dot(np.diag(es[:, k])).dot(F.T)) for k, F in enumerate(Fs)]).T
                want = [Q.tpmat(F[:, 0], F[:, 2]) for F in Fs]
            inp = dict(tensors=x.tolist(), mode=mode)
            b.cur = inp
            o = M.output_convert(x.copy())
            for k in range(n):
                p1, p2 = [[math.radians(float(np.ravel(o[q + j])[k])) for q in 'SDR'] for j in '12']
                rebuilds(p1, want[k], 'reported plane 1', **inp)
                rebuilds(p2, want[k], 'reported plane 2', **inp)
                auxiliary(p1, p2, 'reported planes', tol=1e-6, **inp)
                b.check(abs(math.cos(p1[1]) - float(np.ravel(o['h'])[k])) < 1e-6 and Q.angdiff(p1[0], float(np.ravel(o['k'])[k])) * math.sin(p1[1]) < 1e-6 or
                        abs(math.cos(p2[1]) - float(np.ravel(o['h'])[k])) < 1e-6 and Q.angdiff(p2[0], float(np.ravel(o['k'])[k])) * math.sin(p2[1]) < 1e-6, 'reported strike / dip parameters belong to neither plane', **inp)
    return run


CHECK.runtime('pure Python')(runner('pure'))
CHECK.runtime('compiled', compiled=True)(runner('c'))
