"""C03: the amplitude-ratio likelihood is the normalised density of |X/Y| for two Gaussians."""
import math
from fractions import Fraction
import numpy as np
from dpv import report, load, sym, arr, xv, rules, conc, diff, term as T
from dpv.paths import ctx
from dpv.term import R, I
from props.C02 import amp, ix, result_is_station_sum, dims
CHECK = report.Check('C03')
CHECK.covers('MTfit.probability.probability.ratio_pdf', 'MTfit.probability.probability.amplitude_ratio_ln_pdf',
             'MTfit.probability.probability.gaussian_cdf')
CHECK.assume('fundamental theorem of calculus and Fubini (the integral of the proved antiderivative is its boundary difference; '
             'the density integrates to one because the joint Gaussian does)',
             'modelled amplitudes are non-zero where a fractional error defines the uncertainty (a zero amplitude has no density; there only NaN-freedom is claimed)',
             'scipy.stats.norm.cdf(x) = (1+erf(x/sqrt 2))/2')
ZERO, ONE = T.ZERO, T.ONE
C = lambda v: T.const(Fraction(v), R)


def sq(x):
    return T.mul(x, x)


def coefs(z, mx, my, sx, sy):
    a2 = T.add(T.div(sq(z), sq(sx)), T.div(ONE, sq(sy)))
    b = T.add(T.div(T.mul(mx, z), sq(sx)), T.div(my, sq(sy)))
    c = T.add(T.div(sq(mx), sq(sx)), T.div(sq(my), sq(sy)))
    return a2, b, c


def hinkley(z, mx, my, sx, sy):
    """closed form of the density of X/Y at z"""
    a2, b, c = coefs(z, mx, my, sx, sy)
    a = rules.sqrt(a2)
    t = T.div(T.mul(b, rules.exp(T.div(T.sub(sq(b), T.mul(c, a2)), T.mul(C(2), a2)))),
              T.mul(rules.sqrt(T.mul(C(2), T.PI)), sx, sy, a, a2))
    t = T.mul(t, rules.erf(T.div(b, T.mul(rules.sqrt(C(2)), a))))
    return T.add(t, T.div(rules.exp(T.mul(C('-1/2'), c)), T.mul(T.PI, sx, sy, a2)))


def spec(r, mx, my, ex, ey):
    """likelihood of the ratio r for amplitudes mx,my and fractional errors ex,ey"""
    mx, my = rules.absv(mx), rules.absv(my)
    sx, sy = T.mul(ex, mx), T.mul(ey, my)
    return T.add(hinkley(r, mx, my, sx, sy), hinkley(T.neg(r), mx, my, sx, sy))


def positive(t):
    return T.lt(ZERO, t)


@CHECK.proof('ratio_pdf equals the closed form, element by element')
def p1():
    P = load.Loader().load('MTfit.probability.probability')
    ns, nl, nm = dims()
    z = arr.input_array('z', [ns, 1, 1])
    mx, my = arr.input_array('mx', [ns, nl, nm]), arr.input_array('my', [ns, nl, nm])
    sx, sy = arr.input_array('sx', [ns, nl, nm], pre=positive), arr.input_array('sy', [ns, nl, nm], pre=positive)
    r = P.ratio_pdf(z, mx, my, sx, sy)
    u, j, m = [T.var(x, I) for x in 'ujm']
    for v, n in ((u, ns), (j, nl), (m, nm)):
        ctx().assume(T.le(T.IZERO, v))
        ctx().assume(T.lt(v, n.t))
    e = r.at((u, j, m))
    ctx().oblige('shape', T.and_(*[T.eq(arr.dim(p), arr.dim(q)) for p, q in zip(r.shape, (ns, nl, nm))]))
    ctx().oblige('finite', e.finite())
    f = [T.fn(k, u, j, m) for k in ('mx', 'my', 'sx', 'sy')]
    ctx().oblige('closed form', T.eq(e.v, hinkley(T.fn('z', u, T.IZERO, T.IZERO), *f)))


@CHECK.proof('ratio_pdf on scalars')
def p1s():
    P = load.Loader().load('MTfit.probability.probability')
    z, mx, my, sx, sy = [sym.real_var(x) for x in ('z', 'mx', 'my', 'sx', 'sy')]
    sym.assume(sx > 0)
    sym.assume(sy > 0)
    r = P.ratio_pdf(z, mx, my, sx, sy)
    ctx().oblige('closed form', sym.eqt(r, sym.S(hinkley(z.t, mx.t, my.t, sx.t, sy.t))))


def ar_inputs():
    ns, nl, nm = dims()
    ax, ay = arr.input_array('ax', [ns, nl, 6]), arr.input_array('ay', [ns, nl, 6])
    mt = arr.input_array('mt', [6, nm])
    rt = arr.input_array('r', [ns], pre=positive)
    big = lambda t: T.le(T.const(Fraction(1, 10 ** 5), R), t)
    ex, ey = arr.input_array('ex', [ns], pre=big), arr.input_array('ey', [ns], pre=big)
    return ns, nl, nm, ax, ay, mt, rt, ex, ey


def amps(ax, ay, mt):
    c = arr.canon(3)
    return lambda u, j, m: (arr.named(amp(ax, mt, *c), (u, j, m)), arr.named(amp(ay, mt, *c), (u, j, m)))


@CHECK.proof('amplitude_ratio_ln_pdf is the station sum of log densities', budget=120.0)
def p2():
    P = load.Loader().load('MTfit.probability.probability')
    ns, nl, nm, ax, ay, mt, rt, ex, ey = ar_inputs()
    ctx().mode['opaque'] = lambda t: T.not_(T.eq(t, ZERO))
    r = P.amplitude_ratio_ln_pdf(rt, mt, ax, ay, ex, ey)
    A = amps(ax, ay, mt)
    j, m = ix()
    k = T.fresh('_q', I)
    p, q = A(k, j, m)
    ctx().oblige('shape', T.and_(T.const(r.ndim == 2), *[T.eq(arr.dim(p), arr.dim(q)) for p, q in zip(r.shape, (nl, nm))]))
    for v, n in ((j, nl), (m, nm)):
        ctx().assume(T.le(T.IZERO, v))
        ctx().assume(T.lt(v, n.t))
    got = r.at((j, m))
    sp = spec(T.fn('r', k), p, q, T.fn('ex', k), T.fn('ey', k))
    ctx().oblige('never NaN', T.not_(got.nan))
    want = xv.reduce_sum(k, ns.t, xv.X(rules.log(sp), T.FALSE, T.FALSE, T.not_(T.lt(ZERO, sp))))
    ctx().oblige('zero only where a station density vanishes', T.iff(got.n, want.n))
    ctx().oblige('value is the sum of the station log-densities', T.or_(got.n, T.eq(got.v, want.v)))


@CHECK.proof('amplitude_ratio_ln_pdf is never NaN (amplitudes may vanish; one station)')
def p3():
    P = load.Loader().load('MTfit.probability.probability')
    x, y, r, e, f = [sym.real_var(n) for n in ('x', 'y', 'r', 'e', 'f')]
    for q in (r, e, f):
        sym.assume(q > 0)
    ax, ay, mt = [np.zeros(sh, dtype=object) for sh in ((1, 1, 6), (1, 1, 6), (6, 1))]
    ax[0, 0, 0] = ay[0, 0, 1] = 1.0
    mt[0, 0], mt[1, 0] = x, y
    v = P.amplitude_ratio_ln_pdf(np.array([r], dtype=object), mt, ax, ay, np.array([e], dtype=object), np.array([f], dtype=object))
    ctx().oblige('one value', T.const(v.shape == (1, 1)))
    k = sym.lift(v[0, 0]).k
    ctx().oblige('not NaN, not +inf', T.const(k in ('r', '-')))
    if (x == 0) or (y == 0):
        return
    sp = spec(r.t, x.t, y.t, e.t, f.t)
    ctx().oblige('value', sym.eqt(v[0, 0], sym.S(rules.log(sp))) if k == 'r' else T.not_(T.lt(ZERO, sp)))


@CHECK.proof('closed form = defining integral')
def p4():
    z, mx, my, sx, sy, y = [T.var(x, R) for x in ('z', 'mx', 'my', 'sx', 'sy', 'y')]
    c_ = ctx()
    c_.assume(positive(sx))
    c_.assume(positive(sy))
    a2, b, c = coefs(z, mx, my, sx, sy)
    a = rules.sqrt(a2)
    Q = T.add(T.mul(a2, sq(y)), T.mul(C(-2), b, y), c)
    two = C(2)
    gauss = lambda x, m, s: T.div(rules.exp(T.mul(C('-1/2'), T.div(sq(T.sub(x, m)), sq(s)))), T.mul(s, rules.sqrt(T.mul(two, T.PI))))
    c_.oblige('completed square of the joint exponent', T.eq(Q, T.add(T.div(sq(T.sub(T.mul(z, y), mx)), sq(sx)), T.div(sq(T.sub(y, my)), sq(sy)))))
    c_.oblige('joint density', T.eq(T.mul(gauss(T.mul(z, y), mx, sx), gauss(y, my, sy)),
                                    T.div(rules.exp(T.mul(C('-1/2'), Q)), T.mul(two, T.PI, sx, sy))))
    # generic coefficients: a > 0 stands for the root, b and c are free
    a, b, c = [T.var(x, R) for x in ('a', 'b', 'c')]
    c_.assume(positive(a))
    full = (a2, T.add(T.div(T.mul(mx, z), sq(sx)), T.div(my, sq(sy))), T.add(T.div(sq(mx), sq(sx)), T.div(sq(my), sq(sy))))
    a2 = sq(a)
    Q = T.add(T.mul(a2, sq(y)), T.mul(C(-2), b, y), c)
    K = T.mul(T.div(b, T.mul(a2, a)), rules.sqrt(T.div(T.PI, two)), rules.exp(T.div(T.sub(sq(b), T.mul(c, a2)), T.mul(two, a2))))
    arg = T.div(T.sub(T.mul(a, y), T.div(b, a)), rules.sqrt(two))
    G = T.add(T.div(T.neg(rules.exp(T.mul(C('-1/2'), Q))), a2), T.mul(K, rules.erf(arg)))
    c_.oblige('G is an antiderivative of y exp(-Q/2)', T.eq(diff.d(G, y), T.mul(y, rules.exp(T.mul(C('-1/2'), Q)))))
    # G(+oo) = K, G(-oo) = -K, so the integral of |y| exp(-Q/2) is (K - G(0)) - (G(0) + K) = -2 G(0)
    G0 = T.subst(G, {y: ZERO})
    c_.oblige('integral of |y| N(zy) N(y) is the closed form', T.eq(T.subst(T.div(T.mul(C(-2), G0), T.mul(two, T.PI, sx, sy)), {a: rules.sqrt(full[0]), b: full[1], c: full[2]}),
                                                                                hinkley(z, mx, my, sx, sy)))
    a2, b, c = full
    c_.oblige('sign of the denominator', T.eq(hinkley(z, T.neg(mx), T.neg(my), sx, sy), hinkley(z, mx, my, sx, sy)))
    c_.oblige('sign of the numerator', T.eq(hinkley(z, T.neg(mx), my, sx, sy), hinkley(T.neg(z), mx, my, sx, sy)))
    c_.oblige('exponent is not positive', T.eq(T.sub(sq(b), T.mul(c, a2)), T.neg(T.div(sq(T.sub(mx, T.mul(z, my))), T.mul(sq(sx), sq(sy))))))
    w = T.var('w', R)
    c_.oblige('b erf(b/k) >= 0', T.implies(T.lt(ZERO, w), T.le(ZERO, T.mul(b, rules.erf(T.div(b, w))))))


# ---- run-time contracts -----------------------------------------------------------------------
_GL = np.polynomial.legendre.leggauss(16)


def density(r, mx, my, sx, sy):
    """log density of |X/Y| at r by quadrature of the defining integral of |y| N(ry) N(y)"""
    out = -np.inf
    for z in (r, -r):
        a2 = z * z / sx ** 2 + 1 / sy ** 2
        a = math.sqrt(a2)
        y0 = (mx * z / sx ** 2 + my / sy ** 2) / a2              # the exponent's maximum
        e0 = -0.5 * ((mx - z * my) / (sx * sy * a)) ** 2
        kn = y0 + np.linspace(-40, 40, 81) / a
        if kn[0] < 0 < kn[-1]:
            kn = np.sort(np.append(kn, 0.0))
        h = 0.5 * np.diff(kn)[:, None]
        y = h * _GL[0] + 0.5 * (kn[1:] + kn[:-1])[:, None]
        s = float(np.sum(h * _GL[1] * np.abs(y) * np.exp(-0.5 * a2 * (y - y0) ** 2)))
        v = math.log(s) + e0 - math.log(2 * math.pi * sx * sy) if s > 0 else -np.inf
        out = np.logaddexp(out, v)
    return out


def runner(mode):
    def run(b):
        P = conc.pkg(mode)['probability.probability']
        b.rule = 'random geometry; values compared with quadrature of the defining integral, sign flips, normalisation over r'
        rng = b.np
        for it in range(b.count(150)):
            ns, nl, nm = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
            ax, ay = rng.randn(ns, nl, 6), rng.randn(ns, nl, 6)
            ax *= 10.0 ** rng.randint(-3, 4)
            ay *= 10.0 ** rng.randint(-3, 4)
            mt = rng.randn(6, nm)
            mt /= np.sqrt((mt ** 2).sum(0))
            ex, ey = 10.0 ** rng.uniform(-5, 0.7, ns), 10.0 ** rng.uniform(-5, 0.7, ns)
            if rng.rand() < 0.5:
                ex, ey = 10.0 ** rng.uniform(-2, 0.7, ns), 10.0 ** rng.uniform(-2, 0.7, ns)
            X, Y = np.tensordot(ax, mt, 1), np.tensordot(ay, mt, 1)
            kind = rng.randint(4)
            r0 = np.abs(X[:, 0, 0] / Y[:, 0, 0])
            if kind == 0:
                r = r0 * (1 + rng.randn(ns) * np.sqrt(ex ** 2 + ey ** 2))
            elif kind == 1:
                r = r0 * 10 ** rng.uniform(-3, 3, ns)
            else:
                r = r0 * np.exp(rng.randn(ns))
            r = np.abs(r) + 1e-300
            want = np.zeros((nl, nm))
            worst = np.zeros((nl, nm))
            for u in range(ns):
                for j in range(nl):
                    for m in range(nm):
                        mx, my = abs(X[u, j, m]), abs(Y[u, j, m])
                        v = density(r[u], mx, my, ex[u] * mx, ey[u] * my)
                        want[j, m] += v
                        worst[j, m] = min(worst[j, m], v)
            inp = dict(ratio=r, mt=mt, ax=ax, ay=ay, ex=ex, ey=ey, mode=mode)
            b.cur = inp
            got = np.asarray(P.amplitude_ratio_ln_pdf(r.copy(), mt.copy(), ax.copy(), ay.copy(), ex.copy(), ey.copy()))
            b.case(('val', it, kind), inp)
            if not b.check(got.shape == (nl, nm), 'shape %s' % (got.shape,), **inp):
                continue
            b.check(not np.isnan(got).any() and not (got == np.inf).any(), 'NaN or +inf likelihood', **inp)
            for j in range(nl):
                for m in range(nm):
                    g, w = got[j, m], want[j, m]
                    if worst[j, m] < -600:
                        if not (g == -np.inf or abs(g - w) <= 1e-3 * abs(w)):
                            b.fail('log-likelihood %r, defining integral %r' % (g, w), **inp)
                        continue
                    tol = 1e-7 * max(1, abs(w)) + 4e-5 * (1 if min(ex.min(), ey.min()) < 1e-3 else 0)
                    if not abs(g - w) <= tol:
                        b.fail('log-likelihood %r, defining integral %r' % (g, w), **inp)
            # sign invariance: flip each modelled amplitude by flipping its coefficients
            sg = rng.choice([-1, 1], (ns, nl, 1))
            sh = rng.choice([-1, 1], (ns, nl, 1))
            g2 = np.asarray(P.amplitude_ratio_ln_pdf(r.copy(), mt.copy(), ax * sg, ay * sh, ex.copy(), ey.copy()))
            b.check(np.allclose(np.nan_to_num(got, neginf=-1e9), np.nan_to_num(g2, neginf=-1e9), rtol=1e-7, atol=1e-6), 'depends on amplitude signs', **inp)
            if it % 4 == 0:
                q = P.ratio_pdf(r[0], X[0, 0, 0], Y[0, 0, 0], ex[0] * abs(X[0, 0, 0]), ey[0] * abs(Y[0, 0, 0]))
                b.check(np.all(np.asarray(q) >= 0) and not np.isnan(q).any() if isinstance(q, np.ndarray) else q >= 0, 'ratio_pdf negative', **inp)
        # normalisation over r
        for it in range(b.count(30)):
            mx, my = 10.0 ** rng.uniform(-3, 3, 2) * rng.choice([-1, 1], 2)
            ex, ey = 10.0 ** rng.uniform(-2, 0.7, 2)
            # substitution r = (|mx|/|my|) tan(theta): the density has 1/r^2 tails
            x, wt = np.polynomial.legendre.leggauss(600)
            th = (x + 1) * math.pi / 4
            sc = abs(mx / my)
            r = sc * np.tan(th)
            val = P.ratio_pdf(r, abs(mx), abs(my), ex * abs(mx), ey * abs(my)) + P.ratio_pdf(-r, abs(mx), abs(my), ex * abs(mx), ey * abs(my))
            tot = np.sum(wt * val * sc / np.cos(th) ** 2) * math.pi / 4
            b.case(('norm', it))
            b.check(abs(tot - 1) < 1e-6, 'density integrates to %r' % tot, mx=mx, my=my, ex=ex, ey=ey, mode=mode)
        # fractional errors down to 1e-5 and vanishing amplitudes: finite or exact zero, never NaN
        for it in range(b.count(60)):
            ns = rng.randint(1, 4)
            ax, ay = rng.randn(ns, 2, 6), rng.randn(ns, 2, 6)
            if rng.rand() < 0.5:
                ax[rng.randint(ns), 0] = 0
            if rng.rand() < 0.5:
                ay[rng.randint(ns), 1] = 0
            mt = rng.randn(6, 3)
            e = np.full(ns, 1e-5)
            r = np.abs(np.tensordot(ax, mt, 1)[:, 1, 1] / np.tensordot(ay, mt, 1)[:, 1, 1]) + 1e-9
            inp = dict(ratio=r, mt=mt, ax=ax, ay=ay, e=e, mode=mode)
            b.cur = inp
            got = np.asarray(P.amplitude_ratio_ln_pdf(r.copy(), mt.copy(), ax.copy(), ay.copy(), e.copy(), e.copy()))
            b.case(('edge', it))
            b.check(not np.isnan(got).any(), 'NaN likelihood', **inp)
    return run


CHECK.runtime('pure Python')(runner('pure'))
CHECK.runtime('compiled', compiled=True)(runner('c'))
