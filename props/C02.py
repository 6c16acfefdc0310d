"""C02: polarity likelihoods are valid two-outcome probability models."""
import math
from fractions import Fraction
import numpy as np
from dpv import report, load, sym, arr, xv, rules, conc, term as T
from dpv.paths import ctx
from dpv.term import R, I
CHECK = report.Check('C02')
CHECK.covers('MTfit.probability.probability.polarity_ln_pdf', 'MTfit.probability.probability.polarity_probability_ln_pdf',
             'MTfit.probability.probability.heaviside')
CHECK.assume('mispick probabilities lie in [0,1], uncertainties are >= 0, pick probabilities lie in [0,1] (input validity)',
             'scipy.special.erf is the error function')

HALF = T.const(Fraction(1, 2), R)
ZERO, ONE = T.ZERO, T.ONE


def unit(t):
    return T.and_(T.le(ZERO, t), T.le(t, ONE))


def pol_spec(yA, s, w):
    """the documented probability (term)"""
    u = T.div(yA, T.mul(rules.sqrt(T.const(2, R)), s))
    return T.add(T.mul(HALF, T.add(ONE, rules.erf(u)), T.sub(ONE, w)),
                 T.mul(HALF, T.sub(ONE, rules.erf(u)), w))


def H(x):
    return T.ite(T.lt(ZERO, x), ONE, T.ite(T.lt(x, ZERO), ZERO, HALF))


def prob_spec(x, p, n, w):
    return T.add(T.mul(T.add(T.mul(H(x), p), T.mul(T.sub(ONE, H(x)), n)), T.sub(ONE, w)),
                 T.mul(T.add(T.mul(H(x), n), T.mul(T.sub(ONE, H(x)), p)), w))


def amp(a, mt, u, j, m):
    return T.add(*[T.mul(a.at((u, j, T.const(k, I))).v, mt.at((T.const(k, I), m)).v) for k in range(6)])


def dims():
    d = [sym.int_var(x) for x in ('ns', 'nl', 'nm')]
    for q in d:
        sym.assume(q >= 1)
    return d


def ix():
    j, m = T.var('j', I), T.var('m', I)
    return j, m


def result_is_station_sum(r, nl, nm, spec, ns):
    """r[j,m] == sum over stations of log(spec(u,j,m)) as extended reals"""
    j, m = ix()
    ctx().oblige('shape', T.and_(T.const(r.ndim == 2), *[T.eq(arr.dim(p), arr.dim(q)) for p, q in zip(r.shape, (nl, nm))]))
    for v, n in ((j, nl), (m, nm)):
        ctx().assume(T.le(T.IZERO, v))
        ctx().assume(T.lt(v, n.t))
    got = r.at((j, m))
    k = T.fresh('u', I)
    p = spec(k, j, m)
    want = xv.reduce_sum(k, ns.t, xv.X(rules.log(p), T.FALSE, T.FALSE, T.eq(p, ZERO)))
    ctx().oblige('never NaN or +inf', T.and_(T.not_(got.nan), T.not_(got.p)))
    ctx().oblige('zero probability iff some station is impossible', T.iff(got.n, want.n))
    ctx().oblige('value is the sum of the station log-likelihoods', T.or_(got.n, T.eq(got.v, want.v)))


def _prob(**k):
    L = load.Loader(**k)
    return L.load('MTfit.probability.probability')


def setup_inputs(sig_pre=None):
    ns, nl, nm = dims()
    a = arr.input_array('a', [ns, nl, 6])
    mt = arr.input_array('mt', [6, nm])
    s = arr.input_array('s', [ns], pre=lambda t: T.lt(ZERO, t))
    return ns, nl, nm, a, mt, s


@CHECK.proof('polarity_ln_pdf: per-station mispick array')
def p1():
    P = _prob()
    ns, nl, nm, a, mt, s = setup_inputs()
    w = arr.input_array('w', [ns], pre=unit)
    r = P.polarity_ln_pdf(a, mt, s, w)
    result_is_station_sum(r, nl, nm, lambda u, j, m: pol_spec(amp(a, mt, u, j, m), T.fn('s', u), T.fn('w', u)), ns)


@CHECK.proof('polarity_ln_pdf: scalar mispick')
def p2():
    P = _prob()
    ns, nl, nm, a, mt, s = setup_inputs()
    w = sym.real_var('w0')
    sym.assume(w >= 0)
    sym.assume(w <= 1)
    r = P.polarity_ln_pdf(a, mt, s, w)
    result_is_station_sum(r, nl, nm, lambda u, j, m: pol_spec(amp(a, mt, u, j, m), T.fn('s', u), w.t), ns)


@CHECK.proof('polarity_ln_pdf: default mispick is zero, (n,6) tensors accepted')
def p2b():
    P = _prob()
    ns, nl, nm, a, mt, s = setup_inputs()
    sym.assume(nm != 6)
    r = P.polarity_ln_pdf(a, mt.transpose(), s)
    result_is_station_sum(r, nl, nm, lambda u, j, m: pol_spec(amp(a, mt, u, j, m), T.fn('s', u), ZERO), ns)


@CHECK.proof('polarity_ln_pdf: zero uncertainty is the hard limit')
def p3():
    P = _prob()
    A, w = sym.real_var('A'), sym.real_var('w')
    sym.assume(w >= 0)
    sym.assume(w <= 1)
    sym.assume(abs(A) <= 1)
    tiny = sym.S(T.const(Fraction(1, 10 ** 12), R))
    ctx().mode['erf_saturates'] = True
    sig = np.array([sym.lift(0.0)], dtype=object)
    mt = np.zeros((6, 1), dtype=object)
    mt[0, 0] = A
    a = np.zeros((1, 1, 6), dtype=object)
    a[0, 0, 0] = 1.0
    if A > tiny:
        want = 1 - w
    elif A < -tiny:
        want = w
    elif A == 0:
        want = sym.lift(0.5)
    else:
        return
    r = P.polarity_ln_pdf(a, mt, sig, w)
    ctx().oblige('log of the hard probability', sym.eqt(r[0, 0], sym.ulog(want)))


@CHECK.proof('polarity_probability_ln_pdf: per-station arrays')
def p4():
    P = _prob()
    ns, nl, nm, a, mt, s = setup_inputs()
    pp = arr.input_array('pp', [ns], pre=unit)
    pn = arr.input_array('pn', [ns], pre=unit)
    w = arr.input_array('w', [ns], pre=unit)
    r = P.polarity_probability_ln_pdf(a, mt, pp, pn, w)
    result_is_station_sum(r, nl, nm, lambda u, j, m: prob_spec(amp(a, mt, u, j, m), T.fn('pp', u), T.fn('pn', u), T.fn('w', u)), ns)


@CHECK.proof('polarity_probability_ln_pdf: scalar mispick')
def p5():
    P = _prob()
    ns, nl, nm, a, mt, s = setup_inputs()
    pp = arr.input_array('pp', [ns], pre=unit)
    pn = arr.input_array('pn', [ns], pre=unit)
    w = sym.real_var('w0')
    sym.assume(w >= 0)
    sym.assume(w <= 1)
    r = P.polarity_probability_ln_pdf(a, mt, pp, pn, w)
    result_is_station_sum(r, nl, nm, lambda u, j, m: prob_spec(amp(a, mt, u, j, m), T.fn('pp', u), T.fn('pn', u), w.t), ns)


@CHECK.proof('lemmas on the specification')
def p6():
    A, B2, s, w, p, n = [T.var(x, R) for x in ('A', 'B', 's', 'w', 'p', 'n')]
    c = ctx()
    for t in (T.lt(ZERO, s), unit(w), unit(p), unit(n)):
        c.assume(t)
    c.oblige('range', unit(pol_spec(A, s, w)))
    c.oblige('two outcomes sum to one', T.eq(T.add(pol_spec(A, s, w), pol_spec(T.neg(A), s, w)), ONE))
    r2 = rules.sqrt(T.const(2, R))
    u, v = T.div(A, T.mul(r2, s)), T.div(B2, T.mul(r2, s))
    c.oblige('argument order', T.implies(T.le(A, B2), T.le(u, v)))
    x, y = T.var('x', R), T.var('y', R)
    f = lambda z: T.add(T.mul(HALF, T.add(ONE, rules.erf(z)), T.sub(ONE, w)), T.mul(HALF, T.sub(ONE, rules.erf(z)), w))
    c.oblige('monotone for w < 1/2', T.implies(T.and_(T.le(x, y), T.lt(w, HALF)), T.le(f(x), f(y))))
    c.oblige('polarity-probability range', unit(prob_spec(A, p, n, w)))


# ---- run-time contracts on the real package (bounded) -------------------------------------
def ref_pol(yA, s, w):
    if s == 0:
        u = 0.0 if yA == 0 else math.copysign(math.inf, yA)
    else:
        u = yA / (math.sqrt(2) * s)
    return 0.5 * (math.erfc(-u)) * (1 - w) + 0.5 * (math.erfc(u)) * w


def ref_prob(x, p, n, w):
    h = 0.5 * (np.sign(x) + 1)
    g = 0.5 * (np.sign(-x) + 1)
    return (h * p + g * n) * (1 - w) + (h * n + g * p) * w


def ln(p):
    return math.log(p) if p > 0 else -math.inf


def close(x, y, p, rt=1e-9):
    """ln x vs ln y, where tiny probabilities may be lost to cancellation in 1+erf"""
    if np.isnan(x) or x == np.inf:
        return False
    if math.isinf(y) or math.isinf(x):
        return (math.isinf(y) and math.isinf(x)) or p < 1e-14 or (math.isinf(y) and x < -32)
    return abs(x - y) <= rt * max(1, abs(y)) + 4e-16 / max(p, 1e-300)


def runner(mode):
    def run(b):
        P = conc.pkg(mode)['probability.probability']
        b.rule = 'random stations/locations/tensors with exact zeros in amplitude, uncertainty and mispick; single-station values compared with the documented formula'
        rng = b.np
        for it in range(b.count(400)):
            ns, nl, nm = rng.randint(1, 5), rng.randint(1, 4), rng.randint(1, 5)
            a = rng.randn(ns, nl, 6) * rng.choice([1, 1, 1e-3, 1e3, 1e150, 1e-150])
            mt = rng.randn(6, nm)
            mt /= np.sqrt((mt ** 2).sum(0))
            if rng.rand() < 0.4:
                a[rng.randint(ns), rng.randint(nl)] = 0.0
            if rng.rand() < 0.2:
                mt = np.round(mt * 2)
                a = np.round(a)
            s = np.abs(rng.randn(ns)) * rng.choice([1e-150, 1e-6, 0.01, 0.3, 3.0, 100., 1e150], ns)
            s[rng.rand(ns) < 0.25] = 0.0
            kind = rng.randint(4)
            w = [0.0, float(rng.choice([0.0, 0.1, 0.5, 0.9, 1.0])), rng.choice([0.0, 0.05, 0.3, 0.5, 0.8, 1.0], ns), int(rng.randint(2))][kind]
            wa = np.ones(ns) * w
            A = np.tensordot(a, mt, 1)
            p = np.array([[[ref_pol(A[u, j, m], s[u], wa[u]) for m in range(nm)] for j in range(nl)] for u in range(ns)])
            ref = np.array([[sum(ln(p[u, j, m]) for u in range(ns)) for m in range(nm)] for j in range(nl)])
            inp = dict(a=a, mt=mt, sigma=s.copy(), w=w, mode=mode)
            mm = np.ascontiguousarray(mt.T) if (nm != 6 and rng.rand() < 0.2) else mt
            try:
                r = np.asarray(P.polarity_ln_pdf(a.copy(), mm.copy(), s.copy(), w))
            except Exception as e:
                b.fail('polarity_ln_pdf raised %r' % e, **inp)
                continue
            b.case(('pol', ns, nl, nm, kind, it), inp)
            if r.shape != (nl, nm):
                b.fail('polarity_ln_pdf shape %s' % (r.shape,), **inp)
                continue
            for j in range(nl):
                for m in range(nm):
                    if ((s == 0) & (A[:, j, m] != 0) & (np.abs(A[:, j, m]) < 1e-12)).any():
                        continue        # amplitudes below rounding (see DESIGN): s = 0 is implemented as s = 1e-24
                    if not close(r[j, m], ref[j, m], p[:, j, m].min()):
                        b.fail('polarity_ln_pdf[%d,%d]=%r, documented value %r' % (j, m, r[j, m], ref[j, m]), **inp)
            if rng.rand() < 0.1 and ns > 1:
                g = [np.asarray(P.polarity_ln_pdf(a[u:u + 1].copy(), mt.copy(), s[u:u + 1].copy(), wa[u:u + 1].copy())) for u in range(ns)]
                b.check(np.allclose(np.exp(sum(g)), np.exp(r), rtol=1e-9), 'stations are not multiplied', **inp)
            # the two outcomes sum to one, station by station
            u = rng.randint(ns)
            r1 = np.exp(np.asarray(P.polarity_ln_pdf(a[u:u + 1].copy(), mt.copy(), s[u:u + 1].copy(), float(wa[u]))))
            r2 = np.exp(np.asarray(P.polarity_ln_pdf(-a[u:u + 1], mt.copy(), s[u:u + 1].copy(), float(wa[u]))))
            b.check(np.allclose(r1 + r2, 1, atol=1e-9), 'two polarities sum to %r' % (r1 + r2), **inp)
            # polarity probabilities
            pp = rng.rand(ns)
            pn = np.where(rng.rand(ns) < 0.5, 1 - pp, rng.rand(ns))
            pp[rng.rand(ns) < 0.2] = 0.0
            pn[rng.rand(ns) < 0.2] = 1.0
            q = np.array([[[ref_prob(A[u, j, m], pp[u], pn[u], wa[u]) for m in range(nm)] for j in range(nl)] for u in range(ns)])
            inp = dict(a=a, mt=mt, pp=pp, pn=pn, w=w, mode=mode)
            try:
                r = np.asarray(P.polarity_probability_ln_pdf(a.copy(), mm.copy(), pp.copy(), pn.copy(), w))
            except Exception as e:
                b.fail('polarity_probability_ln_pdf raised %r' % e, **inp)
                continue
            b.case(('prob', ns, nl, nm, kind, it))
            for j in range(nl):
                for m in range(nm):
                    want = sum(ln(q[u, j, m]) for u in range(ns))
                    if np.abs(A[:, j, m]).min() < 1e-13 and (A[:, j, m] != 0).all():
                        continue
                    if not close(r[j, m], want, q[:, j, m].min()):
                        b.fail('polarity_probability_ln_pdf[%d,%d]=%r, documented value %r' % (j, m, r[j, m], want), **inp)
        # single stations on a grid of special values
        for x in (-1.3, -1e-9, 0.0, 1e-9, 0.4):
            a = np.zeros((1, 1, 6))
            a[0, 0, 1] = x
            mt = np.zeros((6, 1))
            mt[1] = 1.0
            for w in (0.0, 0.2, 0.5, 1.0):
                for s in (0.0, 1e-9, 1e-3, 0.3, 5.0):
                    inp = dict(a=a, mt=mt, sigma=s, w=w, mode=mode)
                    r = float(np.asarray(P.polarity_ln_pdf(a.copy(), mt.copy(), np.array([s]), w)).flatten()[0])
                    q = ref_pol(x, s, w)
                    b.case(('grid', x, w, s))
                    b.check(close(r, ln(q), q), 'polarity_ln_pdf %r, documented value %r' % (r, ln(q)), **inp)
                for pp in (0.0, 0.25, 0.5, 1.0):
                    for pn in (0.0, 0.5, 1.0 - pp):
                        inp = dict(a=a, mt=mt, pp=pp, pn=pn, w=w, mode=mode)
                        r = float(np.asarray(P.polarity_probability_ln_pdf(a.copy(), mt.copy(), np.array([pp]), np.array([pn]), w)).flatten()[0])
                        q = ref_prob(x, pp, pn, w)
                        b.case(('pgrid', x, w, pp, pn))
                        b.check(close(r, ln(q), q), 'polarity_probability_ln_pdf %r, documented value %r' % (r, ln(q)), **inp)
        # monotone in yA
        for it in range(b.count(40)):
            s = float(rng.choice([0, 1e-3, 0.1, 2.0]))
            w = float(rng.rand() * 0.5)
            A = np.sort(np.concatenate([rng.randn(200) * rng.choice([1e-3, 1, 30]), [0.0]]))
            mt = np.zeros((6, len(A)))
            mt[2] = A
            a = np.zeros((1, 1, 6))
            a[0, 0, 2] = 1.0
            r = np.asarray(P.polarity_ln_pdf(a, mt, np.array([s]), w))[0]
            b.case(('mono', it))
            b.check((np.diff(np.exp(r)) >= -1e-12).all(), 'probability decreases with yA', s=s, w=w, mode=mode)
            p = np.exp(r)
            b.check(((p >= 0) & (p <= 1 + 1e-12)).all() and not np.isnan(r).any(), 'probability outside [0,1]', s=s, w=w, mode=mode)
    return run


CHECK.runtime('pure Python')(runner('pure'))
CHECK.runtime('compiled', compiled=True)(runner('c'))
