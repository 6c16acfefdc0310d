"""C06: Markov-chain proposals stay in the source domain and follow the proposal density."""
import math
from fractions import Fraction
import numpy as np
from dpv import report, load, sym, rules, conc, term as T
from dpv.paths import ctx
from dpv.term import R
CHECK = report.Check('C06')
MC = 'MTfit.algorithms.markov_chain_monte_carlo'
CHECK.covers(MC + '.MarginalisedMetropolisHastingsGaussianTape._new_sample_single', MC + '.MarginalisedMetropolisHastingsGaussianTape.new_sample',
             MC + '.IterativeTransDMetropolisHastingsGaussianTape._new_sample_single', MC + '.IterativeTransDMetropolisHastingsGaussianTape.jump_params',
             MC + '.MarginalisedMarkovChainMonteCarlo._modify_alpha', MC + '.MarginalisedMarkovChainMonteCarlo._modify_acceptance_rate',
             MC + '.MarginalisedMarkovChainMonteCarlo._get_acceptance_rate_modifier',
             'MTfit.convert.moment_tensor_conversion.Tape_MT33', 'MTfit.convert.moment_tensor_conversion.GD_E', 'MTfit.convert.moment_tensor_conversion.MT33_MT6',
             'MTfit.algorithms.cmarkov_chain_monte_carlo.new_samples (bounded)')
CHECK.assume('numpy.random generators return independent draws of their documented distribution',
             'a loop that only redraws ends with probability one; the number it keeps then has the distribution of its draw conditioned on the loop test (rejection sampling)',
             'strike rounded up to exactly 2 pi by floating-point mod is not covered',
             'the constrained crack+double-couple model (basic_cdc) and the reflecting proposals are not covered')
ZERO, ONE = T.ZERO, T.ONE
C = lambda v: T.const(Fraction(v), R)
HALF, SIXTH, TWOPI = T.mul(C('1/2'), T.PI), T.mul(C('1/6'), T.PI), T.mul(C(2), T.PI)
DOM = {'gamma': (T.neg(SIXTH), SIXTH), 'delta': (T.neg(HALF), HALF), 'h': (ZERO, ONE), 'sigma': (T.neg(HALF), HALF), 'kappa': (ZERO, TWOPI)}
WID = ('kappa', 'h', 'sigma', 'gamma', 'delta', 'gamma_dc', 'delta_dc')
MH, TD = 'IterativeMetropolisHastingsGaussianTape', 'IterativeTransDMetropolisHastingsGaussianTape'


def num(v):
    if isinstance(v, np.ndarray):
        v = v.flat[0] if v.size == 1 else None
    return sym.real(sym.lift(v).t)


def scalar(v):
    return np.size(v) == 1


def world(cls, **kw):
    M = load.Loader(loops={MC: {'*': 'retry'}}).plain(MC)
    return M, getattr(M, cls)(learning_length=0, **kw)


def state(pre, dc):
    x = {}
    for k, (lo, hi) in DOM.items():
        if dc and k in ('gamma', 'delta'):
            x[k] = 0.0
            continue
        v = x[k] = sym.real_var(pre + k)
        ctx().assume(T.le(lo, v.t))
        ctx().assume(T.lt(v.t, hi) if k == 'kappa' else T.le(v.t, hi))
    return x


def widths(pre=''):
    a = {k: sym.real_var('w_' + pre + k) for k in WID}
    for v in a.values():
        sym.assume(v > 0)
    a['alpha'] = a['poisson'] = 0.1
    a['proposal_normalisation'] = 0.7
    return a


def inside(k, v):
    lo, hi = DOM[k]
    return T.and_(T.le(lo, v), T.lt(v, hi) if k == 'kappa' else T.le(v, hi))


def truncated(x, comps, draws, total=True):
    """comps: {component: (centre, width)}: each x[component] is centre + width z (strike: modulo 2 pi) for a
    normal draw z of its own; every rejected draw would have left the domain of the component it was drawn for"""
    c = ctx()
    zs = [(d[1].t, d) for d in draws if d[0] == 'normal']
    own = {}
    for k, (m, w) in comps.items():
        if not c_ok('%s is one number' % k, scalar(x.get(k))):
            return
        v = num(x[k])
        c.oblige('%s in its domain' % k, inside(k, v))
        hit = []
        for i, (z, _) in enumerate(zs):
            lin = T.add(m, T.mul(w, z))
            want = T.imod(lin, TWOPI) if k == 'kappa' else lin
            if z in T.subterms(v) and i not in own:
                hit.append((i, want))
        if not c_ok('%s depends on one own normal draw' % k, len(hit) == 1):
            return
        own[hit[0][0]] = k
        c.oblige('%s is the scaled draw about the current value' % k, T.eq(v, hit[0][1]))
    for i, (z, _) in enumerate(zs):
        if i in own:
            continue
        nxt = [j for j in sorted(own) if j > i]
        if not c_ok('every draw belongs to a component', bool(nxt)):
            return
        k = own[nxt[0]]
        m, w = comps[k]
        c.oblige('a draw is rejected only outside the domain (%s)' % k, T.not_(inside(k, T.add(m, T.mul(w, z)))) if k != 'kappa' else T.FALSE)


def c_ok(what, v):
    ctx().oblige(what, T.const(bool(v)))
    return v


def draws():
    return ctx().ghost.get('draws', [])


def kept(o, xi, a, dc):
    c_ok('the chain state is left alone', o.xi is xi and o.alpha is a and o.dc == dc)


def shift(cls, dc):
    def f():
        ctx().effort(20000)
        kw = {'dimension_jump_prob': 0} if cls is TD else {}
        M, o = world(cls, dc=dc, **kw)
        a, xi = widths(), state('cur_', dc)
        snap = dict(xi), dict(a)
        o.alpha, o.xi, o.dc = a, xi, dc
        before = len(draws())
        if cls is TD:
            o.dimension_jump_prob = -1.0        # never a jump
        x = o._new_sample_single()
        comps = {k: (num(xi[k]), num(a[k])) for k in ('gamma', 'delta', 'kappa', 'h', 'sigma') if not (dc and k in ('gamma', 'delta'))}
        c_ok('the five parameters', set(x) == set(DOM))
        if dc:
            c_ok('exactly double-couple', all(scalar(x[k]) and not isinstance(np.ravel(x[k])[0], sym.S) and float(np.ravel(x[k])[0]) == 0.0 for k in ('gamma', 'delta')))
        truncated(x, comps, draws()[before:])
        kept(o, xi, a, dc)
        c_ok('the current state is not modified', snap == (xi, a))
    return f


for _cls in (MH, TD):
    for _dc in (True, False):
        CHECK.proof('%s shift, %s' % ('TransD' if _cls is TD else 'MH', 'DC' if _dc else 'full'), max_paths=400, budget=60.0)(shift(_cls, _dc))


def jump(dc, gauss):
    def f():
        ctx().effort(20000)
        M, o = world(TD, dc=dc, gaussian_jump_params=gauss)
        a, xi = widths(), state('cur_', dc)
        if dc:
            xi['g0'] = xi['d0'] = 0.1           # left over from an earlier jump
        snap = dict(xi), dict(a)
        o.alpha, o.xi, o.dc = a, xi, dc
        o.dimension_jump_prob = 2.0             # always a jump
        before = len(draws())
        x = o._new_sample_single()
        c_ok('marked as a jump', bool(o.jump))
        for k in ('kappa', 'h', 'sigma'):
            ctx().oblige('%s unchanged' % k, T.eq(num(x[k]), num(snap[0][k])) if scalar(x.get(k)) else T.FALSE)
        if dc:
            c_ok('no balancing pair left over', set(x) == set(DOM))
            new = draws()[before:]
            if gauss:
                truncated(x, {k: (ZERO, num(a[k + '_dc'])) for k in ('gamma', 'delta')}, new)
            else:
                for k in ('gamma', 'delta'):
                    v = num(x[k])
                    ctx().oblige('%s in its domain' % k, inside(k, v))
                    lo, hi = DOM[k]
                    us = [d[1].t for d in new if d[0] == 'uniform' and d[1].t in T.subterms(v)]
                    if c_ok('%s from one uniform draw' % k, len(us) == 1):
                        ctx().oblige('%s uniform over its range' % k, T.or_(T.eq(v, T.add(lo, T.mul(T.sub(hi, lo), us[0]))), T.eq(v, T.sub(hi, T.mul(T.sub(hi, lo), us[0])))))
        else:
            c_ok('exactly double-couple', all(not isinstance(x[k], sym.S) and x[k] == 0.0 for k in ('gamma', 'delta')))
            for k, s in (('g0', 'gamma'), ('d0', 'delta')):
                ctx().oblige('balancing pair is the pair left behind', T.eq(num(x[k]), num(snap[0][s])) if k in x else T.FALSE)
        kept(o, xi, a, dc)
        c_ok('the current state is not modified', snap == (xi, a))
    return f


for _dc in (True, False):
    for _g in (True, False):
        CHECK.proof('TransD jump from %s, %s balance draw' % ('DC' if _dc else 'full', 'Gaussian' if _g else 'flat'))(jump(_dc, _g))


@CHECK.proof('a jump is proposed with the configured probability')
def jumpp():
    ctx().effort(20000)
    M, o = world(TD)
    p = sym.real_var('p_jump')
    sym.assume(p >= 0)
    sym.assume(p <= 1)
    o.dimension_jump_prob = p
    o.dc, o.xi, o.alpha = False, state('cur_', False), widths()
    before = len(draws())
    x = o._new_sample_single()
    d = draws()[before]
    c_ok('decided by a uniform draw', d[0] == 'uniform')
    j = bool(o.jump)
    ctx().oblige('jump exactly when the draw is below the probability', T.le(d[1].t, p.t) if j else T.le(p.t, d[1].t))
    c_ok('jumps zero the source-type pair, others do not', ('g0' in x) == j)


@CHECK.proof('several events: each proposal from its own state, widths and model')
def events():
    for cls in (MH, TD):
        for dcs in ([True, False], [False, True, False], [False, False]):
            M, o = world(cls, number_events=len(dcs))
            al = [widths('%d_' % i) for i in range(len(dcs))]
            xi = [state('cur%d_' % i, d) for i, d in enumerate(dcs)]
            o.xi, o.alpha, o.dc = xi, al, list(dcs)
            seen = []

            def one(*args, **kw):
                seen.append((o.xi, o.alpha, o.dc))
                return {'event': len(seen)}
            o._new_sample_single = one
            o.convert_sample = lambda x: ('converted', x)
            r = o.new_sample()
            c_ok('one proposal per event with its own parts', len(seen) == len(dcs) and all(s[0] is x and s[1] is a and bool(s[2]) == d for s, x, a, d in zip(seen, xi, al, dcs)))
            c_ok('proposals kept in event order', o.xi_1 == [{'event': i + 1} for i in range(len(dcs))] and r == ('converted', o.xi_1))
            c_ok('the chain state is left alone', o.xi == xi and o.alpha == al and o.dc == list(dcs))


# ---- widths
def maxima(o):
    m = {k: sym.real_var('max_' + k) for k in o.max_alpha}
    for v in m.values():
        sym.assume(v > 0)
    o.max_alpha = m
    return m


def valid(a, m, what):
    for k in WID:
        ctx().oblige('%s: width %s kept' % (what, k), T.const(k in a))
        if k not in a:
            continue
        v = num(a[k])
        ctx().oblige('%s: %s positive' % (what, k), T.lt(ZERO, v))
        if not k.endswith('_dc'):
            ctx().oblige('%s: %s not above its maximum' % (what, k), T.le(v, num(m[k])))


def full_widths(pre, m):
    a = {k: sym.real_var('w_' + pre + k) for k in WID + ('alpha', 'poisson')}
    for k, v in a.items():
        sym.assume(v > 0)
        if k in m:
            sym.assume(v <= m[k])
    a['proposal_normalisation'] = sym.real_var('pn_' + pre)
    return a


@CHECK.proof('_modify_alpha', max_paths=4000)
def mod():
    M, o = world(TD)
    m = maxima(o)
    a = full_widths('', m)
    small = {k: a[k] for k in ('gamma', 'h', 'gamma_dc', 'delta_dc', 'proposal_normalisation')}
    r = sym.real_var('ratio')
    new = o._modify_alpha(small, r)
    c_ok('the widths are kept', set(new) == set(small) and all(new[k] is small[k] for k in ('gamma_dc', 'delta_dc', 'proposal_normalisation')))
    for k in ('gamma', 'h'):
        v, w, p = num(new[k]), num(small[k]), T.mul(num(small[k]), r.t)
        ctx().oblige('%s scaled when that is a valid width, else kept' % k, T.eq(v, T.ite(T.and_(T.lt(ZERO, p), T.le(p, num(m[k]))), p, w)))
        ctx().oblige('%s positive' % k, T.lt(ZERO, v))
        ctx().oblige('%s never above its maximum' % k, T.le(v, num(m[k])))
    pair = o._modify_alpha([{'h': small['h']}, {'gamma': small['gamma']}], sym.lift(1))
    c_ok('per event', len(pair) == 2 and set(pair[0]) == {'h'} and set(pair[1]) == {'gamma'})


def adapt(kind, events, old):
    def f():
        M, o = world(TD, number_events=events)
        m = maxima(o)
        for k in list(m):
            if k not in ('gamma', 'h'):
                m[k] = sym.S(C(10))

        def some(pre):
            a = {k: 0.25 for k in WID + ('alpha', 'poisson', 'proposal_normalisation')}
            for k in ('gamma', 'h', 'gamma_dc'):
                a[k] = sym.real_var('w_' + pre + k)
                sym.assume(a[k] > 0)
                if k in m:
                    sym.assume(a[k] <= m[k])
            return a
        cur = [some('%d_' % i) for i in range(events)]
        o.alpha = cur if events > 1 else cur[0]
        if old:
            prev = [some('old%d_' % i) for i in range(events)]
            o._old_alpha = prev if events > 1 else prev[0]
        if old:
            o._old_ratio = sym.real_var('old_ratio')
            sym.assume(o._old_ratio > 0)
            o._old_rate = sym.real_var('old_rate')
            sym.assume(o._old_rate > 0)
            sym.assume(o._old_rate <= 1)
        lo, hi = sym.real_var('min_rate'), sym.real_var('max_rate')
        sym.assume(lo > 0)
        sym.assume(hi <= 1)
        sym.assume(lo < hi)
        o.min_acceptance_rate, o.max_acceptance_rate = lo, hi
        rate = {'zero': 0, 'one': 1.0}.get(kind)
        if rate is None:
            rate = sym.real_var('rate')
            sym.assume(rate > 0)
            sym.assume(rate < 1)
        o.acceptance_rate = lambda: rate
        o._modify_acceptance_rate()
        for i, a in enumerate(o.alpha if events > 1 else [o.alpha]):
            valid(a, m, 'event %d' % i)
        if hasattr(o, '_old_alpha'):
            for i, a in enumerate(o._old_alpha if events > 1 else [o._old_alpha]):
                valid(a, m, 'kept widths %d' % i)
        if hasattr(o, '_old_ratio'):
            ctx().oblige('kept ratio positive', T.lt(ZERO, num(o._old_ratio)))
    return f


for _k in ('between', 'zero', 'one'):
    for _e in (1, 2):
        for _o in (True, False):
            CHECK.proof('adapting the widths: rate %s, %d event%s, %s' % (_k, _e, 's' if _e > 1 else '', 'after an earlier window' if _o else 'first window'), max_paths=3000, budget=60.0)(adapt(_k, _e, _o))


@CHECK.proof('adapting by the fraction of non-zero samples')
def nz():
    M, o = world(TD)
    m = maxima(o)
    a = {k: sym.lift(0.25) for k in WID}
    for k in ('gamma', 'h', 'gamma_dc'):
        a[k] = sym.real_var('w_' + k)
        sym.assume(a[k] > 0)
    for k in m:
        sym.assume(m[k] >= a.get(k, 0.25))
    o.alpha = a
    r = sym.real_var('nonzero')
    sym.assume(r > 0)
    o._modify_acceptance_rate(r)
    valid(o.alpha, m, 'widths')


# ---- conversion of a proposal to a tensor
@CHECK.proof('Tape parameters give a unit-norm tensor', budget=60.0)
def unit():
    V = load.Loader().load('MTfit.convert.moment_tensor_conversion')
    x = state('', False)
    m = V.MT33_MT6(V.Tape_MT33(**x))
    v = [num(m[i, 0] if m.ndim > 1 else m[i]) for i in range(6)]
    c_ok('six components', m.shape == (6, 1) or m.shape == (6,))
    ctx().oblige('unit norm', T.eq(T.add(*[T.mul(a, a) for a in v]), ONE))


@CHECK.proof('zero source-type pair gives an exact double-couple', budget=60.0)
def dcx():
    V = load.Loader().load('MTfit.convert.moment_tensor_conversion')
    x = state('', True)
    M = V.Tape_MT33(**x)
    g = lambda i, j: num(M[i, j])
    ctx().oblige('no trace', T.eq(T.add(g(0, 0), g(1, 1), g(2, 2)), ZERO))
    det = T.add(T.mul(g(0, 0), T.sub(T.mul(g(1, 1), g(2, 2)), T.mul(g(1, 2), g(2, 1)))),
                T.neg(T.mul(g(0, 1), T.sub(T.mul(g(1, 0), g(2, 2)), T.mul(g(1, 2), g(2, 0))))),
                T.mul(g(0, 2), T.sub(T.mul(g(1, 0), g(2, 1)), T.mul(g(1, 1), g(2, 0)))))
    ctx().oblige('no determinant', T.eq(det, ZERO))
    ctx().oblige('symmetric', T.and_(*[T.eq(g(i, j), g(j, i)) for i, j in ((0, 1), (0, 2), (1, 2))]))


@CHECK.proof('convert_sample of a proposal', budget=30.0)
def conv():
    M, o = world(MH)
    seen = []
    M.Tape_MT33 = lambda **k: (seen.append(k), 'M33')[1]
    M.MT33_MT6 = lambda m: ('M6', m)
    x = state('', False)
    c_ok('the tensor of the five parameters', o._convert_sample_single(x) == ('M6', 'M33') and seen == [x])


# ---- run-time contracts -----------------------------------------------------------------------
BOX = {'gamma': (-math.pi / 6, math.pi / 6), 'delta': (-math.pi / 2, math.pi / 2), 'h': (0.0, 1.0), 'sigma': (-math.pi / 2, math.pi / 2)}


def cdf(k, m, s):
    from scipy.special import ndtr
    if k == 'kappa':
        n = int(6 * s / 2 / math.pi) + 3
        return lambda v: sum(ndtr((v + 2 * math.pi * j - m) / s) - ndtr((2 * math.pi * j - m) / s) for j in range(-n, n + 1))
    lo, hi = BOX[k]
    a, c = ndtr((lo - m) / s), ndtr((hi - m) / s)
    return lambda v: (ndtr((v - m) / s) - a) / (c - a)


def tensor(x):
    """six-vector of a Tape parameter set, from the definition (north, east, down)"""
    g, d, k, h, s = [float(np.ravel(x[n])[0]) for n in ('gamma', 'delta', 'kappa', 'h', 'sigma')]
    b = math.pi / 2 - d
    U = np.array([[math.sqrt(3), -1, math.sqrt(2)], [0, 2, math.sqrt(2)], [-math.sqrt(3), -1, math.sqrt(2)]]) / math.sqrt(6)
    lam = U.dot([math.sin(b) * math.cos(g), math.sin(b) * math.sin(g), math.cos(b)])
    dip = math.acos(h)
    slip = np.array([math.cos(s) * math.cos(k) + math.sin(s) * math.cos(dip) * math.sin(k), math.cos(s) * math.sin(k) - math.sin(s) * math.cos(dip) * math.cos(k), -math.sin(s) * math.sin(dip)])
    n = np.array([-math.sin(dip) * math.sin(k), math.sin(dip) * math.cos(k), -math.cos(dip)])
    T_, P_ = (n + slip) / math.sqrt(2), (n - slip) / math.sqrt(2)
    N_ = np.cross(T_, P_)
    m = lam[0] * np.outer(T_, T_) + lam[1] * np.outer(N_, N_) + lam[2] * np.outer(P_, P_)
    r = math.sqrt(2)
    return np.array([m[0, 0], m[1, 1], m[2, 2], r * m[0, 1], r * m[0, 2], r * m[1, 2]])


def start(rng, dc):
    x = {'kappa': rng.uniform(0, 2 * math.pi), 'h': rng.rand(), 'sigma': rng.uniform(-1, 1) * math.pi / 2, 'gamma': 0.0, 'delta': 0.0}
    if not dc:
        x['gamma'], x['delta'] = rng.uniform(-1, 1) * math.pi / 6, rng.uniform(-1, 1) * math.pi / 2
    for k in list(x):
        if rng.rand() < 0.2 and not (dc and k in ('gamma', 'delta')):
            lo, hi = BOX.get(k, (0.0, 2 * math.pi - 1e-9))
            x[k] = float(rng.choice([lo, hi, lo + 1e-9]))
    return x


def some_widths(rng):
    a = {k: v * 10 ** rng.uniform(-1.5, 0) for k, v in (('kappa', 1.57), ('h', .5), ('sigma', .785), ('gamma', .26), ('delta', .785))}
    a['gamma_dc'], a['delta_dc'] = 10 ** rng.uniform(-1.3, 0.3, 2)
    a['alpha'] = a['poisson'] = 0.1
    a['proposal_normalisation'] = 0.5
    if rng.rand() < 0.1:
        a['kappa'] = 8.0
    if rng.rand() < 0.4:
        a.update(h=0.5, sigma=0.785, gamma=0.26, delta=0.785)
    return a


class NoGC(object):
    collect = staticmethod(lambda *a: 0)


def runner(mode):
    def run(b):
        from scipy.special import kolmogorov
        pk = conc.pkg(mode)
        M = pk['algorithms.markov_chain_monte_carlo']
        b.check((M.cmarkov_chain_monte_carlo is not None) == (mode == 'c'), 'extension present: %r' % (M.cmarkov_chain_monte_carlo is not None))
        b.rule = 'exact domain, model and conversion checks on every proposal; Kolmogorov-Smirnov test of each component against its truncated (strike: wrapped) Gaussian and correlation tests, p < 1e-8'
        rng = b.np
        pk.activate()
        if hasattr(M, 'gc'):
            M.gc = NoGC
        MT, MTD = 'IterativeMultipleTryMetropolisHastingsGaussianTape', 'IterativeMultipleTryTransDMetropolisHastingsGaussianTape'
        for it in range(b.count(20)):
            cls, td = [(MH, False), (TD, True), (MT, False), (MTD, True)][(it + 2 * (it // 4)) % 4 if mode == 'pure' else 2 + it % 2]
            n = int(rng.choice([1, 1, 2, 3]))
            dcs = [bool(rng.rand() < 0.35) for _ in range(n)] if td else [bool(rng.rand() < 0.35)] * n
            gj = bool(rng.rand() < 0.8)
            pj = float(rng.choice([0.01, 0.4, 1.0])) if td else 0.0
            kw = dict(number_events=n, learning_length=0, number_samples=1500, min_acceptance_rate=0.0006)
            kw.update(dict(dimension_jump_prob=pj, gaussian_jump_params=gj) if td else dict(dc=dcs[0]))
            o = getattr(M, cls)(**kw)
            al, xi = [some_widths(rng) for _ in range(n)], [start(rng, d) for d in dcs]
            for x, d in zip(xi, dcs):
                if d and td and rng.rand() < 0.3:
                    x['g0'], x['d0'] = 0.1, -0.2        # left over from the jump that led here
            snap = [dict(x) for x in xi], [dict(a) for a in al]
            o.alpha, o.xi, o.dc = (al[0], xi[0], dcs[0]) if n == 1 else (al, xi, dcs)
            inp = dict(cls=cls, xi=snap[0], alpha=snap[1], jump_probability=pj, gaussian_jump=gj, mode=mode, model_dc=dcs)
            b.cur = inp
            b.case((cls, n, tuple(dcs), pj, gj, it), inp)
            np.random.seed(rng.randint(2 ** 31))
            got = [[] for _ in range(n)]
            for rep in range(9000):
                if len(got[0]) >= (9000 if mode == 'c' else 1500):
                    break
                mt = o.new_sample()
                xs = o.xi_1 if n > 1 else [o.xi_1]
                mts = mt if n > 1 and isinstance(mt, list) else ([mt] if n == 1 else [np.asarray(mt)[6 * e:6 * e + 6] for e in range(n)])
                for e in range(n):
                    one = xs[e] if isinstance(xs[e], list) else [xs[e]]
                    ms = np.asarray(mts[e]).reshape(6, -1)
                    b.check(ms.shape[1] == len(one), '%d proposals, %d tensors' % (len(one), ms.shape[1]), **inp)
                    for j, x in enumerate(one):
                        if len(got[e]) % 20 == 0:
                            b.check(np.allclose(ms[:, j], tensor(x), atol=1e-9), 'tensor %r of proposal %r, expected %r' % (ms[:, j].tolist(), x, tensor(x).tolist()), **inp)
                        b.check(abs(np.linalg.norm(ms[:, j]) - 1) < 1e-9, 'tensor of norm %r' % np.linalg.norm(ms[:, j]), **inp)
                        got[e].append(x)
            b.check(o.xi is (xi[0] if n == 1 else o.xi) and (snap[0], snap[1]) == (xi, al) and (o.dc == (dcs[0] if n == 1 else dcs)), 'the chain state changed: %r' % ((xi, al, o.dc),), **inp)
            for e in range(n):
                P, a, x0, dc = got[e], al[e], xi[e], dcs[e]
                V = {k: np.array([float(np.ravel(x[k])[0]) for x in P]) for k in ('gamma', 'delta', 'kappa', 'h', 'sigma')}
                for k, (lo, hi) in BOX.items():
                    b.check(bool(((V[k] >= lo) & (V[k] <= hi)).all()), '%s outside its domain: %r' % (k, V[k][(V[k] < lo) | (V[k] > hi)][:3]), **inp)
                b.check(bool(((V['kappa'] >= 0) & (V['kappa'] < 2 * math.pi)).all()), 'strike outside its domain', **inp)
                isdc = (V['gamma'] == 0) & (V['delta'] == 0)
                jumped = isdc != dc
                if not td:
                    b.check(not jumped.any(), 'proposals leave the model without a jump', **inp)
                else:
                    z = (jumped.mean() - pj) * math.sqrt(len(P)) / max(math.sqrt(pj * (1 - pj)), 1e-9)
                    b.check(abs(z) < 6.5 or abs(jumped.sum() - pj * len(P)) <= 9 * max(pj < 1, 0), 'share of jumps %r, configured %r' % (jumped.mean(), pj), **inp)
                for x, jd in zip(P, jumped):
                    if jd:
                        b.check(all(x[k] == x0[k] for k in ('kappa', 'h', 'sigma')), 'a jump moves the orientation: %r' % x, **inp)
                        b.check(('g0' in x) == (not dc) and (dc or (x['g0'], x['d0']) == (x0['gamma'], x0['delta'])), 'balancing pair of %r' % x, **inp)
                tests = [(k, x0[k], a[k], ~jumped) for k in ('kappa', 'h', 'sigma') + (() if dc else ('gamma', 'delta'))]
                if dc and gj and td:
                    tests += [(k, 0.0, a[k + '_dc'], jumped) for k in ('gamma', 'delta')]
                F = {}
                for k, m, s, sel in tests:
                    v = V[k][sel]
                    if len(v) < 40:
                        continue
                    f = np.asarray(cdf(k, m, s)(v))
                    F[k] = f
                    f = np.sort(f)
                    i = np.arange(1, len(f) + 1) / len(f)
                    dist = max((i - f).max(), (f - i + 1 / len(f)).max())
                    b.check(kolmogorov(math.sqrt(len(f)) * dist) > 1e-8, '%s not distributed as the Gaussian of width %r about %r truncated to its domain (KS distance %r, %d draws)' % (k, s, m, dist, len(f)), **inp)
                    c1 = np.corrcoef(F[k][1:], F[k][:-1])[0, 1] * math.sqrt(len(v))
                    b.check(abs(c1) < 6.5, 'successive draws of %s are correlated' % k, **inp)
                    for k2 in F:
                        if k2 != k and len(F[k2]) == len(F[k]):
                            c2 = np.corrcoef(F[k], F[k2])[0, 1] * math.sqrt(len(v))
                            b.check(abs(c2) < 6.5, 'draws of %s and %s are correlated' % (k, k2), **inp)
        # histories of acceptance rates
        for it in range(b.count(60)):
            cls = [MH, TD, MT, MTD][it % 4]
            n = 1 + it % 3
            kw = dict(number_events=n, learning_length=10, number_samples=20)
            if rng.rand() < 0.5:
                kw.update(min_acceptance_rate=float(rng.choice([0.1, 0.3])), max_acceptance_rate=float(rng.choice([0.5, 0.9])))
            if rng.rand() < 0.3:
                kw['alpha'] = 10 ** rng.uniform(-3, -1)
            try:
                o = getattr(M, cls)(**kw)
            except Exception:
                kw.pop('alpha', None)
                o = getattr(M, cls)(**kw)
            top = dict(o.max_alpha)
            hist = []
            mood = it % 5
            first = [dict(a) for a in (o.alpha if n > 1 else [o.alpha])]
            for step in range(12):
                r = [rng.rand(), 0.0, 1.0, float(rng.choice([0.0, 1.0, rng.rand()])), 1e-6][mood]
                hist.append(r)
                o.acceptance_rate = lambda: r
                inp = dict(cls=cls, events=n, rates=list(hist), kw={k: repr(v) for k, v in kw.items()}, mode=mode)
                b.cur = inp
                o._modify_acceptance_rate()
                for a, f in zip(o.alpha if n > 1 else [o.alpha], first):
                    b.check(set(a) == set(f), 'widths lost or added: %r' % a, **inp)
                    for k, v in a.items():
                        v = float(np.ravel(v)[0])
                        if k == 'proposal_normalisation':
                            b.check(v == float(np.ravel(f[k])[0]) or v > 0, 'normaliser %r' % v, **inp)
                            continue
                        b.check(0 < v < math.inf, 'width %s is %r' % (k, v), **inp)
                        if k in top:
                            b.check(v <= max(top[k], float(np.ravel(f[k])[0])), 'width %s raised to %r above its maximum %r' % (k, v, top[k]), **inp)
            b.case((cls, n, mood, it), hist)
    return run


CHECK.runtime('pure Python')(runner('pure'))
CHECK.runtime('compiled', compiled=True)(runner('c'))
