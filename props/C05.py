"""C05: Markov-chain acceptance satisfies detailed balance for shifts and model jumps."""
import copy
import itertools
import math
from fractions import Fraction
import numpy as np
from dpv import report, load, sym, rules, conc, smt, term as T
from dpv.paths import ctx
from dpv.term import R
CHECK = report.Check('C05')
CHECK.covers('MTfit.algorithms.markov_chain_monte_carlo.MarginalisedMetropolisHastings.acceptance',
             'MTfit.algorithms.markov_chain_monte_carlo.MarginalisedMetropolisHastingsGaussianTape.transition_pdf',
             'MTfit.algorithms.markov_chain_monte_carlo.MarginalisedMetropolisHastingsGaussianTape.prior',
             'MTfit.algorithms.markov_chain_monte_carlo.IterativeTransDMetropolisHastingsGaussianTape.acceptance',
             'MTfit.algorithms.markov_chain_monte_carlo.IterativeTransDMetropolisHastingsGaussianTape.jump_params',
             'MTfit.algorithms.markov_chain_monte_carlo.MarginalisedMarkovChainMonteCarlo._acceptance_check',
             'MTfit.algorithms.markov_chain_monte_carlo.uniform_prior', 'MTfit.algorithms.markov_chain_monte_carlo.flat_prior',
             'MTfit.algorithms.cmarkov_chain_monte_carlo.acceptance_check / me_acceptance_check / _acceptance_test_fn (bounded)')
CHECK.assume('scipy.stats.norm.pdf/cdf and scipy.stats.beta.pdf are the Gaussian density and distribution and the beta density',
             'the balance is that of the densities prior() and of the draw in the (gamma, delta) parameters; the constant 1.1045 of uniform_prior is part of the prior',
             'a state (gamma, delta) = (0, 0) is the double-couple model (probability zero in the full model)',
             'the constrained crack+double-couple model (basic_cdc) and the reflecting proposals are not covered')
ZERO, ONE = T.ZERO, T.ONE
C = lambda v: T.const(Fraction(v), R)
HALF = T.mul(C('1/2'), T.PI)
SIXTH = T.mul(C('1/6'), T.PI)
DOM = {'gamma': (T.neg(SIXTH), SIXTH), 'delta': (T.neg(HALF), HALF), 'h': (ZERO, ONE), 'sigma': (T.neg(HALF), HALF), 'kappa': (ZERO, T.mul(C(2), T.PI))}
LOWER = {hi: lo for lo, hi in (DOM[k] for k in ('gamma', 'delta', 'h'))}
ORIENT = ('h', 'sigma')
SRCT = ('gamma', 'delta')


# ---- contracts of the callees
def phi(x, m, s):
    d = T.sub(x, m)
    return T.fn('phi_pos', T.mul(d, d), s)




def Phi(x, m, s):
    """the distribution function; at an upper end of a domain it is the value at the lower end plus the (positive)
    mass of the domain, which is the definition of that mass"""
    lo = LOWER.get(x)
    if lo is not None:
        return T.add(T.fn('Phi', lo, m, s), T.fn('mass_pos', lo, x, m, s))
    return T.fn('Phi', x, m, s)


def num(v):
    if isinstance(v, np.ndarray):
        v = v.flat[0]
    return sym.real(sym.lift(v).t)


def pdf_contract(x, m, s):
    t = phi(num(x), num(m), num(s))
    return sym.S(t)


def cdf_contract(x, m, s):
    return sym.S(Phi(num(x), num(m), num(s)))


def beta_contract(x, a, b):
    t = T.fn('beta_pdf_nn', num(x), num(a), num(b))
    return sym.S(t)


def trunc(name, m, s):
    lo, hi = DOM[name]
    return T.sub(Phi(hi, m, s), Phi(lo, m, s))


def world(cls, **kw):
    smt.FACTS.update(phi_pos=lambda t: T.lt(ZERO, t), mass_pos=lambda t: T.lt(ZERO, t), beta_pdf_nn=lambda t: T.le(ZERO, t))
    M = load.Loader().plain('MTfit.algorithms.markov_chain_monte_carlo')
    M.gaussian_pdf, M.gaussian_cdf, M.beta_pdf = pdf_contract, cdf_contract, beta_contract
    o = getattr(M, cls)(learning_length=0, **kw)
    return M, o


def state(pre, dc, generic=False):
    """a state of the full or the double-couple model; generic: gamma not zero (the rest has probability zero
    and is covered by the single-event contracts) and positive prior"""
    x = {}
    for k in ('gamma', 'delta', 'kappa', 'h', 'sigma'):
        if dc and k in SRCT:
            x[k] = 0.0
            continue
        v = sym.real_var(pre + k)
        lo, hi = DOM[k]
        ctx().assume(T.le(lo, v.t))
        ctx().assume(T.le(v.t, hi))
        x[k] = v
    if not dc:
        g = x['gamma'].t
        ctx().assume(T.not_(T.eq(g, ZERO) if generic else T.and_(T.eq(g, ZERO), T.eq(x['delta'].t, ZERO))))
        cos = rules.cos(T.mul(C(3), g))                           # |3 gamma| <= pi/2
        ctx().assume(T.lt(ZERO, cos) if generic else T.le(ZERO, cos))
        if generic:
            ctx().assume(T.lt(ZERO, beta_term(x)))
    return x


def widths(pre=''):
    a = {}
    for k in ('kappa', 'h', 'sigma', 'gamma', 'delta', 'gamma_dc', 'delta_dc'):
        a[k] = sym.real_var('width_' + pre + k)
        sym.assume(a[k] > 0)
    a['alpha'] = a['poisson'] = 0.1
    return a


def beta_term(x):
    b = C('5.745')
    return T.fn('beta_pdf_nn', T.div(T.add(num(x['delta']), HALF), T.PI), b, b)


def prior_spec(name, x, dc):
    if dc:
        return ONE
    if name == 'flat_prior':
        return T.div(C(3), T.mul(T.PI, T.PI))
    t = beta_term(x)
    return T.mul(C('1.5'), rules.cos(T.mul(C(3), num(x['gamma']))), T.div(t, T.PI), C('1.10452194071529090000'))


def q_spec(to, fr, a, dc):
    """density of proposing `to` from `fr` (strike is a symmetric shift on the circle and cancels)"""
    t = ONE
    for k in ORIENT + (() if dc else SRCT):
        m, s = num(fr[k]), num(a[k])
        p = phi(num(to[k]), m, s)
        t = T.mul(t, T.div(p, trunc(k, m, s)))
    return t


def balance_spec(x, xi, a, dcx, dcxi, prior, pdc, qj):
    """(numerator, denominator) of prior e^L q ratio for one event"""
    n, d = prior_spec(prior, x, dcx), prior_spec(prior, xi, dcxi)
    if dcx == dcxi:
        return T.mul(n, q_spec(xi, x, a, dcx)), T.mul(d, q_spec(x, xi, a, dcx))
    if dcxi:            # up: the source-type pair is drawn
        return T.mul(n, T.sub(ONE, pdc)), T.mul(d, pdc, qj(x, a))
    return T.mul(n, pdc, qj(xi, a)), T.mul(d, T.sub(ONE, pdc))


def jump_density(x, a):
    t = ONE
    for k in SRCT:
        s = num(a[k + '_dc'])
        p = phi(num(x[k]), ZERO, s)
        t = T.mul(t, T.div(p, trunc(k, ZERO, s)))
    return t


def set_normaliser(o, a):
    """the balance-draw normaliser computed by the constructor, restated for the symbolic widths: see the
    contract 'the constructor normalises the balance draw'"""
    a['proposal_normalisation'] = sym.S(T.mul(trunc('gamma', ZERO, num(a['gamma_dc'])), trunc('delta', ZERO, num(a['delta_dc']))))


def check_acceptance(r, N, D, L, Li):
    r = sym.lift(r) if not isinstance(r, np.ndarray) else sym.lift(r.flat[0])
    c = ctx()
    c.oblige('acceptance is a number', T.const(r.k == 'r'))
    if r.k != 'r':
        return
    v = sym.real(r.t)
    e = rules.exp(T.sub(L, Li))
    c.oblige('acceptance is in [0, 1]', T.and_(T.le(ZERO, v), T.le(v, ONE)))
    c.oblige('acceptance is min(1, ratio)', T.implies(T.lt(ZERO, D), T.or_(T.and_(T.eq(v, ONE), T.le(D, T.mul(N, e))),
                                                                         T.and_(T.le(T.mul(N, e), D), T.eq(T.mul(v, D), T.mul(N, e))))))


def single(cls, dcx, dcxi, prior, jump, liketype):
    def f():
        kw = {'dc_prior': sym.real_var('p_dc'), 'dc': dcxi} if cls.endswith('TransDMetropolisHastingsGaussianTape') else {'dc': dcxi}
        if 'dc_prior' in kw:
            sym.assume(kw['dc_prior'] > 0)
            sym.assume(kw['dc_prior'] < 1)
        M, o = world(cls, sampling_prior=prior, **kw)
        a = widths()
        xi, x = state('cur_', dcxi), state('new_', dcx)
        if jump:
            for k in ('kappa', 'h', 'sigma'):
                x[k] = xi[k]
            if dcx:
                x['g0'], x['d0'] = xi['gamma'], xi['delta']
        set_normaliser(o, a)
        o.alpha, o.xi, o.dc, o.jump = a, xi, dcxi, jump
        L, Li = sym.real_var('lnp_new'), sym.real_var('lnp_cur')
        o.ln_likelihood_xi = Li
        if liketype == 'zero':
            o.ln_likelihood_xi = Li
            ctx().oblige('zero-likelihood proposal never accepted', sym.eqt(o.acceptance(x, -math.inf), sym.lift(0)))
            o.ln_likelihood_xi = -math.inf
            ctx().oblige('zero-likelihood proposal never accepted (from zero)', sym.eqt(o.acceptance(x, -math.inf), sym.lift(0)))
            return
        if liketype == 'start':
            o.ln_likelihood_xi = -math.inf
            ctx().oblige('zero-likelihood start always moves', sym.eqt(o.acceptance(x, L), sym.lift(1)))
            return
        N, D = balance_spec(x, xi, a, dcx, dcxi, prior, num(kw.get('dc_prior', 0.5)), jump_density)
        r = o.acceptance(x, L)
        check_acceptance(r, N, D, L.t, Li.t)
        ctx().oblige('the chain state is not changed by evaluating', T.const(o.xi is xi and o.alpha is a and o.dc == dcxi))
    return f


MH, TD = 'IterativeMetropolisHastingsGaussianTape', 'IterativeTransDMetropolisHastingsGaussianTape'
for prior in ('uniform_prior', 'flat_prior'):
    for lt in ('ratio', 'zero', 'start'):
        for cls in (MH, TD):
            for dc in (True, False):
                CHECK.proof('%s: shift within the %s model, %s, %s' % ('TransD' if cls is TD else 'MH', 'DC' if dc else 'full', prior, lt), budget=60.0)(
                    single(cls, dc, dc, prior, False, lt))
        for up in (True, False):
            CHECK.proof('TransD: jump %s, %s, %s' % ('up' if up else 'down', prior, lt), budget=60.0)(single(TD, not up, up, prior, True, lt))


@CHECK.proof('balance lemma: min(1, N/D) balances its swap')
def lemma():
    N, D = [T.var(k, R) for k in ('N', 'D')]
    ctx().assume(T.lt(ZERO, N))
    ctx().assume(T.lt(ZERO, D))
    mn = lambda n, d: T.ite(T.le(d, n), ONE, T.div(n, d))
    ctx().oblige('D min(1, N/D) = N min(1, D/N)', T.eq(T.mul(D, mn(N, D)), T.mul(N, mn(D, N))))


def multi(cls, pattern, prior, liketype):
    """joint state of several events; pattern: per event (new is DC, current is DC)"""
    def f():
        n = len(pattern)
        kw = {'number_events': n}
        td = cls is TD
        if td:
            kw['dc_prior'] = sym.real_var('p_dc')
            sym.assume(kw['dc_prior'] > 0)
            sym.assume(kw['dc_prior'] < 1)
        M, o = world(cls, sampling_prior=prior, **kw)
        al, xi, x = [], [], []
        for i, (dx, dxi) in enumerate(pattern):
            a = widths('%d_' % i)
            cur, new = state('cur%d_' % i, dxi, True), state('new%d_' % i, dx, True)
            if dx != dxi:
                for k in ('kappa', 'h', 'sigma'):
                    new[k] = cur[k]
                if dx:
                    new['g0'], new['d0'] = cur['gamma'], cur['delta']
            set_normaliser(o, a)
            al.append(a)
            xi.append(cur)
            x.append(new)
        o.alpha, o.xi, o.dc = al, xi, [p[1] for p in pattern]
        o.jump = pattern[-1][0] != pattern[-1][1]
        L, Li = sym.real_var('lnp_new'), sym.real_var('lnp_cur')
        o.ln_likelihood_xi = Li
        if liketype == 'zero':
            ctx().oblige('zero-likelihood proposal never accepted', sym.eqt(o.acceptance(x, -math.inf), sym.lift(0)))
            return
        if liketype == 'start':
            o.ln_likelihood_xi = -math.inf
            ctx().oblige('zero-likelihood start always moves', sym.eqt(o.acceptance(x, L), sym.lift(1)))
            return
        N, D = ONE, ONE
        for i, (dx, dxi) in enumerate(pattern):
            nn, dd = balance_spec(x[i], xi[i], al[i], dx, dxi, prior, num(kw.get('dc_prior', 0.5)), jump_density)
            N, D = T.mul(N, nn), T.mul(D, dd)
        r = o.acceptance(x, L)
        check_acceptance(r, N, D, L.t, Li.t)
        ctx().oblige('the chain state is not changed by evaluating', T.const(o.xi is xi and len(o.alpha) == n and all(p is q for p, q in zip(o.alpha, al)) and o.dc == [p[1] for p in pattern]))
    return f


FF, DD, UP, DN = (False, False), (True, True), (False, True), (True, False)
NAME = {FF: 'full', DD: 'DC', UP: 'up', DN: 'down'}
for cls, pats in ((MH, [(FF, FF), (DD, DD), (FF, FF, FF)]), (TD, [(FF, FF), (FF, DD), (UP, FF), (DN, DD), (UP, DN), (UP, UP), (DD, DN, FF)])):
    for pat in pats:
        for prior in ('uniform_prior', 'flat_prior'):
            for lt in ('ratio', 'zero', 'start'):
                CHECK.proof('%s: events %s, %s, %s' % ('TransD' if cls is TD else 'MH', '+'.join(NAME[p] for p in pat), prior, lt), budget=90.0)(multi(cls, pat, prior, lt))


@CHECK.proof('the constructor normalises the balance draw')
def pn():
    g, d = sym.real_var('sigma_g'), sym.real_var('sigma_d')
    sym.assume(g > 0)
    sym.assume(d > 0)
    for n in (1, 2):
        M, o = world(TD, dc_sigma_g=g, dc_sigma_d=d, number_events=n, dc_prior=0.3)
        for a in (o.alpha if n > 1 else [o.alpha]):
            ctx().oblige('widths are the requested ones', T.and_(sym.eqt(a['gamma_dc'], g), sym.eqt(a['delta_dc'], d)))
            ctx().oblige('normaliser is the mass inside the lune', T.eq(num(a['proposal_normalisation']), T.mul(trunc('gamma', ZERO, g.t), trunc('delta', ZERO, d.t))))
        ctx().oblige('model prior kept', sym.eqt(o.dc_prior, sym.lift(0.3)))


@CHECK.proof('jump_params(x) is the density of the truncated draw')
def jp():
    M, o = world(TD)
    a = widths()
    set_normaliser(o, a)
    o.alpha = a
    x = state('new_', False)
    ctx().oblige('density', T.eq(num(o.jump_params(x)), jump_density(x, a)))


@CHECK.proof('_acceptance_check compares a uniform draw with the acceptance')
def ac():
    M, o = world(MH)
    acc = sym.real_var('acceptance')
    sym.assume(acc >= 0)
    sym.assume(acc <= 1)
    seen = []
    o.acceptance = lambda x, l, *a, **k: (seen.append((x, l)), acc)[1]
    xi, L = {'gamma': 0.1}, sym.real_var('L')
    r = o._acceptance_check(xi, L, False)
    d = ctx().ghost.get('draws', [])
    ctx().oblige('one uniform draw', T.const(len(d) == 1 and d[0][0] == 'uniform' and len(seen) == 1 and seen[0][0] is xi))
    u = d[0][1].t
    took = isinstance(r[0], dict) and r[0] is xi
    ctx().oblige('accepted exactly when the draw is below the acceptance', T.lt(u, acc.t) if took else T.le(acc.t, u))
    ctx().oblige('result', T.const((took and r[1] is L) or (r[0] == {} and r[1] is False)))


@CHECK.proof('gaussian_pdf contract')
def gp():
    P = load.Loader().load('MTfit.probability.probability')
    x, m, s = [sym.real_var(k) for k in 'xms']
    sym.assume(s > 0)
    t = P.gaussian_pdf(x, m, s)
    z = T.sub(x.t, m.t)
    want = T.div(rules.exp(T.div(T.mul(C('-1/2'), z, z), T.mul(s.t, s.t))), T.mul(s.t, rules.sqrt(T.mul(C(2), T.PI))))
    ctx().oblige('closed form', T.eq(num(t), want))


# ---- run-time contracts -----------------------------------------------------------------------
BOX = {'gamma': (-math.pi / 6, math.pi / 6), 'delta': (-math.pi / 2, math.pi / 2), 'h': (0.0, 1.0), 'sigma': (-math.pi / 2, math.pi / 2)}


def lmass(k, m, s):
    from scipy.special import log_ndtr
    lo, hi = BOX[k]
    a, c = (lo - m) / s, (hi - m) / s
    if a > 0:
        a, c = -c, -a
    u, v = log_ndtr(c), log_ndtr(a)
    return u + math.log1p(-math.exp(v - u))


def lgauss(x, m, s):
    return -0.5 * ((x - m) / s) ** 2 - math.log(s) - 0.5 * math.log(2 * math.pi)


def lprior(name, x, dc):
    if dc:
        return 0.0
    if name == 'flat_prior':
        return math.log(3 / math.pi ** 2)
    from scipy.special import betaln
    c, d = math.cos(3 * x['gamma']), (x['delta'] + math.pi / 2) / math.pi
    if d <= 0 or d >= 1 or c <= 0:
        return -math.inf
    return math.log(1.5 * c) + 4.745 * (math.log(d) + math.log1p(-d)) - betaln(5.745, 5.745) - math.log(math.pi) + math.log(1.1045219407152909)


def is_dc(x):
    return x['gamma'] == 0 and x['delta'] == 0


def lratio(x, xi, a, prior, pdc, gj, known=()):
    """log of the numerator and of the denominator for one event, recomputed from the definition; known: the
    recorded findings to apply, for telling them from other violations"""
    dx, di = is_dc(x), is_dc(xi)
    n, d = lprior(prior, x, dx), lprior(prior, xi, di)
    if PRIOR in known and prior == 'flat_prior':
        n = d = 0.0
    if dx == di:
        for k in ('h', 'sigma') + (() if dx else ('gamma', 'delta')):
            n += lgauss(xi[k], x[k], a[k]) - lmass(k, x[k], a[k])
            d += lgauss(x[k], xi[k], a[k]) - lmass(k, xi[k], a[k])
        return n, d

    def q(z):
        return sum(lgauss(z[k], 0.0, a[k + '_dc']) - lmass(k, 0.0, a[k + '_dc']) for k in ('gamma', 'delta')) if gj else math.log(3 / (2 * math.pi) if FLAT in known else 3 / math.pi ** 2)
    return (n + math.log(1 - pdc), d + math.log(pdc) + q(x)) if di else (n + math.log(pdc) + q(xi), d + math.log(1 - pdc))


FLAT, PRIOR = 'flat balance draw', 'compiled flat_prior jump'


def expected(xs, xis, al, prior, pdc, gj, L, Li, known=()):
    if L == -math.inf:
        return 0.0
    if Li == -math.inf:
        return 1.0
    n = d = 0.0
    for x, xi, a in zip(xs, xis, al):
        u, v = lratio(x, xi, a, prior, pdc, gj, known)
        n, d = n + u, d + v
    if d == -math.inf:
        return 1.0
    r = n - d + L - Li
    return 1.0 if r >= 0 else math.exp(r)


class Rand(object):
    """stand-in for the uniform generators: always the same value"""
    NAMES = ('rand', 'random_sample', 'random', 'uniform', 'ranf', 'sample')

    def __init__(self, v):
        self.v = v

    def __enter__(self):
        self.keep = {n: getattr(np.random, n) for n in self.NAMES if hasattr(np.random, n)}
        for n in self.keep:
            setattr(np.random, n, lambda *a, **k: self.v if not a or n == 'uniform' else np.full(a, self.v))

    def __exit__(self, *a):
        for n, f in self.keep.items():
            setattr(np.random, n, f)


def rand_state(rng, dc):
    x = {'kappa': rng.uniform(0, 2 * math.pi), 'h': rng.rand(), 'sigma': rng.uniform(-1, 1) * math.pi / 2, 'gamma': 0.0, 'delta': 0.0}
    if not dc:
        x['gamma'], x['delta'] = rng.uniform(-1, 1) * math.pi / 6, rng.uniform(-1, 1) * math.pi / 2
    edge = rng.randint(12)
    if edge == 0:
        x['h'] = rng.choice([0.0, 1.0, 1e-9])
    elif edge == 1:
        x['sigma'] = rng.choice([-1, 1]) * math.pi / 2
    elif edge == 2 and not dc:
        x['gamma'] = 0.0
    elif edge == 3 and not dc:
        x['delta'] = 0.0
    elif edge == 4 and not dc:
        x['delta'] = rng.choice([-1, 1]) * math.pi / 2
    elif edge == 5 and not dc:
        x['gamma'] *= 1e-12
        x['delta'] *= 1e-12
    elif edge == 6:
        x['kappa'] = 0.0
    return x


def rand_widths(rng):
    a = {k: v * 10 ** rng.uniform(-1.5, 0) for k, v in (('kappa', 1.57), ('h', .5), ('sigma', .785), ('gamma', .26), ('delta', .785))}
    a['gamma_dc'], a['delta_dc'] = 10 ** rng.uniform(-1.5, 0.5, 2)
    a['alpha'] = a['poisson'] = 0.1
    return a


def propose(rng, xi, a, jump):
    """a proposal the sampler could make"""
    dc = is_dc(xi)
    if jump:
        x = dict(xi)
        if dc:
            t = rand_state(rng, False)
            x['gamma'], x['delta'] = t['gamma'], t['delta']
        else:
            x['g0'], x['d0'], x['gamma'], x['delta'] = xi['gamma'], xi['delta'], 0.0, 0.0
        return x
    x = rand_state(rng, dc)
    for k in ('h', 'sigma') + (() if dc else ('gamma', 'delta')):
        for _ in range(50):
            v = xi[k] + a[k] * rng.randn()
            if BOX[k][0] <= v <= BOX[k][1]:
                x[k] = v
                break
        else:
            x[k] = xi[k]
    if rng.rand() < 0.15:
        k = rng.choice(['h', 'sigma'] + ([] if dc else ['gamma', 'delta']))
        x[k] = xi[k]
    if not dc and is_dc(x):
        x['gamma'] = 0.1
    return x


def runner(mode):
    def run(b):
        pk = conc.pkg(mode)
        M, P = pk['algorithms.markov_chain_monte_carlo'], pk['probability.probability']
        C_ = M.cmarkov_chain_monte_carlo
        b.check((C_ is not None) == (mode == 'c'), 'extension present: %r' % (C_ is not None))
        b.rule = 'random pairs of states, widths, likelihoods; the ratio is recomputed from the definition in logs'
        rng = b.np
        names = [(MH, False, False), (TD, True, False), ('IterativeMultipleTryMetropolisHastingsGaussianTape', False, True),
                 ('IterativeMultipleTryTransDMetropolisHastingsGaussianTape', True, True)]
        found = set()
        for it in range(b.count(260)):
            cls, td, many = names[it % 4]
            n = int(rng.choice([1, 1, 1, 2, 3]))
            prior = rng.choice(['uniform_prior', 'flat_prior'])
            pdc = float(rng.choice([0.5, 0.1, 0.8]))
            dcs = [bool(rng.randint(2)) for _ in range(n)] if td else [bool(rng.randint(2))] * n
            gj = bool(rng.rand() < 0.85) if td else True
            kw = dict(sampling_prior=str(prior), number_events=n, learning_length=0, number_samples=10)
            if td:
                kw.update(dc_prior=pdc, gaussian_jump_params=gj)
            else:
                kw.update(dc=dcs[0])
            pk.activate()
            o = getattr(M, cls)(**kw)
            al = [rand_widths(rng) for _ in range(n)]
            for a in al:
                a['proposal_normalisation'] = math.exp(lmass('gamma', 0.0, a['gamma_dc']) + lmass('delta', 0.0, a['delta_dc']))
            xi = [rand_state(rng, dc) for dc in dcs]
            one = n == 1
            o.alpha, o.xi, o.dc = (al[0], xi[0], dcs[0]) if one else (al, xi, dcs)
            k = 1 if not many else int(rng.choice([1, 3]))
            jumps = [[td and rng.rand() < 0.5 for _ in range(n)] for _ in range(k)]
            tries = [[propose(rng, x, a, j) for x, a, j in zip(xi, al, js)] for js in jumps]
            Li = float(rng.choice([rng.uniform(-30, 0), -1e5, 0.0, -math.inf], p=[.7, .1, .1, .1]))
            Ls = [float(rng.choice([(Li if Li > -math.inf else -3.0) + rng.uniform(-6, 3), Li, 0.0, -math.inf], p=[.6, .1, .1, .2])) for _ in range(k)]
            o.ln_likelihood_xi = Li
            jumped = any(is_dc(x) != is_dc(y) for t in tries for x, y in zip(t, xi))
            inp = dict(cls=cls, prior=str(prior), dc_prior=pdc, gaussian_jump=gj, xi=xi, x=tries, alpha=al, ln_p=Ls, ln_p0=Li, mode=mode)
            b.cur = inp
            b.case((cls, n, prior, tuple(dcs), jumped, k, it), inp)
            def verdict(got, L, t, known, what):
                """compare with the definition; a recorded finding is told from any other violation"""
                w = expected(t, xi, al, prior, pdc, gj, L, Li)
                if not (np.size(got) == 1 and close(float(np.ravel(got)[0]), w)):
                    w2 = expected(t, xi, al, prior, pdc, gj, L, Li, known)
                    if known and np.size(got) == 1 and close(float(np.ravel(got)[0]), w2):
                        for k in known:
                            finding(k, '%s %r, balance requires %r' % (what, got, w))
                        return
                    b.fail('%s %r, balance requires %r' % (what, got, w), **inp)

            def finding(k, what):
                if k not in found:
                    found.add(k)
                    b.fail(what, site=k, **inp)

            kp = (FLAT,) if jumped and not gj else ()
            kc = kp + ((PRIOR,) if jumped and prior == 'flat_prior' and mode == 'c' else ())
            for t, L in zip(tries, Ls):
                o.jump = any(is_dc(x) != is_dc(y) for x, y in zip(t, xi))
                verdict(o.acceptance(t[0] if one else t, L, *([pdc] if td else [])), L, t, kp, 'acceptance')
                if mode == 'c' and one and Li > -math.inf:
                    verdict(C_._acceptance_test_fn(t[0], xi[0], al[0], L, Li, prior == 'uniform_prior', gj, pdc), L, t, kc, 'compiled acceptance')
            # decision: first try whose acceptance exceeds the uniform draw
            kd = kc if many and mode == 'c' else kp
            want = [expected(t, xi, al, prior, pdc, gj, L, Li, kd) for t, L in zip(tries, Ls)]
            for w in set(want) | {0.5}:
                for u in {0.0, min(w * (1 - 1e-6), 1 - 1e-12), min(w * (1 + 1e-6), 1 - 1e-12)}:
                    if any(0 < abs(z - u) <= 1e-7 * z for z in want if 0 < z) or u < 1e-300 and any(0 < z < 1e-290 for z in want):
                        continue
                    idx = next((i for i, z in enumerate(want) if z > u), None)
                    o.ln_likelihood_xi = Li
                    o.jump = any(is_dc(x) != is_dc(y) for x, y in zip(tries[0], xi))
                    o.xi_1 = arg = tries[0][0] if one else tries[0]
                    lp = Ls[0]
                    if many:
                        if k > 1:
                            o.jump = True
                            o.xi_1 = arg = [t[0] for t in tries] if one else [[t[e] for t in tries] for e in range(n)]
                        elif mode == 'c':
                            o.xi_1 = arg = [arg] if one else [[t] for t in arg]
                        lp = P.LnPDF(np.matrix(Ls))
                    with Rand(u):
                        r = o._acceptance_check(arg, lp, False)
                    took = not isinstance(r[1], bool)
                    ok = took == (idx is not None)
                    if ok and took:
                        same = (r[0] == tries[idx][0]) if one else (list(r[0]) == list(tries[idx]))
                        ok = same and float(r[1]) == Ls[idx] and (not many or k == 1 or r[3] == idx)
                    elif ok:
                        ok = not r[0] or not any(r[0])
                    b.check(ok, 'draw %r, acceptances %r: decided %r' % (u, want, r), u=u, **inp)
        # the normaliser stored by the constructor
        for n in (1, 2):
            for cls in (TD, 'IterativeMultipleTryTransDMetropolisHastingsGaussianTape'):
                for _ in range(b.count(6)):
                    g, d = 10 ** rng.uniform(-2, 1, 2)
                    o = getattr(M, cls)(number_events=n, learning_length=0, number_samples=10, dc_sigma_g=g, dc_sigma_d=d)
                    b.case(('norm', n, cls, g), (g, d))
                    for a in (o.alpha if n > 1 else [o.alpha]):
                        w = math.exp(lmass('gamma', 0.0, g) + lmass('delta', 0.0, d))
                        b.check(a['gamma_dc'] == g and a['delta_dc'] == d and close(float(np.ravel(a['proposal_normalisation'])[0]), w),
                                'normaliser %r, mass inside the lune %r' % (a['proposal_normalisation'], w), dc_sigma_g=g, dc_sigma_d=d)
    return run


def close(a, c):
    return abs(a - c) <= 1e-8 * abs(c) + 1e-280


CHECK.runtime('pure Python')(runner('pure'))
CHECK.runtime('compiled', compiled=True)(runner('c'))
