"""C10: evidence, model probabilities and divergences obey their defining identities."""
import math
from fractions import Fraction
import numpy as np
from dpv import report, load, sym, arr, xv, rules, conc, term as T
from dpv.paths import ctx
from dpv.term import R, I
from props.C04 import index, lse, close
CHECK = report.Check('C10')
CHECK.covers('MTfit.sampling.ln_bayesian_evidence', 'MTfit.probability.probability.model_probabilities',
             'MTfit.probability.probability.dkl', 'MTfit.probability.probability.dkl_estimate',
             'MTfit.probability.probability._6sphere_prior')
CHECK.assume('finite sums are monotone and linear (the Gibbs bounds are proved term by term)',
             'at least one sample of a distribution has non-zero probability where a divergence is asked for',
             'the sampling prior is the default one (constant 1)')
ZERO, ONE = T.ZERO, T.ONE


def esum(at, n, name='k'):
    k = T.fresh(name, I)
    e = at(k)
    return T.big('bigsum', k, n, T.ite(e.n, ZERO, rules.exp(e.v)))


def evidence_contract(form, multi):
    def f():
        L = load.Loader()
        Sm = L.load('MTfit.sampling')
        P = L.load('MTfit.probability.probability')
        n, N = sym.int_var('n'), sym.int_var('N')
        sym.assume(n >= 1)
        sym.assume(N >= n)
        a = arr.input_array('L', [1, n], ninf=True)
        g = np.zeros((1, 1))
        out = {'g_1': g, 'd_1': g, 'g_2': g, 'd_2': g} if multi else {'g': g, 'd': g}
        out['ln_pdf'] = P.LnPDF(a) if form == 'LnPDF' else (arr.np_matrix(a) if form == 'matrix' else a)
        r = sym.lift(Sm.ln_bayesian_evidence(out, N))
        at = lambda i: a.xat((T.IZERO, i))
        k = T.fresh('k', I)
        none = T.big('forall', k, n.t, at(k).n)
        ctx().oblige('finite, or zero when every sample is', T.const(r.k == 'r') if r.k != '-' else none)
        if r.k == 'r':
            want = T.sub(rules.log(esum(at, n.t)), rules.log(sym.real(N.t)))
            ctx().oblige('log of the mean likelihood over the tried samples', T.eq(r.t, want))
            # adding a constant
            c = T.var('c', R)
            sh = T.sub(rules.log(esum(lambda i: xv.X(T.add(at(i).v, c), T.FALSE, T.FALSE, at(i).n), n.t)), rules.log(sym.real(N.t)))
            ctx().oblige('shifts with the log-likelihoods', T.eq(sh, T.add(want, c)))
    return f


for _f in ('array', 'matrix', 'LnPDF'):
    CHECK.proof('ln_bayesian_evidence: %s' % _f)(evidence_contract(_f, False))
CHECK.proof('ln_bayesian_evidence: several events')(evidence_contract('array', True))


def models_contract(k):
    def f():
        P = load.Loader().load('MTfit.probability.probability')
        e = [sym.real_var('e%d' % i) for i in range(k)]
        r = P.model_probabilities(*e)
        ctx().oblige('one probability per model', T.const(len(r) == k))
        r = [sym.lift(x) for x in r]
        ctx().oblige('finite', T.const(all(x.k == 'r' for x in r)))
        s = T.add(*[rules.exp(x.t) for x in e])
        for i in range(k):
            ctx().oblige('probability %d' % i, T.eq(r[i].t, T.div(rules.exp(e[i].t), s)))
            ctx().oblige('positive %d' % i, T.lt(ZERO, r[i].t))
    return f


for _k in (1, 2, 3, 4, 5):
    CHECK.proof('model_probabilities of %d models' % _k)(models_contract(_k))


def models_range(k):
    def f():
        P = load.Loader().load('MTfit.probability.probability')
        e = [sym.real_var('e%d' % i) for i in range(k)]
        for x in e:
            sym.assume(x >= -10 ** 5)
            sym.assume(x <= 10 ** 5)
        ctx().mode['range'] = True
        r = [sym.lift(x) for x in P.model_probabilities(*e)]
        ctx().mode['range'] = False
        ctx().oblige('no overflow, no 0/0', T.const(all(x.k == 'r' for x in r)))
    return f


CHECK.proof('model_probabilities does not overflow (3 models)')(models_range(3))


@CHECK.proof('model probabilities: sum, ratios, common shift')
def p_models():
    for k in (2, 5):
        e = [T.var('e%d' % i, R) for i in range(k)]
        s = T.add(*[rules.exp(x) for x in e])
        p = [T.div(rules.exp(x), s) for x in e]
        ctx().oblige('sum to one (%d)' % k, T.eq(T.add(*p), ONE))
        ctx().oblige('ratio (%d)' % k, T.eq(T.div(p[0], p[1]), rules.exp(T.sub(e[0], e[1]))))
        c = T.var('c', R)
        q = [T.div(rules.exp(T.add(x, c)), T.add(*[rules.exp(T.add(y, c)) for y in e])) for x in e]
        ctx().oblige('common shift (%d)' % k, T.eq(q[1], p[1]))


def est_contract(form):
    def f():
        P = load.Loader().load('MTfit.probability.probability')
        n, N = sym.int_var('n'), sym.int_var('N')
        sym.assume(n >= 1)
        sym.assume(N >= 1)
        V = sym.real_var('V')
        sym.assume(V > 0)
        a = arr.input_array('L', [n] if form == 'array' else [1, n], ninf=True)
        at = lambda i: a.xat((i,) if form == 'array' else (T.IZERO, i))
        k = T.fresh('k', I)
        ctx().assume(T.big('exists', k, n.t, T.not_(at(k).n)))
        r = sym.lift(P.dkl_estimate(a if form == 'array' else P.LnPDF(a), V, N))
        ctx().oblige('finite', T.const(r.k == 'r'))
        s = esum(at, n.t)
        k = T.fresh('k', I)
        lw = T.sub(at(k).v, rules.log(s))                        # log weight
        want = T.add(rules.log(sym.real(N.t)), T.big('bigsum', k, n.t, T.ite(at(k).n, ZERO, T.mul(T.div(rules.exp(at(k).v), s), lw))))
        ctx().oblige('ln N minus the entropy of the weights', T.eq(r.t, want))
        j = T.var('j', I)
        if form == 'array':
            ctx().oblige('input unchanged', T.and_(T.eq(at(j).v, T.fn('L', j)), T.iff(at(j).n, T.fn('L_ninf', j, sort=T.B))))
    return f


for _f in ('array', 'LnPDF'):
    CHECK.proof('dkl_estimate: %s' % _f)(est_contract(_f))


def dkl_contract(form):
    def f():
        P = load.Loader().load('MTfit.probability.probability')
        n = sym.int_var('n')
        sym.assume(n >= 1)
        dv = sym.real_var('dV')
        sym.assume(dv > 0)
        sh = [n] if form == 'array' else [1, n]
        p, q = arr.input_array('p', sh, ninf=True), arr.input_array('q', sh, ninf=True)
        at = lambda a, i: a.xat((i,) if form == 'array' else (T.IZERO, i))
        k = T.fresh('k', I)
        for a in (p, q):
            ctx().assume(T.big('exists', k, n.t, T.not_(at(a, k).n)))
        r = P.dkl(p, q, dv) if form == 'array' else P.dkl(P.LnPDF(p), P.LnPDF(q), dv)
        r = sym.lift(r)
        gap = T.big('exists', k, n.t, T.and_(at(q, k).n, T.not_(at(p, k).n)))
        ctx().oblige('infinite exactly when q vanishes where p does not', gap if r.k == '+' else T.and_(T.const(r.k == 'r'), T.not_(gap)))
        if r.k == 'r':
            sp, sq = esum(lambda i: at(p, i), n.t), esum(lambda i: at(q, i), n.t)
            lw = T.sub(T.sub(at(p, k).v, rules.log(sp)), T.sub(at(q, k).v, rules.log(sq)))
            want = T.big('bigsum', k, n.t, T.ite(at(p, k).n, ZERO, T.mul(T.div(rules.exp(at(p, k).v), sp), lw)))
            ctx().oblige('sum of w ln(w/v) over the normalised weights', T.eq(r.t, want))
        if form == 'array':
            j = T.var('j', I)
            for nm, a in (('p', p), ('q', q)):
                ctx().oblige('input %s unchanged' % nm, T.and_(T.eq(at(a, j).v, T.fn(nm, j)), T.iff(at(a, j).n, T.fn(nm + '_ninf', j, sort=T.B))))
    return f


for _f in ('array', 'LnPDF'):
    CHECK.proof('dkl: %s' % _f)(dkl_contract(_f))


@CHECK.proof('bounds, term by term')
def p_gibbs():
    w, v, N = T.var('w', R), T.var('v', R), T.var('N', R)
    c = ctx()
    for x in (w, v, N):
        c.assume(T.lt(ZERO, x))
    c.oblige('log of a quotient', T.eq(rules.log(T.div(w, v)), T.sub(rules.log(w), rules.log(v))))
    c.oblige('w ln(w/v) >= w - v', T.le(T.sub(w, v), T.mul(w, rules.log(T.div(w, v)))))
    c.oblige('w ln(w N) >= w - 1/N', T.le(T.sub(w, T.div(ONE, N)), T.mul(w, rules.log(T.mul(w, N)))))
    c.assume(T.le(w, ONE))
    c.oblige('w ln w <= 0 for a weight', T.le(T.mul(w, rules.log(w)), ZERO))
    n = T.var('n', I)
    c.assume(T.lt(T.IZERO, n))
    a = arr.input_array('L', [sym.SI(n)], ninf=True)
    at = lambda i: a.xat((i,))
    s = esum(at, n)
    k = T.fresh('k', I)
    c.assume(T.big('exists', k, n, T.not_(at(k).n)))
    c.oblige('weights sum to one', T.eq(T.big('bigsum', k, n, T.ite(at(k).n, ZERO, T.div(rules.exp(at(k).v), s))), ONE))
    c.oblige('identical distributions have no divergence', T.eq(T.big('bigsum', k, n, T.ite(at(k).n, ZERO, T.mul(T.div(rules.exp(at(k).v), s), T.sub(at(k).v, at(k).v)))), ZERO))


# ---- run-time contracts -----------------------------------------------------------------------
def lnlik(rng, n, some=True):
    kind = rng.randint(6)
    if kind == 0:
        x = rng.uniform(-20, 0, n)
    elif kind == 1:
        x = rng.uniform(-1e5, -9e4) + rng.uniform(-30, 0, n)
    elif kind == 2:
        x = rng.uniform(-1e4, 1e3, n)
    elif kind == 3:
        x = np.full(n, rng.choice([-5000.0, 0.0, 900.0]))
    elif kind == 4:
        x = rng.uniform(700, 5000) + rng.uniform(-900, 0, n)
    else:
        x = rng.uniform(-900, 0, n)
    x[rng.rand(n) < rng.choice([0, 0, 0.4, 0.8])] = -np.inf
    if some and not np.isfinite(x).any():
        x[rng.randint(n)] = -3.0
    return x, kind


def runner(mode):
    def run(b):
        pk = conc.pkg(mode)
        P, Sm = pk['probability.probability'], pk['sampling']
        b.rule = 'random vectors; every identity recomputed in long double'
        rng = b.np
        LD = np.longdouble
        for it in range(b.count(700)):
            n = rng.choice([1, 2, 3, 5, 20])
            x, tag = lnlik(rng, n, some=rng.rand() < 0.95)
            N = int(n + rng.choice([0, 0, 1, 7, 10 ** 4, 10 ** 7]))
            m = LD(x.max())
            # evidence
            for form in ('array', 'matrix', 'LnPDF'):
                def ev(v):
                    y = v.reshape(1, -1).copy()
                    o = {'g': np.zeros((1, n)), 'd': np.zeros((1, n)), 'ln_pdf': {'array': y, 'matrix': np.matrix(y), 'LnPDF': P.LnPDF(y)}[form]}
                    if it % 3 == 0:
                        o = {'ln_pdf': o['ln_pdf'], 'g_1': o['g'], 'g_2': o['g'], 'd_1': o['d'], 'd_2': o['d']}
                    return Sm.ln_bayesian_evidence(o, N)
                inp = dict(ln_pdf=x, N=N, form=form, mode=mode)
                b.cur = inp
                got = ev(x)
                b.case(('evidence', it, form, tag), inp)
                want = -np.inf if m == -np.inf else float(np.log(np.exp(x.astype(LD) - m).sum()) + m - np.log(LD(N)))
                b.check(np.ndim(got) == 0 and close(got, want), 'evidence %r, log mean likelihood %r' % (got, want), **inp)
                c = float(rng.choice([-4000.0, 3.25, 1500.0]))
                b.check(close(ev(x + c) - c, want), 'evidence does not shift with the log-likelihoods', c=c, **inp)
                b.check(close(ev(rng.permutation(x)), want), 'evidence depends on the order', **inp)
            if m == -np.inf:
                continue
            # divergence from the prior
            V = 10 ** rng.uniform(-3, 3)
            w = np.exp(x.astype(LD) - m)
            w = w / w.sum()
            z = w[w > 0]
            want = float(np.log(LD(N)) + (z * np.log(z)).sum())
            for form in ('array', 'LnPDF', 'LnPDF row'):
                inp = dict(ln_pdf=x, N=N, V=V, form=form, mode=mode)
                b.cur = inp
                arg = x.copy() if form == 'array' else P.LnPDF(x.reshape(1, -1) if 'row' in form else x)
                got = P.dkl_estimate(arg, V, N)
                b.case(('est', it, form), inp)
                b.check(np.size(got) == 1 and abs(float(got) - want) <= 1e-8 * max(1, abs(want)), 'dkl_estimate %r, ln N - entropy %r' % (got, want), **inp)
                b.check(-1e-8 <= float(got) <= math.log(N) + 1e-8, 'dkl_estimate outside [0, ln N]', **inp)
                b.check(form != 'array' or np.array_equal(arg, x), 'input modified', **inp)
            # two distributions
            y, _ = lnlik(rng, n)
            if rng.rand() < 0.6:
                y = np.where(np.isneginf(x), y, np.where(np.isneginf(y), -1.5, y))
            dv = 10 ** rng.uniform(-4, 3)
            for form in ('array', 'LnPDF'):
                mk = (lambda v: v.copy()) if form == 'array' else (lambda v: P.LnPDF(v))
                inp = dict(p=x, q=y, dV=dv, form=form, mode=mode)
                b.cur = inp
                b.case(('dkl', it, form), inp)
                s = P.dkl(mk(x), mk(x), dv)
                b.check(abs(s) < 1e-9, 'divergence of identical inputs is %r' % s, **inp)
                ap, aq = mk(x), mk(y)
                s = P.dkl(ap, aq, dv)
                b.check(not np.isnan(s) and s >= -1e-9, 'divergence is %r' % s, **inp)
                lx = x.astype(LD) - m - np.log(np.exp(x.astype(LD) - m).sum())
                my = LD(y.max())
                ly = y.astype(LD) - my - np.log(np.exp(y.astype(LD) - my).sum())
                f = x > -np.inf
                want = float((np.exp(lx[f]) * (lx[f] - ly[f])).sum()) if not np.isneginf(y[f]).any() else np.inf
                b.check(close(s, want) or abs(s - want) <= 1e-8 * max(1, abs(want)), 'divergence %r, expected %r' % (s, want), **inp)
                b.check(form != 'array' or (np.array_equal(ap, x) and np.array_equal(aq, y)), 'input modified', **inp)
            # the values a sample reports
            if it % 5 == 0:
                o = Sm.Sample(initial_sample_size=rng.choice([4, 30]))
                cut = rng.randint(0, n + 1)
                mts = rng.randn(6, n)
                for sl in (slice(0, cut), slice(cut, n)):
                    if mts[:, sl].shape[1]:
                        o.append(np.matrix(mts[:, sl]), P.LnPDF(np.matrix(x[sl])), mts[:, sl].shape[1])
                disc = rng.choice([0, 10000])
                inp = dict(ln_pdf=x, N=N, discard=disc, mode=mode)
                b.cur = inp
                pk.activate()
                got = o.output(convert=bool(rng.randint(2)), n_samples=N, discard=disc)[0]
                b.case(('reported', it), inp)
                w1 = float(np.log(np.exp(x.astype(LD) - m).sum()) + m - np.log(LD(N)))
                # the discard drops samples that together weigh less than 1e-4 of the largest
                b.check('ln_bayesian_evidence' in got, 'no evidence reported', **inp)
                b.check(abs(got['ln_bayesian_evidence'] - w1) <= (1.1e-4 if disc else 1e-8 * max(1, abs(w1))), 'reported evidence %r, log mean likelihood %r' % (got['ln_bayesian_evidence'], w1), **inp)
                w2 = float(np.log(LD(N)) + (z * np.log(z)).sum())
                b.check('dkl' in got and abs(got['dkl'] - w2) <= 1e-8 * max(1, abs(w2)), 'reported divergence %r, ln N - entropy %r' % (got.get('dkl'), w2), **inp)
            # models
            k = rng.randint(2, 6)
            e = rng.choice([rng.uniform(-1e3, 1e3), 0.0]) + rng.uniform(-1, 1, k) * rng.choice([0.1, 5, 300, 1000])
            inp = dict(evidences=e, mode=mode)
            b.cur = inp
            b.case(('models', it), inp)
            p = P.model_probabilities(*e)
            b.check(len(p) == k and abs(sum(p) - 1) < 1e-12, 'model probabilities %r' % (p,), **inp)
            q = np.exp(e.astype(LD) - e.max())
            q = np.asarray(q / q.sum(), dtype=float)
            b.check(np.allclose(p, q, rtol=1e-10, atol=1e-300), 'model probabilities %r, expected %r' % (p, q), **inp)
            b.check(all(v > 0 for v, u in zip(p, e) if u > e.max() - 700), 'model probability is not positive', **inp)
            b.check(np.allclose(P.model_probabilities(*(e + 777.0)), p, rtol=1e-9, atol=1e-300), 'model probabilities change under a common shift', **inp)
    return run


CHECK.runtime('pure Python')(runner('pure'))
CHECK.runtime('compiled', compiled=True)(runner('c'))
