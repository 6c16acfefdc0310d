"""C04: log-domain marginalisation and normalisation are exact and stable."""
import math
from fractions import Fraction
import numpy as np
from dpv import report, load, sym, arr, xv, rules, conc, term as T
from dpv.paths import ctx
from dpv.term import R, I
CHECK = report.Check('C04')
CHECK.covers('MTfit.probability.probability.ln_marginalise', 'MTfit.probability.probability.ln_normalise',
             'MTfit.probability.probability.LnPDF.marginalise', 'MTfit.probability.probability.LnPDF.normalise',
             'MTfit.probability.probability.LnPDF.output')
CHECK.assume('log-values are finite or -inf, volume elements are positive finite numbers',
             'floating point: exp overflows exactly above 709 and may flush to zero below -745 (range contracts); otherwise real arithmetic')
ZERO, ONE = T.ZERO, T.ONE
C = lambda v: T.const(Fraction(v), R)


def lse(k, n, e, dv):
    """log of the sum over k<n of exp(e)*dv, -inf entries being exact zeros"""
    s = T.big('bigsum', k, n, T.ite(e.n, ZERO, rules.exp(e.v)))
    return xv.X(rules.log(T.mul(s, dv)), T.FALSE, T.FALSE, T.big('forall', k, n, e.n))


def same(name, got, want):
    ctx().oblige(name + ': never NaN or +inf', T.and_(T.not_(got.nan), T.not_(got.p)))
    ctx().oblige(name + ': zero exactly when every entry is zero', T.iff(got.n, want.n))
    ctx().oblige(name + ': value', T.or_(got.n, T.eq(got.v, want.v)))


def inputs(two=True):
    ns, nm = sym.int_var('ns'), sym.int_var('nm')
    sym.assume(ns >= 2)
    sym.assume(nm >= 1)
    a = arr.input_array('L', [ns, nm] if two else [ns], ninf=True)
    dv = sym.real_var('dV')
    sym.assume(dv > 0)
    return ns, nm, a, dv


def index(name, n):
    v = T.var(name, I)
    ctx().assume(T.le(T.IZERO, v))
    ctx().assume(T.lt(v, n.t))
    return v


def untouched(a, shape):
    v = [T.var('w%d' % i, I) for i in range(len(shape))]
    e = a.xat(tuple(v))
    ctx().oblige('input unchanged', T.and_(T.eq(e.v, T.fn('L', *v)), T.iff(e.n, T.fn('L_ninf', *v, sort=T.B))))


def marg_contract(axis, matrix=False, lnpdf=False, dv1=False, newdv=False):
    def f():
        P = load.Loader().load('MTfit.probability.probability')
        ns, nm, a, dv = inputs()
        if axis == 1:
            sym.assume(nm >= 2)
        if dv1:
            dv = sym.S(ONE)
        x = arr.np_matrix(a) if matrix else a
        if lnpdf:
            p = P.LnPDF(x, dV=sym.real_var('dV_old') if newdv else dv)
            r = p.marginalise(axis=axis, dV=dv) if newdv else p.marginalise(axis=axis)
            ctx().oblige('volume element kept', sym.eqt(r.dV, dv))
            r = r._ln_pdf
        else:
            r = P.ln_marginalise(x, axis=axis) if dv1 else P.ln_marginalise(x, axis=axis, dV=dv)
        n, m = (ns, nm) if axis == 0 else (nm, ns)
        j = index('j', m)
        k = T.fresh('k', I)
        e = a.xat((k, j) if axis == 0 else (j, k))
        want = lse(k, n.t, e, dv.t)
        ctx().oblige('size', T.eq(T.mul(*[arr.dim(d) for d in r.shape]) if r.ndim > 1 else arr.dim(r.shape[0]), m.t))
        at = (j,) if r.ndim == 1 else ((T.IZERO, j) if axis == 0 else (j, T.IZERO))
        same('marginal', r.xat(at), want)
        untouched(a, (ns, nm))
    return f


CHECK.proof('ln_marginalise axis 0 (any number of rows and columns)')(marg_contract(0))
CHECK.proof('ln_marginalise axis 1')(marg_contract(1))
CHECK.proof('ln_marginalise axis 0, matrix')(marg_contract(0, matrix=True))
CHECK.proof('ln_marginalise axis 1, matrix')(marg_contract(1, matrix=True))
CHECK.proof('ln_marginalise default volume element')(marg_contract(0, dv1=True))
CHECK.proof('LnPDF.marginalise axis 0')(marg_contract(0, lnpdf=True))
CHECK.proof('LnPDF.marginalise with a new volume element')(marg_contract(0, lnpdf=True, newdv=True))
CHECK.proof('LnPDF.marginalise axis 1')(marg_contract(1, lnpdf=True))


@CHECK.proof('ln_marginalise of a single row is the row')
def p_single():
    P = load.Loader().load('MTfit.probability.probability')
    nm = sym.int_var('nm')
    sym.assume(nm >= 1)
    a = arr.input_array('L', [1, nm], ninf=True)
    r = P.ln_marginalise(a)
    j = index('j', nm)
    got, e = r.xat((j,)), a.xat((T.IZERO, j))
    ctx().oblige('size', T.eq(arr.dim(r.shape[0]), nm.t))
    same('marginal', got, e)


def norm_contract(kind):
    def f():
        P = load.Loader().load('MTfit.probability.probability')
        n = sym.int_var('n')
        sym.assume(n >= 1)
        dv = sym.real_var('dV')
        sym.assume(dv > 0)
        two = kind != 'vector'
        a = arr.input_array('L', [1, n] if two else [n], ninf=True)
        x = arr.np_matrix(a) if kind in ('matrix', 'LnPDF', 'LnPDF new dV') else a
        if kind.startswith('LnPDF'):
            q = P.LnPDF(x, dV=dv).normalise() if kind == 'LnPDF' else P.LnPDF(x, dV=sym.real_var('dV_old')).normalise(dV=dv)
            ctx().oblige('volume element kept', sym.eqt(q.dV, dv))
            r = q._ln_pdf
        else:
            r = P.ln_normalise(x, dv)
        at = lambda i: a.xat((T.IZERO, i) if two else (i,))
        if r.ndim == 2:
            r = r[0]
        j = T.IZERO if n == 1 else index('j', n)
        k = T.fresh('k', I)
        z = lse(k, n.t, at(k), dv.t)
        got, e = r.xat((j,)), at(j)
        ctx().oblige('size', T.eq(arr.dim(r.shape[0]), n.t))
        ctx().oblige('never NaN or +inf', T.and_(T.not_(got.nan), T.not_(got.p)))
        ctx().oblige('zero entries stay zero, no other entry becomes zero', T.iff(got.n, e.n))
        ctx().oblige('value is the entry minus the log of the normalisation', T.or_(e.n, T.eq(got.v, T.sub(e.v, z.v))))
        untouched(a, a.vshape)
    return f


for _k in ('vector', 'row', 'matrix', 'LnPDF', 'LnPDF new dV'):
    CHECK.proof('ln_normalise: %s' % _k)(norm_contract(_k))


@CHECK.proof('normalised probabilities times the volume element sum to one; shifts')
def p_sum():
    n = T.var('n', I)
    dv, c = T.var('dV', R), T.var('c', R)
    ctx().assume(T.lt(ZERO, dv))
    ctx().assume(T.lt(T.IZERO, n))
    a = arr.input_array('L', [sym.SI(n)], ninf=True)
    k = T.fresh('k', I)
    e = a.xat((k,))
    z = lse(k, n, e, dv)
    ctx().assume(T.not_(z.n))
    k2 = T.fresh('k2', I)
    e2 = a.xat((k2,))
    tot = T.big('bigsum', k2, n, T.ite(e2.n, ZERO, T.mul(rules.exp(T.sub(e2.v, z.v)), dv)))
    ctx().oblige('sum is one', T.eq(tot, ONE))
    k3 = T.fresh('k3', I)
    e3 = a.xat((k3,))
    zc = lse(k3, n, xv.X(T.add(e3.v, c), T.FALSE, T.FALSE, e3.n), dv)
    ctx().oblige('marginal shifts with the values', T.eq(zc.v, T.add(z.v, c)))
    j = T.var('j', I)
    ej = a.xat((j,))
    ctx().oblige('normalised values do not', T.eq(T.sub(T.add(ej.v, c), zc.v), T.sub(ej.v, z.v)))


def bounded_values(a, lo, hi):
    """L in [lo,hi] for every entry"""
    return lambda t: T.and_(T.le(C(lo), t), T.le(t, C(hi)))


def range_contract(which, axis=0):
    """in the model where exp overflows above 709 and flushes to zero below -745"""
    def f():
        P = load.Loader().load('MTfit.probability.probability')
        ns, nm = sym.int_var('ns'), sym.int_var('nm')
        sym.assume(ns >= 2)
        sym.assume(nm >= 2)
        pre = lambda t: T.and_(T.le(C(-10 ** 5), t), T.le(t, C(10 ** 4)))
        a = arr.input_array('L', [ns, nm] if which == 'm' else [ns], ninf=True, pre=pre)
        ctx().mode['range'] = True
        if which == 'm':
            r = P.ln_marginalise(a, axis=axis)
            n, m = (ns, nm) if axis == 0 else (nm, ns)
            j = index('j', m)
            k = T.fresh('k', I)
            at = lambda q: a.xat((q, j) if axis == 0 else (j, q))
        else:
            r = P.ln_normalise(a)
            n, j, k = ns, index('j', ns), T.fresh('k', I)
            at = lambda q: a.xat((q,))
        ctx().mode['range'] = False
        got = r.xat((j,))
        ctx().oblige('no overflow: never NaN or +inf', T.and_(T.not_(got.nan), T.not_(got.p)))
        if which == 'm':
            ctx().oblige('no underflow: zero exactly when every entry is zero', T.iff(got.n, T.big('forall', k, n.t, at(k).n)))
        else:
            ctx().oblige('no underflow: zero exactly where the entry is', T.iff(got.n, at(j).n))
    return f


CHECK.proof('ln_marginalise axis 0 neither overflows nor underflows')(range_contract('m', 0))
CHECK.proof('ln_marginalise axis 1 neither overflows nor underflows')(range_contract('m', 1))
CHECK.proof('ln_normalise neither overflows nor underflows')(range_contract('n'))


# ---- run-time contracts -----------------------------------------------------------------------
def ref_lse(x, axis, dv):
    """long-double reference"""
    x = np.asarray(x, dtype=np.longdouble)
    m = x.max(axis=axis, keepdims=True)
    s = np.where(np.isneginf(m), 0, m)
    r = np.log(np.exp(x - s).sum(axis=axis)) + s.reshape(np.delete(x.shape, axis)) + np.log(np.longdouble(dv))
    return r


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    f = np.isfinite(b)
    return bool(np.array_equal(a[~f], b[~f]) and np.all(np.abs(a[f] - b[f]) <= 1e-9 * np.maximum(1, np.abs(b[f]))))


def values(rng, shape):
    kind = rng.randint(7)
    if kind == 0:
        x = rng.uniform(-10, 0, shape)
    elif kind == 1:
        x = rng.uniform(-1e5, 1e4, shape)
    elif kind == 2:
        x = rng.uniform(-1e5, -9e4) + rng.uniform(-50, 50, shape)
    elif kind == 3:
        x = rng.uniform(700, 1e4) + rng.uniform(-800, 0, shape)
    elif kind == 4:
        x = np.full(shape, rng.choice([-1e5, -745.2, 0.0, 709.9, 1e4]))
    elif kind == 5:
        x = rng.choice([-1e5, -800.0, -700.0, 0.0, 1.0, 600.0, 720.0, 1e4], shape)
    else:
        x = rng.uniform(-800, 800, shape)
    p = rng.choice([0, 0, 0.3, 0.9, 1.0])
    x = np.array(x, dtype=float)
    x[rng.rand(*shape) < p] = -np.inf
    return x, (kind, float(p))


def runner(mode):
    def run(b):
        P = conc.pkg(mode)['probability.probability']
        b.rule = 'every entry compared with a long-double log-sum-exp; sums, shifts and input preservation checked'
        rng = b.np
        for it in range(b.count(500)):
            nd = rng.randint(3)
            shape = (rng.randint(1, 9),) if nd == 0 else (rng.randint(1, 7), rng.randint(1, 9))
            x, tag = values(rng, shape)
            dv = float(rng.choice([1.0, 1.0, 10 ** rng.uniform(-12, 6)]))
            c = float(rng.choice([0.5, -37.0, 1000.0, -5000.0]))
            for form in ('array', 'matrix', 'LnPDF'):
                if len(shape) == 1 and form == 'matrix':
                    continue
                inp = dict(x=x, dV=dv, form=form, mode=mode)
                mk = {'array': lambda v: v.copy(), 'matrix': lambda v: np.matrix(v), 'LnPDF': lambda v: P.LnPDF(v.copy(), dV=dv)}[form]
                b.case((it, form, tag), inp)
                # marginalise
                x2 = x if len(shape) == 2 else x.reshape(1, -1)
                for axis in (0, 1):
                    if len(shape) == 1 and form == 'array':
                        continue
                    for via in ('function', 'method', 'method dV') if form == 'LnPDF' else ('function',):
                        b.cur = dict(inp, axis=axis, via=via)
                        arg = mk(x) if via != 'method dV' else P.LnPDF(x.copy(), dV=3.5)
                        before = np.array(getattr(arg, '_ln_pdf', arg)).copy()
                        r = arg.marginalise(axis=axis)._ln_pdf if via == 'method' else arg.marginalise(axis, dv)._ln_pdf if via == 'method dV' else P.ln_marginalise(arg, axis=axis, dV=dv)
                        got = np.asarray(r).flatten()
                        want = np.asarray(ref_lse(x2, axis, dv), dtype=float)
                        ok = close(got, want)
                        if x2.shape[axis] == 1 and not ok:
                            # nothing is marginalised over: the volume element is not applied
                            ok = close(got, x2.squeeze(axis))
                        b.check(ok, 'marginal %r, log-sum-exp %r' % (got, want), **b.cur)
                        b.check(np.array_equal(np.array(getattr(arg, '_ln_pdf', arg)), before), 'input modified', **b.cur)
                        r = mk(x + c)
                        r = r.marginalise(axis=axis)._ln_pdf if via != 'function' else P.ln_marginalise(r, axis=axis, dV=dv)
                        b.check(close(np.asarray(r).flatten() - c, got), 'marginalisation does not commute with a constant', **b.cur)
                # normalise
                if form == 'LnPDF' and len(shape) == 2 and shape[0] > 1:
                    b.cur = dict(inp, via='output')
                    r = np.asarray(mk(x).output(True)._ln_pdf).flatten()
                    f = r > -np.inf
                    b.check(not np.isnan(r).any() and not (r == np.inf).any(), 'NaN or +inf', **b.cur)
                    b.check(np.array_equal(f, (x2 > -np.inf).any(0)), 'zero probability gained or lost', **b.cur)
                    if f.any():
                        b.check(abs(np.exp(r).sum() * dv - 1) < 1e-8, 'output() does not sum to one', **b.cur)
                    r2 = np.asarray(mk(x).output(False)._ln_pdf).flatten()
                    b.check(close(r2, np.asarray(mk(x).marginalise()._ln_pdf).flatten()), 'output(False) is not the marginal', **b.cur)
                for via in ('function', 'method', 'method dV'):
                    if (via != 'function') != (form == 'LnPDF'):
                        continue
                    b.cur = dict(inp, via=via)
                    arg = mk(x) if via != 'method dV' else P.LnPDF(x.copy(), dV=3.5)
                    before = np.array(getattr(arg, '_ln_pdf', arg)).copy()
                    r = arg.normalise()._ln_pdf if via == 'method' else arg.normalise(dv)._ln_pdf if via == 'method dV' else P.ln_normalise(arg, dv)
                    got = np.asarray(r)
                    b.check(not np.isnan(got).any() and not (got == np.inf).any(), 'NaN or +inf after normalising', **b.cur)
                    b.check(np.array_equal(np.isneginf(got).flatten(), np.isneginf(x).flatten()), 'zero probability gained or lost', **b.cur)
                    if np.isfinite(x).any():
                        z = ref_lse(x.reshape(-1, 1), 0, dv)[0]
                        want = np.asarray(x - z, dtype=float)
                        b.check(close(got.flatten(), want.flatten()), 'normalised %r, expected %r' % (got, want), **b.cur)
                        with np.errstate(all='ignore'):
                            tot = np.exp(got).sum() * dv
                        b.check(abs(tot - 1) < 1e-8 or dv < 1e-300, 'sums to %r' % tot, **b.cur)
                    b.check(np.array_equal(np.array(getattr(arg, '_ln_pdf', arg)), before), 'input modified', **b.cur)
                    r = mk(x + c)
                    r = r.normalise()._ln_pdf if via != 'function' else P.ln_normalise(r, dv)
                    b.check(close(np.asarray(r).flatten(), got.flatten()), 'normalisation depends on a constant', **b.cur)
    return run


CHECK.runtime('pure Python')(runner('pure'))
CHECK.runtime('compiled', compiled=True)(runner('c'))
