"""C19: result post-processing (statistics, projections) is consistent with the samples."""
import itertools
import math
import types
from fractions import Fraction
import numpy as np
from dpv import report, load, sym, arr, rules, conc, mtref as Q, term as T
from dpv.paths import ctx, Unsupported
from dpv.term import R, I, B
CHECK = report.Check('C19')
MP, MC = 'MTfit.plot.spherical_projection', 'MTfit.plot.plot_classes'
CHECK.covers(MP + '.equal_area', MP + '.equal_angle', MP + '.__project', *[MC + '.MTData.' + n for n in (
    '__init__ (bounded)', '_check', '__getitem__', '_get_converted', '_convert (bounded)', 'get_mean', 'get_max_probability', 'get_unique_McMC', '_set_probability', '__setitem__ (bounded)')])
CHECK.covers('MTfit.utilities.file_io.unique_columns (bounded)')
CHECK.assume('the input of the projections is a unit vector', 'numpy.cov is not specified by the property',
             'numpy.unique over columns returns each distinct column once with its count and the position of one of its occurrences (checked at run time)',
             'conversions derived by the container are compared with the stand-alone conversions at run time; the conversions themselves are C12-C14')
ZERO, ONE = T.ZERO, T.ONE
TOL = 1e-9


def sp():
    L = load.Loader()
    L.wanted_prefixes = L.wanted_prefixes + ('MTfit.plot',)
    return L.plain(MP)


def unit(n):
    """n unit vectors, arbitrary (n symbolic)"""
    def pre(t):
        q = [T.fn(k, *t.args[1:], sort=R) for k in 'xyz']
        return T.and_(T.eq(T.add(*[T.mul(a, a) for a in q]), ONE), T.le(q[2], ONE), T.le(T.neg(ONE), q[2]))
    return [arr.input_array(k, [n], pre=pre) for k in 'xyz']


def el(a, i):
    v = a.xat((i,))
    return v.v, v.finite()


def projection(kind, lower, full, back):
    def f():
        M = sp()
        n = sym.int_var('n')
        sym.assume(n >= 2)
        x, y, z = unit(n)
        i = T.var('i', I)
        ctx().assume(T.le(T.IZERO, i))
        ctx().assume(T.lt(i, n.t))
        xi, yi, zi = [el(a, i)[0] for a in (x, y, z)]
        ctx().assume(T.eq(T.add(T.mul(xi, xi), T.mul(yi, yi), T.mul(zi, zi)), ONE))
        ctx().assume(T.le(zi, ONE))
        ctx().assume(T.le(T.neg(ONE), zi))
        X, Y = getattr(M, kind)(x, y, z, lower=lower, full_sphere=full, back_project=back)
        for a in (X, Y):
            ctx().oblige('one point per vector', T.and_(T.const(len(a.shape) == 1), T.eq(a.vshape[0], n.t)))
        (Xv, Xok), (Yv, Yok) = el(X, i), el(Y, i)
        shown = T.and_(Xok, Yok)
        up = T.neg(zi) if not lower else zi         # height of the vector above the plane, towards the centre of the plot
        # which point of the sphere is drawn: the vector itself, or its antipode
        own = (T.lt(T.const(-1), up) if back else T.TRUE) if full else T.le(ZERO, up)
        for here, cond, s in (('own', own, ONE), ('antipode', T.and_(T.not_(own), T.const(back)), T.const(-1))):
            if cond is T.FALSE:
                continue
            c = T.mul(s, up)
            X2, Y2 = T.mul(s, xi), T.mul(s, yi)
            g = lambda t: T.or_(T.not_(T.and_(cond, shown)), t)
            r2 = T.add(T.mul(Xv, Xv), T.mul(Yv, Yv))
            if kind == 'equal_area':
                ctx().oblige('%s: radius 2 sin(t/2)' % here, g(T.eq(r2, T.mul(T.const(2), T.sub(ONE, c)))))
            else:
                ctx().oblige('%s: radius tan(t/2)' % here, g(T.eq(T.mul(r2, T.add(ONE, c)), T.sub(ONE, c))))
            ctx().oblige('%s: azimuth kept' % here, g(T.eq(T.mul(Xv, Y2), T.mul(Yv, X2))))
            ctx().oblige('%s: azimuth not reversed' % here, g(T.le(ZERO, T.add(T.mul(Xv, X2), T.mul(Yv, Y2)))))
            ctx().oblige('%s: shown' % here, T.or_(T.not_(T.and_(cond, T.lt(T.const(-1), c))), shown))
        if not full and not back:
            ctx().oblige('not shown', T.or_(own, T.not_(T.or_(Xok, Yok))))
    return f


for _k in ('equal_area', 'equal_angle'):
    for _l, _f, _b in itertools.product((True, False), repeat=3):
        CHECK.proof('%s lower=%r full_sphere=%r back_project=%r' % (_k, _l, _f, _b), max_time=120)(projection(_k, _l, _f, _b))


# ---- the container ----------------------------------------------------------------------------
def container(calls=None):
    """the MTData class of the source; matplotlib is not there, numpy.cov and the conversions are stand-ins"""
    mp = types.ModuleType('matplotlib')
    mp.__version__ = '3.8.0'
    any_ = load._Anything
    for k in ('gridspec', 'patheffects', 'cm'):
        setattr(mp, k, any_(k))
    pt = types.ModuleType('patches')
    pt.FancyArrowPatch = type('FancyArrowPatch', (), {})
    mp.patches = pt
    mk = types.ModuleType('mplot3d')
    mk.proj3d = any_('proj3d')
    ex = types.ModuleType('extensions')
    ex.get_extensions = lambda group, defaults={}: (list(defaults.keys()), dict(defaults))
    rep = {'MTfit.utilities.extensions': ex, 'matplotlib': mp, 'matplotlib.gridspec': mp, 'matplotlib.patheffects': mp, 'matplotlib.patches': pt, 'mpl_toolkits.mplot3d': mk}
    L = load.Loader(replace=rep, stubs=('MTfit.inversion', 'MTfit.convert', 'MTfit.sampling'))
    L.wanted_prefixes = ('MTfit.plot.plot_classes', 'MTfit.plot.spherical_projection')
    M = L.load(MC)
    return M, L


# ---- run-time contract on the real package ----------------------------------------------------
def vec(rng, it):
    k = it % 12
    if k == 0:
        return np.array([0, 0, 1.])
    if k == 1:
        return np.array([0, 0, -1.])
    if k == 2:
        a = rng.uniform(0, 2 * np.pi)
        return np.array([math.cos(a), math.sin(a), 0.])
    if k == 3:
        a, e = rng.uniform(0, 2 * np.pi), 10. ** rng.uniform(-12, -2) * rng.choice([-1, 1])
        return np.array([math.cos(a) * math.sqrt(1 - e * e), math.sin(a) * math.sqrt(1 - e * e), e])
    if k == 4:
        a, t = rng.uniform(0, 2 * np.pi), 10. ** rng.uniform(-7, -2)
        return np.array([math.sin(t) * math.cos(a), math.sin(t) * math.sin(a), math.cos(t) * rng.choice([-1, 1])])
    v = rng.normal(size=3)
    return v / np.linalg.norm(v)


def tensors(rng, n):
    """columns: general tensors, double-couples, duplicates (also of a signed zero)"""
    out = []
    for k in range(n):
        u = rng.rand()
        if out and u < 0.3:
            out.append(out[int(rng.randint(len(out)))].copy())
            continue
        if u < 0.5:
            g, d = 0., 0.
        else:
            g, d = rng.uniform(-np.pi / 6, np.pi / 6), np.arcsin(rng.uniform(-1, 1))
        M = Q.tape(g, d, rng.uniform(0, 2 * np.pi), rng.uniform(0.02, 0.98), rng.uniform(-1.5, 1.5)) if hasattr(Q, 'tape') else None
        if M is None:
            s, dp, r = rng.uniform(0, 2 * np.pi), np.arccos(rng.uniform(0.02, 0.98)), rng.uniform(-3.1, 3.1)
            nn = np.array([-math.sin(dp) * math.sin(s), math.sin(dp) * math.cos(s), -math.cos(dp)])
            uu = np.array([math.cos(r) * math.cos(s) + math.cos(dp) * math.sin(r) * math.sin(s), math.cos(r) * math.sin(s) - math.cos(dp) * math.sin(r) * math.cos(s), -math.sin(dp) * math.sin(r)])
            t, p = (nn + uu) / math.sqrt(2), (nn - uu) / math.sqrt(2)
            b = np.cross(t, p)
            e = Q.lam(g, d)
            M = e[0] * np.outer(t, t) + e[1] * np.outer(b, b) + e[2] * np.outer(p, p)
        m = np.array([M[0, 0], M[1, 1], M[2, 2], math.sqrt(2) * M[0, 1], math.sqrt(2) * M[0, 2], math.sqrt(2) * M[1, 2]])
        if rng.rand() < 0.1:
            m = np.round(m * 2) / 2 + 0.
            if not np.any(m):
                m[3] = 1.
        out.append(m)
    return np.array(out).T


PER = ['gamma', 'delta', 'u', 'v', 'tau', 'k', 'strike', 'dip', 'rake', 'strike1', 'dip1', 'rake1', 'strike2', 'dip2', 'rake2', 'kappa', 'h', 'sigma', 'T', 'N', 'P', 'E', 'N1', 'N2', 'xx', 'yz',
       'explosion', 'area_displacement']


def standalone(V, m, c=False):
    """the stand-alone conversions of one tensor"""
    col = np.matrix(m).T
    t, n, p, e = V.MT6_TNPE(col)
    r = {'T': t, 'N': n, 'P': p, 'E': e}
    r['gamma'], r['delta'] = V.E_GD(e)
    r['tau'], r['k'] = V.E_tk(e)
    r['u'], r['v'] = V.tk_uv(r['tau'], r['k'])
    s, d, k = V.TNP_SDR(t, n, p)
    s2, d2, k2 = V.SDR_SDR(s, d, k)
    deg = 180 / np.pi
    r['strike'] = r['strike1'] = s * deg
    r['dip'] = r['dip1'] = d * deg
    r['rake'] = r['rake1'] = k * deg
    r['strike2'], r['dip2'], r['rake2'] = s2 * deg, d2 * deg, k2 * deg
    q = V.MT6_Tape(col)
    r['kappa'], r['h'], r['sigma'] = q[2], q[3], q[4]
    r['N1'], r['N2'] = V.TP_FP(t, p)
    r['xx'], r['yz'] = m[0], m[5]
    ph, r['explosion'], r['area_displacement'] = V.MT6_biaxes(np.asarray(col), c)
    return {k: np.asarray(v, dtype=float).ravel() for k, v in r.items()}


def values(x, key, n):
    """n rows of a per-sample attribute"""
    a = np.asarray(getattr(x, key), dtype=float)
    if key in ('T', 'N', 'P', 'E', 'N1', 'N2'):
        return a.reshape(3, n).T if a.size == 3 * n else None
    return a.reshape(n, 1) if a.size == n else None


def agree(a, b, key):
    if key in ('strike', 'strike1', 'strike2'):
        return abs((a[0] - b[0] + 180) % 360 - 180) < 1e-5
    if key in ('T', 'N', 'P', 'N1', 'N2'):
        return np.allclose(a, b, atol=1e-7) or np.allclose(a, -b, atol=1e-7)
    if key == 'kappa':
        return abs((a[0] - b[0] + np.pi) % (2 * np.pi) - np.pi) < 1e-6
    return np.allclose(a, b, atol=1e-6)


def plane(V, s, d, r):
    """tensor of a nodal plane in degrees, for comparison up to the choice of plane"""
    return np.asarray(V.SDR_TNP(*[np.radians(float(x)) for x in (s, d, r)])[0])


def statistics(b):
    b.rule = 'random sets of 1..12 tensors (duplicates, signed zeros, double-couples), probabilities with ties and zeros, selections by slice, mask, list and integer'
    P = conc.pkg('pure')
    M = P.more('plot.plot_classes')
    V = P['convert.moment_tensor_conversion']
    rng = b.np
    for it in range(b.count(130)):
        n = int(rng.choice([1, 1, 2, 3, 5, 6, 7, 12]))
        m = tensors(rng, n)
        kind = int(rng.randint(5))
        p = [rng.rand(n), rng.randint(0, 3, n) * 1.0, np.ones(n), 10. ** rng.uniform(-30, 2, n), np.where(rng.rand(n) < 0.5, 0, rng.rand(n))][kind]
        if not p.sum() > 0:
            p[int(rng.randint(n))] = 0.7
        inp = dict(MTs=m, probability=p)
        b.cur = inp
        b.case((n, kind, it), inp)
        x = M.MTData(m.copy(), list(p) if it % 3 == 0 else p.copy())
        b.check(len(x) == n and np.array_equal(np.asarray(x.MTs), m) and np.array_equal(np.ravel(x.probability), p), 'container does not hold the tensors and probabilities', **inp)
        # other accepted forms of the same tensors
        mats = np.array([Q.mat(m[:, k]) for k in range(n)])
        for y in [M.MTData(mats.copy(), p.copy())] + ([M.MTData(m.T.copy(), p.copy())] if n != 6 else []) + ([M.MTData(m[:, 0].copy()), M.MTData(mats[0].copy())] if n == 1 else []):
            b.check(np.asarray(y.MTs).shape == (6, n) and np.allclose(np.asarray(y.MTs) / np.linalg.norm(np.asarray(y.MTs), axis=0), m / np.linalg.norm(m, axis=0), atol=1e-12), 'tensors given as matrices or rows are not kept', form=repr(np.shape(y.MTs)), **inp)
        ref = [standalone(V, m[:, k]) for k in range(n)]
        b.check(np.allclose(np.asarray(M.MTData(m, p).mean).ravel(), (m * p).sum(1) / p.sum(), atol=1e-12), 'mean %r is not the weighted mean %r' % (np.asarray(M.MTData(m, p).mean).ravel().tolist(), ((m * p).sum(1) / p.sum()).tolist()), **inp)
        b.check(np.allclose(np.asarray(M.MTData(m).mean).ravel(), m.mean(1), atol=1e-12), 'mean without probabilities', **inp)
        for how in (lambda z: z.get_max_probability(), lambda z: z.max_probability, lambda z: z.get_max_probability(True)):
            single = how.__code__.co_consts[-1] is True
            try:
                w = how(M.MTData(m, p.copy()))
            except ValueError as e:
                b.fail('maximum-probability selection raises %r' % (e,), **inp)
                continue
            top = np.nonzero(p == p.max())[0]
            b.check(np.array_equal(np.asarray(w.MTs).reshape(6, -1), m[:, top] if not single else m[:, top[:1]]), 'maximum-probability selection is not the samples at the maximum', single=single, **inp)
        # unique
        for pr in ([], p):
            w = M.MTData(m, pr).get_unique_McMC()
            wm, wc = np.asarray(w.MTs), np.ravel(w.probability)
            want = {}
            for k in range(n):
                key = tuple((m[:, k] + 0.).tolist())
                want[key] = want.get(key, 0) + 1
            got = [tuple((wm[:, k] + 0.).tolist()) for k in range(wm.shape[1])]
            if b.check(sorted(got) == sorted(want) and len(wc) == len(got), 'unique samples %r, distinct tensors %d' % (wm.shape, len(want)), **inp):
                b.check([want[g] for g in got] == [int(q) for q in wc] and int(wc.sum()) == n, 'counts %r do not add up to the chain' % (wc.tolist(),), **inp)
        # derived parameters, before and after selection
        keys = [PER[int(k)] for k in rng.permutation(len(PER))[:6]]
        for key in keys:
            v = values(x, key, n)
            if not b.check(v is not None, '%s has the wrong number of values: %r' % (key, np.shape(getattr(x, key))), **inp):
                continue
            for k in range(n):
                if 'dip2' in key or 'rake2' in key or 'strike2' in key or key in ('kappa', 'h', 'sigma', 'strike', 'dip', 'rake', 'strike1', 'dip1', 'rake1'):
                    continue
                b.check(agree(v[k], ref[k][key], key), 'derived %s %r of sample %d, stand-alone %r' % (key, v[k].tolist(), k, ref[k][key].tolist()), **inp)
        # planes: the same double-couple part whatever plane is taken first
        y = M.MTData(m)
        for k in range(n):
            e = ref[k]['E']
            if min(abs(e[0] - e[1]), abs(e[1] - e[2])) < 1e-4:
                continue
            want = ref[k]
            TT = np.outer(want['T'], want['T']) - np.outer(want['P'], want['P'])
            for s, d, r, sc in (('strike1', 'dip1', 'rake1', 1.), ('strike2', 'dip2', 'rake2', 1.), ('kappa', 'h', 'sigma', 0)):
                a, dd, rr = [float(values(y, q, n)[k][0]) for q in (s, d, r)]
                if not sc:
                    a, dd, rr = math.degrees(a), math.degrees(math.acos(max(-1, min(1, dd)))), math.degrees(rr)
                t, nn, pp = [np.asarray(q, dtype=float).ravel() for q in V.SDR_TNP(math.radians(a), math.radians(dd), math.radians(rr))]
                b.check(np.allclose(np.outer(t, t) - np.outer(pp, pp), TT, atol=1e-5), 'derived %s, %s, %s of sample %d is not a plane of the tensor: %r' % (s, d, r, k, (a, dd, rr)), **inp)
            if abs(abs(want['rake'][0]) - 90) > 1e-3:
                b.check(abs(float(values(y, 'sigma', n)[k][0])) <= np.pi / 2 + 1e-9, 'derived sigma out of range', **inp)
        # selections
        for sel in (slice(0, n, 2), slice(None, None, -1), np.array(rng.rand(n) < 0.5), [int(q) for q in rng.randint(0, n, 3)], np.array(rng.permutation(n)), int(rng.randint(n)), slice(n - 1, n), slice(0, 1), -1):
            if isinstance(sel, np.ndarray) and sel.dtype == bool and not sel.any():
                continue
            idx = np.atleast_1d(np.arange(n)[sel])
            w = x[:, sel]
            q = len(idx)
            if not b.check(np.asarray(w.MTs).shape == (6, q) and np.array_equal(np.asarray(w.MTs), m[:, idx]), 'selection %r has other tensors' % (sel,), **inp):
                continue
            b.check(np.array_equal(np.ravel(w.probability), p[idx]), 'selection %r has probabilities %r, expected %r' % (sel, np.ravel(w.probability).tolist(), p[idx].tolist()), **inp)
            for key in keys:
                full = values(x, key, n)
                if key in w.__dict__ or rng.rand() < 0.3:
                    v = values(w, key, q)
                    b.check(v is not None and full is not None and all(agree(v[k], full[idx[k]], key) for k in range(q)), 'selection %r: %s no longer belongs to the tensors' % (sel, key), **inp)
            # derived only after the selection
            late = PER[int(rng.randint(len(PER)))]
            v = values(w, late, q)
            full = values(M.MTData(m), late, n)
            b.check(v is not None and full is not None and all(agree(v[k], full[idx[k]], late) for k in range(q) if
                    min(abs(ref[idx[k]]['E'][0] - ref[idx[k]]['E'][1]), abs(ref[idx[k]]['E'][1] - ref[idx[k]]['E'][2])) > 1e-4), 'selection %r: %s derived afterwards differs' % (sel, late), **inp)
            b.check(np.array_equal(np.asarray(x.MTs), m) and np.array_equal(np.ravel(x.probability), p), 'a selection changed the container', **inp)
        # from a result dictionary with converted parameters
        d = {'moment_tensor_space': m.copy(), 'probability': p.copy(), 'ln_pdf': np.log(p + 1e-300).reshape(1, -1)}
        d.update({k: v for k, v in V.output_convert(m.copy()).items()})
        w = M.MTData(d)
        b.check(np.array_equal(np.asarray(w.MTs), m) and np.array_equal(np.ravel(w.probability), p), 'container made from results differs', **inp)
        for key, src in (('gamma', 'g'), ('delta', 'd'), ('kappa', 'k'), ('h', 'h'), ('sigma', 's'), ('strike', 'S1'), ('dip2', 'D2'), ('rake', 'R1'), ('u', 'u'), ('v', 'v')):
            if src in d:
                b.check(np.array_equal(np.ravel(getattr(w, key)), np.ravel(d[src])), 'converted %s of the results is not kept as %s' % (src, key), **inp)
        idx = rng.permutation(n)
        z = w[:, idx]
        for key, src in (('gamma', 'g'), ('kappa', 'k'), ('dip2', 'D2'), ('v', 'v')):
            b.check(np.array_equal(np.ravel(getattr(z, key)), np.ravel(d[src])[idx]), 'selection of results: %s not aligned' % key, **inp)


def assignment(b):
    b.rule = 'assigning a column and reading back derived parameters'
    P = conc.pkg('pure')
    M = P.more('plot.plot_classes')
    rng = b.np
    for it in range(b.count(30)):
        n = int(rng.randint(2, 6))
        m, new = tensors(rng, n), tensors(rng, 1)
        x = M.MTData(m.copy())
        keys = [PER[int(k)] for k in rng.permutation(len(PER) - 4)[:3]]
        for k in keys:
            getattr(x, k)
        j = int(rng.randint(n))
        inp = dict(MTs=m, column=j, new=new, derived=keys)
        b.cur = inp
        b.case((n, it), inp)
        x[:, j:j + 1] = new
        m2 = m.copy()
        m2[:, j:j + 1] = new
        b.check(np.array_equal(np.asarray(x.MTs), m2), 'assignment lost', **inp)
        y = M.MTData(m2)
        for k in keys:
            a, c = values(x, k, n), values(y, k, n)
            b.check(a is not None and all(agree(p, q, k) for p, q in zip(a, c)), 'after an assignment %s does not belong to the tensors' % k, **inp)


def projections(b):
    b.rule = 'unit vectors (poles, equator, near both, random), singly and in arrays, all hemisphere and projection options'
    P = conc.pkg('pure')
    S = P.more('plot.spherical_projection')
    rng = b.np
    for it in range(b.count(300)):
        n = int(rng.choice([1, 1, 3, 8]))
        v = np.array([vec(rng, int(rng.randint(12))) for _ in range(n)])
        for kind, lower, full, back in itertools.product(('equal_area', 'equal_angle'), (True, False), (True, False), (True, False)):
            inp = dict(vectors=v, kind=kind, lower=lower, full_sphere=full, back_project=back)
            b.cur = inp
            forms = [tuple(v[:, k].copy() for k in range(3))]
            if n == 1:
                forms += [tuple(float(v[0, k]) for k in range(3)), tuple(np.array(v[0, k]) for k in range(3))]
            else:
                forms += [tuple(list(v[:, k]) for k in range(3)), tuple(v[:, k].reshape(1, n).copy() for k in range(3))]
            for fi, a in enumerate(forms):
                keep = [np.array(q) for q in a]
                X, Y = getattr(S, kind)(*a, lower=lower, full_sphere=full, back_project=back)
                b.check(all(np.array_equal(p, np.array(q)) for p, q in zip(keep, a)), 'projection changes its input', **inp)
                X, Y = np.ravel(X), np.ravel(Y)
                if not b.check(len(X) == len(Y) == n, 'projected %d vectors to %d points' % (n, len(X)), form=fi, **inp):
                    continue
                for k in range(n):
                    w = v[k] if lower else v[k] * np.array([1, 1, -1])
                    up = w[2] < 0
                    if up and not full and not back:
                        b.check(math.isnan(X[k]) and math.isnan(Y[k]), 'upper-hemisphere vector %r shown at %r' % (v[k].tolist(), (X[k], Y[k])), **inp)
                        continue
                    pole = w[2] <= -1 + 1e-15
                    if full and pole:
                        if not back:
                            continue         # the point at infinity / the rim: azimuth undefined
                        if math.isnan(X[k]):
                            continue
                    anti = (up and not full) or (full and pole and back)
                    z = -w if anti else w
                    t = math.atan2(math.hypot(z[0], z[1]), z[2])
                    r = 2 * math.sin(t / 2) if kind == 'equal_area' else math.tan(t / 2)
                    h = math.hypot(z[0], z[1])
                    c, s = (z[0] / h, z[1] / h) if h > 0 else (1., 0.)
                    tol = (1e-9 + 1e-14 / (math.cos(t / 2) ** 2 + 1e-16)) * (1 + r)
                    b.check(abs(X[k] - r * c) <= tol and abs(Y[k] - r * s) <= tol, 'vector %r projected to %r, expected %r' % (v[k].tolist(), (X[k], Y[k]), (r * c, r * s)), form=fi, **inp)
        b.case((n, it), dict(vectors=v.tolist()))
        # projection axis: the axis goes to the centre and the radius is that of the angle from the axis
        ax = vec(rng, int(rng.randint(12)))
        for axis in (list(ax), ax * 3.):
            for kind in ('equal_area', 'equal_angle'):
                X, Y = getattr(S, kind)(v[:, 0].copy(), v[:, 1].copy(), v[:, 2].copy(), projection_axis=axis, full_sphere=True)
                X, Y = np.ravel(X), np.ravel(Y)
                for k in range(n):
                    t = math.atan2(np.linalg.norm(np.cross(ax, v[k])), ax.dot(v[k]))
                    if t > 3:
                        continue
                    r = 2 * math.sin(t / 2) if kind == 'equal_area' else math.tan(t / 2)
                    b.check(len(X) == n and abs(math.hypot(X[k], Y[k]) - r) < 1e-6 * (1 + r), 'projection about the axis %r: radius %r, expected %r' % (ax.tolist(), math.hypot(X[k], Y[k]), r), vectors=v, kind=kind)


CHECK.runtime('statistics')(statistics)
CHECK.runtime('assignment')(assignment)
CHECK.runtime('projection')(projections)


# ---- contracts on the container ----------------------------------------------------------------
def held(n=None, prob=True):
    """the container of the source with n tensors and probabilities"""
    M, L = container()
    M.unique_columns = lambda *a, **k: (_ for _ in ()).throw(Unsupported('unique_columns'))
    cls = M.MTData
    cls.__symlen__ = lambda self: self.MTs.shape[1]
    n = sym.int_var('n') if n is None else n
    if hasattr(n, 't'):
        sym.assume(n >= 2)
    m = arr.input_array('m', [6, n])
    p = arr.input_array('p', [n], pre=lambda t: T.le(ZERO, t))
    cov = []
    L.np.cov = lambda x, *a, **k: cov.append((x, k)) or 'covariance'
    M._6sphere_prior = None
    x = cls(m, p) if prob else cls(m)
    return M, x, n, m, p


def at(a, *i):
    v = a.xat(tuple(T.const(k, I) if isinstance(k, int) else k for k in i))
    return v.v


def index(n, name='i'):
    i = T.var(name, I)
    ctx().assume(T.le(T.IZERO, i))
    ctx().assume(T.lt(i, n.t))
    return i


@CHECK.proof('container: keeps tensors and probabilities', max_time=60)
def p_holds():
    M, x, n, m, p = held()
    i = index(n)
    ctx().oblige('as many probabilities as tensors', T.and_(T.eq(x.probability.vshape[0], n.t), T.eq(x.MTs.vshape[1], n.t)))
    for r in range(6):
        ctx().oblige('tensor %d' % r, T.eq(at(x.MTs, r, i), at(m, r, i)))
    ctx().oblige('probability', T.eq(at(x.probability, i), at(p, i)))


@CHECK.proof('container: mean is the probability-weighted mean', max_time=60)
def p_mean():
    M, x, n, m, p = held()
    mean, _ = x.get_mean()
    k = T.fresh('k', I)
    sp_ = T.big('bigsum', k, n.t, at(p, k))
    c_ok_(mean.shape[0] == 6 and mean.shape[1] == 1)
    for r in range(6):
        k = T.fresh('k', I)
        s = T.big('bigsum', k, n.t, T.mul(at(m, r, k), at(p, k)))
        v = mean.xat((T.const(r, I), T.IZERO)) if hasattr(mean, 'xat') else None
        t = v.v if v is not None else sym.real(sym.lift(mean[r, 0]).t)
        ctx().oblige('component %d' % r, T.eq(t, T.div(s, sp_)))


def c_ok_(v):
    ctx().oblige('shape', T.const(bool(v)))


def selected(kind):
    def f():
        M, x, n, m, p = held()
        g = {q: arr.input_array(q, [n]) for q in ('gamma', 'kappa', 'strike2', 'explosion')}
        for q, a in g.items():
            setattr(x, q, a)
        TT = arr.input_array('T', [3, n])
        x.T = TT
        if kind == 'mask':
            sel = arr.input_array('sel', [n], kind='b')
            nz = arr.nonzero1(sel)
            pos, cnt = (lambda j: nz.at((j,))), nz.vshape[0]
        else:
            q = sym.int_var('q')
            sym.assume(q >= 1)
            sel = arr.input_array('idx', [q], kind='i', pre=lambda t: T.and_(T.le(T.IZERO, t), T.lt(t, n.t)))
            pos, cnt = (lambda j: sel.at((j,))), q.t
        y = x[:, sel]
        j = T.var('j', I)
        ctx().assume(T.le(T.IZERO, j))
        ctx().assume(T.lt(j, cnt))
        ctx().oblige('as many tensors and probabilities as selected', T.and_(T.eq(y.MTs.vshape[1], cnt), T.eq(y.probability.vshape[0], cnt)))
        for r in range(6):
            ctx().oblige('tensor component %d' % r, T.eq(at(y.MTs, r, j), at(m, r, pos(j))))
        ctx().oblige('probability', T.eq(at(y.probability, j), at(p, pos(j))))
        for q_, a in g.items():
            v = y.__dict__[q_]
            ctx().oblige('%s stays with its tensor' % q_, T.and_(T.eq(v.vshape[0], cnt), T.eq(at(v, j), at(a, pos(j)))))
        for r in range(3):
            ctx().oblige('axis component %d stays with its tensor' % r, T.eq(at(y.__dict__['T'], r, j), at(TT, r, pos(j))))
        i = index(n)
        ctx().oblige('the container itself is unchanged', T.and_(T.eq(at(x.MTs, 0, i), at(m, 0, i)), T.eq(at(x.probability, i), at(p, i))))
    return f


for _k in ('mask', 'positions'):
    CHECK.proof('container: selection by %s keeps everything aligned' % _k, max_time=90)(selected(_k))


@CHECK.proof('container: maximum-probability selection', max_time=90)
def p_max():
    M, x, n, m, p = held()
    got = []
    cls = x.__class__
    orig = cls.__getitem__
    cls.__getitem__ = lambda self, a: got.append(a) or orig(self, a)
    y = x.get_max_probability()
    c_ok_(len(got) == 1 and got[0][0] == slice(None))
    mask = got[0][1]
    i = index(n)
    k = T.fresh('k', I)
    top = T.big('forall', k, n.t, T.le(at(p, k), at(p, i)))
    b = mask.at((i,)) if mask.kind == 'b' else None
    if b is None:
        raise Unsupported('selection of the maxima is not a mask')
    ctx().oblige('selected exactly when no probability is larger', T.eq(b, top))
