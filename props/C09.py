"""C09: the sample store keeps each non-zero sample once, aligned, and counts every try."""
import math
import numpy as np
from dpv import report, load, sym, arr, xv, rules, conc, term as T
from dpv.paths import ctx
from dpv.term import R, I
CHECK = report.Check('C09')
CHECK.covers('MTfit.sampling.Sample.append', 'MTfit.sampling.FileSample', 'MTfit.sampling.Sample.output', 'MTfit.sampling.Sample.__len__',
             'MTfit.probability.probability.LnPDF.nonzero', 'MTfit.probability.probability.LnPDF.append',
             'MTfit.algorithms.monte_carlo.BaseMonteCarloRandomSample.iterate',
             'MTfit.algorithms.monte_carlo.IterationSample.check_finished', 'MTfit.algorithms.base.BaseAlgorithm.output')
CHECK.assume('every batch is well formed: as many log-probabilities as candidates, none NaN or +infinity',
             'scale factors are given with every batch that has non-zero samples, or with none')
ZERO, ONE = T.ZERO, T.ONE


class Growth(object):
    """loop contract of the capacity growth: the columns already stored do not change, the number of
    columns does not shrink, and each turn adds a positive number of columns (so it ends)"""
    frame = ('size_check', 'self.moment_tensors')

    def room(self, a, s, m):
        return T.lt(m, T.sub(a.vshape[1], T.add(s._i, T.IZERO) if isinstance(s._i, T.Term) else sym.lift(s._i).t))

    def enter(self, loc):
        self.old = loc['self'].moment_tensors.copy()

    def havoc(self, loc):
        s = loc['self']
        old = self.old
        cap = T.fresh('cap', I)
        ctx().assume(T.le(old.vshape[1], cap))
        nm = T.fresh('grown', R).args[0]
        s.moment_tensors = arr.np_matrix(arr.make_arr([old.vshape[0], cap], lambda i: arr._sel('f', T.lt(i[1], old.vshape[1]), old.xat(i), xv.X(T.fn(nm, *i)))))
        self.head = s.moment_tensors.copy()
        need = loc['moment_tensors'].vshape[1]
        return {'size_check': sym.mkb(T.lt(need, T.sub(cap, sym.lift(s._i).t)))}

    def step(self, loc):
        new, head = loc['self'].moment_tensors, self.head
        c = ctx()
        i, j = T.var('row', I), T.var('col', I)
        c.oblige('growth: adds columns', T.lt(head.vshape[1], new.vshape[1]))
        c.oblige('growth: keeps the rows', T.eq(head.vshape[0], new.vshape[0]))
        a, b = head.xat((i, j)), new.xat((i, j))
        c.oblige('growth: stored columns unchanged', T.implies(T.and_(T.le(T.IZERO, j), T.lt(j, head.vshape[1])), T.eq(a.v, b.v)))
        need = loc['moment_tensors'].vshape[1]
        c.oblige('growth: the flag says whether there is room', T.iff(sym.lift(loc['size_check']).t if not isinstance(loc['size_check'], bool) else T.const(loc['size_check']),
                                                                      T.lt(need, T.sub(new.vshape[1], sym.lift(loc['self']._i).t))))


def store(Sm, rows, events, scale=False, filled=None):
    """an arbitrary reachable store: i0 columns filled, as many log-probabilities"""
    s = Sm.Sample(initial_sample_size=sym.int_var('size'), number_events=events)
    sym.assume(sym.int_var('size') >= 1)
    cap, i0, n0 = sym.int_var('cap0'), sym.int_var('i0'), sym.int_var('n0')
    if filled:
        i0 = filled
    for e in (sym.int_var('i0') >= 0, cap >= i0, n0 >= i0):
        sym.assume(e)
    s.moment_tensors = arr.np_matrix(arr.input_array('S', [rows, cap]))
    s._i, s.n = i0, n0
    s.ln_pdf._ln_pdf = arr.np_matrix(arr.input_array('l', [1, i0]))
    if scale:
        s.scale_factor = arr.input_array('sc', [i0])
    return s


def append_contract(form, events, aslist, scale, first=False, ext=()):
    def f():
        L = load.Loader(loops={'MTfit.sampling': {('Sample.append', None): Growth()}})
        Sm = L.load('MTfit.sampling')
        P = L.load('MTfit.probability.probability')
        c = ctx()
        m, nb = sym.int_var('m'), sym.int_var('n')
        sym.assume(m >= 0)
        sym.assume(nb >= m)
        rows = 6 * events
        s = store(Sm, rows, events, scale and not first)
        if first:
            sym.assume(s._i == 0)
        i0, n0 = s._i, s.n
        S0, l0 = s.moment_tensors.copy(), s.ln_pdf._ln_pdf.copy()
        sc0 = s.scale_factor.copy() if scale and not first else None
        if aslist:
            ms = [arr.np_matrix(arr.input_array('M%d' % e, [6, m])) for e in range(events)]
            col = lambda r, j: ms[r // 6].xat((T.const(r % 6, I), j)).v
            mts = list(ms)
        else:
            mts = arr.np_matrix(arr.input_array('M', [rows, m]))
            col = lambda r, j: T.fn('M', T.const(r, I), j)
        k = 2 if form == 'two rows' else 1
        a = arr.input_array('L', [k, m], ninf=True)
        zero = lambda j: T.and_(*[a.xat((T.const(q, I), j)).n for q in range(k)])
        lp = {'matrix': lambda: arr.np_matrix(a), 'array': lambda: a, 'LnPDF': lambda: P.LnPDF(a), 'two rows': lambda: P.LnPDF(a)}[form]()
        kw = {}
        if scale:
            scn = arr.input_array('T', [m])
            kw['scale_factor'] = scn
        if ext:
            kw['extensions_scale_factor'] = {e: arr.input_array('X' + e, [m]) for e in ext}
            exn = dict(kw['extensions_scale_factor'])
            if not first:
                s.extensions_scale_factor = {e: arr.input_array('O' + e, [i0]) for e in ext}
                exo = {e: v.copy() for e, v in s.extensions_scale_factor.items()}
        s.append(mts, lp, nb, **kw)
        # ghost: nz is the increasing enumeration of exactly the non-zero candidates
        nz = arr.nonzero1(arr.make_arr([m], lambda i: T.not_(zero(i[0])), 'b'))
        cnt = nz.vshape[0]
        i1 = sym.lift(s._i).t
        I0 = sym.lift(i0).t
        c.oblige('counts every try', T.eq(sym.lift(s.n).t, sym.lift(n0 + nb).t))
        c.oblige('fill index grows by the number of non-zero candidates', T.eq(i1, T.add(I0, cnt)))
        ln = s.ln_pdf._ln_pdf
        c.oblige('one log-probability per stored sample', T.eq(ln.vshape[1], i1))
        if k == 1:
            c.oblige('one row of log-probabilities', T.eq(ln.vshape[0], T.IONE))
        A = s.moment_tensors
        c.oblige('room for every stored sample', T.le(i1, A.vshape[1]))
        c.oblige('six rows per event', T.eq(A.vshape[0], T.const(rows, I)))
        j, q = T.var('j', I), T.var('q', I)
        old = T.and_(T.le(T.IZERO, j), T.lt(j, I0))
        new = T.and_(T.le(T.IZERO, q), T.lt(q, cnt))
        src = nz.at((q,))
        at = T.add(I0, q)
        for r in range(rows):
            rr = T.const(r, I)
            c.oblige('stored tensor kept (row %d)' % r, T.implies(old, T.eq(A.xat((rr, j)).v, S0.xat((rr, j)).v)))
            c.oblige('appended tensor (row %d)' % r, T.implies(new, T.eq(A.xat((rr, at)).v, col(r, src))))
        if k == 1:
            c.oblige('stored log-probability kept', T.implies(old, T.eq(ln.xat((T.IZERO, j)).v, l0.xat((T.IZERO, j)).v)))
        for w in range(k):
            g, h = ln.xat((T.const(w, I), at)), a.xat((T.const(w, I), src))
            c.oblige('appended log-probability (row %d)' % w, T.implies(new, T.and_(T.eq(g.v, h.v), T.iff(g.n, h.n))))
        if scale:
            z = arr.toarr(s.scale_factor)
            c.oblige('one scale factor per stored sample', T.eq(z.vshape[0], i1))
            if z.vshape[0] is T.IZERO:
                return
            if not first:
                c.oblige('stored scale factor kept', T.implies(old, T.eq(z.xat((j,)).v, sc0.xat((j,)).v)))
            c.oblige('appended scale factor', T.implies(new, T.eq(z.xat((at,)).v, scn.xat((src,)).v)))
        for e in ext:
            got = getattr(s, 'extensions_scale_factor', {})
            if e not in got:
                c.oblige('extension scale factors stored (%s)' % e, T.eq(i1, T.IZERO) if first else T.const(False))
                continue
            z = arr.toarr(got[e])
            c.oblige('one extension scale factor per stored sample (%s)' % e, T.eq(z.vshape[0], i1))
            if z.vshape[0] is T.IZERO:
                continue
            if not first:
                c.oblige('stored extension scale factor kept (%s)' % e, T.implies(old, T.eq(z.xat((j,)).v, exo[e].xat((j,)).v)))
            c.oblige('appended extension scale factor (%s)' % e, T.implies(new, T.eq(z.xat((at,)).v, exn[e].xat((src,)).v)))
    return f


for _f in ('matrix', 'array', 'LnPDF'):
    CHECK.proof('append: %s, one event' % _f)(append_contract(_f, 1, False, False))
CHECK.proof('append: list of two events')(append_contract('LnPDF', 2, True, False))
CHECK.proof('append: list of two events, scale factors')(append_contract('LnPDF', 2, True, True))
CHECK.proof('append: first batch with scale factors')(append_contract('LnPDF', 2, True, True, True))
CHECK.proof('append: extension scale factors')(append_contract('LnPDF', 2, True, True, False, ('a', 'b')))
CHECK.proof('append: first batch with extension scale factors')(append_contract('LnPDF', 2, True, False, True, ('a', 'b', 'c')))
CHECK.proof('append: list of three events')(append_contract('matrix', 3, True, False))
CHECK.proof('append: two rows of log-probabilities')(append_contract('two rows', 1, False, False))


def output_contract(events, normalise, discard, scale, one, rows=1):
    def f():
        L = load.Loader()
        Sm = L.load('MTfit.sampling')
        seen = []
        Sm.unique_columns = lambda x, **k: seen.append(x) or 'columns'
        c = ctx()
        s = store(Sm, 6 * events, events, scale, 1 if one else None)
        if not one:
            sym.assume(s._i >= 2)
        i0 = s._i
        l = arr.input_array('l', [rows, i0], ninf=rows > 1)
        if rows > 1:
            k = T.fresh('k', I)
            c.assume(T.big('forall', k, sym.lift(i0).t, T.not_(T.and_(*[l.xat((T.const(q, I), k)).n for q in range(rows)]))))
        s.ln_pdf._ln_pdf = arr.np_matrix(l)
        S0 = s.moment_tensors.copy()
        N = sym.int_var('N')
        sym.assume(N >= s.n)
        D = sym.real_var('D')
        sym.assume(D >= 1)
        out, text = s.output(normalise=normalise, convert=False, n_samples=N, discard=D if discard else 0)
        # specification
        k = T.fresh('k', I)
        I0 = T.IONE if one else i0.t
        at = lambda j: l.xat((T.IZERO, T.IZERO if one else j)).v
        tot = rules.log(T.big('bigsum', k, I0, rules.exp(at(k))))
        keep = None
        if discard:
            mx = T.big('bigmax', k, I0, at(k))
            level = T.sub(mx, rules.log(T.mul(D.t, sym.real(N.t))))
            # a sample is removed only when its probability is below the stated fraction of the maximum
            mask = lambda j: T.lt(T.sub(at(j), tot), T.sub(T.sub(mx, tot), rules.log(T.mul(D.t, sym.real(N.t))))) if normalise else T.lt(at(j), level)
            nz = arr.nonzero1(arr.make_arr([I0], lambda i: T.lt(level, at(i[0])), 'b'))
            cnt, src = nz.vshape[0], lambda q: nz.at((q,))
        else:
            cnt, src = I0, lambda q: q
        q = T.IZERO if one else T.var('q', I)
        new = T.and_(T.le(T.IZERO, q), T.lt(q, cnt))
        p = arr.toarr(out['probability'])
        pat = lambda j: p.xat((j,) if p.ndim == 1 else (T.IZERO, j))
        ln = arr.toarr(out['ln_pdf'])
        lat = lambda j: ln.xat((j,) if ln.ndim == 1 else (T.IZERO, j))
        c.oblige('one probability per reported sample', T.eq(p.vshape[-1], cnt))
        c.oblige('one log-probability per reported sample', T.eq(ln.vshape[-1], cnt))
        want = rules.exp(T.sub(at(src(q)), tot)) if normalise else rules.exp(at(src(q)))
        c.oblige('probability is the stored value, normalised', T.implies(new, T.eq(pat(q).v, want)))
        c.oblige('log-probability is the stored value', T.implies(new, T.and_(T.eq(lat(q).v, at(src(q))), T.not_(lat(q).n))))
        for e in range(events):
            M = out['moment_tensor_space_%d' % (e + 1)] if events > 1 else out['moment_tensor_space']
            c.oblige('one tensor per reported sample', T.eq(M.vshape[1], cnt))
            c.oblige('six rows', T.eq(M.vshape[0], T.const(6, I)))
            for r in range(6):
                c.oblige('tensor %d row %d' % (e, r), T.implies(new, T.eq(M.xat((T.const(r, I), q)).v, S0.xat((T.const(6 * e + r, I), src(q))).v)))
        c.oblige('store unchanged', T.and_(T.eq(sym.lift(s._i if not isinstance(s._i, int) else sym.SI(T.const(s._i, I))).t, I0), T.eq(sym.lift(s.n).t, T.var('n0', I))))
        if not discard and normalise:
            c.oblige('total one', T.eq(T.big('bigsum', k, I0, pat(k).v), ONE))
        if scale:
            z = out['scale_factors']
            if isinstance(z, list):
                c.oblige('one scale factor per reported sample', T.eq(T.const(len(z), I), cnt))
                zat = lambda j: sym.lift(z[0]).t
            else:
                c.oblige('one scale factor per reported sample', T.eq(z.n, cnt))
                zat = lambda j: sym.lift(z.at(j)).t
            c.oblige('scale factor of the sample', T.implies(new, T.eq(zat(q), T.fn('sc', src(q)))))
    return f


for _e in (1, 2):
    for _n in (True, False):
        for _d in (False, True):
            for _o in (True, False):
                CHECK.proof('output: %d event(s), %s%s%s' % (_e, 'one sample' if _o else 'two or more samples', '' if _n else ', not normalised', ', discarding' if _d else ''))(output_contract(_e, _n, _d, _e > 1, _o))


def iterate_contract(cls, first):
    """IterationSample: the batch goes to the store once and unchanged; the run ends exactly when the
    tried count has reached the limit"""
    def f():
        L = load.Loader()
        L.plain('MTfit.algorithms.base')
        mc = L.load('MTfit.algorithms.monte_carlo')
        a = mc.IterationSample(max_samples=sym.int_var('limit'), number_samples=sym.int_var('batch'))
        n0, nb = sym.int_var('n0'), sym.int_var('n')
        calls = []

        class Store(object):
            n = n0

            def append(self, **k):
                calls.append(k)
                self.n = self.n + k['n']
        a.pdf_sample = Store()
        a.start_time = 0.0
        fresh = object()
        a.random_sample = lambda: fresh
        a.iteration = 0 if first else 7
        res = {'moment_tensors': object(), 'ln_pdf': object(), 'n': nb}
        task, end = a.iterate(dict(res))
        c = ctx()
        c.oblige('batch stored once, unchanged', T.const(len(calls) == 1 and calls[0] == res))
        c.oblige('new candidates are drawn', T.const(task is fresh))
        done = T.le(sym.int_var('limit').t, T.add(n0.t, nb.t))
        e = T.const(bool(end)) if isinstance(end, (bool, int)) else sym.lift(end).t
        c.oblige('ends exactly when the limit is reached', T.iff(e, done))
    return f


CHECK.proof('IterationSample.iterate: first batch')(iterate_contract('IterationSample', True))
CHECK.proof('IterationSample.iterate: later batch')(iterate_contract('IterationSample', False))


# ---- run-time contracts -----------------------------------------------------------------------
def batch(rng, events, kind):
    m = int(rng.choice([1, 2, 3, 7, 19]))
    M = rng.randn(6 * events, m)
    x = rng.uniform(-30, 0, m) + rng.choice([0.0, -800.0, 600.0])
    x[rng.rand(m) < rng.choice([0, 0.3, 0.7])] = -np.inf
    if kind == 'zero':
        x[:] = -np.inf
    return M, x, m + int(rng.choice([0, 0, 5, 1000]))


def runner(mode):
    def run(b):
        pk = conc.pkg(mode)
        P, Sm, mc = pk['probability.probability'], pk['sampling'], pk['algorithms.monte_carlo']
        pk.activate()
        b.rule = 'random histories of batches; the store and the output recomputed from the batches'
        rng = b.np
        LD = np.longdouble
        for it in range(b.count(500)):
            ev = int(rng.choice([1, 1, 1, 2, 3]))
            size = int(rng.choice([1, 2, 5, 40, 100000]))
            scale = ev > 1 and rng.rand() < 0.6
            nb = int(rng.randint(0, 7))
            allzero = rng.rand() < 0.1
            algorithm = rng.rand() < 0.4
            ext = ['a', 'b', 'c'][:int(rng.choice([0, 0, 1, 2, 3]))] if ev > 1 else []
            es = {e: [np.zeros(0)] for e in ext}
            if algorithm:
                lim = int(rng.choice([1, 20, 1000, 3000]))
                a = mc.IterationSample(max_samples=lim, number_samples=3, number_events=ev)
                a.initialise()
                s = a.pdf_sample
                s.__init__(initial_sample_size=size, number_events=ev)
            else:
                s = Sm.Sample(initial_sample_size=size, number_events=ev)
            Ms, xs, zs, n, hist = [np.zeros((6 * ev, 0))], [np.zeros(0)], [np.zeros(0)], 0, []
            if size == 100000 and rng.rand() < 0.05:
                nb = 2
            for q in range(nb):
                M, x, t = batch(rng, ev, 'zero' if allzero or rng.rand() < 0.15 else '')
                if size == 100000 and it % 100 == 0:
                    M, x = np.tile(M, 7000), np.tile(x, 7000)
                    t = t + x.size
                z = rng.rand(x.size)
                form = rng.choice(['matrix', 'array', 'LnPDF'] + (['float'] if x.size == 1 else []))
                lp = {'matrix': lambda: np.matrix(x), 'array': lambda: x.reshape(1, -1).copy(), 'LnPDF': lambda: P.LnPDF(x.copy()), 'float': lambda: float(x[0])}[form]()
                mts = np.matrix(M) if ev == 1 or rng.rand() < 0.3 else [np.matrix(M[6 * e:6 * e + 6]) for e in range(ev)]
                if form == 'float' and isinstance(mts, list):
                    mts = np.matrix(M)
                hist.append({'moment_tensors': M[:, :30], 'ln_pdf': x[:30], 'n': t, 'form': form, 'as list': isinstance(mts, list)})
                inp = dict(history=hist, size=size, events=ev, scale_factors=bool(scale), mode=mode)
                b.cur = inp
                kw = dict(scale_factor=z.copy()) if scale else {}
                zx = {e: rng.rand(x.size) for e in ext}
                if ext:
                    kw['extensions_scale_factor'] = {e: v.copy() for e, v in zx.items()}
                if algorithm:
                    task, end = a.iterate(dict(moment_tensors=mts, ln_pdf=lp, n=t, **kw))
                    b.check(bool(end) == (n + t >= lim), 'random sampling of %d tried, limit %d: end is %r' % (n + t, lim, end), **inp)
                else:
                    s.append(mts, lp, t, **kw)
                f = x > -np.inf
                Ms.append(M[:, f])
                xs.append(x[f])
                zs.append(z[f])
                for e in ext:
                    es[e].append(zx[e][f])
                n += t
                b.check(len(s) == n, 'tried count %r, batches total %d' % (len(s), n), **inp)
            M, x, z = np.concatenate(Ms, 1), np.concatenate(xs), np.concatenate(zs)
            inp = dict(history=hist, size=size, events=ev, scale_factors=bool(scale), mode=mode)
            for e in ext:
                w = np.concatenate(es[e])
                g = np.asarray(getattr(s, 'extensions_scale_factor', {}).get(e, np.zeros(0)), float).ravel()
                b.check(np.array_equal(g, w), 'extension scale factors %r are not those of the stored samples' % e, **inp)
            b.case(('history', it), {'batches': [len(h['ln_pdf']) for h in hist], 'stored': x.size, 'events': ev})
            for norm, disc in ((True, 0), (False, 0), (True, 10000), (True, float(rng.choice([1.0, 2.0, 50.0])))):
                inp.update(normalise=norm, discard=disc)
                b.cur = inp
                conv = rng.rand() < 0.2 and x.size < 100
                if algorithm:
                    o, txt = a.output(norm, conv, disc)
                    b.check(o.get('total_number_samples') == n, 'reported number of tried samples %r, batches total %d' % (o.get('total_number_samples'), n), **inp)
                else:
                    o, txt = s.output(norm, conv, n, disc)
                b.check(isinstance(txt, str), 'no text', **inp)
                if not x.size:
                    b.check('probability' in o and np.size(o['probability']) == 0 and np.size(o.get('ln_pdf', [])) == 0, 'all-zero history reported as %r' % (o,), **inp)
                    continue
                p, l = np.asarray(o['probability']).flatten(), np.asarray(o['ln_pdf']).flatten()
                w = x.astype(LD) - x.max()
                w = np.exp(w - np.log(np.exp(w).sum())) if norm else np.exp(x.astype(LD))
                low = x - x.max()
                cut = -np.log(disc * n) if disc and n else -np.inf
                must, may = low > cut + 1e-9, low > cut - 1e-9
                spaces = [np.asarray(o['moment_tensor_space' if ev == 1 else 'moment_tensor_space_%d' % (e + 1)]) for e in range(ev)]
                G = np.concatenate(spaces, 0)
                ok = G.shape[1] == p.size == l.size and must.sum() <= p.size <= may.sum()
                b.check(ok, 'reports %d tensors, %d probabilities, %d log-probabilities; %d stored, %d to keep' % (G.shape[1], p.size, l.size, x.size, must.sum()), **inp)
                if not ok:
                    continue
                keep = must if must.sum() == p.size else may
                b.check(np.array_equal(G, M[:, keep]), 'reported tensors are not the stored ones in order', **inp)
                b.check(np.allclose(l, x[keep], rtol=1e-12, atol=1e-12), 'reported log-probabilities are not the stored ones in order', **inp)
                b.check(np.allclose(p, np.asarray(w[keep], dtype=float), rtol=1e-8 if not disc else 2e-4 * n, atol=1e-300), 'probabilities are not the stored ones%s' % (', normalised' if norm else ''), **inp)
                if norm and not disc:
                    b.check(abs(p.sum() * o.get('dV', 1) - 1) < 1e-9, 'probabilities total %r' % p.sum(), **inp)
                if scale:
                    sf = o.get('scale_factors')
                    b.check(sf is not None and np.array_equal(np.asarray(sf, dtype=float), z[keep]), 'scale factors are not the stored ones in order', **inp)
    return run



def file_runner(b):
    """the store kept on disk, with recovery in the middle of a history"""
    import os
    import shutil
    import tempfile
    pk = conc.pkg('pure')
    Sm = pk['sampling']
    pk.activate()
    b.rule = 'random histories through FileSample, some recovered from the file half way'
    rng = b.np
    d = tempfile.mkdtemp(prefix='c09')
    here = os.getcwd()
    try:
        os.chdir(d)
        for it in range(b.count(14)):
            ev = 1 + it % 2
            scale = ev == 2 and it % 4 == 1
            safe = bool(rng.randint(2))
            mk = lambda: Sm.FileSample(fname='s%d' % it, file_safe=safe, number_events=ev)
            s = mk()
            nb = int(rng.choice([1, 3, 12]))
            again = int(rng.randint(0, nb + 1))
            Ms, xs, zs, n = [np.zeros((6 * ev, 0))], [np.zeros(0)], [np.zeros(0)], 0
            for q in range(nb):
                if q == again and q:
                    s = mk()
                M, x, t = batch(rng, ev, 'zero' if rng.rand() < 0.15 else '')
                z = rng.rand(x.size)
                inp = dict(batches=nb, recovered=again, events=ev, scale_factors=scale, file_safe=safe, moment_tensors=M, ln_pdf=x)
                b.cur = inp
                s.append(np.matrix(M), np.matrix(x), t, **(dict(scale_factor=z.copy()) if scale else {}))
                f = x > -np.inf
                Ms.append(M[:, f])
                xs.append(x[f])
                zs.append(z[f])
                n += t
            M, x, z = np.concatenate(Ms, 1), np.concatenate(xs), np.concatenate(zs)
            b.case(('file', it), {'batches': nb, 'stored': x.size, 'events': ev})
            b.check(int(np.squeeze(len(s))) == n, 'tried count %r, batches total %d' % (len(s), n), **inp)
            o, txt = s.output(True, False, n, 0)
            if not x.size:
                b.check(np.size(o['probability']) == 0, 'all-zero history reported as %r' % (o,), **inp)
                continue
            G = np.concatenate([np.asarray(o['moment_tensor_space' if ev == 1 else 'moment_tensor_space_%d' % (e + 1)]) for e in range(ev)], 0)
            l = np.asarray(o['ln_pdf']).flatten()
            b.check(G.shape == M.shape and np.array_equal(G, M), 'reported tensors are not the stored ones in order', **inp)
            b.check(l.shape == x.shape and np.array_equal(l, x), 'reported log-probabilities are not the stored ones in order', **inp)
            b.check(not scale or np.array_equal(np.asarray(o['scale_factors'], dtype=float), z), 'scale factors are not the stored ones in order', **inp)
    finally:
        os.chdir(here)
        shutil.rmtree(d, True)

CHECK.runtime('pure Python')(runner('pure'))
CHECK.runtime('compiled', compiled=True)(runner('c'))
CHECK.runtime('stored on disk')(file_runner)
