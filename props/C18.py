"""C18: reading and binning location-uncertainty samples conserves probability mass."""
import itertools
import os
import shutil
import tempfile
import builtins
from fractions import Fraction
import numpy as np
from dpv import report, load, sym, conc, term as T
from dpv.paths import ctx, Unsupported
from dpv.term import R, I, B
CHECK = report.Check('C18')
MS = 'MTfit.extensions.scatangle'
CHECK.covers(MS + '.parse_scatangle', MS + '._output_scatangle', MS + '.bin_scatangle', MS + '.BinScatangleTask (bounded)',
             MS + '.location_pdf (reading, bounded)', 'MTfit.extensions.cscatangle.bin_scatangle (bounded)', 'MTfit.extensions.cscatangle.get_multipliers (bounded)')
CHECK.assume('float() of a number in the file is an arbitrary real; str() and float() of a double are inverse (IEEE repr)',
             'numpy.random.choice(n, k, False) returns k distinct indices below n',
             'layouts of the file (number of samples and stations, line endings, trailing blank line) are enumerated up to 3 samples of 2 stations in the reading contract; more in the run-time contract',
             'greedy merging: proved for every number of samples when the loop has the while form of the source (loop contracts), otherwise for up to 4 samples')


# ---- stand-ins for the file -------------------------------------------------------------------
class Tok(str):
    """a word of the file that spells an unknown number"""
    val = None

    def _k(self, s):
        r = Tok(s)
        r.val = self.val
        return r

    def strip(self, *a):
        return self._k(str.strip(self, *a))

    def rstrip(self, *a):
        return self._k(str.rstrip(self, *a))

    def lstrip(self, *a):
        return self._k(str.lstrip(self, *a))


class Line(str):
    """a line of the file; `toks` are its words"""
    toks = ()

    def _k(self, s):
        r = Line(s)
        r.toks = self.toks
        return r

    def strip(self, *a):
        return self._k(str.strip(self, *a))

    def rstrip(self, *a):
        return self._k(str.rstrip(self, *a))

    def lstrip(self, *a):
        return self._k(str.lstrip(self, *a))

    def split(self, *a):
        if a and a != (None,):
            return str.split(self, *a)
        return list(self.toks)


class File(object):
    def __init__(self, lines):
        self.lines = lines

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def readlines(self):
        return list(self.lines)

    def __iter__(self):
        return iter(self.lines)

    def close(self):
        pass


def word(name):
    t = Tok('#' + name)
    t.val = sym.real_var(name)
    return t


def line(toks, sep=' ', end='\n'):
    r = Line(sep.join(toks) + end)
    r.toks = tuple(toks)
    return r


def mod(lines):
    L = load.Loader()
    L.wanted_prefixes = L.wanted_prefixes + ('MTfit.extensions',)
    M = L.plain(MS)
    fl = M.__dict__['__builtins__']['float']

    class symf(fl):
        pass

    def tofloat(x=0.0):
        if isinstance(x, (Tok, Line)):
            v = x.val if isinstance(x, Tok) else (x.toks[0].val if len(x.toks) == 1 else None)
            if v is None:
                raise ValueError('could not convert string to float')
            return v
        return fl(x)
    M.float = tofloat
    M.open = lambda fn, mode='r', *a, **k: File(lines)
    return M


def num(v):
    return sym.real(sym.lift(v).t)


def ident(v, t):
    return T.eq(num(v), t)


def c_ok(what, v):
    ctx().oblige(what, T.const(bool(v)))
    return bool(v)


def column(x):
    x = np.asarray(x, dtype=object)
    return x


def layout(n, k, blank='\n', trailing=True, sep='\t', extra_blank=False):
    """n samples of k stations: lines and what they carry"""
    lines, want = [], []
    for s in range(n):
        w = word('w%d' % s)
        ctx().assume(T.lt(T.ZERO, num(w.val)))
        lines.append(line([w], sep, blank))
        rows = []
        for q in range(k):
            a, t = word('a%d_%d' % (s, q)), word('t%d_%d' % (s, q))
            nm = 'S%d' % q
            lines.append(line([nm, a, t], sep, blank))
            rows.append((nm, num(a.val), num(t.val)))
        want.append((num(w.val), rows))
        if s < n - 1 or trailing:
            lines.append(line([], '', blank))
            if extra_blank:
                lines.append(line([], '', blank))
    return lines, want


def same_records(recs, mult, want):
    if not c_ok('one record and one weight per block', isinstance(recs, list) and len(recs) == len(want) == len(mult)):
        return
    for s, (w, rows) in enumerate(want):
        r = recs[s]
        if not c_ok('stations of block %d' % s, list(r['Name']) == [x[0] for x in rows]):
            continue
        A, O = column(r['Azimuth']), column(r['TakeOffAngle'])
        if not c_ok('angle columns of block %d' % s, A.shape == O.shape == (len(rows), 1)):
            continue
        for q, (nm, a, t) in enumerate(rows):
            ctx().oblige('azimuth %d of block %d' % (q, s), ident(A[q, 0], a))
            ctx().oblige('take-off angle %d of block %d' % (q, s), ident(O[q, 0], t))
        ctx().oblige('weight of block %d' % s, ident(mult[s], w))


def reading(n, k, kw):
    def f():
        lines, want = layout(n, k, **kw)
        M = mod(lines)
        recs, mult = M.parse_scatangle('f.scatangle')
        same_records(recs, mult, want)
    return f


for _n, _k in ((1, 1), (2, 1), (2, 2), (3, 2)):
    for _kw in ({}, {'trailing': False}, {'blank': '\r\n'}, {'blank': '\r\n', 'trailing': False}, {'extra_blank': True}, {'sep': '   '}):
        CHECK.proof('reading %d blocks of %d stations %s' % (_n, _k, ' '.join('%s=%r' % z for z in sorted(_kw.items()))), max_time=120)(reading(_n, _k, _kw))


def near(x, y, half):
    d = T.sub(x, y)
    return T.and_(T.lt(d, half), T.lt(T.neg(half), d))


def merging(n, k, given=None):
    """every weight, angle and bin size: n samples"""
    def f():
        lines, want = layout(n, k)
        M = mod(lines)
        bs = sym.real_var('bin')
        ctx().assume(T.lt(T.ZERO, bs.t))
        recs, mult = M.parse_scatangle('f.scatangle', 0, bs, False)
        merged(recs, mult, want, bs.t)
    return f


def merged(recs, mult, want, bs):
    half = T.mul(bs, T.const(Fraction(1, 2)))
    if not c_ok('as many weights as bins', len(recs) == len(mult) and len(recs) >= 1):
        return
    ctx().oblige('bin weights add up to the sample weights', T.eq(T.add(*[num(m) for m in mult]), T.add(*[w for w, _ in want])))
    # each bin keeps one original record; the others are within half a bin of the record of their bin
    kept = []
    for r in recs:
        A, O = column(r['Azimuth']), column(r['TakeOffAngle'])
        hit = [s for s, (w, rows) in enumerate(want) if s not in kept and list(r['Name']) == [x[0] for x in rows] and A.shape == (len(rows), 1) == O.shape and
               all(num(A[q, 0]) is a and num(O[q, 0]) is t for q, (nm, a, t) in enumerate(rows))]
        if not c_ok('a bin keeps an original record', len(hit) >= 1):
            return
        kept.append(hit[0])
    c_ok('bins keep the order of the file', kept == sorted(kept))
    gone = [s for s in range(len(want)) if s not in kept]

    def close(s, q):
        return T.and_(*[T.and_(near(x[1], y[1], half), near(x[2], y[2], half)) for x, y in zip(want[s][1], want[q][1])])
    for s in gone:
        ctx().oblige('sample %d is merged only into a sample within half a bin of every angle' % s, T.or_(*[close(s, q) for q in kept]))
    # the weights are a distribution of the gone samples over bins close to them
    opts = []
    for a in itertools.product(kept, repeat=len(gone)):
        opts.append(T.and_(*([T.eq(num(m), T.add(want[q][0], *[want[s][0] for s, x in zip(gone, a) if x == q])) for q, m in zip(kept, mult)] +
                             [close(s, q) for s, q in zip(gone, a)])))
    ctx().oblige('each bin weighs its own sample and the ones merged into it', T.or_(*opts))


for _n, _k in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1)):
    CHECK.proof('binning %d samples of %d stations' % (_n, _k), max_time=240, max_paths=4000)(merging(_n, _k))


@CHECK.proof('zero bin size merges nothing', max_time=60)
def p_zero():
    lines, want = layout(3, 1)
    for bs in (0, 0.0):
        recs, mult = mod(lines).parse_scatangle('f.scatangle', 0, bs, False)
        same_records(recs, mult, want)


def subsampling(n, k, size):
    def f():
        lines, want = layout(n, k)
        for pick in itertools.permutations(range(n), min(size, n)):
            M = mod(lines)
            calls = []

            def choice(a, m=None, replace=True, p=None):
                calls.append((a, m, replace, p))
                return np.array(pick[:m])
            M.np.random = type('Rnd', (), {'choice': staticmethod(choice)})
            try:
                recs, mult = M.parse_scatangle('f.scatangle', size)
            finally:
                del M.np.random
            if size < n:
                if not c_ok('samples drawn once, without replacement, uniformly', len(calls) == 1 and int(calls[0][0]) == n and int(calls[0][1]) == size and calls[0][2] is False and calls[0][3] is None):
                    return
            same_records(recs, mult, [want[s] for s in pick] if size < n else want)
    return f


for _n, _z in ((1, 1), (2, 1), (3, 1), (3, 2), (3, 3), (3, 5)):
    CHECK.proof('sub-sampling %d of %d' % (_z, _n), max_time=60)(subsampling(_n, 1, _z))


# ---- run-time contract on the real package ----------------------------------------------------
def spell(rng, x):
    return rng.choice([repr(float(x)), '%.1f' % x, '%.3f' % x, '%g' % x])


def file_text(rng, recs, eol, trailing, sep):
    out = []
    for i, (w, rows) in enumerate(recs):
        out.append(w)
        for nm, a, t in rows:
            out.append(sep.join([nm, a, t]))
        if i < len(recs) - 1 or trailing:
            out.append('')
    return eol.join(out) + eol


def want_of(recs):
    return [(float(w), [(nm, float(a), float(t)) for nm, a, t in rows]) for w, rows in recs]


def as_tuple(r):
    A, O = np.asarray(r['Azimuth'], dtype=float), np.asarray(r['TakeOffAngle'], dtype=float)
    if A.shape != (len(r['Name']), 1) or O.shape != A.shape:
        return None
    return tuple((str(n), float(a), float(t)) for n, a, t in zip(r['Name'], A[:, 0], O[:, 0]))


def binned_ok(b, recs, mult, want, bs, inp, how):
    tot = sum(w for w, _ in want)
    if not b.check(len(recs) == len(mult) and 1 <= len(recs) <= len(want), '%s: %d records, %d weights' % (how, len(recs), len(mult)), **inp):
        return
    b.check(abs(sum(float(m) for m in mult) - tot) <= 1e-9 * tot, '%s: the weights of the bins sum to %r, those of the samples to %r' % (how, float(sum(mult)), tot), **inp)
    used, kept = set(), []
    for r in recs:
        t = as_tuple(r)
        hit = [i for i, (w, rows) in enumerate(want) if i not in used and tuple(rows) == t]
        if not b.check(t is not None and hit, '%s: a bin holds no original record' % how, **inp):
            return
        used.add(hit[0])
        kept.append(hit[0])

    def close(s, q):
        x, y = {z[0]: z for z in want[s][1]}, {z[0]: z for z in want[q][1]}
        return set(x) == set(y) and all(abs(x[k][1] - y[k][1]) < bs / 2. + 1e-9 and abs(x[k][2] - y[k][2]) < bs / 2. + 1e-9 for k in x)
    for s in range(len(want)):
        if s not in used:
            b.check(any(close(s, q) for q in kept), '%s: sample %d is merged although it is not within half a bin of a retained sample' % (how, s), **inp)
    # weights: each bin holds at least its own weight, and the excess comes from samples close to it
    for q, m in zip(kept, mult):
        cap = want[q][0] + sum(want[s][0] for s in range(len(want)) if s not in used and close(s, q))
        b.check(want[q][0] - 1e-9 * tot <= float(m) <= cap + 1e-9 * tot, '%s: bin weight %r outside [%r, %r]' % (how, float(m), want[q][0], cap), **inp)
    # hall: any set of merged samples must fit into the bins near them
    gone = [s for s in range(len(want)) if s not in used]
    if len(gone) <= 8:
        for k in range(1, len(gone) + 1):
            for sub in itertools.combinations(gone, k):
                room = sum(float(m) - want[q][0] for q, m in zip(kept, mult) if any(close(s, q) for s in sub))
                b.check(sum(want[s][0] for s in sub) <= room + 1e-9 * tot, '%s: the weight of merged samples %r went to bins not near them' % (how, sub), **inp)


def runner(mode):
    def run(b):
        b.rule = 'random scatter files (1..40 samples, 1..30 stations, weights, line endings, separators, trailing blank line), bin sizes, sub-sample sizes'
        P = conc.pkg(mode)
        S = P['extensions.scatangle']
        b.check((S.cscatangle is not None and S.cscatangle is not False) == (mode == 'c'), 'extension present: %r' % (S.cscatangle,))
        rng = b.np
        d = tempfile.mkdtemp(prefix='dpvC18')
        try:
            for it in range(b.count(220)):
                n = int(rng.choice([1, 1, 2, 3, 4, 5, 8, 12, 40]))
                k = int(rng.choice([1, 1, 2, 3, 5, 30]))
                base = [('S%03d' % q if rng.rand() < 0.8 else 'st-%d' % q, rng.uniform(0, 360), rng.uniform(0, 180)) for q in range(k)]
                spread = float(rng.choice([0.01, 0.4, 1, 5, 60]))
                ws = str(rng.choice(['unit', 'any', 'mean1', 'big']))
                order = it % 9 == 4        # stations listed in another order from block to block
                sets = it % 9 == 7         # some blocks lack stations
                recs = []
                for s in range(n):
                    if s and rng.rand() < 0.15:
                        rows = list(recs[int(rng.randint(len(recs)))][1])
                    else:
                        f = '%.1f' if rng.rand() < 0.5 else '%r'
                        rows = [(nm, f % float(az + rng.uniform(-1, 1) * spread), f % float(to + rng.uniform(-1, 1) * spread)) for nm, az, to in base]
                        if order and rng.rand() < 0.5:
                            rows = [rows[z] for z in rng.permutation(k)]
                            if rng.rand() < 0.5 and k > 1:
                                # the same angles line by line, attached to other stations
                                rows = [(rows[z][0], y[1], y[2]) for z, y in enumerate(recs[0][1] if recs and len(recs[0][1]) == k else rows)]
                        if sets and k > 1 and rng.rand() < 0.5:
                            rows = rows[:k - 1]
                    w = {'unit': '1.0', 'any': repr(float(rng.uniform(1e-3, 900))), 'mean1': '%r' % (1 + 0.5 * (-1) ** s), 'big': '%.1f' % rng.uniform(1, 1e6)}[ws]
                    recs.append((w, rows))
                eol, trailing, sep = str(rng.choice(['\n', '\r\n'])), bool(rng.rand() < 0.6), str(rng.choice([' ', '\t', '   ']))
                text = file_text(rng, recs, eol, trailing, sep)
                inp = dict(file=text if len(text) < 3000 else text[:3000], mode=mode)
                b.cur = inp
                b.case((n, k, it), inp)
                fn = os.path.join(d, 'f%d.scatangle' % it)
                with open(fn, 'w', newline='') as f:
                    f.write(text)
                want = want_of(recs)
                r, m = S.parse_scatangle(fn)
                ok = b.check(len(r) == len(m) == n and all(as_tuple(x) == tuple(y[1]) for x, y in zip(r, want)) and all(float(x) == y[0] for x, y in zip(m, want)),
                             'reading: %d records %r' % (len(r), [float(x) for x in m][:6]), **inp)
                # writer
                out = os.path.join(d, 'o%d.scatangle' % it)
                S._output_scatangle(out, r, m)
                r2, m2 = S.parse_scatangle(out)
                b.check(len(r2) == len(r) and all(as_tuple(x) == as_tuple(y) for x, y in zip(r2, r)) and [float(x) for x in m2] == [float(x) for x in m], 'written records read back differently', **inp)
                r, m = S.parse_scatangle(fn, 0, 0)
                b.check(len(r) == n and [float(x) for x in m] == [y[0] for y in want], 'zero bin size: %d of %d records' % (len(r), n), **inp)
                # sub-sampling
                size = int(rng.randint(1, n + 3))
                r, m = S.parse_scatangle(fn, size)
                pool = [(tuple(y[1]), y[0]) for y in want]
                b.check(len(r) == len(m) == min(size, n), 'sub-sampling %d of %d gives %d' % (size, n, len(r)), **inp)
                for x, y in zip(r, m):
                    t = (as_tuple(x), float(y))
                    if not b.check(t in pool, 'a sub-sample is not a record of the file with its weight (or is drawn twice)', size=size, **inp):
                        break
                    pool.remove(t)
                # binning
                bs = float(rng.choice([0.05, 0.5, 1, 2, 2 * spread, 10, 45, 400]))
                res = {}
                for how in ((True, False) if mode == 'c' else (True,)):
                    r, m = S.parse_scatangle(fn, 0, bs, how)
                    res[how] = (r, m)
                    binned_ok(b, r, m, want, bs, dict(bin_size=bs, **inp), 'binning%s' % ('' if mode != 'c' else ' (compiled)' if how else ' (fallback)'))
                if mode == 'c':
                    (r, m), (r2, m2) = res[True], res[False]
                    b.check([as_tuple(x) for x in r] == [as_tuple(x) for x in r2] and np.allclose([float(x) for x in m], [float(x) for x in m2], rtol=1e-9), 'compiled and Python binning differ', bin_size=bs, **inp)
                r, m = S.parse_scatangle(fn, 0, 0, True)
                b.check(len(r) == n, 'zero bin size merges', **inp)
                if len({tuple(sorted(z[0] for z in y[1])) for y in want}) == 1:
                    size = int(rng.randint(1, n + 2))
                    r, m = S.parse_scatangle(fn, size, bs)
                    ok = all((as_tuple(x) in [tuple(y[1]) for y in want]) for x in r)
                    b.check(ok and 1 <= len(r) <= min(size, n), 'binning of %d sub-samples' % size, bin_size=bs, **inp)
                    if size >= n:
                        b.check(abs(sum(float(x) for x in m) - sum(y[0] for y in want)) <= 1e-9 * sum(y[0] for y in want), 'binned sub-samples lose weight', **inp)
                # command: read, bin, write
                old, new = S.bin_scatangle(fn, 0, bs)
                b.check(old == fn and os.path.isfile(new) and new != fn, 'binning command file names', **inp)
                r, m = S.parse_scatangle(new)
                binned_ok(b, r, m, want, bs, dict(bin_size=bs, **inp), 'binned file')
                with open(fn, newline='') as f:
                    b.check(f.read() == text, 'the input file was changed', **inp)
                if it % 11 == 0:
                    fn2 = os.path.join(d, 'g%d.scatangle' % it)
                    shutil.copy(fn, fn2)
                    for files in ([fn], [fn, fn2]):
                        got = S.bin_scatangle_files(list(files), 0, bs, parallel=False)
                        b.check(len(got) == len(files) and all(os.path.isfile(z) for z in got) and len(set(got)) == len(files), 'binned files %r of %r' % (got, files), **inp)
                        for z in got:
                            r, m = S.parse_scatangle(z)
                            binned_ok(b, r, m, want, bs, dict(bin_size=bs, **inp), 'binned files')
                for z in os.listdir(d):
                    os.remove(os.path.join(d, z))
        finally:
            shutil.rmtree(d, True)
    return run


CHECK.runtime('pure Python')(runner('pure'))
CHECK.runtime('compiled', compiled=True)(runner('c'))
