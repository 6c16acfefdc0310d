"""C11: station coefficients are the far-field radiation and stay aligned with the data."""
import itertools
import math
import numpy as np
from dpv import report, load, seq, sym, arr, xv, rules, conc, term as T
from dpv.paths import ctx
from dpv.term import R, I
CHECK = report.Check('C11')
CHECK.covers('MTfit.inversion.station_angles', 'MTfit.inversion.polarity_matrix', 'MTfit.inversion.polarity_probability_matrix',
             'MTfit.inversion.amplitude_ratio_matrix', 'MTfit.inversion.relative_amplitude_ratio_matrix')
CHECK.assume('station names within one list are distinct; list, set and sorted of a list of names behave as in Python (an enumeration of the common names)',
             'measured amplitudes are non-zero and standard deviations are not negative',
             'location samples: proved for one and two samples with any number of stations; more samples in the run-time contract',
             'at least two stations in the symbolic array contracts of station_angles (one station: run-time contract)')

S2 = math.sqrt(2)
PHASES = ('P', 'SH', 'SV')

POL = ['PPolarity', 'SHPolarity', 'SVPolarity']
PROB = ['PPolarityProbability', 'SHPolarityProbability', 'SVPolarityProbability']
RAT = [p + q + 'AmplitudeRatio' for p in ('P/SH', 'P/SV', 'SH/SV') for q in ('', 'RMS', 'Q', 'QRMS')]
AMP = [p + q + 'Amplitude' for p in PHASES for q in ('', 'RMS', 'Q', 'QRMS')]


def phases(key):
    k = key.replace('Probability', '').replace('Ratio', '').replace('Polarity', '').replace('Amplitude', '').replace('RMS', '')
    k = k[:-1] if k.endswith('Q') else k
    return k.split('/')


# ---- contracts --------------------------------------------------------------------------------
def six(name='m'):
    m = [T.var('%s%d' % (name, k), R) for k in range(6)]
    r = rules.sqrt(T.const(2))
    M = [[m[0], T.div(m[3], r), T.div(m[4], r)], [T.div(m[3], r), m[1], T.div(m[5], r)], [T.div(m[4], r), T.div(m[5], r), m[2]]]
    return m, M


def symdir(az, to, phase):
    s, c, S, C = rules.sin(az), rules.cos(az), rules.sin(to), rules.cos(to)
    g = [T.mul(c, S), T.mul(s, S), C]
    e = {'P': g, 'SH': [T.neg(s), c, T.ZERO], 'SV': [T.mul(c, C), T.mul(s, C), T.neg(S)]}[phase]
    return g, e


def bilinear(e, M, g):
    return T.add(*[T.mul(e[i], M[i][j], g[j]) for i in range(3) for j in range(3)])


def symcoef(az, to, phase):
    """the six coefficients of e.M.g (degrees in)"""
    g, e = symdir(rad(az), rad(to), phase)
    r = rules.sqrt(T.const(2))
    h = lambda i, j: T.div(T.add(T.mul(e[i], g[j]), T.mul(e[j], g[i])), r)
    return [T.mul(e[0], g[0]), T.mul(e[1], g[1]), T.mul(e[2], g[2]), h(0, 1), h(0, 2), h(1, 2)]


def rad(x):
    return T.div(T.mul(x, T.PI), T.const(180))


def stations(n, tag=''):
    return {'Azimuth': arr.np_matrix(arr.input_array('az' + tag, [n, 1])), 'TakeOffAngle': arr.np_matrix(arr.input_array('to' + tag, [n, 1]))}


def angles_contract(phase, radians, spelled):
    def f():
        Iv = load.Loader().load('MTfit.inversion')
        n = sym.int_var('n')
        sym.assume(n >= 2)
        st = stations(n)
        a = Iv.station_angles(st if not radians else (st['Azimuth'], st['TakeOffAngle']), spelled, radians)
        ctx().oblige('one row per station, six columns', T.and_(T.const(len(a.shape) == 2), T.eq(a.vshape[0], n.t), T.eq(a.vshape[-1], T.const(6, I))))
        i = T.var('i', I)
        ctx().assume(T.le(T.IZERO, i))
        ctx().assume(T.lt(i, n.t))
        az, to = st['Azimuth'].xat((i, T.IZERO)).v, st['TakeOffAngle'].xat((i, T.IZERO)).v
        m, M = six()
        g, e = symdir(az if radians else rad(az), to if radians else rad(to), phase)
        amp = T.add(*[T.mul(a.xat((i, T.const(k, I))).v, m[k]) for k in range(6)])
        ctx().oblige('amplitude is e.M.g for every tensor', T.eq(amp, bilinear(e, M, g)))
        for k in range(6):
            x = a.xat((i, T.const(k, I)))
            ctx().oblige('finite %d' % k, T.and_(T.not_(x.n), T.not_(x.p)))
    return f


for _p in PHASES:
    for _r in (False, True):
        for _s in {_p, _p.lower(), _p + 'Q'}:
            CHECK.proof('station_angles %s (%s, %s)' % (_p, _s, 'radians' if _r else 'degrees'))(angles_contract(_p, _r, _s))


@CHECK.proof('rotation about the vertical')
def p_rotation():
    az, to, t = [T.var(x, R) for x in ('az', 'to', 't')]
    m, M = six()
    c, s = rules.cos(t), rules.sin(t)
    Q = [[c, T.neg(s), T.ZERO], [s, c, T.ZERO], [T.ZERO, T.ZERO, T.ONE]]
    N = [[T.add(*[T.mul(Q[i][k], M[k][l], Q[j][l]) for k in range(3) for l in range(3)]) for j in range(3)] for i in range(3)]
    for ph in PHASES:
        g, e = symdir(az, to, ph)
        h, f = symdir(T.add(az, t), to, ph)
        ctx().oblige(ph, T.eq(bilinear(e, M, g), bilinear(f, N, h)))

# callers are checked against this contract of station_angles, not its body
def angles_spec(calls):
    def station_angles(st, phase, radians=False):
        ph = phase.upper()
        ph = ph[:-1] if ph.endswith('Q') else ph
        if '/' in ph:
            return tuple(station_angles(st, p, radians) for p in ph.split('/'))
        if ph not in PHASES or radians:
            raise ValueError('phase not recognised')
        az, to = arr.toarr(st['Azimuth']).copy(), arr.toarr(st['TakeOffAngle']).copy()
        if not ctx().branch(T.eq(az.vshape[0], to.vshape[0])):
            raise ValueError('angles differ in length')
        r = arr.make_arr([az.vshape[0], T.const(6, I)], lambda i: xv.X(T.fn('coef_' + ph, az.xat((i[0], T.IZERO)).v, to.xat((i[0], T.IZERO)).v, i[1]), T.FALSE, T.FALSE, T.FALSE))
        r._ismatrix = True
        return r
    return station_angles


def obs(key, n, ipp=False, mat=True):
    tag = '_' + key.replace('/', '')
    m = arr.np_matrix if mat else (lambda x: x)
    cols = 2 if 'Prob' in key or 'Ratio' in key else 1
    d = {'Stations': dict(stations(n, tag), Name=seq.names('N' + tag, n)), 'Measured': m(arr.input_array('x' + tag, [n, cols])), 'Error': m(arr.input_array('e' + tag, [n, cols]))}
    if ipp:
        d['IncorrectPolarityProbability'] = m(arr.input_array('w' + tag, [n, 1]))
    return d


def val(a, *idx):
    return a.xat(tuple(T.const(i, I) if isinstance(i, int) else i for i in idx)).v


def builder_contract(keys, ipps, build, what, nloc=0):
    """every row: coefficients, measurement and error of one and the same station of one type;
    with location samples (any number of stations in any order) the stations named in both"""
    def f():
        Iv = load.Loader().load('MTfit.inversion')
        Iv.station_angles = angles_spec([])
        ns, data = {}, {'UID': 'x'}
        for key, w in zip(keys, ipps):
            ns[key] = sym.int_var('n_' + key.replace('/', ''))
            sym.assume(ns[key] >= 1)
            data[key] = obs(key, ns[key], w)
            if 'Ampl' in key:       # measured amplitudes are not zero, standard deviations not negative
                i = T.fresh('i', I)
                for c in range(2 if 'Ratio' in key else 1):
                    ctx().assume(T.big('forall', i, ns[key].t, T.le(T.ZERO, val(data[key]['Error'], i, c))))
                for c in range(2 if 'Ratio' in key else 1):
                    ctx().assume(T.big('forall', i, ns[key].t, T.not_(T.eq(val(data[key]['Measured'], i, c), T.ZERO))))
        loc = False
        if nloc:
            nl = sym.int_var('n_loc')
            sym.assume(nl >= 1)
            ln = seq.names('L', nl)
            loc = [dict(stations(nl, '_loc%d' % k), Name=ln) for k in range(nloc)]
        keep = [dict(s) for s in loc or ()]
        out = getattr(Iv, build)(data, loc) if loc else getattr(Iv, build)(data)
        if loc:
            ctx().oblige('location samples unchanged', T.const(all(set(a) == set(b) and all(a[k] is b[k] for k in a) for a, b in zip(loc, keep))))
        off = T.IZERO
        if build.startswith('rel'):
            got = seq.seq_of(out[3])
            ctx().oblige('one list of names per type', T.const(len(got) == len(keys)))
        for q, key in enumerate(sorted(keys)):
            n = ns[key].t
            if loc:
                # the enumeration of the common stations of this type
                n = T.var('n_common%d' % q, I)
            i = T.var('i_' + key.replace('/', ''), I)
            ctx().assume(T.le(T.IZERO, i))
            ctx().assume(T.lt(i, n))
            row = T.add(off, i)
            if loc:
                u = T.fn('common%d' % q, i, sort=I)
                src = ctx().ghost['sets']['common%d' % q]
                ctx().oblige('stations named in both', T.const(set(src) == {'L', 'N_' + key.replace('/', '')}))
                j = T.fn('index_L', u, sort=I)
                i = T.fn('index_N_' + key.replace('/', ''), u, sort=I)
                pos = [(s, j) for s in loc]
            else:
                u = data[key]['Stations']['Name'].at(i).t
                pos = [(data[key]['Stations'], i)]
            if build.startswith('rel'):
                ctx().oblige('%s: station name' % key, T.and_(T.eq(got[q].n, n), T.eq(got[q].at(T.sub(row, off)).t, u)))
            for nm, g in what(key, data[key], i, row, out, pos):
                ctx().oblige('%s: %s' % (key, nm), g)
            off = T.add(off, n)
        for a in out:
            for z in (a if isinstance(a, tuple) else (a,)):
                if isinstance(z, arr.SymArr):
                    ctx().oblige('one row per datum', T.or_(T.eq(z.vshape[0], off), T.const(False)))
    return f


def csp(key, pos, c, which=0):
    ph = phases(key)
    ph = ph[min(which, len(ph) - 1)]
    return T.fn('coef_' + ph, val(pos[0]['Azimuth'], pos[1], 0), val(pos[0]['TakeOffAngle'], pos[1], 0), T.const(c, I))


def each(pos):
    return [(k, p, c) for k, p in enumerate(pos) for c in range(6)]


def w_of(d, i):
    return val(d['IncorrectPolarityProbability'], i, 0) if 'IncorrectPolarityProbability' in d else T.ZERO


def got_w(w, row):
    return val(arr.toarr(w), row) if isinstance(w, arr.SymArr) else sym.lift(w if not hasattr(w, 'item') else w.item()).t


def pol_rows(key, d, i, row, out, pos):
    a, e, w = out
    x = val(d['Measured'], i, 0)
    for k, p, c in each(pos):
        yield 'sample %d coefficient %d times polarity' % (k, c), T.eq(val(a, row, k, c), T.mul(csp(key, p, c), x))
    yield 'error', T.eq(val(e, row), val(d['Error'], i, 0))
    yield 'mispick probability', T.eq(got_w(w, row), w_of(d, i))


def prob_rows(key, d, i, row, out, pos):
    a, (pp, pn), w = out
    for k, p, c in each(pos):
        yield 'sample %d coefficient %d' % (k, c), T.eq(val(a, row, k, c), csp(key, p, c))
    yield 'positive probability', T.eq(val(pp, row), val(d['Measured'], i, 0))
    yield 'negative probability', T.eq(val(pn, row), val(d['Measured'], i, 1))
    yield 'mispick probability', T.eq(got_w(w, row), w_of(d, i))


def ratio_rows(key, d, i, row, out, pos):
    a, b, x, e, g = out
    m, r = val(d['Measured'], i, 0), val(d['Measured'], i, 1)
    for k, p, c in each(pos):
        yield 'sample %d numerator coefficient %d' % (k, c), T.eq(val(a, row, k, c), csp(key, p, c, 0))
        yield 'sample %d denominator coefficient %d' % (k, c), T.eq(val(b, row, k, c), csp(key, p, c, 1))
    yield 'ratio', T.eq(val(x, row), T.div(rules.absv(m), rules.absv(r)))
    yield 'numerator error', T.eq(val(e, row), T.div(val(d['Error'], i, 0), rules.absv(m)))
    yield 'denominator error', T.eq(val(g, row), T.div(val(d['Error'], i, 1), rules.absv(r)))


def amp_rows(key, d, i, row, out, pos):
    a, x, e = out[:3]
    m = val(d['Measured'], i, 0)
    for k, p, c in each(pos):
        yield 'sample %d coefficient %d' % (k, c), T.eq(val(a, row, k, c), csp(key, p, c))
    yield 'amplitude', T.eq(val(x, row), rules.absv(m))
    yield 'error', T.eq(val(e, row), T.div(rules.absv(val(d['Error'], i, 0)), rules.absv(m)))


for _k, _w in ((['PPolarity'], [False]), (['SHPolarity'], [True]), (['SVPolarity', 'PPolarity'], [True, False]), (['PPolarity', 'SHPolarity', 'SVPolarity'], [False, True, False])):
    CHECK.proof('polarity_matrix: %s' % '+'.join(_k))(builder_contract(_k, _w, 'polarity_matrix', pol_rows))
    CHECK.proof('polarity_matrix: %s, location samples' % '+'.join(_k))(builder_contract(_k, _w, 'polarity_matrix', pol_rows, 2))
    _k = [x + 'Probability' for x in _k]
    CHECK.proof('polarity_probability_matrix: %s' % '+'.join(_k))(builder_contract(_k, _w, 'polarity_probability_matrix', prob_rows))
    CHECK.proof('polarity_probability_matrix: %s, location samples' % '+'.join(_k))(builder_contract(_k, _w, 'polarity_probability_matrix', prob_rows, 2))
for _k in RAT:
    CHECK.proof('amplitude_ratio_matrix: %s' % _k)(builder_contract([_k], [0], 'amplitude_ratio_matrix', ratio_rows))
CHECK.proof('amplitude_ratio_matrix: three types')(builder_contract([RAT[1], RAT[4], RAT[10]], [0] * 3, 'amplitude_ratio_matrix', ratio_rows))
for _n in (1, 2):
    CHECK.proof('amplitude_ratio_matrix: three types, %d location samples' % _n)(builder_contract([RAT[1], RAT[4], RAT[10]], [0] * 3, 'amplitude_ratio_matrix', ratio_rows, _n))
for _k in AMP:
    CHECK.proof('relative_amplitude_ratio_matrix: %s' % _k)(builder_contract([_k], [0], 'relative_amplitude_ratio_matrix', amp_rows))
CHECK.proof('relative_amplitude_ratio_matrix: three types')(builder_contract([AMP[1], AMP[4], AMP[10]], [0] * 3, 'relative_amplitude_ratio_matrix', amp_rows))
for _n in (1, 2):
    CHECK.proof('relative_amplitude_ratio_matrix: three types, %d location samples' % _n)(builder_contract([AMP[1], AMP[4], AMP[10]], [0] * 3, 'relative_amplitude_ratio_matrix', amp_rows, _n))


# ---- run-time contracts -----------------------------------------------------------------------
def direction(az, to, phase):
    """(g, e): amplitude is e.M.g; north-east-down, take-off from down, radians"""
    g = np.array([np.cos(az) * np.sin(to), np.sin(az) * np.sin(to), np.cos(to)])
    e = {'P': g, 'SH': np.array([-np.sin(az), np.cos(az), 0]),
         'SV': np.array([np.cos(az) * np.cos(to), np.sin(az) * np.cos(to), -np.sin(to)])}[phase.upper()]
    return g, e


def coef(az, to, phase):
    g, e = direction(math.radians(az), math.radians(to), phase)
    m = (np.outer(e, g) + np.outer(g, e)) / 2
    return np.array([m[0, 0], m[1, 1], m[2, 2], S2 * m[0, 1], S2 * m[0, 2], S2 * m[1, 2]])


def block(rng, key, names, mat=np.matrix):
    n = len(names)
    az, to = rng.uniform(0, 360, n), rng.uniform(0, 180, n)
    d = {'Stations': {'Name': list(names), 'Azimuth': mat(az.reshape(-1, 1)), 'TakeOffAngle': mat(to.reshape(-1, 1))}}
    cols = 2 if 'Prob' in key or 'Ratio' in key else 1
    if 'Prob' in key:
        x = rng.uniform(0, 0.5, (n, 2))
    elif 'Polarity' in key:
        x = rng.choice([-1., 1.], (n, 1))
    else:
        x = rng.uniform(0.1, 9, (n, cols)) * rng.choice([-1., 1.], (n, cols)) * 10. ** rng.randint(-3, 6)
    d['Measured'] = mat(x)
    d['Error'] = mat(rng.uniform(0.01, 1, (n, cols)) * (np.abs(x) if 'Ampl' in key else 1))
    return d, az, to


def rows_match(got, want, rtol=1e-9):
    """same rows, in any order"""
    got, want = [np.atleast_2d(np.asarray(v, dtype=float)) for v in (got, want)]
    if got.shape != want.shape:
        return False
    left = list(range(len(want)))
    for g in got:
        hit = [i for i in left if np.allclose(g, want[i], rtol=rtol, atol=1e-10)]
        if not hit:
            return False
        left.remove(hit[0])
    return True


def runner(mode):
    def run(b):
        Iv = conc.pkg(mode)['inversion']
        rng = b.np
        b.rule = 'random stations, angles and moment tensors; random data dictionaries (types, station orders and subsets, location samples)'
        for it in range(b.count(400)):
            az, to = float(rng.choice([rng.uniform(0, 360), 0, 90, 180, 270, 360])), float(rng.choice([rng.uniform(0, 180), 0, 90, 180]))
            m = rng.randn(6)
            M = np.array([[m[0], m[3] / S2, m[4] / S2], [m[3] / S2, m[1], m[5] / S2], [m[4] / S2, m[5] / S2, m[2]]])
            rot = rng.uniform(0, 360)
            for ph in PHASES + ('p', 'SHQ', 'pq'):
                inp = dict(azimuth=az, takeoff=to, phase=ph, mt=m)
                b.cur = inp
                b.case(('angles', it, ph), inp)
                base = ph.upper().rstrip('Q')
                g, e = direction(math.radians(az), math.radians(to), base)
                want = e @ M @ g
                forms = [({'Azimuth': np.matrix([[az]]), 'TakeOffAngle': np.matrix([[to]])}, False),
                         ({'Azimuth': np.matrix([[az], [az + 7]]), 'TakeOffAngle': np.matrix([[to], [to / 2]])}, False),
                         ((np.matrix([[math.radians(az)]]), np.matrix([[math.radians(to)]])), True),
                         ({'Azimuth': np.array([az, az + 7, 3.0]), 'TakeOffAngle': np.array([to, to / 2, 11.0])}, False)]
                for k, (st, rad) in enumerate(forms):
                    a = np.asarray(Iv.station_angles(st, ph, rad))
                    b.check(a.shape == ([1, 2, 1, 3][k], 6), 'coefficients have shape %r' % (a.shape,), form=k, **inp)
                    b.check(abs(a[0] @ m - want) <= 1e-9 * max(1, np.abs(m).max()), 'amplitude %r, e.M.g %r' % (float(a[0] @ m), float(want)), form=k, **inp)
                t = math.radians(rot)
                Q = np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1]])
                N = Q @ M @ Q.T
                m2 = np.array([N[0, 0], N[1, 1], N[2, 2], S2 * N[0, 1], S2 * N[0, 2], S2 * N[1, 2]])
                a2 = np.asarray(Iv.station_angles({'Azimuth': np.matrix([[az + rot]]), 'TakeOffAngle': np.matrix([[to]])}, ph))
                b.check(abs(a2[0] @ m2 - want) <= 1e-8 * max(1, np.abs(m).max()), 'amplitude changes under a rotation about the vertical', rot=rot, **inp)
            pair = rng.choice(['P/SH', 'SH/SV', 'P/SV'])
            a = Iv.station_angles({'Azimuth': np.matrix([[az]]), 'TakeOffAngle': np.matrix([[to]])}, pair)
            for x, ph in zip(a, pair.split('/')):
                b.check(np.allclose(np.asarray(x)[0], coef(az, to, ph), atol=1e-12), 'ratio coefficients', phase=pair, azimuth=az, takeoff=to)
        for it in range(b.count(500)):
            pool = ['S%02d' % k for k in rng.permutation(30)[:rng.randint(1, 9)]]
            mat = np.matrix if it % 3 else np.array
            data, truth = {'UID': 'x'}, {}
            for fam in (POL, PROB, RAT, AMP):
                for key in rng.permutation(fam)[:rng.choice([0, 1, 1, 2, 3])]:
                    key = str(key)
                    k = rng.randint(1, len(pool) + 1)
                    names = [str(x) for x in rng.permutation(pool)[:k]]
                    d, az, to = block(rng, key, names, mat)
                    if 'Polarity' in key and rng.rand() < 0.5:
                        d['IncorrectPolarityProbability'] = mat(rng.uniform(0, 0.4, (k, 1)))
                    data[key] = d
                    truth[key] = (names, az, to, np.array(d['Measured'], dtype=float), np.array(d['Error'], dtype=float),
                                  np.asarray(d.get('IncorrectPolarityProbability', np.zeros((k, 1)))).flatten())
            loc = False
            if rng.rand() < 0.6:
                # location samples list further stations, in an order of their own
                extra = ['T%d' % k for k in range(rng.randint(0, 3))]
                names = [str(x) for x in rng.permutation([p for p in pool if rng.rand() < 0.9 or p == pool[0]] + extra)]
                for key in truth:           # at least one station in common
                    if not set(truth[key][0]) & set(names):
                        names.append(truth[key][0][0])
                loc = []
                for s in range(rng.randint(1, 4)):
                    loc.append({'Name': list(names), 'Azimuth': np.matrix(rng.uniform(0, 360, (len(names), 1))), 'TakeOffAngle': np.matrix(rng.uniform(0, 180, (len(names), 1)))})
            keep = [(list(s['Name']), s['Azimuth'].copy(), s['TakeOffAngle'].copy()) for s in loc] if loc else None
            inp = dict(data=data, location_samples=loc)
            b.cur = inp
            b.case(('matrices', it), sorted(truth))

            def rows(fam, which=0):
                """expected (coefficients per location sample, measured, error, mispick, name), one row per datum"""
                out = []
                for key in sorted(k for k in truth if k in fam):
                    names, az, to, x, e, w = truth[key]
                    ph = phases(key)
                    ph = ph[min(which, len(ph) - 1)]
                    for i, nm in enumerate(names):
                        if loc:
                            if nm not in loc[0]['Name']:
                                continue
                            j = loc[0]['Name'].index(nm)
                            c = np.array([coef(s['Azimuth'][j, 0], s['TakeOffAngle'][j, 0], ph) for s in loc])
                        else:
                            c = coef(az[i], to[i], ph).reshape(1, 6)
                        out.append((c, x[i], e[i], w[i], nm))
                return out

            def full(x, n):
                x = np.asarray(x, dtype=float).flatten()
                return np.full(n, x[0]) if x.size == 1 else x
            # polarities
            a, err, ipp = Iv.polarity_matrix(data, loc)
            w = rows(POL)
            if w:
                g = np.asarray(a)
                ipp = full(ipp, len(w))
                ok = g.ndim == 3 and len(g) == len(err) == len(ipp) == len(w)
                b.check(ok and rows_match([np.r_[g[i].flatten(), err[i], ipp[i]] for i in range(len(w))], [np.r_[(r[0] * r[1][0]).flatten(), r[2][0], r[3]] for r in w]),
                        'polarity rows do not pair coefficients, polarity, error and mispick probability of one station', **inp)
            else:
                b.check(a is False or a is None, 'polarity matrix without polarity data', **inp)
            # polarity probabilities
            a, (pp, pn), ipp = Iv.polarity_probability_matrix(data, loc)
            w = rows(PROB)
            if w:
                g = np.asarray(a)
                ipp = full(ipp, len(w))
                ok = g.ndim == 3 and len(g) == len(pp) == len(pn) == len(ipp) == len(w)
                b.check(ok and rows_match([np.r_[g[i].flatten(), pp[i], pn[i], ipp[i]] for i in range(len(w))], [np.r_[r[0].flatten(), r[1], r[3]] for r in w]),
                        'polarity-probability rows do not pair coefficients and probabilities of one station', **inp)
            # ratios
            a1, a2, x, e1, e2 = Iv.amplitude_ratio_matrix(data, loc)
            w, v = rows(RAT), rows(RAT, 1)
            if w:
                a1, a2 = np.asarray(a1), np.asarray(a2)
                ok = a1.ndim == a2.ndim == 3 and len(a1) == len(a2) == len(x) == len(e1) == len(e2) == len(w)
                b.check(ok and rows_match([np.r_[a1[i].flatten(), a2[i].flatten(), x[i], e1[i], e2[i]] for i in range(len(w))],
                                          [np.r_[r[0].flatten(), s[0].flatten(), abs(r[1][0] / r[1][1]), r[2] / abs(r[1])] for r, s in zip(w, v)]),
                        'ratio rows do not pair coefficients, |numerator/denominator| and fractional errors of one station', **inp)
            # relative amplitudes
            a, x, e, names = Iv.relative_amplitude_ratio_matrix(data, loc)
            w = rows(AMP)
            if w:
                a = np.asarray(a)
                ok = a.ndim == 3 and len(a) == len(x) == len(e) == len(names) == len(w)
                b.check(ok and np.ndim(x) == 1 and np.ndim(e) == 1, 'relative amplitude shapes', **inp)
                num = {nm: float(i) for i, nm in enumerate(sorted(set(r[4] for r in w)))}
                b.check(ok and set(names) == set(num) and rows_match([np.r_[a[i].flatten(), x[i], e[i], num[names[i]]] for i in range(len(w))],
                                                                     [np.r_[r[0].flatten(), abs(r[1][0]), r[2][0] / abs(r[1][0]), num[r[4]]] for r in w]),
                        'amplitude rows do not pair station, coefficients, amplitude and fractional error', **inp)
            if loc:
                b.check(all(s['Name'] == n and np.array_equal(s['Azimuth'], z) and np.array_equal(s['TakeOffAngle'], t) for s, (n, z, t) in zip(loc, keep)), 'location samples modified', **inp)
    return run


CHECK.runtime('pure Python')(runner('pure'))
