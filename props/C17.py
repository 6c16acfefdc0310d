"""C17: input parsing and binary result files preserve the data they carry."""
import io
import os
import pickle
import random
import shutil
import struct
import sys
import tempfile
import types
import numpy as np
from dpv import report, load, sym, arr, conc, term as T
from dpv.paths import ctx, Unsupported
from dpv.term import R, I, B
CHECK = report.Check('C17')
MF = 'MTfit.utilities.file_io'
CHECK.covers(*[MF + '.' + n for n in ('parse_csv', '_parse_csv_events', 'csv2inv (bounded)', 'parse_hyp', '_parse_hyp_events', '_convert_mt_space_to_struct', 'read_binary_output',
                                      'read_sf_output', 'hyp_output_dicts / hyp_output (bounded)', 'PickleOutputTask (bounded)')])
CHECK.assume('float() of a number written in the file is an arbitrary real (each number of the file is one variable)',
             'struct.pack / unpack with the same format are inverse; sizes and alignment as struct.calcsize gives them',
             'file layouts (events, types, rows, column orders) and numbers of samples are enumerated / drawn from a fixed list in the proofs; the numbers are arbitrary',
             'well-formed files: a header row per data type, no quoted fields; the two hyp columns of the ray (RAz, RDip) are the angles, as in the NonLinLoc format without the prior-weight column',
             'repeated data-type blocks of one event, and scale factors of concatenated records, are not covered')
TYPES = ('PPolarity', 'SHPolarity', 'SVPolarity', 'P/SHRMSAmplitudeRatio', 'P/SVQAmplitudeRatio', 'PPolarityProbability', 'PAmplitude')


# ---- file contents with unknown numbers -----------------------------------------------------
class Numbers(object):
    """spelling of unknown numbers, and what float() makes of them"""
    def __init__(self, symbolic):
        self.reg, self.symbolic = {}, symbolic

    def new(self, rng, kind):
        if self.symbolic:
            name = 'x%d' % len(self.reg)
            w = '#' + name
            self.reg[w] = sym.real_var(name)
            return w, self.reg[w]
        v = {'az': rng.uniform(0, 360), 'toa': rng.uniform(0, 180), 'pol': rng.choice([-1., 1.]), 'amp': rng.lognormvariate(0, 3), 'err': rng.uniform(1e-6, 1)}[kind]
        w = rng.choice([repr(v), '%d' % v if v == int(v) else repr(v), '%.17g' % v])
        return w, float(w)


def csv_file(rng, num, maxev=5, maxst=20):
    """text of a well-formed file and the data it carries"""
    evs, lines = [], []
    blank = rng.choice([',,,,', '', ',,', ',,,,,,'])
    for e in range(rng.randrange(1, maxev + 1)):
        ev = {}
        uid = None
        if e:
            lines += [blank] * rng.choice([1, 1, 2])
        if rng.random() < .6:
            uid = rng.choice(['ev%d' % e, '2012%d' % rng.randrange(10 ** 6), str(e + 7)])
            lines.append('UID%s%s%s' % (rng.choice(['=', ':', ' ', ': ']), uid, rng.choice([',,,,', '', ',,'])))
        ev['UID'] = uid or str(e + 1)
        for t in rng.sample(TYPES, rng.randrange(1, 5)):
            cols = ['Name', 'Azimuth', 'TakeOffAngle', 'Measured', 'Error']
            extra = rng.choice([0, 0, 0, 1])
            if extra:
                cols.append('Comment')
            if rng.random() < .8:
                rng.shuffle(cols)
            lines.append(t + rng.choice([',,,,', '', ',,,', ' ,,,,']))
            lines.append(','.join(cols))
            two = 'Ratio' in t or 'Probability' in t
            rows = {'Name': [], 'Azimuth': [], 'TakeOffAngle': [], 'Measured': [], 'Error': []}
            for s in range(rng.randrange(1, maxst + 1)):
                name = rng.choice(['S%03d' % rng.randrange(999), 'ST%d' % s, '%d' % rng.randrange(1, 99)])
                f = {'Name': name, 'Comment': rng.choice(['n', '17', ''])}
                rows['Name'].append(name)
                for c, k in (('Azimuth', 'az'), ('TakeOffAngle', 'toa')):
                    w, v = num.new(rng, k)
                    f[c] = rng.choice(['%s', '%s', ' %s', '%s ']) % w
                    rows[c].append([v])
                for c, k in (('Measured', 'amp' if two else 'pol'), ('Error', 'err')):
                    z = [num.new(rng, k) for _ in range(2 if two and (c == 'Measured' or 'Ratio' in t) else 1)]
                    f[c] = rng.choice([' ', ' ', '  ']).join(w for w, _ in z)
                    rows[c].append([v for _, v in z])
                # (a row may end in a comma, its first two fields are not both empty)
                if not (f[cols[0]] or f[cols[1]]):
                    f['Comment'] = 'c'
                lines.append(','.join(f[c] for c in cols))
            ev[t] = rows
        evs.append(ev)
    if rng.random() < .3:
        lines += [blank] * rng.choice([1, 2])
    end = rng.choice(['\n', '\n', ''])
    return '\n'.join(lines) + end, evs


def hyp_file(rng, num, maxev=3, maxst=12):
    evs, out = [], []
    for e in range(rng.randrange(1, maxev + 1)):
        ev = {}
        out.append('NLLOC "./loc/x.%d" "LOCATED" "Location completed."' % e)
        out.append('SIGNATURE "x   NLLoc:v6.0 run"')
        if rng.random() < .9:
            d = (2012 + e, rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60))
            out.append('GEOGRAPHIC  OT %04d %02d %02d  %02d %02d   %07.4f  Lat 0.0399196 Long 0.0397218 Depth 3.32031' % (d + (rng.uniform(0, 59.9),)))
            ev['UID'] = '%04d%02d%02d%02d%02d' % d
        out.append('QUALITY  Pmax 3.12 MFmin 4.4 MFmax 5.5 RMS 0.01 Nphs 3 Gap 12 Dist 1.2 Mamp -9.9 0 Mdur -9.9 0')
        out.append('PHASE ID Ins Cmp On Pha  FM Date     HrMn   Sec     Err  ErrMag    Coda      Amp       Per  >   TTpred    Res       Weight    StaLoc(X  Y         Z)        SDist    SAzim  RAz  RDip RQual    Tcorr ')
        for s in range(rng.randrange(0, maxst + 1)):
            fm = rng.choice('UUDD?.+-uCcdPNpn')
            pol = {'U': 1, 'C': 1, '+': 1, 'P': 1, 'D': -1, '-': -1, 'N': -1, '?': 0, '.': 0}[fm.upper()]
            ph = rng.choice(['P', 'P', 'S', 'SH'])
            name = 'S%03d%d' % (s, rng.randrange(9))
            (ew, ev_), (aw, av), (tw, tv) = num.new(rng, 'err'), num.new(rng, 'az'), num.new(rng, 'toa')
            other = lambda: '%.4f' % rng.uniform(-2, 200)
            out.append(' '.join([name, '?', '?', rng.choice('?ei'), ph, fm, '20150126', '2223', '25.02', 'GAU', ew, '-1', '-1', '-1', '>', other(), other(), other(), other(), other(), other(),
                                 other(), other(), aw, tw, '9', '0.0000']))
            if pol:
                r = ev.setdefault(ph + 'Polarity', {'Name': [], 'Azimuth': [], 'TakeOffAngle': [], 'Measured': [], 'Error': []})
                r['Name'].append(name)
                r['Azimuth'].append([av])
                r['TakeOffAngle'].append([tv])
                r['Measured'].append([pol])
                r['Error'].append([ev_])
        out += ['END_PHASE', 'SCATTER Nsamples 3', '0 0 0 0', 'END_SCATTER'] if rng.random() < .5 else ['END_PHASE']
        out.append('END_NLLOC')
        if rng.random() < .7:
            out += [''] * rng.choice([1, 2])
        evs.append(ev)
    return '\n'.join(out) + '\n', evs


def compare(got, want, same, bad, uid=True, errors='equal'):
    """row for row; same(value, expected) decides numbers"""
    if not isinstance(got, list) or len(got) != len(want):
        return bad('%r events instead of %d' % (len(got) if isinstance(got, list) else type(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        keys = [k for k in g if k not in ('UID', 'hyp_file')]
        if sorted(keys) != sorted(k for k in w if k != 'UID'):
            return bad('event %d: data types %r instead of %r' % (i, sorted(keys), sorted(w)))
        if uid and str(g.get('UID')) != w['UID']:
            return bad('event %d: UID %r instead of %r' % (i, g.get('UID'), w['UID']))
        for t in keys:
            if list(g[t]['Stations']['Name']) != w[t]['Name']:
                return bad('event %d %s: stations %r instead of %r' % (i, t, list(g[t]['Stations']['Name'])[:6], w[t]['Name'][:6]))
            for c, m in (('Azimuth', g[t]['Stations']['Azimuth']), ('TakeOffAngle', g[t]['Stations']['TakeOffAngle']), ('Measured', g[t]['Measured']), ('Error', g[t]['Error'])):
                e = w[t][c]
                if tuple(m.shape) != (len(e), len(e[0])):
                    return bad('event %d %s %s: shape %r instead of %r' % (i, t, c, tuple(m.shape), (len(e), len(e[0]))))
                for a in range(len(e)):
                    for b in range(len(e[0])):
                        if c == 'Error' and errors == 'positive multiple':
                            if a:
                                same(m[a, b] * e[0][b], m[0, b] * e[a][b], 'event %d %s %s row %d' % (i, t, c, a))
                        else:
                            same(m[a, b], e[a][b], 'event %d %s %s row %d' % (i, t, c, a))


class File(io.StringIO):
    def __exit__(self, *a):
        return False


def mod(text=None, num=None, binary=None):
    L = load.Loader(stubs=('MTfit.extensions.scatangle', 'MTfit.convert.moment_tensor_conversion', 'MTfit.inversion', 'MTfit.convert'))
    L.wanted_prefixes = (MF,)
    top = types.ModuleType('MTfit')
    top.__version__ = '0'
    top.__path__ = []
    L.replace['MTfit'] = top
    if binary is not None:
        L.replace['struct'] = binary
    M = L.load(MF)
    bi = M.__dict__['__builtins__']
    fl = bi['float']

    def tofloat(x=0.0):
        if isinstance(x, str) and x.strip() in num.reg:
            return num.reg[x.strip()]
        return fl(x)
    if num is not None:
        bi['float'] = tofloat
        M.float = tofloat
    if text is not None:
        M.open = lambda f, mode='r', *a, **k: File(text)
    return M


def parsing(kind, sd):
    def f():
        rng = random.Random('%s %d' % (kind, sd))
        num = Numbers(True)
        text, want = (csv_file if kind == 'csv' else hyp_file)(rng, num, 1 + sd % 4, 1 + sd % 6)
        M = mod(text, num)
        got = (M.parse_csv if kind == 'csv' else M.parse_hyp)('x.' + kind)

        def bad(what):
            ctx().oblige('layout kept: %s\n%s' % (what, text[:600]), T.FALSE)
        n = [0]

        def same(v, e, what):
            n[0] += 1
            ctx().oblige(what, sym.eqt(v, e))
        ctx().oblige('a list of events', T.const(isinstance(got, list)))
        for w in want:
            w.setdefault('UID', None)
        compare(got, want, same, bad, uid=kind == 'csv', errors='equal' if kind == 'csv' else 'positive multiple')
        if kind == 'hyp':
            for g, w in zip(got, want):
                if w['UID'] is not None and not str(g.get('UID', '')).startswith(w['UID']):
                    bad('UID %r of the event of %s' % (g.get('UID'), w['UID']))
    return f


for _s in range(24):
    CHECK.proof('parse_csv, layout %d, any numbers' % _s, max_time=60)(parsing('csv', _s))
for _s in range(12):
    CHECK.proof('parse_hyp, layout %d, any numbers' % _s, max_time=60)(parsing('hyp', _s))


# ---- binary records with unknown values -----------------------------------------------------
class Bin(object):
    """bytes, as a sequence of packed values"""
    def __init__(self, items=()):
        self.items = list(items)

    def __add__(self, o):
        if isinstance(o, bytes) and not o:
            return self
        if not isinstance(o, Bin):
            raise Unsupported('bytes of unknown contents')
        return Bin(self.items + o.items)

    def __radd__(self, o):
        if isinstance(o, bytes) and not o:
            return self
        raise Unsupported('bytes of unknown contents')

    def __len__(self):
        return sum(struct.calcsize(c) for c, _ in self.items)


def codes(fmt):
    out, n = [], ''
    for c in fmt.lstrip('@=<>!'):
        if c.isdigit():
            n += c
        elif c == ' ':
            pass
        else:
            out += [c] * int(n or 1)
            n = ''
    if struct.calcsize(fmt) != sum(struct.calcsize(c) for c in out):
        raise Unsupported('padded format')
    return out


def structmod():
    m = types.ModuleType('struct')
    m.calcsize, m.error = struct.calcsize, struct.error

    def pack(fmt, *v):
        cs = codes(fmt)
        if len(cs) != len(v):
            raise struct.error('pack expected %d items' % len(cs))
        for c, x in zip(cs, v):
            if isinstance(x, (np.ndarray, list, tuple, str, type(None))) and not (isinstance(x, np.ndarray) and x.size == 1 and c == 'd'):
                raise struct.error('required argument is not a number')
        return Bin(zip(cs, v))

    def unpack(fmt, b):
        cs = codes(fmt)
        if len(b) != struct.calcsize(fmt):
            raise struct.error('unpack requires a buffer of %d bytes' % struct.calcsize(fmt))
        if [c for c, _ in b.items] != cs:
            ctx().oblige('the reader expects the fields that were written (%s)' % fmt, T.FALSE)
            raise struct.error('other fields')
        return tuple(v for _, v in b.items)
    m.pack, m.unpack = pack, unpack
    return m


class BinFile(object):
    def __init__(self, b):
        self.b, self.pos = b, 0
        self.at = {}
        o = 0
        for i, (c, _) in enumerate(b.items):
            self.at[o] = i
            o += struct.calcsize(c)
        self.at[o] = len(b.items)
        self.n = o

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def seek(self, p, w=0):
        self.pos = p + (0, self.pos, self.n)[w]
        return self.pos

    def tell(self):
        return self.pos

    def read(self, k=-1):
        e = self.n if k is None or k < 0 else min(self.n, self.pos + k)
        if self.pos not in self.at or e not in self.at:
            ctx().oblige('the reader stays on field boundaries', T.FALSE)
            raise struct.error('inside a field')
        r = Bin(self.b.items[self.at[self.pos]:self.at[e]])
        self.pos = e
        return r


CONV = ('g', 'd', 'k', 'h', 's', 'u', 'v', 'S1', 'D1', 'R1', 'S2', 'D2', 'R2')


def ar(rows):
    return np.array(rows, dtype=object)


def result(tag, n, converted, end, two):
    m = np.empty((6, n), dtype=object)
    for i in range(6):
        for j in range(n):
            m[i, j] = sym.real_var('M%s_%d_%d' % (tag, i, j))
    p = [sym.real_var('P%s_%d' % (tag, j)) for j in range(n)]
    q = [sym.real_var('L%s_%d' % (tag, j)) for j in range(n)]
    N = sym.int_var('N%s' % tag)
    sym.assume(N >= 0)

    def row(z):
        a = np.empty((1, n), dtype=object)
        for j, x in enumerate(z):
            a[0, j] = x
        return a if two else a[0]
    out = {'moment_tensor_space' + end: m, 'probability': row(p), 'ln_pdf': row(q), 'total_number_samples': N, 'dkl': sym.real_var('D' + tag), 'ln_bayesian_evidence': sym.real_var('E' + tag)}
    if converted:
        for c in CONV:
            a = np.empty((n,), dtype=object)
            for j in range(n):
                a[j] = sym.real_var('%s%s_%d' % (c, tag, j))
            out[c + end] = a
    return out, m, p, q, N


def binary(recs, two):
    def f():
        M = mod(binary=structmod())
        total, want = None, []
        for k, (n, converted, end) in enumerate(recs):
            out, m, p, q, N = result('abc'[k], n, converted, end, two)
            b, sf = M._convert_mt_space_to_struct(out, int(end[1:])) if end else M._convert_mt_space_to_struct(out)
            ctx().oblige('no scale factors', T.const(len(sf) == 0))
            total = b if total is None else total + b
            want.append((n, converted, end, out, m, p, q, N))
        M.open = lambda fn, *a, **k: BinFile(total)
        got = M.read_binary_output('x.mt')
        ctx().oblige('one dictionary per record', T.const(len(got) == len(want)))
        for g, (n, converted, end, out, m, p, q, N) in zip(got, want):
            ctx().oblige('number of samples tried', sym.eqt(g['total_number_samples'], N))
            ctx().oblige('shapes', T.const(g['moment_tensor_space'].shape == (6, n) and np.size(g['probability']) == n and np.size(g['ln_pdf']) == n))
            P, Q_ = np.asarray(g['probability']).reshape(-1), np.asarray(g['ln_pdf']).reshape(-1)
            for j in range(n):
                for i in range(6):
                    ctx().oblige('tensor component %d' % i, sym.eqt(g['moment_tensor_space'][i, j], m[i, j]))
                ctx().oblige('probability', sym.eqt(P[j], p[j]))
                ctx().oblige('log-probability', sym.eqt(Q_[j], q[j]))
            ctx().oblige('converted parameters present exactly when written', T.const(all((c in g) == converted for c in CONV)))
            if converted:
                for c in CONV:
                    ctx().oblige('number of converted parameters', T.const(np.size(g[c]) == n))
                    for j in range(n):
                        ctx().oblige('converted parameter %s' % c, sym.eqt(np.asarray(g[c]).reshape(-1)[j], out[c + end][j]))
    return f


for _r in ([(0, False, '')], [(1, True, '')], [(2, False, '')], [(3, True, '')], [(0, True, '')], [(2, True, ''), (1, False, '')], [(1, False, '_1'), (2, True, '_2')], [(0, True, ''), (2, True, ''), (0, False, '')],
           [(1, True, '_3'), (0, False, ''), (2, False, '_1')]):
    for _t in (True, False):
        CHECK.proof('binary records %s%s, any values' % (_r, '' if _t else ' (1-d probabilities)'), max_time=120)(binary(_r, _t))


# ---- bounded: the real files ----------------------------------------------------------------
def floats(rng, n):
    v = np.exp(rng.uniform(-300, 3, n)) * rng.choice([-1., 1.], n)
    for i in range(n):
        if rng.rand() < .1:
            v[i] = rng.choice([0., -0., 1., -1., np.inf, -np.inf, np.nan, 1e300, 5e-324])
    return v


def eq(a, b):
    a, b = np.asarray(a, float).reshape(-1), np.asarray(b, float).reshape(-1)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def files(b):
    b.rule = 'random well-formed CSV and hyp files (up to 5 events, 4 types, 20 stations) and binary files (up to 3 records of 0-40 samples); distinct contents'
    F = conc.pkg('pure').activate()['utilities.file_io']
    rng = random.Random(b.np.randint(2 ** 31))
    d = tempfile.mkdtemp(prefix='dpv17')
    try:
        for it in range(b.count(700)):
            num = Numbers(False)
            text, want = csv_file(rng, num)
            if it % 7 == 0:             # events of the same contents
                text, want = csv_file(rng, num, 1, 3)
                if text.startswith('UID'):
                    text, want = text.split('\n', 1)[1], [dict(want[0], UID='1')]
                text = text.rstrip('\n').rstrip(',').rstrip('\n')
                k = rng.randrange(2, 4)
                text, want = '\n,,,,\n'.join([text] * k), [dict(want[0], UID=str(i + 1)) for i in range(k)]
            fn = os.path.join(d, rng.choice(['a.csv', 'b.v1.csv']))
            with open(fn, 'w') as f:
                f.write(text if rng.random() < .8 else text.replace('\n', '\r\n'))
            b.cur = {'file': text[:3000]}
            b.case(text, text[:200] if it < 1 else None)
            bads = []

            def same(v, e, what):
                if not v == e and len(bads) < 3:
                    bads.append('%s: %r instead of %r' % (what, float(v), e))
            got = F.parse_csv(fn)
            compare(got, want, same, bads.append)
            F.csv2inv(fn)
            inv = fn[:-4] + '.inv'
            if not os.path.exists(inv):
                bads.append('csv2inv writes no %s' % os.path.basename(inv))
            else:
                with open(inv, 'rb') as f:
                    got = pickle.load(f)
                os.unlink(inv)
                compare(got, want, same, lambda w: bads.append('inversion file: ' + w))
            b.check(not bads, 'CSV: %s' % '; '.join(bads[:2]), file=text[:4000])
            # NonLinLoc
            text, want = hyp_file(rng, num)
            fn = os.path.join(d, 'a.hyp')
            with open(fn, 'w') as f:
                f.write(text)
            b.cur = {'file': text[:3000]}
            bads = []

            def near(v, e, what):
                if not abs(float(v) - float(e)) <= 1e-12 * abs(float(e)) and len(bads) < 3:
                    bads.append('%s: %r instead of %r' % (what, float(v), float(e)))
            compare(F.parse_hyp(fn), want, near, bads.append, uid=False, errors='positive multiple')
            b.check(not bads, 'hyp: %s' % '; '.join(bads[:2]), file=text[:4000])
            # binary
            r = b.np
            k = r.randint(1, 4)
            data, outs = b'', []
            for i in range(k):
                n = int(r.choice([0, 1, 2, 7, 40]))
                end = r.choice(['', '_%d' % (i + 1)])
                o = {'total_number_samples': int(r.choice([n, n + 5, 10 ** 9, 2 ** 40]))}
                m = r.randn(6, n)
                o['moment_tensor_space' + end] = np.matrix(m) if r.rand() < .5 else m
                two = r.rand() < .6
                pr, ln = floats(r, n), floats(r, n)
                o['probability'] = np.matrix(pr) if two else pr
                o['ln_pdf'] = np.matrix(ln) if r.rand() < .5 else ln
                if r.rand() < .8:
                    o['dkl'], o['ln_bayesian_evidence'] = 0.25, -3.5
                conv = r.rand() < .5
                if conv:
                    for c in CONV:
                        o[c + end] = floats(r, n)
                sf = None
                if r.rand() < .3 and n:
                    ne = r.randint(2, 5)
                    o['scale_factors'] = [{'mu': r.rand(ne, ne), 'sigma': r.rand(ne, ne)} for _ in range(n)]
                    sf = ne
                b.cur = {'record': {q: (np.asarray(v).tolist() if not q == 'scale_factors' else '...') for q, v in o.items()}}
                x, s = F._convert_mt_space_to_struct(o, i + 1)
                data += x
                outs.append((o, end, n, conv))
                if sf:
                    fn = os.path.join(d, 'a.sf')
                    with open(fn, 'wb') as f:
                        f.write(s)
                    g = F.read_sf_output(fn)
                    pairs = [(i_, j_) for i_ in range(sf) for j_ in range(i_ + 1, sf)]
                    b.check(len(g) == 1 and eq(g[0]['probability'], pr) and eq(g[0]['ln_pdf'], ln) and eq(g[0]['scale_factors'], np.array([[z['mu'][q] for z in o['scale_factors']] for q in pairs]))
                            and eq(g[0]['sigma'], np.array([[z['sigma'][q] for z in o['scale_factors']] for q in pairs])) and g[0]['total_number_samples'] == o['total_number_samples'],
                            'scale factors are not read back as written', events=sf, samples=n)
            fn = os.path.join(d, 'a.mt')
            with open(fn, 'wb') as f:
                f.write(data)
            g = F.read_binary_output(fn)
            if b.check(len(g) == k, '%d records read back of %d' % (len(g), k)):
                for x, (o, end, n, conv) in zip(g, outs):
                    m = np.asarray(o['moment_tensor_space' + end])
                    y = np.asarray(x['moment_tensor_space'])
                    ok = y.shape == m.shape and np.allclose(y, m, rtol=4e-16, atol=0)
                    b.check(ok, 'tensors are not read back as written', written=m, read=y)
                    for q in ('probability', 'ln_pdf', 'total_number_samples'):
                        b.check(eq(x[q], o[q]), '%s is not read back as written' % q, written=o[q], read=x[q])
                    b.check(all((c in x) == conv for c in CONV), 'converted parameters appear or vanish', samples=n)
                    for c in CONV if conv else ():
                        b.check(eq(x.get(c, []), o[c + end]), 'converted parameter %s is not read back as written' % c, written=o[c + end], read=x.get(c))
                    if 'dkl' in o:
                        b.check(x['dkl'] == o['dkl'], 'dkl is not read back as written', read=x['dkl'])
    finally:
        shutil.rmtree(d)


CHECK.runtime('files written and read')(files)


def pipeline(b):
    """results of an algorithm, written in the hyp format with all its files"""
    b.rule = 'sampled results of 1-30 tensors, converted or not, one or two events, written by hyp_output; distinct sizes'
    P = conc.pkg('pure').activate()
    F, A, PR = P['utilities.file_io'], P['algorithms.monte_carlo'], P['probability.probability']
    d = tempfile.mkdtemp(prefix='dpv17')
    try:
        for it in range(b.count(150)):
            n, ne, conv = int(b.np.choice([1, 2, 9, 30])), int(b.np.choice([1, 1, 2])), bool(b.np.rand() < .5)
            alg = A.IterationSample(max_samples=1000, number_events=ne)
            ms = []
            for _ in range(ne):
                m = b.np.randn(6, n)
                ms.append(np.matrix(m / np.sqrt((m * m).sum(0))))
            ln = b.np.uniform(-4, 0, (1, n))
            sc = {'scale_factor': np.array([{'mu': b.np.rand(ne, ne), 'sigma': b.np.rand(ne, ne)} for _ in range(n)])} if ne > 1 else {}
            b.cur = {'n': n, 'events': ne, 'convert': conv}
            alg.iterate(dict({'moment_tensors': ms if ne > 1 else ms[0], 'ln_pdf': PR.LnPDF(np.matrix(ln)), 'n': n + 3}, **sc))
            o, _ = alg.output(convert=conv, normalise=True)
            ev = [{'UID': '%d' % i, 'PPolarity': {'Stations': {'Name': ['A'], 'Azimuth': np.matrix([[10.]]), 'TakeOffAngle': np.matrix([[30.]])}, 'Measured': np.matrix([[1]]), 'Error': np.matrix([[.1]])}}
                  for i in range(ne)]
            fn = os.path.join(d, 'r.hyp')
            F.hyp_output(F.hyp_output_dicts(ev if ne > 1 else ev[0], ['PPolarity'], o, multiple_events=ne > 1), fid=fn)
            b.case((n, ne, conv, it % 7), (n, ne, conv) if it < 1 else None)
            if not b.check(os.path.exists(fn[:-4] + '.mt'), 'no binary file is written', n=n, events=ne, convert=conv):
                continue
            g = F.read_binary_output(fn[:-4] + '.mt')
            os.unlink(fn[:-4] + '.mt')
            if b.check(len(g) == ne, '%d records for %d events' % (len(g), ne)):
                for i, x in enumerate(g):
                    e = '' if ne == 1 else '_%d' % (i + 1)
                    b.check(x['moment_tensor_space'].shape == (6, n) and np.allclose(x['moment_tensor_space'], o['moment_tensor_space' + e], rtol=4e-16, atol=0), 'tensors of the result are not in the file', n=n, events=ne)
                    b.check(eq(x['probability'], o['probability']) and eq(x['ln_pdf'], o['ln_pdf']) and x['total_number_samples'] == o['total_number_samples'] == n + 3, 'probabilities of the result are not in the file', n=n, events=ne)
                    for c in CONV if conv else ():
                        b.check(c in x and eq(x[c], o[c + e]), 'converted parameter %s of the result is not in the file' % c, n=n, events=ne)
    finally:
        shutil.rmtree(d)


CHECK.runtime('results of an algorithm')(pipeline)
