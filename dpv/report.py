"""Running a property's contracts, verdict, evidence."""
import hashlib
import json
import multiprocessing
import os
import random
import sys
import time
import traceback
from . import paths, prove, smt
from . import term as T

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)


def tier():
    return 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'


class Violation(Exception):
    """a concrete counterexample: (what, data)"""
    def __init__(self, what, **data):
        Exception.__init__(self, what)
        self.what, self.data = what, data


_WORK = {}


def _explore_job(i):
    """one contract: explore paths, discharge its obligations"""
    name, fn, opts = _WORK['proofs'][i]
    sys.setrecursionlimit(20000)
    smt.STATS.update({k: 0 for k in smt.STATS})
    t0 = time.time()
    out = {'name': name, 'obls': [], 'paths': 0, 'notes': [], 'errors': []}
    try:
        ex = {k: v for k, v in opts.items() if k in ('max_paths', 'max_time')}
        res = paths.explore(fn, **ex)
        out['paths'], out['notes'] = res.paths, list(res.notes)
        out['infeasible'] = res.infeasible
        for kind, msg, tb, pc in res.errors:
            out['errors'].append((kind, msg, tb, [str(p)[:300] for p in pc]))
        if res.truncated:
            out['errors'].append(('path-limit', 'exploration stopped early', '', []))
        pr = prove.Prover(timeout=opts.get('timeout', 4000), budget=opts.get('budget', 40.0))
        seen = {}
        limit = time.time() + opts.get('total', 300)
        for o in res.obls:
            key = (o.name, o.goal, tuple(o.hyps))
            if key in seen:
                st = seen[key]
            elif time.time() > limit:
                st = ('failed', None, 'time limit of the check reached', 0.0, None, str(o.goal)[:800], [])
            else:
                prove.discharge(o, pr)
                m = None
                if getattr(o, 'model', None) is not None:
                    m = str(o.model)[:3000]
                st = (o.status, o.backend, o.detail, round(o.time, 3), m, str(o.goal)[:800],
                      [str(h)[:300] for h in o.hyps] if o.status != 'proved' else [])
                seen[key] = st
            out['obls'].append((o.name,) + st + (o.meta.get('expect'),))
        out['distinct'] = len(seen)
    except (Exception, paths.Unsupported) as e:
        out['errors'].append(('engine', '%s: %s' % (type(e).__name__, e), traceback.format_exc(limit=-8), []))
    out['stats'] = dict(smt.STATS)
    out['time'] = time.time() - t0
    return out


def _bounded_job(i):
    name, fn, opts = _WORK['bounded'][i]
    t0 = time.time()
    b = Bounded(name, random.Random((seed() * 1000003 + i * 7919) & 0x7fffffff), opts.get('scale', 1.0))
    try:
        from . import conc
        conc.quiet()
        fn(b)
    except StopBounded:
        pass
    except Violation as v:
        b.viol.append({'what': v.what, 'site': name, 'data': {k: _js(x) for k, x in v.data.items()}})
    except (Exception, paths.Unsupported) as e:
        fr = traceback.extract_tb(e.__traceback__)
        inside = [f for f in fr if '/MTfit/' in f.filename]
        if inside:
            b.viol.append({'what': 'the code raised %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], inside[-1].name, inside[-1].lineno),
                           'site': name, 'data': {'after': b.n, 'traceback': ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])[:3000],
                                                  'inputs': {k: _js(v) for k, v in (b.cur or {}).items()}}})
        b.error = None if inside else ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
    return {'name': name, 'n': b.n, 'nontrivial': len(b.keys), 'samples': b.samples[:3], 'viol': b.viol, 'error': b.error,
            'time': time.time() - t0, 'rule': b.rule}


class Bounded(object):
    """a run-time contract evaluation: counts cases, keeps samples, records violations"""
    def __init__(self, name, rng, scale):
        self.name, self.rng, self.scale = name, rng, scale
        self.n, self.keys, self.samples, self.viol, self.error = 0, set(), [], [], None
        self.rule = ''
        self.cur = None
        import numpy as np
        self.np = np.random.RandomState(rng.randrange(2 ** 31))

    def count(self, k):
        return max(1, int(k * self.scale * (8 if tier() == 'thorough' else 1)))

    def case(self, key, sample=None):
        self.n += 1
        self.keys.add(key)
        if sample is not None and len(self.samples) < 3:
            self.samples.append(str(sample)[:600])

    def fail(self, what, **data):
        self.viol.append({'what': what, 'site': data.pop('site', self.name), 'data': {k: _js(v) for k, v in data.items()}})
        if len(self.viol) > 12:
            raise StopBounded()

    def check(self, ok, what, **data):
        if not ok:
            self.fail(what, **data)
        return ok


class StopBounded(Violation):
    def __init__(self):
        Violation.__init__(self, 'more violations of the same kind')


def _js(v):
    try:
        import numpy as np
        if isinstance(v, np.ndarray):
            return {'array': v.tolist()} if v.size < 4000 else {'array': 'size %d' % v.size}
        if isinstance(v, np.generic):
            return v.item()
    except Exception:
        pass
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    if isinstance(v, (list, tuple)):
        return [_js(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _js(x) for k, x in v.items()}
    return repr(v)[:2000]


class Check(object):
    def __init__(self, pid, level='proof'):
        self.pid, self.level = pid, level
        self.proofs, self.bounded, self.assumptions, self.functions = [], [], [], []
        self.t0 = time.time()

    def proof(self, name, **opts):
        def deco(f):
            self.proofs.append((name, f, opts))
            return f
        return deco

    def runtime(self, name, **opts):
        def deco(f):
            self.bounded.append((name, f, opts))
            return f
        return deco

    def assume(self, *a):
        self.assumptions += a

    def covers(self, *a):
        self.functions += a

    def _map(self, jobs):
        """jobs: list of (kind, index); run in forked workers"""
        n = min(8, os.cpu_count() or 1, len(jobs)) or 1
        res = []
        ctx = multiprocessing.get_context('fork')
        pend = list(jobs)
        running = []
        limit = self.t0 + (840 if tier() == 'quick' else 6000)
        while pend or running:
            while pend and len(running) < n:
                k, i = pend.pop(0)
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(k, i, w))
                p.start()
                w.close()
                running.append((k, i, p, r))
            still = []
            for k, i, p, r in running:
                if r.poll(0.02):
                    try:
                        res.append((k, i, r.recv()))
                    except EOFError:
                        res.append((k, i, None))
                    p.join()
                elif not p.is_alive():
                    try:
                        res.append((k, i, r.recv() if r.poll(0.1) else None))
                    except EOFError:
                        res.append((k, i, None))
                elif time.time() > limit:
                    p.terminate()
                    res.append((k, i, None))
                else:
                    still.append((k, i, p, r))
            running = still
        return res

    def main(self):
        _WORK['proofs'], _WORK['bounded'] = self.proofs, self.bounded
        jobs = [('b', i) for i in range(len(self.bounded))] + [('p', i) for i in range(len(self.proofs))]
        only = os.environ.get('DPV_ONLY')
        if only:
            jobs = [(k, i) for k, i in jobs if only in (self.bounded if k == 'b' else self.proofs)[i][0]]
        if any(o.get('compiled') for _, _, o in self.bounded) or any(o.get('compiled') for _, _, o in self.proofs):
            from . import conc
            try:
                conc.compiled_src()
            except Exception as e:
                print('extension build failed: %s' % e)
        res = self._map(jobs)
        obls, failed, errors, notes, viols, berr = 0, [], [], [], [], []
        per, byb, evals, nontriv, samples, paths_n = [], {}, 0, 0, [], 0
        stats = {}
        rules = []
        for k, i, r in sorted(res, key=lambda x: (x[0], x[1])):
            name = (self.proofs if k == 'p' else self.bounded)[i][0]
            if r is None:
                (failed if k == 'p' else berr).append({'obligation': name, 'detail': 'worker died or ran out of time'} if k == 'p'
                                                      else {'name': name, 'error': 'worker died or ran out of time'})
                if k == 'p':
                    obls += 1
                continue
            if k == 'b':
                evals += r['n']
                nontriv += r['nontrivial']
                samples += [name + ': ' + s for s in r['samples']]
                if r['rule']:
                    rules.append(name + ': ' + r['rule'])
                viols += r['viol']
                if r['error']:
                    berr.append({'name': name, 'error': r['error']})
                per.append({'run-time contract': name, 'cases': r['n'], 's': round(r['time'], 2)})
                if os.environ.get('DPV_VERBOSE'):
                    print('bounded %-50s %6d cases %6.1fs %d violations' % (name, r['n'], r['time'], len(r['viol'])), r['error'] or '')
                continue
            paths_n += r['paths']
            for s, v in r['stats'].items():
                stats[s] = stats.get(s, 0) + v
            notes += [x for x in r['notes'] if x not in notes]
            nf = 0
            for o in r['obls']:
                oname, st, be, det, tm, model, goal, hyps, expect = o
                obls += 1
                if st == 'proved':
                    byb[be] = byb.get(be, 0) + 1
                else:
                    nf += 1
                    failed.append({'obligation': '%s/%s' % (name, oname), 'detail': det, 'model': model, 'goal': goal, 'hypotheses': hyps})
            for kind, msg, tb, pc in r['errors']:
                obls += 1
                nf += 1
                failed.append({'obligation': '%s/executes' % name, 'detail': '%s: %s' % (kind, msg), 'trace': tb, 'hypotheses': pc})
            if not r['obls'] and not r['errors']:
                obls += 1
                nf += 1
                failed.append({'obligation': '%s/non-vacuous' % name, 'detail': 'no obligation was generated'})
            per.append({'contract': name, 'paths': r['paths'], 'obligations': len(r['obls']), 'failed': nf, 's': round(r['time'], 2)})
            if os.environ.get('DPV_VERBOSE'):
                print('proof   %-50s paths %4d obligations %4d failed %d  %.1fs' % (name, r['paths'], len(r['obls']), nf, r['time']))
        return self.verdict(obls, failed, viols, berr, per, byb, evals, nontriv, samples, paths_n, stats, notes, rules)

    # ---- verdict
    def known(self):
        p = os.path.join(HERE, 'known_findings.json')
        try:
            with open(p) as f:
                return [x for x in json.load(f)['findings'] if x.get('property') == self.pid and x.get('status') == 'known']
        except (OSError, ValueError, KeyError):
            return []

    def verdict(self, obls, failed, viols, berr, per, byb, evals, nontriv, samples, paths_n, stats, notes, rules):
        known = self.known()
        hit, fresh = [], []
        for v in viols:
            m = [k for k in known if k.get('site') == v['site'] and k.get('match', '') in v['what']]
            (hit if m else fresh).append((v, m))
        kob, fob = [], []
        for f in failed:
            m = [k for k in known if k.get('obligation') and k['obligation'] == f['obligation']]
            (kob if m else fob).append((f, m))
        for k in known:
            if any(k in m for _, m in hit) or any(k in m for _, m in kob):
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
            else:
                print('KNOWN-FINDING: property=%s %s (not reproduced in this run)' % (self.pid, k['what']))
        rc = 0
        if berr:
            # the real code raised where the contract requires a value, or a harness fault: reported as such
            for b in berr:
                print('run-time contract aborted: %s\n%s' % (b['name'], b['error']))
        if fresh or fob or berr:
            rc = 1
            rp = self.replay(fresh, fob, berr)
            if fresh:
                print('VIOLATION property=%s replay=%s' % (self.pid, rp))
                for v, _ in fresh[:6]:
                    print('  %s: %s' % (v['site'], v['what']))
            else:
                for f, _ in fob[:12]:
                    print('  undischarged: %s: %s' % (f['obligation'], str(f['detail'])[:300]))
                print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.pid, rp))
        cov = {'obligations': obls, 'discharged': obls - len(failed),
               'checker_cmd': '/opt/venv/bin/python /verif/check.py %s' % self.pid,
               'trusted_base': TRUSTED + notes,
               'by_backend': byb, 'paths': paths_n, 'solver': {k: round(v, 2) for k, v in stats.items()},
               'functions_under_contract': self.functions, 'per_contract': per}
        cov['evaluations'] = evals
        cov['distinct_nontrivial'] = nontriv
        cov['rule'] = 'bounded run-time contracts on the real package (never counted as proved). ' + ' | '.join(rules)
        cov['samples'] = samples[:8] or ['none']
        cov['undischarged'] = [f['obligation'] for f in failed][:50]
        ev = {'property': self.pid, 'tier': tier(), 'seed': seed(), 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions + notes, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(fresh) + len(fob)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d/%d obligations discharged (%s), %d bounded evaluations, %.1fs' % (
            self.pid, obls - len(failed), obls, ', '.join('%s %d' % x for x in sorted(byb.items())), evals, time.time() - self.t0))
        return rc

    def replay(self, fresh, fob, berr):
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.pid + '.json')
        with open(p, 'w') as f:
            json.dump({'property': self.pid, 'seed': seed(), 'tier': tier(),
                       'rerun': 'VERIF_SEED=%d VERIF_TIER=%s /opt/venv/bin/python /verif/check.py %s' % (seed(), tier(), self.pid),
                       'failing_inputs': [v for v, _ in fresh], 'failed_obligations': [x for x, _ in fob],
                       'aborted': berr}, f, indent=1, default=repr)
        return p


TRUSTED = ['CPython (control flow, classes, closures, exceptions of the executed source)',
           'dpv symbolic execution, numpy/scipy facade semantics and algebraic normaliser (this repository)',
           'z3 5.3 / cvc5 1.1 answers "unsat"',
           'machine floating point treated as real arithmetic with exact NaN/inf tracking (no rounding)',
           'axioms of exp, log, erf, sqrt, trigonometric functions as instantiated in dpv/smt.py and dpv/alg.py']


def _child(k, i, w):
    try:
        r = _explore_job(i) if k == 'p' else _bounded_job(i)
        w.send(r)
    except BaseException as e:      # noqa
        try:
            w.send({'name': '?', 'n': 0, 'nontrivial': 0, 'samples': [], 'viol': [], 'error': repr(e), 'time': 0, 'rule': '',
                    'obls': [], 'errors': [('engine', repr(e), traceback.format_exc(limit=-5), [])], 'paths': 0, 'notes': [], 'stats': {}})
        except Exception:
            pass
    finally:
        w.close()
        os._exit(0)
