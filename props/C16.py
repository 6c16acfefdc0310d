"""C16: the worker pool returns every submitted task result exactly once."""
import collections
import copy
import ctypes
import os
import pickle
import queue
import random
import subprocess
import sys
import threading
import types
import numpy as np
from dpv import report, load, sym, arr, conc, term as T
from dpv.paths import ctx, Unsupported, Infeasible
from dpv.term import R, I, B
CHECK = report.Check('C16')
MH = 'MTfit.utilities.multiprocessing_helper'
CHECK.covers(MH + '.Worker.run', *[MH + '.JobPool.' + n for n in ('__init__', 'task', 'custom_task', 'clean_workers', 'result', 'all_results', 'rebuild_ln_pdf', 'close')])
CHECK.covers('MTfit.probability.probability.LnPDF.__getstate__', 'MTfit.probability.probability.LnPDF.__setstate__')
CHECK.assume('multiprocessing.Queue: what is put is delivered to exactly one get, in order per producer; get blocks until something arrives; what cannot be pickled is lost; a process ends only after its buffered results have gone into the pipe',
             'pickling copies an LnPDF through __getstate__/__setstate__ and everything else by value',
             'tasks are picklable and end; operating-system scheduling is fair; no worker is killed from outside',
             'a reserved status code may be skipped (documented) or returned; results of other kinds must all be returned',
             'the code looks at a result only through its class and membership of RETURN_CODES (results are represented by one arbitrary value of each class)')


# ---- contracts of multiprocessing and pickle used by the proofs --------------------------------
class Opaque(object):
    """an arbitrary result object"""


class Lost(object):
    """a result that cannot be pickled"""


class Halt(BaseException):
    pass


def transport(v, LnPDF):
    if isinstance(v, Lost):
        raise pickle.PicklingError('cannot be pickled')
    if isinstance(v, dict):
        return {k: transport(x, LnPDF) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(transport(x, LnPDF) for x in v)
    if isinstance(v, LnPDF):
        w = object.__new__(LnPDF)
        w.__setstate__(v.__getstate__())
        return w
    return v


class Pickled(object):
    def __init__(self, v):
        self.v = v


class Env(object):
    """the stand-ins of one proof; on_get(queue) and the rest are given by the contract"""
    def __init__(self):
        self.L = L = load.Loader(stubs=())
        L.wanted_prefixes = L.wanted_prefixes + (MH,)
        self.puts, self.started, self.joined = [], [], []
        self.alive = {}
        env = self

        class Queue(object):
            def __init__(self, *a):
                env.queues.append(self)

            def put(self, v, *a, **k):
                env.puts.append((self, v))

            put_nowait = put

            def get(self, *a, **k):
                return env.on_get(self, bool(a[1:] or k.get('timeout') is not None))

            def get_nowait(self):
                return env.on_get(self, True)

            def close(self):
                pass
            join_thread = cancel_join_thread = close

        class Process(object):
            k = 0

            def __init__(self, *a, **k):
                Process.k += 1
                self.name = 'Process-%d' % Process.k
                self._popen = types.SimpleNamespace(pid=1)
                self._Popen = None
                env.alive[self] = False

            def start(self):
                env.started.append(self)
                env.alive[self] = True

            def join(self, timeout=None):
                env.on_join(self, timeout)

            def is_alive(self):
                return env.on_alive(self)
        self.queues = []
        mp = types.ModuleType('multiprocessing')
        mp.Queue, mp.Process, mp.cpu_count = Queue, Process, lambda: 4
        mp.queues = types.ModuleType('queues')
        mp.queues.Queue = Queue
        pk = types.ModuleType('pickle')

        def dumps(v, *a, **k):
            return Pickled(transport(v, self.LnPDF))
        pk.dumps, pk.loads = dumps, lambda p, *a, **k: transport(p.v, self.LnPDF)
        pk.HIGHEST_PROTOCOL, pk.PicklingError = 5, pickle.PicklingError
        L.replace.update({'multiprocessing': mp, 'pickle': pk})
        self.M = L.load(MH)
        self.M.print = lambda *a, **k: None
        self.LnPDF = self.M.LnPDF
        self.on_alive = lambda w: self.alive[w]
        self.on_join = lambda w, t: None
        self.on_get = None

    def forget(self, st):
        """loop head: every local variable of the active functions of the code that has changed since the last
        time here is overwritten by Gone (any use of it ends the proof): later turns cannot depend on it"""
        f = sys._getframe(1)
        new = {}
        while f is not None:
            if f.f_globals.get('__name__') == MH and '__file__' in f.f_globals:
                loc = f.f_locals
                old = st.get(id(f.f_code), {})
                hit = [k for k in loc if st and (k not in old or old[k] is not loc[k])]
                for k in hit:
                    loc[k] = GONE
                if hit:
                    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(f), ctypes.c_int(0))
                new[id(f.f_code)] = {k: v for k, v in f.f_locals.items()}
                if [k for k in hit if new[id(f.f_code)][k] is not GONE]:
                    raise Unsupported('cannot forget local variables')
            f = f.f_back
        st.clear()
        st.update(new)


class Gone(object):
    def _no(self, *a, **k):
        raise Unsupported('the loop uses a value kept from an earlier turn')
    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __len__ = __iter__ = __call__ = __getitem__ = __setitem__ = __contains__ = __add__ = __iadd__ = __radd__ = __sub__ = __isub__ = _no
    __hash__ = object.__hash__

    def __getattribute__(self, k):
        if k == '__class__':
            raise Unsupported('the loop uses a value kept from an earlier turn')
        return object.__getattribute__(self, k) if k.startswith('__') else Gone._no(self)


GONE = Gone()


def pick(name, n):
    """an arbitrary number in 0..n-1 (one path each)"""
    for i in range(n - 1):
        if ctx().branch(T.var('%s_%d' % (name, i), B)):
            return i
    return n - 1


def lnpdf(env, tag):
    n = sym.int_var('n')
    sym.assume(n >= 1)
    a = arr.input_array('L' + tag, [1, n], ninf=True)
    dv = sym.real_var('dV' + tag)
    sym.assume(dv > 0)
    p = env.LnPDF(arr.np_matrix(a), dV=dv)
    p.tag = None
    return p, (a, n, dv)


def same_lnpdf(env, what, p, orig):
    a, n, dv = orig
    if not isinstance(p, env.LnPDF):
        ctx().oblige(what + ': a log-PDF object', T.FALSE)
        return
    ctx().oblige(what + ': volume element', sym.eqt(p.dV, dv))
    m = p._ln_pdf
    i = T.fresh('i', I)
    ctx().assume(T.le(T.IZERO, i))
    ctx().assume(T.lt(i, n.t))
    ctx().oblige(what + ': shape', T.and_(T.const(len(m.shape) == 2), T.eq(arr.dim(m.shape[0]), T.const(1, I)), T.eq(arr.dim(m.shape[-1]), n.t)))
    x, y = m.xat((T.IZERO, i)), a.xat((T.IZERO, i))
    ctx().oblige(what + ': values', T.and_(T.iff(x.n, y.n), T.not_(x.nan), T.not_(x.p), T.or_(y.n, T.eq(x.v, y.v))))


ACTS = ('object', 'None', 'int', 'code 10', 'code 20', 'dict', 'dict with log-PDF', 'nested log-PDF', 'log-PDF', 'list', 'raises', 'raises SystemExit', 'cannot be pickled', 'pill')


def outcome(env, act, tag):
    """a result of the class; also how to check that `got` is that result after the transport"""
    ok = lambda t: ctx().oblige('result of the task (%s)' % act, T.const(bool(t)))
    if act == 'object':
        v = Opaque()
        return v, lambda g: ok(g is v)
    if act == 'None':
        return None, lambda g: ok(g is None)
    if act in ('int', 'code 10', 'code 20'):
        v = {'int': 7, 'code 10': 10, 'code 20': 20}[act]
        return v, lambda g: ok(type(g) is int and g == v)
    if act == 'dict':
        v = {'a': Opaque(), 'b': {'c': 1}, 'd': [1, 2]}
        w = dict(v)
        return v, lambda g: ok(isinstance(g, dict) and list(g) == list(w) and g['a'] is w['a'] and g['b'] == {'c': 1} and g['d'] == [1, 2])
    if act in ('dict with log-PDF', 'nested log-PDF'):
        p, o = lnpdf(env, tag)
        x = Opaque()
        v = {'x': x, 'ln_pdf': p, 'n': 4} if act[0] == 'd' else {'x': x, 'sub': {'ln_pdf': p, 'k': 3}, 'all': [{'ln_pdf': p}]}

        def chk(g):
            ok(isinstance(g, dict) and g.get('x') is x and len(g) == 3)
            if act[0] == 'd':
                ok(g.get('n') == 4)
                same_lnpdf(env, act, g.get('ln_pdf'), o)
            else:
                ok(isinstance(g.get('sub'), dict) and g['sub'].get('k') == 3 and isinstance(g.get('all'), list) and len(g['all']) == 1)
                same_lnpdf(env, act, g['sub'].get('ln_pdf'), o)
                same_lnpdf(env, act, g['all'][0].get('ln_pdf'), o)
        return v, chk
    if act == 'log-PDF':
        p, o = lnpdf(env, tag)
        return p, lambda g: same_lnpdf(env, act, g, o)
    if act == 'list':
        p, o = lnpdf(env, tag)
        x = Opaque()

        def chk(g):
            ok(isinstance(g, list) and len(g) == 2 and g[0] is x and isinstance(g[1], dict))
            same_lnpdf(env, act, g[1].get('ln_pdf'), o)
        return [x, {'ln_pdf': p}], chk
    if act == 'cannot be pickled':
        return Lost(), lambda g: ok(isinstance(g, Exception))
    raise Unsupported(act)


def task(env, act, tag):
    if act == 'pill':
        return env.M.PoisonPill(), None
    if act.startswith('raises'):
        e = SystemExit(3) if 'System' in act else ValueError('task failed')

        def run():
            raise e
        return run, lambda g: ctx().oblige('result of the task (%s)' % act, T.const(g is e))
    v, chk = outcome(env, act, tag)
    return (lambda: v), chk


def _worker(first, second):
    """two arbitrary tasks in sequence: each taken once and answered once; the worker goes on until a pill"""
    def f():
        env = Env()
        tq, rq = object.__new__(type('q', (), {})), None
        Q = env.L.replace['multiprocessing'].Queue
        tq, rq = Q(), Q()
        w = env.M.Worker(tq, rq)
        acts, st, heads = [], {'n': 0}, {}
        script = [first, second]

        def on_get(q, timed):
            if timed:
                raise Unsupported('worker polls the task queue')
            ctx().oblige('takes tasks from the task queue', T.const(q is tq))
            # contract of the loop: so far, one result for every task taken
            ctx().oblige('one result for every task taken', T.const(len(env.puts) == st['n'] and all(p[0] is rq for p in env.puts)))
            env.forget(heads)
            ctx().oblige('the worker object is unchanged', T.const({k: id(v) for k, v in vars(w).items()} == st.setdefault('vars', {k: id(v) for k, v in vars(w).items()})))
            if st['n'] == len(script):
                raise Halt()
            t, chk = task(env, script[st['n']], 'abc'[st['n']])
            acts.append((script[st['n']], chk))
            if chk is not None:
                st['n'] += 1
            else:
                st['pill'] = True
            return t
        env.on_get = on_get
        ended = False
        try:
            w.run()
            ended = True
        except Halt:
            pass
        except Unsupported:
            raise
        except Infeasible:
            raise
        except BaseException as e:
            ctx().oblige('the worker survives the task (%s, %s): %s' % (first, second, type(e).__name__), T.FALSE)
            return
        ctx().oblige('ends when, and only when, it takes a poison pill', T.const(ended == ('pill' in [a for a, _ in acts])))
        ctx().oblige('one result for every task taken', T.const(len(env.puts) == st['n']))
        for (a, chk), (q, v) in zip([x for x in acts if x[1] is not None], env.puts):
            try:
                g = transport(v, env.LnPDF)
            except pickle.PicklingError:
                ctx().oblige('the result can be sent (%s)' % a, T.FALSE)
                continue
            # what the pool makes of it
            pool = object.__new__(env.M.JobPool)
            g = env.M.JobPool.rebuild_ln_pdf(pool, g)
            chk(g)
    return f


def worker_all(second):
    def f():
        first = [a for a in ACTS if a != 'pill'][pick('first', len(ACTS) - 1)]
        _worker(first, second)()
    return f


for _a in ACTS:
    CHECK.proof('Worker.run: any task, then a task with outcome: %s' % _a, max_paths=200, max_time=120)(worker_all(_a))


# ---- the pool --------------------------------------------------------------------------------------
def pool(env, n_workers=2):
    """a pool built by the code itself; number_jobs is then an arbitrary non-negative number"""
    p = env.M.JobPool(n_workers, task=lambda *a: ('task', a))
    ctx().oblige('starts the workers', T.const(len(env.started) == n_workers and all(w in p.workers for w in env.started)))
    ctx().oblige('no jobs yet', T.const(type(p.number_jobs) is int and p.number_jobs == 0))
    del env.puts[:]
    return p


def submit(custom):
    def f():
        env = Env()
        p = pool(env)
        n = sym.int_var('jobs')
        sym.assume(n >= 0)
        p.number_jobs = n
        x, y = Opaque(), Opaque()
        mk = lambda *a: ('custom', a)
        if custom:
            p.custom_task(mk, x, y)
        else:
            p.task(x, y)
        ctx().oblige('one task queued', T.const(len(env.puts) == 1 and env.puts[0][0] is p.tasks))
        v = env.puts[0][1]
        ctx().oblige('the task built from the arguments', T.const(v == ('custom' if custom else 'task', (x, y)) and v[1][0] is x and v[1][1] is y))
        ctx().oblige('one more outstanding', T.eq(sym.lift(p.number_jobs).t, T.add(n.t, T.const(1, I))))
        ctx().oblige('somebody is there to run it', T.const(any(env.alive[w] for w in p.workers)))
    return f


CHECK.proof('JobPool.task (any number outstanding)')(submit(False))
CHECK.proof('JobPool.custom_task (any number outstanding)')(submit(True))


def clean(n):
    def f():
        env = Env()
        p = pool(env, n)
        dead = [w for i, w in enumerate(p.workers) if n > 4 and i % 3 == 1 or n <= 4 and pick('dead%d' % i, 2)]
        for w in dead:
            env.alive[w] = False
        live = [w for w in p.workers if env.alive[w]]
        k = len(env.started)
        p.clean_workers()
        ctx().oblige('live workers are kept', T.const(all(w in p.workers for w in live)))
        ctx().oblige('the number of workers is the one asked for', T.const(len(p.workers) == n and len(set(map(id, p.workers))) == n))
        ctx().oblige('new workers are started and kept', T.const(all(w in p.workers for w in env.started[k:])))
        ctx().oblige('at least one worker serves', T.const(any(env.alive[w] for w in p.workers)))
        ctx().oblige('nothing queued', T.const(not env.puts))
    return f


for _n in (1, 2, 3, 4, 7, 16):
    CHECK.proof('JobPool.clean_workers with %d workers' % _n)(clean(_n))

KINDS = ('object', 'None', 'int', 'code 10', 'code 20', 'dict with log-PDF', 'nested log-PDF', 'list', 'exception')


def sent(env, act, tag):
    if act == 'exception':
        e = ValueError('task failed')
        return e, lambda g: ctx().oblige('result of the task (exception)', T.const(g is e))
    if act == 'dict with log-PDF':      # what Worker.run sends
        p, o = lnpdf(env, tag)
        x = Opaque()

        def chk(g):
            ctx().oblige('result of the task', T.const(isinstance(g, dict) and g.get('x') is x and len(g) == 2))
            same_lnpdf(env, act, g.get('ln_pdf'), o)
        return {'x': x, 'ln_pdf': {'ln_pdf_obj': p.__getstate__()}}, chk
    return outcome(env, act, tag)


def _collect(kinds, every):
    """results arrive in any order; `every`: all_results, otherwise one call of result"""
    def f():
        env = Env()
        p = pool(env)
        n = sym.int_var('jobs')
        sym.assume(n >= (0 if every else 1))
        p.number_jobs = n
        got, heads = [], []

        def on_get(q, timed):
            ctx().oblige('waits on the result queue', T.const(q is p.results))
            out = sym.S(T.sub(n.t, T.const(len(got), I)))
            if timed:
                raise Unsupported('polls the result queue')
            # precondition of a blocking get: something is still to come and somebody is there to produce it
            ctx().oblige('waits only if a result is outstanding', T.lt(T.IZERO, out.t))
            ctx().oblige('somebody runs the outstanding tasks', T.const(any(env.alive[w] for w in p.workers)))
            ctx().oblige('the count is what is outstanding', sym.eqt(p.number_jobs, out))
            if len(got) == len(kinds):
                raise Infeasible()      # further turns repeat the last: see the comparison of heads
            v, chk = sent(env, kinds[len(got)], 'abc'[len(got)])
            got.append((kinds[len(got)], chk, v))
            return v
        env.on_get = on_get
        r = p.all_results() if every else p.result()
        out = T.sub(n.t, T.const(len(got), I))
        ctx().oblige('the count is what is outstanding', sym.eqt(p.number_jobs, sym.S(out)))
        ctx().oblige('nothing sent', T.const(not env.puts))
        codes = lambda a: a.startswith('code')
        if every:
            ctx().oblige('nothing outstanding', T.eq(out, T.IZERO))
            ctx().oblige('a list', T.const(isinstance(r, list)))
            plain, full = [g for g in got if not codes(g[0])], got
            use = plain if len(r) == len(plain) else full
            ctx().oblige('every result once', T.const(len(r) == len(use)))
            for g, v in zip(use, r):
                g[1](v)
        else:
            ctx().oblige('results taken before are return codes', T.const(len(got) >= 1 and all(codes(g[0]) for g in got[:-1])))
            if codes(got[-1][0]) and not (isinstance(r, int) and r in (10, 20)):
                ctx().oblige('a return code stands for itself', T.FALSE)
            got[-1][1](r)
    return f


def collect(every, first):
    def f():
        ks = [first, KINDS[pick('second', len(KINDS))], KINDS[pick('third', len(KINDS))]]
        if not every and not first.startswith('code'):
            ks = [first]
        _collect(ks, every)()
    return f


for _k in KINDS:
    CHECK.proof('JobPool.result, first arriving: %s (any number outstanding)' % _k, max_paths=2000, max_time=200)(collect(False, _k))
    CHECK.proof('JobPool.all_results, first arriving: %s (up to three outstanding)' % _k, max_paths=3000, max_time=300)(collect(True, _k))


def closing(n):
    def f():
        env = Env()
        p = pool(env, n)
        dead = n <= 3 and [w for i, w in enumerate(p.workers) if pick('dead%d' % i, 2)] or []
        for w in dead:
            env.alive[w] = False
        st = {'n': 0, 'queued': []}
        more = [Opaque() for _ in range(pick('unread', 3))]
        asked = []

        def on_get(q, timed):
            ctx().oblige('reads the result queue only without blocking', T.const(timed and q is p.results))
            if more:
                v = more.pop(0)
                asked.append(v)
                return v
            # nothing left to read: every worker that has its pill ends
            for w in list(env.alive):
                env.alive[w] = False
            raise queue.Empty()

        def pills():
            return len([v for q, v in env.puts if isinstance(v, env.M.PoisonPill) and q is p.tasks])

        def alive(w):
            return env.alive[w]

        def on_join(w, timeout):
            ctx().oblige('as many pills as workers before waiting', T.const(pills() >= len([x for x in p.workers if env.alive[x]])))
            ctx().oblige('waits for a worker only when its results have been read', T.const(timeout is not None or not more or not env.alive[w]))
            if not more:
                env.alive[w] = False
            env.joined.append(w)
        env.on_get, env.on_join, env.on_alive = on_get, on_join, alive
        n0 = p.number_jobs
        p.close()
        ctx().oblige('only pills are queued', T.const(all(isinstance(v, env.M.PoisonPill) and q is p.tasks for q, v in env.puts)))
        ctx().oblige('as many pills as workers', T.const(pills() == n))
        ctx().oblige('every worker has ended', T.const(not any(env.alive[w] for w in env.started)))
        ctx().oblige('the count is what is outstanding', T.const(p.number_jobs == n0))
    return f


for _n in (1, 2, 3, 8, 16):
    CHECK.proof('JobPool.close with %d workers' % _n, max_paths=200)(closing(_n))


# ---- bounded: the real code on simulated schedules ----------------------------------------------
class Kill(BaseException):
    pass


class Deadlock(BaseException):
    pass


class Sim(object):
    """multiprocessing with threads of which exactly one runs at a time; every queue operation, start, join and
    is_alive is a scheduling point decided by `rng`; results go through pickle and per-process buffers into a pipe of
    limited capacity, as multiprocessing.Queue does"""
    def __init__(self, rng, cap, style):
        self.rng, self.cap, self.style = rng, cap, style
        self.actors, self.queues, self.steps = [], [], 0
        self.main = self.cur = self.Actor('main')
        self.actors.append(self.main)
        self.dead = None

    class Actor(object):
        def __init__(self, name):
            self.name, self.sem, self.cond, self.timed, self.ran, self.done, self.kill = name, threading.Semaphore(0), None, False, False, False, False
            self.prio = 0

    def flush(self, everything=False):
        for q in self.queues:
            for a in list(q.buf):
                b = q.buf[a]
                while b and (self.cap is None or len(q.pipe) < self.cap) and (everything or self.rng.random() < .6):
                    q.pipe.append(b.popleft())

    def wait(self, cond=None, timed=False):
        """scheduling point of the running actor; returns False on a time-out"""
        me = self.cur
        me.cond, me.timed, me.fired = cond, timed, False
        self.steps += 1
        if self.steps > 60000:
            self.stop('does not terminate')
        self.flush()
        ready = self.ready()
        if not ready:
            self.flush(True)
            ready = self.ready()
        late = [a for a in self.actors if a.timed and not a.done and a.cond and not a.cond()]
        if late and (not ready or self.rng.random() < .15):
            a = self.rng.choice(late)
            a.fired = True
            nxt = a
        elif not ready:
            self.stop('waits for ever')
            nxt = self.main
        elif self.style == 0:
            nxt = self.rng.choice(ready)
        else:
            if self.rng.random() < .1:
                self.rng.choice(self.actors).prio = self.rng.random()
            nxt = max(ready, key=lambda a: a.prio)
        self.switch(me, nxt)
        return not me.fired

    def ready(self):
        return [a for a in self.actors if not a.done and (a.cond is None or a.cond())]

    def stop(self, why):
        self.dead = self.dead or why
        if self.cur is self.main:
            raise Deadlock(self.dead)
        self.main.kill = True
        me, self.cur = self.cur, self.main
        self.main.sem.release()
        if me.done:
            raise Kill()
        me.sem.acquire()
        raise Kill()

    def switch(self, me, nxt):
        if nxt is not me:
            self.cur = nxt
            nxt.sem.release()
            if me.done:
                return
            me.sem.acquire()
        if me.kill:
            raise Deadlock(self.dead) if me is self.main else Kill()

    def end(self):
        """ends all threads"""
        for a in self.actors:
            if a is not self.main and not a.done:
                a.kill = True
                a.sem.release()
        for a in self.actors:
            if a is not self.main:
                a.thread.join()

    def module(self):
        import multiprocessing as real
        sim = self
        mp = types.ModuleType('multiprocessing')
        mp.__path__ = real.__path__
        mp.__getattr__ = lambda k: getattr(real, k)

        class Queue(object):
            def __init__(self, *a):
                self.pipe, self.buf = collections.deque(), {}
                sim.queues.append(self)

            def put(self, v, block=True, timeout=None):
                try:
                    d = pickle.dumps(v, -1)
                except Exception:
                    d = None        # the feeder thread prints the error and goes on
                if d is not None:
                    self.buf.setdefault(sim.cur, collections.deque()).append(d)
                sim.wait()

            def put_nowait(self, v):
                self.put(v)

            def get(self, block=True, timeout=None):
                if not block:
                    sim.wait()
                    if not self.pipe:
                        raise queue.Empty()
                elif not sim.wait(lambda: len(self.pipe) > 0, timeout is not None):
                    raise queue.Empty()
                return pickle.loads(self.pipe.popleft())

            def get_nowait(self):
                return self.get(False)

            def empty(self):
                sim.wait()
                return not self.pipe

            def qsize(self):
                return len(self.pipe) + sum(len(b) for b in self.buf.values())

            def full(self):
                return False

            def close(self):
                pass
            join_thread = cancel_join_thread = close

        class Process(object):
            k = 0
            _Popen = None

            def __init__(self, *a, **k):
                Process.k += 1
                self.name = 'Process-%d' % Process.k
                self.daemon, self.exitcode, self.actor = False, None, None

            def start(self):
                a = self.actor = Sim.Actor(self.name)
                a.prio = sim.rng.random()
                child = copy.copy(self)     # a forked process has its own copy of the object

                def body():
                    a.sem.acquire()
                    try:
                        if not a.kill:
                            child.run()
                            # the process ends when its buffered results are in the pipe
                            sim.wait(lambda: not any(q.buf.get(a) for q in sim.queues))
                    except Kill:
                        a.done = True
                        return
                    except BaseException:
                        try:
                            sim.wait(lambda: not any(q.buf.get(a) for q in sim.queues))
                        except Kill:
                            a.done = True
                            return
                    a.done = True
                    self.exitcode = 0
                    # hand over
                    try:
                        a.cond = lambda: False
                        sim.wait(lambda: False)
                    except Kill:
                        pass
                a.thread = threading.Thread(target=body, daemon=True)
                a.thread.start()
                self._popen = types.SimpleNamespace(pid=1000 + Process.k)
                self.pid = 1000 + Process.k
                sim.actors.append(a)
                sim.wait()

            def join(self, timeout=None):
                sim.wait(lambda: self.actor.done, timeout is not None)

            def is_alive(self):
                sim.wait()
                return self.actor is not None and not self.actor.done

            def terminate(self):
                self.actor.kill = True
                self.actor.done = True
                self.actor.sem.release()
            kill = terminate
        mp.Queue, mp.Process, mp.cpu_count = Queue, Process, lambda: 3
        return mp


class Odd(Exception):
    """an exception that cannot be unpickled (its arguments are not those of its constructor)"""
    def __init__(self, a, b):
        Exception.__init__(self, 'odd')


class Task(object):
    """kind of outcome, an identification, the package providing LnPDF"""
    def __init__(self, kind, key, dur=0):
        self.kind, self.key, self.dur = kind, key, dur

    def value(self):
        from MTfit.probability import LnPDF
        k, key = self.kind, self.key
        ln = lambda: LnPDF(np.log(np.arange(1, 4 + key % 5) / 7.) if key % 3 else np.array([[0.5, -np.inf, -3.25 - key]]), dV=0.125 * (1 + key))
        if k == 'plain':
            return ('r', key)
        if k == 'dict':
            return {'key': key, 'x': {'y': [1, 2, key]}, 'payload': np.arange(key % 50)}
        if k == 'big':
            return {'key': key, 'payload': bytes(200000)}
        if k == 'lnpdf':
            return {'key': key, 'ln_pdf': ln(), 'other': ln(), 'n': None}
        if k == 'nested':
            return {'key': key, 'sub': {'ln_pdf': ln(), 'k': 1}, 'list': [{'ln_pdf': ln()}, 3]}
        if k == 'bare':
            return ln()
        if k == 'list':
            return [key, {'ln_pdf': ln()}]
        if k == 'int':
            return 1000 + key
        if k == 'none':
            return None
        if k in ('10', '20'):
            return int(k)
        return None

    def __call__(self):
        if self.dur:
            import time
            time.sleep(self.dur)
        k = self.kind
        if k == 'raises':
            raise ValueError('task %d' % self.key)
        if k == 'exits':
            raise SystemExit(self.key)
        if k == 'odd':
            raise Odd(1, 2)
        if k == 'unpicklable':
            return lambda: self.key
        return self.value()

    def same(self, got):
        k = self.kind
        if k == 'raises':
            return isinstance(got, ValueError) and got.args == ('task %d' % self.key,)
        if k == 'exits':
            return isinstance(got, SystemExit) and got.args == (self.key,)
        if k in ('odd', 'unpicklable'):
            return isinstance(got, Exception) and type(got) is not ValueError
        return eq(self.value(), got)


def eq(a, b):
    if type(a).__name__ == 'LnPDF' or type(b).__name__ == 'LnPDF':
        if type(a).__name__ != type(b).__name__:
            return False
        x, y = np.asarray(a._ln_pdf), np.asarray(b._ln_pdf)
        return x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y) and a.dV == b.dV
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    return a == b


CODES = ('10', '20')
KIND = ('plain', 'plain', 'dict', 'big', 'lnpdf', 'nested', 'bare', 'list', 'int', 'none', '10', '20', 'raises', 'raises', 'exits', 'odd', 'unpicklable')


def script(rng, real=False):
    """workers and a sequence of operations"""
    W = rng.choice([1, 1, 2, 2, 3, 4, 8, 16])
    mode = rng.randrange(5)
    kinds = {0: KIND, 1: ('plain', 'raises'), 2: ('plain', '10', '20', 'lnpdf'), 3: ('raises',), 4: ('lnpdf', 'dict', 'nested', 'raises', '20')}[mode]
    ops, key = [], 0
    for _ in range(rng.randrange(1, 7)):
        for _ in range(rng.choice([0, 1, 2, 3, 5] + ([40, 90] if real else [12]))):
            ops.append(('task' if rng.random() < .7 else 'custom', rng.choice(kinds), key, rng.choice([0, 0, rng.uniform(0, .02)]) if real else 0))
            key += 1
            if rng.random() < .25:
                ops.append(('result',))
        if rng.random() < .5:
            ops.append(('all',))
    if rng.random() < .75:
        ops.append(('all',))
    return W, ops


def scenario(M, W, ops):
    """runs the operations on the real pool; the violated clause, or None"""
    pool = M.JobPool(W, task=Task)
    if not len(pool.workers) or any(not w.is_alive() for w in pool.workers):
        return 'workers are not running after initialisation'
    every = list(pool.workers)
    open_, codes = [], []

    def take(r):
        for i, t in enumerate(open_):
            if t.same(r):
                open_.pop(i)
                return None
        for i, t in enumerate(codes):
            if t.same(r):
                codes.pop(i)
                return None
        return 'a result that no outstanding task produced: %.200r' % (r,)
    for o in ops:
        every += [w for w in pool.workers if w not in every]
        if o[0] in ('task', 'custom'):
            t = Task(o[1], o[2], o[3])
            (codes if o[1] in CODES else open_).append(t)
            if o[0] == 'task':
                pool.task(o[1], o[2], o[3])
            else:
                pool.custom_task(Task, o[1], o[2], o[3])
        elif o[0] == 'result':
            if open_:
                w = take(pool.result())
                if w:
                    return w
        else:
            r = pool.all_results()
            if not isinstance(r, list):
                return 'all_results returns %.80r' % (r,)
            for x in r:
                w = take(x)
                if w:
                    return w
            if open_:
                return '%d results are lost, for example that of a task of kind %r' % (len(open_), open_[0].kind)
            codes = []
            if pool.number_jobs:
                return 'number_jobs is %r with nothing outstanding' % pool.number_jobs
    every += [w for w in pool.workers if w not in every]
    pool.close()
    left = [w for w in every + list(pool.workers) if w.is_alive()]
    if left:
        return '%d workers are alive after close' % len(left)
    return None


def fresh(mp):
    """the module of the current sources with another multiprocessing"""
    pk = conc.pkg('pure').activate()
    name = MH
    path = pk['utilities.multiprocessing_helper'].__file__
    m = types.ModuleType(name)
    m.__file__, m.__package__ = path, 'MTfit.utilities'
    saved = {k: sys.modules.get(k) for k in ('multiprocessing', name)}
    sys.modules['multiprocessing'], sys.modules[name] = mp, m
    try:
        with open(path) as f:
            exec(compile(f.read(), path, 'exec'), m.__dict__)
    finally:
        if saved['multiprocessing'] is not None:
            sys.modules['multiprocessing'] = saved['multiprocessing']
    m.__dict__['print'] = lambda *a, **k: None
    return m


def simulated(part):
    def f(b):
        b.rule = 'simulated schedules: 1-16 workers, up to some 80 tasks of 14 kinds of outcome, interleaved submission and collection; distinct operation sequences'
        rng = random.Random(b.np.randint(2 ** 31))
        for it in range(b.count(450)):
            W, ops = script(rng)
            sd = rng.randrange(2 ** 40)
            sim = Sim(random.Random(sd), rng.choice([None, None, 1, 3]), rng.randrange(2))
            M = fresh(sim.module())
            M.gc = types.SimpleNamespace(collect=lambda: None)
            b.cur = {'workers': W, 'operations': ops, 'schedule': sd}
            try:
                try:
                    bad = scenario(M, W, ops)
                except Deadlock as e:
                    bad = str(e)
                except Exception as e:
                    bad = 'raises %s: %s' % (type(e).__name__, e)
            finally:
                sim.end()
            b.case((W, repr(ops)), b.cur if it < 1 else None)
            b.check(bad is None, '%s' % bad, workers=W, operations=ops, schedule_seed=sd, pipe_capacity=sim.cap, style=sim.style)
    return f


for _p in range(3):
    CHECK.runtime('simulated schedules %d' % _p)(simulated(_p))

REAL = r'''
import sys, os, json, random
sys.path.insert(0, %r); sys.dont_write_bytecode = True
sys.path.insert(0, %r)
import builtins
import dpv
from props import C16
from dpv import conc
import gc
M = conc.pkg('pure').activate()['utilities.multiprocessing_helper']
M.__dict__['print'] = lambda *a, **k: None
gc.freeze()
for sd in json.loads(sys.argv[1]):
    W, ops = C16.script(random.Random(sd), True)
    sys.stdout.write('S %%d\n' %% sd); sys.stdout.flush()
    sys.stderr.flush()
    try:
        bad = C16.scenario(M, W, ops)
    except Exception as e:
        bad = 'raises %%s: %%s' %% (type(e).__name__, e)
    sys.stdout.write('R %%s\n' %% json.dumps(bad)); sys.stdout.flush()
    if bad:
        break
sys.stdout.write('E 0\n'); sys.stdout.flush()
os._exit(0)
'''


def processes(b):
    """real processes; a scenario takes a few seconds at most, it is given minutes"""
    import json
    import select
    import signal
    import time
    b.rule = 'real processes: 1-16 workers, up to some 300 tasks lasting 0-20 ms, results of up to 200 kB; distinct seeds'
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    seeds = [int(b.np.randint(2 ** 31)) for _ in range(b.count(8))]
    while seeds:
        p = subprocess.Popen([sys.executable, '-c', REAL % (here, os.path.join(conc.REPO, 'src')), json.dumps(seeds)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             stdin=subprocess.DEVNULL, start_new_session=True, cwd='/')
        cur, buf, end = None, b'', False
        try:
            while not end:
                if not select.select([p.stdout], [], [], 240)[0]:
                    W, ops = script(random.Random(cur), True) if cur is not None else (None, None)
                    b.fail('does not terminate (no answer for 240 s)', workers=W, operations=ops, seed=cur)
                    return
                c = os.read(p.stdout.fileno(), 65536)
                if not c:
                    break
                buf += c
                while b'\n' in buf:
                    line, buf = buf.split(b'\n', 1)
                    line = line.decode()
                    if line.startswith('S '):
                        cur = int(line[2:])
                        seeds.remove(cur)
                    elif line.startswith('R '):
                        bad = json.loads(line[2:])
                        W, ops = script(random.Random(cur), True)
                        b.case(cur, {'workers': W, 'operations': len(ops)} if b.n < 2 else None)
                        b.check(bad is None, '%s' % bad, workers=W, operations=ops, seed=cur)
                        cur = None
                    elif line.startswith('E '):
                        end = True
            if not end:
                b.fail('the process running the pool ended', seed=cur)
                return
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.stdout.close()
            p.wait()


CHECK.runtime('real processes')(processes)
