"""Path exploration: the code is re-executed once per feasible path; symbolic branches fork."""
import time
import traceback
import z3
from . import term as T
from . import smt


BIG = 80
BIGTRIG = 25


def hard(z):
    """a term whose zeros the SMT solver is unlikely to find"""
    st = T.subterms(z)
    return len(st) > BIG or (len(st) > BIGTRIG and any(x.op == 'fn' and (x.args[0] in ('sin', 'cos') or x.args[0] == 'sqrt' and any(y.op == 'div' for y in T.subterms(x)))
                                                     for x in st))


class Unsupported(BaseException):        # code under proof must not swallow it
    """the engine cannot give this construct a meaning"""


class Infeasible(BaseException):
    pass


class Obligation(object):
    def __init__(self, name, goal, hyps, path, meta=None):
        self.name, self.goal, self.hyps, self.path, self.meta = name, goal, hyps, path, meta or {}
        self.status, self.backend, self.detail, self.time = None, None, None, 0.0


class Ctx(object):
    cur = None

    def __init__(self, script=()):
        self.script = list(script)
        self.taken = []
        self.alts = []
        self.pc = []
        self.pcset = {}
        self.obls = []
        self.notes = []
        self.mode = {}
        self.ghost = {}
        self.nfresh = 0
        self.enc = smt.Enc(True)
        self.solver = z3.Solver()
        self.solver.set('timeout', 1600)
        self.solver.set('rlimit', 400000)
        self._nax = 0
        self._hyps = None

    # -- facts
    def assume(self, c):
        if c is T.TRUE:
            return
        if c is T.FALSE:
            raise Infeasible()
        parts = c.args if c.op == 'and' else (c,)
        for p in parts:
            if p in self.pcset:
                if not self.pcset[p]:
                    raise Infeasible()
                continue
            self.pc.append(p)
            self.pcset[p] = True
            self.pcset[T.not_(p)] = False
        try:
            e = self.enc.tr(c)
        except (ValueError, z3.Z3Exception):
            return
        self._axioms()
        self.solver.add(e)

    def effort(self, rlimit):
        """limit the work spent per branch on recognising infeasible paths (an unrecognised one is only extra work)"""
        self.solver.set('rlimit', rlimit)

    def _axioms(self):
        ax = self.enc.axioms
        while self._nax < len(ax):
            self.solver.add(ax[self._nax])
            self._nax += 1

    def sat(self, c):
        """False only if pc & c is unsatisfiable"""
        t0 = time.process_time()
        try:
            e = self.enc.tr(c)
            self._axioms()
            self.solver.push()
            self.solver.add(e)
            r = self.solver.check()
            self.solver.pop()
            return r != z3.unsat
        except (ValueError, z3.Z3Exception):
            return True
        finally:
            smt.STATS['z3_queries'] += 1
            smt.STATS['z3_time'] += time.process_time() - t0

    def refuted(self, c):
        """for c a zero test of a large term: True if algebra shows the term is not zero, else False
        (the solver is not asked); None for any other c"""
        for z in (c.args if c.op == 'and' else (c,)):
            if z.op == 'eq' and T.ZERO in z.args and z.args[0].sort == T.R:
                z = z.args[1] if z.args[0] is T.ZERO else z.args[0]
                if not hard(z):
                    continue
                from . import prove
                if self._hyps is None or self._hyps[0] != len(self.pc):
                    self._hyps = (len(self.pc), prove.Hyps(self.pc))
                return self._hyps[1].nonzero(z)
        return False if hard(c) and len(T.subterms(c)) > 3 * BIG else None

    def known(self, c):
        """True/False if decided by the path condition, else None"""
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        r = self.pcset.get(c)
        if r is not None:
            return r
        r = self.refuted(c)
        if r is not None:
            return False if r else None
        if not self.sat(c):
            return False
        if not self.sat(T.not_(c)):
            return True
        return None

    def branch(self, c):
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        r = self.pcset.get(c)
        if r is not None:
            return r
        i = len(self.taken)
        if i < len(self.script):
            d, forced = self.script[i]
        else:
            if c.op == 'eq' and self.refuted(c):
                can_t, can_f = False, True
            else:
                can_t, can_f = self.sat(c), self.sat(T.not_(c))
            if not can_t and not can_f:
                raise Infeasible()
            if can_t and can_f:
                d, forced = True, False
                self.alts.append(i)
            else:
                d, forced = can_t, True
        self.taken.append((d, forced))
        self.assume(c if d else T.not_(c))
        return d

    def oblige(self, name, goal, **meta):
        self.obls.append(Obligation(name, goal, list(self.pc), list(self.taken), meta))

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)


def ctx():
    if Ctx.cur is None:
        raise Unsupported('no active path')
    return Ctx.cur


class Result(object):
    def __init__(self):
        self.obls, self.paths, self.errors, self.truncated, self.infeasible = [], 0, [], False, 0
        self.notes = []
        self.results = []


def explore(fn, max_paths=2000, max_time=120, setup=None):
    """run fn() on every feasible path; fn states its own assumptions and obligations"""
    res = Result()
    todo = [[]]
    t0 = time.process_time()
    while todo:
        script = todo.pop()
        if res.paths >= max_paths or time.process_time() - t0 > max_time:
            res.truncated = True
            break
        c = Ctx(script)
        T.reset_fresh()
        Ctx.cur = c
        try:
            if setup:
                setup(c)
            r = fn()
            res.results.append(r)
            res.paths += 1
            res.obls += c.obls
        except Infeasible:
            res.infeasible += 1
        except Unsupported as e:
            res.paths += 1
            res.obls += c.obls
            res.errors.append(('unsupported', str(e), traceback.format_exc(limit=-6), list(c.pc)))
        except Exception as e:
            res.paths += 1
            res.obls += c.obls
            res.errors.append(('exception', '%s: %s' % (type(e).__name__, e), traceback.format_exc(limit=-8), list(c.pc)))
        finally:
            Ctx.cur = None
        for n in c.notes:
            if n not in res.notes:
                res.notes.append(n)
        for i in reversed(c.alts):
            todo.append(c.taken[:i] + [(not c.taken[i][0], False)])
    return res
