"""Terms -> z3 (primary) and SMT-LIB for cvc5 (second back end).

Interpreted real functions become uninterpreted symbols plus *instantiated* axioms
(true facts about exp, log, sqrt, sin, cos, erf, ... at the argument terms that occur)."""
import time
import z3
from . import term as T
from .term import R, I, B

STATS = {'z3_queries': 0, 'z3_time': 0.0, 'cvc5_queries': 0, 'cvc5_time': 0.0, 'alg_time': 0.0, 'alg': 0}


FACTS = {}      # input symbol -> precondition on each of its values (from the contract)


class Enc(object):
    def __init__(self, light=False):
        self.cache = {}
        self.axioms = []
        self.apps = {}
        self.light = light
        self.done, self.pending = set(), []
        self.pi = z3.Real('pi')
        self.axioms.append(self.pi > z3.RealVal('3.14159265358979'))
        self.axioms.append(self.pi < z3.RealVal('3.14159265358980'))

    def num(self, c, sort):
        if sort == I:
            return z3.IntVal(int(c))
        return z3.Q(c.numerator, c.denominator)

    def real(self, e):
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def tr(self, t):
        r = self._tr0(t)
        while self.pending:
            f = self.pending.pop()
            self.axioms.append(self._tr0(f))
        return r

    def _tr0(self, t):
        r = self.cache.get(t)
        if r is not None:
            return r
        # iterative over deep terms
        stack = [t]
        while stack:
            x = stack[-1]
            if x in self.cache:
                stack.pop()
                continue
            kids = [a for a in x.args if isinstance(a, T.Term) and a not in self.cache]
            if x.op in ('bigsum', 'bigprod', 'bigmax', 'bigmin', 'forall', 'exists'):
                kids = [a for a in (x.args[1], x.args[2]) if a not in self.cache]
            if kids:
                stack.extend(kids)
                continue
            self.cache[x] = self._tr(x)
            stack.pop()
        return self.cache[t]

    def _tr(self, t):
        op, c = t.op, self.cache
        if op == 'const':
            v = t.args[0]
            return z3.BoolVal(v) if t.sort == B else self.num(v, t.sort)
        if op == 'var':
            if t is T.PI:
                return self.pi
            return {R: z3.Real, I: z3.Int, B: z3.Bool}[t.sort](t.args[0])
        A = [c[a] for a in t.args if isinstance(a, T.Term) and a in c]
        if op == 'add':
            if t.sort == R:
                A = [self.real(a) for a in A]
            return z3.Sum(A)
        if op == 'mul':
            if t.sort == R:
                A = [self.real(a) for a in A]
            return z3.Product(A)
        if op == 'div':
            return self.real(A[0]) / self.real(A[1])
        if op == 'mod':
            if t.sort == I:
                return A[0] % A[1]
            a, b = self.real(A[0]), self.real(A[1])
            return a - b * z3.ToReal(z3.ToInt(a / b))
        if op == 'idiv':
            if A[0].sort() == z3.IntSort() and A[1].sort() == z3.IntSort():
                return A[0] / A[1]
            return z3.ToInt(self.real(A[0]) / self.real(A[1]))
        if op == 'ite':
            a, b = A[1], A[2]
            if a.sort() != b.sort():
                a, b = self.real(a), self.real(b)
            return z3.If(A[0], a, b)
        if op == 'not':
            return z3.Not(A[0])
        if op == 'and':
            return z3.And(*A)
        if op in ('eq', 'lt', 'le'):
            a, b = A
            if a.sort() != b.sort():
                a, b = self.real(a), self.real(b)
            return a == b if op == 'eq' else (a < b if op == 'lt' else a <= b)
        if op in ('forall', 'exists'):
            v, n, body = t.args
            zv = z3.Int(v.args[0])
            rng = z3.And(zv >= 0, zv < c[n])
            if op == 'forall':
                return z3.ForAll([zv], z3.Implies(rng, c[body]))
            return z3.Exists([zv], z3.And(rng, c[body]))
        if op in ('bigsum', 'bigprod', 'bigmax', 'bigmin'):
            # opaque, but congruent in the free variables
            fv = sorted(T.free_vars(t), key=lambda x: x.id)
            bound = [x for x in fv if x.args[0].startswith('_b')]
            if bound:
                f = z3.Function('%s_%d' % (op, t.id), *([z3.IntSort()] * len(bound) + [z3.RealSort() if t.sort == R else z3.IntSort()]))
                return f(*[z3.Int(b.args[0]) for b in bound])
            return (z3.Real if t.sort == R else z3.Int)('%s_%d' % (op, t.id))
        if op == 'fn':
            name = t.args[0]
            return self.app(name, t, A)
        raise ValueError('cannot encode %s' % op)

    def app(self, name, t, A):
        if name == 'abs':
            return z3.If(A[0] >= 0, A[0], -A[0])
        if name == 'sign':
            a = self.real(A[0])
            return z3.If(a > 0, z3.RealVal(1), z3.If(a < 0, z3.RealVal(-1), z3.RealVal(0)))
        if name == 'floor':
            return z3.ToInt(self.real(A[0]))
        pre = FACTS.get(name)
        if pre is not None and t not in self.done:
            self.done.add(t)
            keep, T.SIGN = T.SIGN, None      # the fact itself must not be simplified away
            try:
                f0 = pre(t)
            finally:
                T.SIGN = keep
            if f0 is not T.TRUE:
                self.pending.append(f0)
        if t.sort == B:
            f = z3.Function(name, *([a.sort() for a in A] + [z3.BoolSort()]))
            return f(*A)
        if name in self.INTERP:
            A = [self.real(a) for a in A]
        f = z3.Function(name, *([a.sort() for a in A] + [z3.RealSort() if t.sort == R else z3.IntSort()]))
        e = f(*A)
        # applications under a binder: no instantiation
        if any(x.args[0].startswith('_b') for x in T.free_vars(t)):
            return e
        if name in self.INTERP:
            prev = self.apps.setdefault(name, [])
            getattr(self, 'ax_' + name)(f, e, A, prev, t)
            prev.append((e, A))
        return e

    INTERP = ('exp', 'log', 'sqrt', 'sin', 'cos', 'erf', 'acos', 'asin', 'atan', 'atan2', 'tan')

    def ax_exp(self, f, e, A, prev, t):
        a, = A
        ax = self.axioms
        ax += [e > 0, e >= 1 + a, z3.Implies(a <= 0, e <= 1), z3.Implies(a < 0, e < 1), z3.Implies(a > 0, e > 1)]
        for e2, (a2,) in prev[-6:]:
            ax.append(z3.And(z3.Implies(a < a2, e < e2), z3.Implies(a2 < a, e2 < e), z3.Implies(a == a2, e == e2)))

    def ax_log(self, f, e, A, prev, t):
        a, = A
        ax = self.axioms
        ax += [z3.Implies(a > 0, z3.And(e <= a - 1, e * a >= a - 1)), z3.Implies(a >= 1, e >= 0), z3.Implies(z3.And(a > 0, a < 1), e < 0),
               z3.Implies(a > 1, e > 0)]
        for e2, (a2,) in prev[-6:]:
            ax.append(z3.Implies(z3.And(a > 0, a2 > 0), z3.And(z3.Implies(a < a2, e < e2), z3.Implies(a2 < a, e2 < e))))
        E = z3.Function('exp', z3.RealSort(), z3.RealSort())
        ax.append(z3.Implies(a > 0, E(e) == a))

    def ax_sqrt(self, f, e, A, prev, t):
        a, = A
        self.axioms += [z3.Implies(a >= 0, z3.And(e >= 0, e * e == a))]

    def _trig(self, a):
        k = ('trig', a.get_id())
        if k in self.apps:
            return
        self.apps[k] = a
        S = z3.Function('sin', z3.RealSort(), z3.RealSort())
        C = z3.Function('cos', z3.RealSort(), z3.RealSort())
        s, c, pi = S(a), C(a), self.pi
        self.axioms += [s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1,
                        z3.Implies(z3.And(a >= 0, a <= pi), s >= 0), z3.Implies(z3.And(a > 0, a < pi), s > 0),
                        z3.Implies(z3.And(a >= -pi, a <= 0), s <= 0), z3.Implies(z3.And(a > -pi, a < 0), s < 0),
                        z3.Implies(z3.And(a >= -pi / 2, a <= pi / 2), c >= 0),
                        z3.Implies(z3.And(a > -pi / 2, a < pi / 2), c > 0),
                        z3.Implies(z3.And(a >= pi / 2, a <= 3 * pi / 2), c <= 0),
                        z3.Implies(z3.And(a > pi, a < 2 * pi), s < 0),
                        z3.Implies(a == 0, z3.And(s == 0, c == 1))]

    def ax_sin(self, f, e, A, prev, t):
        self._trig(A[0])

    def ax_cos(self, f, e, A, prev, t):
        self._trig(A[0])

    def ax_tan(self, f, e, A, prev, t):
        self._trig(A[0])
        S = z3.Function('sin', z3.RealSort(), z3.RealSort())
        C = z3.Function('cos', z3.RealSort(), z3.RealSort())
        self.axioms.append(z3.Implies(C(A[0]) != 0, e * C(A[0]) == S(A[0])))

    def ax_erf(self, f, e, A, prev, t):
        a, = A
        self.axioms += [e > -1, e < 1, z3.Implies(a > 0, e > 0), z3.Implies(a < 0, e < 0), z3.Implies(a == 0, e == 0)]
        for e2, (a2,) in prev[-6:]:
            self.axioms.append(z3.And(z3.Implies(a < a2, e < e2), z3.Implies(a2 < a, e2 < e)))

    def ax_acos(self, f, e, A, prev, t):
        a, = A
        C = z3.Function('cos', z3.RealSort(), z3.RealSort())
        S = z3.Function('sin', z3.RealSort(), z3.RealSort())
        dom = z3.And(a >= -1, a <= 1)
        self.axioms += [z3.Implies(dom, z3.And(e >= 0, e <= self.pi, C(e) == a, S(e) >= 0, S(e) * S(e) == 1 - a * a,
                                               z3.Implies(a >= 0, e <= self.pi / 2), z3.Implies(a <= 0, e >= self.pi / 2),
                                               z3.Implies(a < 1, e > 0), z3.Implies(a > -1, e < self.pi)))]

    def ax_asin(self, f, e, A, prev, t):
        a, = A
        C = z3.Function('cos', z3.RealSort(), z3.RealSort())
        S = z3.Function('sin', z3.RealSort(), z3.RealSort())
        dom = z3.And(a >= -1, a <= 1)
        self.axioms += [z3.Implies(dom, z3.And(e >= -self.pi / 2, e <= self.pi / 2, S(e) == a, C(e) >= 0,
                                               C(e) * C(e) == 1 - a * a, z3.Implies(a >= 0, e >= 0), z3.Implies(a <= 0, e <= 0)))]

    def ax_atan(self, f, e, A, prev, t):
        a, = A
        self.axioms += [e > -self.pi / 2, e < self.pi / 2, z3.Implies(a >= 0, e >= 0), z3.Implies(a <= 0, e <= 0),
                        z3.Implies(a > 0, e > 0), z3.Implies(a < 0, e < 0)]
        for e2, (a2,) in prev[-6:]:
            self.axioms.append(z3.And(z3.Implies(a < a2, e < e2), z3.Implies(a2 < a, e2 < e)))

    def ax_atan2(self, f, e, A, prev, t):
        y, x = A
        pi = self.pi
        self.axioms += [e > -pi, e <= pi, z3.Implies(y > 0, z3.And(e > 0, e < pi)), z3.Implies(y < 0, e < 0),
                        z3.Implies(z3.And(y == 0, x >= 0), e == 0), z3.Implies(z3.And(y == 0, x < 0), e == pi),
                        z3.Implies(x >= 0, z3.And(e >= -pi / 2, e <= pi / 2)),
                        z3.Implies(z3.And(x > 0), z3.And(e > -pi / 2, e < pi / 2)),
                        z3.Implies(z3.And(x < 0, y >= 0), e > pi / 2), z3.Implies(z3.And(x < 0, y < 0), e < -pi / 2)]


def limits(s, ms):
    """a deterministic limit on the work of one query (about `ms` on an idle machine); the wall
    clock only guards against a stuck solver, so verdicts do not depend on the load"""
    s.set('rlimit', int(ms) * RLIMIT_PER_MS)
    s.set('timeout', int(ms) * 2)


RLIMIT_PER_MS = 700


def check(hyps, goal, timeout=3000, light=False):
    """'proved' | 'refuted' (model) | 'unknown' for hyps |= goal"""
    t0 = time.time()
    try:
        enc = Enc(light)
        s = z3.Solver()
        limits(s, timeout)
        hs = [enc.tr(h) for h in hyps]
        g = enc.tr(goal)
        for a in hs:
            s.add(a)
        s.add(z3.Not(g))
        for a in enc.axioms:
            s.add(a)
        r = s.check()
        if r == z3.unsat:
            return 'proved', None
        if r == z3.sat:
            return 'refuted', s.model()
        return 'unknown', s.reason_unknown()
    except z3.Z3Exception as e:
        return 'unknown', str(e)
    finally:
        STATS['z3_queries'] += 1
        STATS['z3_time'] += time.time() - t0


def cvc5_check(hyps, goal, timeout=4000):
    """second back end through SMT-LIB text"""
    t0 = time.time()
    try:
        import cvc5
        enc = Enc()
        s = z3.Solver()
        for h in hyps:
            s.add(enc.tr(h))
        s.add(z3.Not(enc.tr(goal)))
        for a in enc.axioms:
            s.add(a)
        txt = s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(int(timeout)))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + txt.replace('(check-sat)', ''), 'q')
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            if 'set-logic' in str(c) or 'set-info' in str(c):
                continue
            c.invoke(slv, sm)
        r = slv.checkSat()
        return 'proved' if r.isUnsat() else ('refuted' if r.isSat() else 'unknown'), None
    except Exception as e:     # back end trouble is 'unknown', never a verdict
        return 'unknown', repr(e)
    finally:
        STATS['cvc5_queries'] += 1
        STATS['cvc5_time'] += time.time() - t0
