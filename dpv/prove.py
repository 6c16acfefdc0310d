"""Discharging obligations: splitting, algebraic normal forms, z3, cvc5."""
import os
import time
from fractions import Fraction
from . import term as T
from . import alg, smt, rules, signs, paths
from .term import R, I, B, TRUE, FALSE, and_, or_, not_

ORACLE_MS = 300


class Hyps(object):
    """hypothesis set with cached quick queries"""
    def __init__(self, hyps):
        self.h = []
        seen = set()
        for x in hyps:
            for y in (x.args if x.op == 'and' else (x,)):
                if y is not TRUE and y not in seen:
                    seen.add(y)
                    self.h.append(y)
        self.set = seen
        self.cache = {}
        self._dead = {}

    def plus(self, *more):
        return Hyps(self.h + list(more))

    def contradictory(self):
        return FALSE in self.set or any(not_(h) in self.set for h in self.h)

    def relevant(self, goal_terms):
        return self.h

    def holds(self, c, ms=ORACLE_MS):
        if c is TRUE or c in self.set:
            return True
        if c is FALSE:
            return False
        r = self.cache.get(c)
        if r is None:
            r = smt.check(with_axioms(self.h, [c]), c, ms)[0] == 'proved'
            self.cache[c] = r
        return r

    def decide(self, c):
        if c in self.set:
            return True
        if not_(c) in self.set:
            return False
        if c.op == 'eq' and c.args[0].sort == R and T.ZERO in c.args:
            z = c.args[1] if c.args[0] is T.ZERO else c.args[0]
            if self.nonzero(z):
                return False
            if paths.hard(z):
                return None
        if c.op == 'not':
            r = self.decide(c.args[0])
            return None if r is None else not r
        if c.op == 'and':
            rs = []
            for x in c.args:
                r = self.decide(x)
                if r is False:
                    return False
                rs.append(r)
            if all(rs):
                return True
        if self.holds(c):
            return True
        if self.holds(not_(c)):
            return False
        return None

    def nonzero(self, t):
        """t != 0 by algebra: t reduces to a nonzero constant, or to a multiple of a quantity that a
        hypothesis says is not zero, and every divisor inside t is known not to be zero"""
        r = self.cache.get(('nz', t))
        if r is None:
            self.cache[('nz', t)] = False         # no circular use
            r = self.cache[('nz', t)] = self._nonzero(t)
        return r

    def _nonzero(self, t):
        if t.op == 'fn' and t.args[0] == 'sqrt':
            return nonneg(t.args[1]) and self.nonzero(t.args[1])
        if t.op in ('const', 'var') or not any(x.op in ('div', 'fn') for x in T.subterms(t)) or len(T.subterms(t)) > 1500:
            return False
        ds = {x.args[1] for x in T.subterms(t) if x.op == 'div'}
        for d in sorted(ds, key=lambda x: len(T.subterms(x))):
            if d.op == 'const' or signs.sign(d) <= {1} or signs.sign(d) <= {-1}:
                continue
            if self.decide(T.eq(T.ZERO, d)) is not False:
                return False
        hy = []
        for h in self.h:
            if h.op == 'lt' and h.args[0].sort == R:
                hy.append(T.sub(h.args[1], h.args[0]))
            elif h.op == 'not' and h.args[0].op == 'eq' and h.args[0].args[0].sort == R:
                hy.append(T.sub(*h.args[0].args))
        return alg.multiple(t, hy)

    def positive(self, t):
        if signs.sign(t) <= {1}:
            return True
        return self.holds(T.lt(T.const(0, t.sort), t))


# ---- facts about big operators --------------------------------------------------------
def nonneg(t):
    """syntactic sufficient condition for t >= 0"""
    if t.op == 'const':
        return T.cval(t) >= 0
    if -1 not in signs.sign(t):
        return True
    if t.op == 'ite':
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if t.op == 'add':
        return all(nonneg(a) for a in t.args)
    if t.op == 'mul':
        c = {}
        for a in t.args:
            c[a] = c.get(a, 0) + 1
        return all(n % 2 == 0 or nonneg(a) for a, n in c.items())
    if t.op == 'div':
        return nonneg(t.args[0]) and nonneg(t.args[1])
    if t.op == 'fn':
        return t.args[0] in ('exp', 'abs', 'sqrt', 'acos') or t.args[0].endswith('_nn') or t.args[0].endswith('_pos')
    if t.op in ('bigsum', 'bigprod', 'bigmax', 'bigmin'):
        return nonneg(t.args[2])
    return False


def postest(t):
    """boolean term equivalent to t > 0 for syntactically nonnegative t"""
    if t.op == 'const':
        return T.const(T.cval(t) > 0)
    if signs.sign(t) <= {1}:
        return TRUE
    if t.op == 'ite':
        c, a, b = t.args
        return or_(and_(c, postest(a)), and_(not_(c), postest(b)))
    if t.op == 'mul' and all(nonneg(a) for a in t.args):
        return and_(*[postest(a) for a in t.args])
    if t.op == 'add' and all(nonneg(a) for a in t.args):
        return or_(*[postest(a) for a in t.args])
    if t.op == 'fn' and (t.args[0] == 'exp' or t.args[0].endswith('_pos')):
        return TRUE
    return T.lt(T.const(0, t.sort), t)


def split_neg(body):
    """bigmax body -> (present condition, value)"""
    if body.op == 'ite' and body.args[1].op == 'var' and body.args[1].args[0] == '-oo':
        return not_(body.args[0]), body.args[2]
    if body.op == 'ite' and body.args[2].op == 'var' and body.args[2].args[0] == '-oo':
        return body.args[0], body.args[1]
    return TRUE, body


_facts = {}


def big_facts(t):
    """true facts about one big-operator term"""
    r = _facts.get(t)
    if r is not None:
        return r
    v, n, b = t.args
    out = []
    zero = T.const(0, t.sort)
    if t.op == 'bigsum':
        if nonneg(b):
            out.append(T.mk('le', (zero, t), T.B))
            out.append(T.iff(T.lt(zero, t), T.big('exists', v, n, postest(b))))
        out.append(or_(T.lt(T.IZERO, n), T.eq(t, zero)))
        if b.op == 'ite' and b.args[1].op == 'const' and b.args[2].op == 'const' and \
                {T.cval(b.args[1]), T.cval(b.args[2])} == {0, 1}:
            out.append(or_(T.lt(n, T.IZERO), T.le(t, n)))
    elif t.op == 'bigprod':
        if nonneg(b):
            out.append(T.mk('le', (zero, t), T.B))
            out.append(T.iff(T.lt(zero, t), T.big('forall', v, n, postest(b))))
    elif t.op == 'bigmax':
        c, val = split_neg(b)
        out.append(T.big('forall', v, n, or_(not_(c), T.le(val, t))))
        out.append(or_(not_(T.big('exists', v, n, c)), T.big('exists', v, n, and_(c, T.eq(val, t)))))
    elif t.op == 'bigmin':
        out.append(T.big('forall', v, n, T.le(t, b)))
        out.append(or_(not_(T.lt(T.IZERO, n)), T.big('exists', v, n, T.eq(b, t))))
    _facts[t] = out
    return out


EXTRA = []          # property-specific fact generators: f(term) -> [facts]


def with_axioms(hyps, goals):
    hyps = list(hyps)
    seen = set()
    work = list(hyps) + list(goals)
    rounds = 0
    out = []
    while work and rounds < 3:
        rounds += 1
        new = []
        for w in work:
            for s in T.subterms(w):
                if s in seen:
                    continue
                seen.add(s)
                fs = []
                if s.op in ('bigsum', 'bigprod', 'bigmax', 'bigmin') and not _bound(s):
                    fs = big_facts(s)
                for g in EXTRA:
                    if s.op == 'fn' and not _bound(s):
                        fs = fs + list(g(s) or [])
                for f in fs:
                    if f is not TRUE:
                        out.append(f)
                        new.append(f)
        work = new
    return hyps + out


def _bound(s):
    return any(x.args[0].startswith('_b') for x in T.free_vars(s))


# ---- the prover ------------------------------------------------------------------------
class Outcome(object):
    def __init__(self, ok, how, detail=''):
        self.ok, self.how, self.detail = ok, how, detail


def subst_eqs(hyps, goal):
    """use hypotheses var = term as rewrites"""
    m = {}
    for h in hyps.h:
        if h.op == 'eq':
            a, b = h.args
            for p, q in ((a, b), (b, a)):
                if p.op == 'var' and p is not T.PI and p not in m and p not in T.free_vars(q) and not any(k in T.free_vars(q) for k in m):
                    if p.sort == q.sort or (p.sort == R):
                        m = {k: T.subst(v, {p: q}) for k, v in m.items()}
                        m[p] = q
                        break
    if not m:
        return hyps, goal
    return Hyps([T.subst(h, m) for h in hyps.h]), T.subst(goal, m)


def ites(t):
    out = []
    for s in T.subterms(t):
        if s.op == 'ite' and not _bound(s.args[0]):
            if s.args[0] not in out:
                out.append(s.args[0])
    return out


def simplify(t, h, cache=None, limit=None):
    """resolve if-then-else conditions decided by the hypotheses, also under binders"""
    if cache is None:
        cache = {}
    if limit is None:
        limit = time.process_time() + 15
    r = cache.get(t)
    if r is not None:
        return r
    if t.op in ('const', 'var'):
        return t
    if t.op in T.BINDERS:
        v, n, b = t.args
        n2 = simplify(n, h, cache, limit)
        if any(s.op == 'ite' for s in T.subterms(b)):
            k = T.fresh('sk', I)
            h2 = h.plus(T.le(T.IZERO, k), T.lt(k, n2), *[i for x in h.h for i in instances(x, k)])
            b2 = simplify(T.subst(b, {v: k}), h2, {}, limit)
            w = T.fresh('_bb', I)
            r = T.big(t.op, w, n2, T.subst(b2, {k: w}))
        else:
            r = T.big(t.op, v, n2, b) if n2 is not n else t
    elif t.op == 'ite' and not _bound(t):
        c = t.args[0]
        d = True if c in h.set else (False if not_(c) in h.set else None)
        if d is None and time.process_time() < limit:
            d = h.decide(c)
        if d is not None:
            r = simplify(t.args[1] if d else t.args[2], h, cache, limit)
        else:
            arms = []
            for a, k in ((t.args[1], c), (t.args[2], not_(c))):
                a = under(a, c, k is c)
                if any(s.op == 'ite' for s in T.subterms(a)):
                    a = simplify(a, h.plus(k), {}, limit)
                arms.append(a)
            r = T.ite(c, *arms)
    else:
        kids = tuple(simplify(a, h, cache, limit) if isinstance(a, T.Term) else a for a in t.args)
        r = t if all(p is q for p, q in zip(kids, t.args)) else T.rebuild(t, kids)
    cache[t] = r
    return r


def under(t, c, val):
    """t where c is known to have the truth value val"""
    if c.op == 'not':
        return under(t, c.args[0], not val)
    t = assume_in(t, c, val)
    if c.op == 'and' and val:
        for x in c.args:
            t = under(t, x, True)
    return t


class Prover(object):
    def __init__(self, timeout=4000, budget=60.0, use_cvc5=True, max_split=8):
        self.timeout, self.budget, self.use_cvc5, self.max_split = timeout, budget, use_cvc5, max_split

    def prove(self, goal, hyps):
        self.t_end = time.process_time() + self.budget
        h = hyps if isinstance(hyps, Hyps) else Hyps(hyps)
        full, o = self.timeout, None
        try:
            for self.timeout in (min(700, full), full):      # cheap attempts first
                o = self._p(goal, h, 0)
                if o.ok or time.process_time() > self.t_end:
                    return o
                h2, g2 = unify(h, goal)
                if g2 is not goal or h2 is not h:
                    o = self._p(g2, h2, 0)
                    if o.ok or time.process_time() > self.t_end:
                        return o
            return o
        finally:
            self.timeout = full

    def _p(self, goal, h, depth):
        if goal is TRUE or goal in h.set or h.contradictory():
            return Outcome(True, 'syntactic')
        if goal.op == 'and':
            how = set()
            for g in goal.args:
                r = self._p(g, h, depth)
                if not r.ok:
                    return r
                how.add(r.how)
            return Outcome(True, '+'.join(sorted(how)))
        if goal.op == 'forall':
            v, n, b = goal.args
            k = T.fresh('sk', I)
            return self._p(T.subst(b, {v: k}), h.plus(T.le(T.IZERO, k), T.lt(k, n)), depth + 1)
        if goal.op == 'eq' and goal.args[0].sort != B:
            return self._eq(goal, h, depth)
        if goal.op == 'not' and goal.args[0].op == 'and':
            ds = [not_(x) for x in goal.args[0].args]
            if any(d in h.set for d in ds):
                return Outcome(True, 'syntactic')
            # assume the negations of the simple disjuncts, prove the hardest one
            r = self._smt(goal, h, quick=True)
            if r.ok:
                return r
            q = self._quant(ds, h, depth)
            if q is not None and q.ok:
                return q
            hard = [d for d in ds if d.op in ('eq', 'and', 'forall') or (d.op == 'not' and d.args[0].op == 'and')]
            last = r
            for d in hard:
                h2 = h.plus(*[not_(x) for x in ds if x is not d])
                last = self._p(d, h2, depth + 1)
                if last.ok:
                    return last
            if time.process_time() < self.t_end:
                return self._smt(goal, h)
            return last
        r = self._smt(goal, h)
        if r.ok:
            return r
        return self._split(goal, h, depth, r)

    def _quant(self, ds, h, depth):
        """disjuncts among which are quantified formulas: skolemise, instantiate at the skolems"""
        if depth > 4:
            return None
        ex, rest, sk, hyp = [], [], [], []
        for d in ds:
            neg = d.op == 'not'
            q = d.args[0] if neg else d
            if q.op == 'exists' and neg or q.op == 'forall' and not neg:
                v, n, b = q.args
                k = T.fresh('sk', I)
                sk.append((k, n))
                body = T.subst(b, {v: k})
                hyp += [T.le(T.IZERO, k), T.lt(k, n)]
                rest.append(not_(body) if neg else body)
            elif q.op == 'exists' or q.op == 'forall':
                ex.append((q, neg))
                rest_q = d
            else:
                rest.append(d)
        if not sk and not ex:
            return None
        h2 = h.plus(*hyp)
        for q, neg in ex:
            v, n, b = q.args
            for k, n2 in sk:
                body = T.subst(b, {v: k})
                inst = body if not neg else not_(body)
                rest.append(and_(T.lt(k, n), inst))
        if not sk:
            return None
        g = or_(*rest)
        return self._p(g, h2, depth + 1)

    def _eq(self, goal, h, depth):
        a, b = goal.args
        h2, g2 = subst_eqs(h, goal)
        if g2 is TRUE:
            return Outcome(True, 'alg')
        if g2.op != 'eq':
            return self._p(g2, h2, depth + 1) if g2 is not goal else self._smt(goal, h)
        a, b = g2.args
        if any(x.op == 'ite' for x in T.subterms(g2)):
            a, b = simplify(a, h2), simplify(b, h2)
            g2 = T.eq(a, b)
            if g2 is TRUE:
                return Outcome(True, 'alg')
        t0 = time.process_time()
        r = alg.equal(a, b, positive=h2.positive, decide=h2.decide)
        smt.STATS['alg'] += 1
        smt.STATS['alg_time'] += time.process_time() - t0
        if r:
            return Outcome(True, 'alg')
        q = self._congr(a, b, h2, depth)
        if q is not None and q.ok:
            return q
        q = self._smt(goal, h, quick=True)
        if q.ok:
            return q
        s = self._split(g2, h2, depth, q)
        if s.ok:
            return s
        if time.process_time() < self.t_end and depth < 3:
            return self._smt(goal, h)
        return s

    def _congr(self, a, b, h, depth):
        """big operators over the same range are equal when their bodies agree at every index"""
        if a.op != b.op or a.op not in ('bigsum', 'bigprod', 'bigmax', 'bigmin') or depth > 4:
            return None
        va, na, ba = a.args
        vb, nb, bb = b.args
        if na is not nb and not h.holds(T.eq(na, nb)):
            return None
        k = T.fresh('sk', I)
        h2 = h.plus(T.le(T.IZERO, k), T.lt(k, na), *[i for x in h.h for i in instances(x, k)])
        g = T.eq(T.subst(ba, {va: k}), T.subst(bb, {vb: k}))
        h2, g = unify(h2, g)
        return self._p(g, h2, depth + 1)

    def _split(self, goal, h, depth, r):
        if depth > self.max_split or time.process_time() > self.t_end:
            return r
        for c in ites(goal):
            d = h.decide(c)
            if d is None:
                how = set()
                for cc in (c, not_(c)):
                    h2 = h.plus(cc)
                    if not self._consistent(h2):
                        continue
                    g2 = assume_in(goal, c, cc is c)
                    o = self._p(g2, h2, depth + 1)
                    if not o.ok:
                        o.detail += ' [case %s]' % (cc,)
                        return o
                    how.add(o.how)
                return Outcome(True, '+'.join(sorted(how)) or 'smt')
            else:
                g2 = assume_in(goal, c, d)
                if g2 is not goal:
                    return self._p(g2, h, depth + 1)
        return r

    def _consistent(self, h):
        return smt.check(with_axioms(h.h, []), FALSE, 300)[0] != 'proved'

    def _smt(self, goal, h, quick=False):
        hy = with_axioms(h.h, [goal])
        st, m = smt.check(hy, goal, 800 if quick else self.timeout)
        if st == 'proved':
            return Outcome(True, 'z3')
        if quick:
            return Outcome(False, 'z3', 'z3 %s' % st)
        if self.use_cvc5 and st != 'refuted' and time.process_time() < self.t_end:
            st2, _ = smt.cvc5_check(hy, goal, self.timeout)
            if st2 == 'proved':
                return Outcome(True, 'cvc5')
        det = 'z3: %s; goal %s' % (st, str(goal)[:int(os.environ.get('DPV_GOAL', '600'))])
        o = Outcome(False, 'z3', det)
        o.model = m if st == 'refuted' else None
        return o


def unify(h, g):
    """replace compared / logged terms that are algebraically equal by one representative"""
    cand = []

    def collect(t):
        for s in T.subterms(t):
            if s.op in ('lt', 'le', 'eq') and s.args[0].sort != B:
                for p, q in (s.args, s.args[::-1]):
                    if T.is_zero(q) and p.op in ('add', 'mul', 'div', 'fn') and p not in cand:
                        cand.append(p)
            if s.op == 'fn' and s.args[0] == 'log' and s.args[1] not in cand:
                cand.append(s.args[1])
    collect(g)
    for x in h.h:
        collect(x)
    cand = [c for c in cand if c.op != 'const'][:10]
    m = {}
    reps = []
    for c in cand:
        for r in reps:
            if T.free_vars(c) == T.free_vars(r) and alg.equal(c, r, positive=h.positive, decide=lambda q: None):
                m[c] = r
                break
        else:
            reps.append(c)
    if not m:
        return h, g
    return Hyps([replace(x, m) for x in h.h]), replace(g, m)


def replace(t, m, cache=None):
    if cache is None:
        cache = {}
    r = cache.get(t)
    if r is None:
        if t in m:
            r = m[t]
        elif t.op in ('const', 'var'):
            r = t
        else:
            kids = tuple(replace(a, m, cache) if isinstance(a, T.Term) else a for a in t.args)
            r = t if all(p is q for p, q in zip(kids, t.args)) else T.rebuild(t, kids)
        cache[t] = r
    return r


def instances(x, k):
    """a universally quantified hypothesis at index k"""
    neg = x.op == 'not'
    q = x.args[0] if neg else x
    if (q.op == 'forall' and not neg) or (q.op == 'exists' and neg):
        v, n, b = q.args
        body = T.subst(b, {v: k})
        return [or_(T.le(n, k), not_(body) if neg else body)]
    return []


def assume_in(t, c, val):
    """replace ite on c by the chosen arm"""
    cache = {}

    def go(x):
        r = cache.get(x)
        if r is not None:
            return r
        if x.op in ('const', 'var'):
            r = x
        elif x is c:
            r = TRUE if val else FALSE
        elif x.op == 'not' and x.args[0] is c:
            r = FALSE if val else TRUE
        elif x.op == 'ite' and x.args[0] is c:
            r = go(x.args[1] if val else x.args[2])
        else:
            kids = tuple(go(a) if isinstance(a, T.Term) else a for a in x.args)
            r = x if all(p is q for p, q in zip(kids, x.args)) else T.rebuild(x, kids)
        cache[x] = r
        return r
    return go(t)


def discharge(obl, prover):
    t0 = time.process_time()
    T._fresh[0] += 100000
    o = prover.prove(obl.goal, obl.hyps)
    obl.time = time.process_time() - t0
    obl.status = 'proved' if o.ok else 'failed'
    obl.backend, obl.detail = o.how, o.detail
    obl.model = getattr(o, 'model', None)
    return o.ok
