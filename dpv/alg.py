"""Algebraic normaliser: decides equality of real terms as rational functions over
transcendental atoms.  Relations used (all valid over the reals on the domain where the
expression is defined): sqrt(p)^2=p, |x|^2=x^2, sin^2+cos^2=1 and angle addition,
exp(a+b)=exp a exp b, log of products of positives, exp(log x)=x for x>0, linearity of
big sums, sin/cos of acos/asin/atan2."""
from fractions import Fraction
from . import term as T
from . import rules


class Give(Exception):
    """normaliser cannot handle this term"""


LIMIT = 60000


class Rat(object):
    """num (Laurent polynomial) over product of multi-term polynomial factors"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den       # tuple of (polykey, exp) sorted


def pkey(p):
    return tuple(sorted(p.items()))


class Atom(object):
    __slots__ = ('id', 'kind', 'data', 'term')


NEG = T.var('-oo', T.R)


class Norm(object):
    def __init__(self, positive=None, decide=None, angle_den=None):
        self._sqcache = {}
        self._sgn = {}
        self.atoms = []
        self.index = {}
        self.bykind = {}
        self._pos = positive or (lambda t: False)
        self._decide = decide or (lambda c: None)
        self.cache = {}
        self.nice = {}
        self.absof, self.absval = {}, set()
        self.angle_den = angle_den or {}

    # ---- polynomials -------------------------------------------------
    def padd(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c * k
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def mmul(self, a, b):
        d = dict(a)
        for x, e in b:
            v = d.get(x, 0) + e
            if v == 0:
                del d[x]
            else:
                d[x] = v
        return tuple(sorted(d.items()))

    def pmul(self, a, b):
        if len(a) * len(b) > LIMIT * 4:
            raise Give('polynomial too large')
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        return r

    def needs_reduce(self, m):
        for x, e in m:
            k = self.atoms[x].kind
            if k == 'sqrt' and e not in (0, 1):
                return True
            if k == 'sin' and e >= 2:
                return True
            if k == 'abs' and e not in (0, 1, -1) and x not in self.absval:
                return True
            if x in self.absof and e != 1:
                return True
            if k == 'ind' and e != 1:
                return True
        return False

    def reduce(self, r):
        """apply power relations to a Rat"""
        while True:
            bad = [m for m in r.num if self.needs_reduce(m)]
            if not bad:
                return r
            good = {m: c for m, c in r.num.items() if m not in set(bad)}
            acc = Rat(good, r.den)
            for m in bad:
                f = Rat({(): r.num[m]}, r.den)
                rest = []
                for x, e in m:
                    at = self.atoms[x]
                    if at.kind == 'sqrt' and e not in (0, 1):
                        k = e // 2
                        f = self._rawmul(f, self.rpow(at.data, int(k)))
                        if e - 2 * k:
                            rest.append((x, e - 2 * k))
                    elif x in self.absof and e != 1:
                        # x^e = x^(e mod 2) |x|^(e - e mod 2)
                        o = e % 2
                        if o:
                            rest.append((x, 1))
                        f = self._rawmul(f, Rat({((self.absof[x], e - o),): Fraction(1)}))
                    elif at.kind == 'abs' and e not in (0, 1, -1) and x not in self.absval:
                        k = int(e / 2)
                        f = self._rawmul(f, self.rpow(at.data, 2 * k))
                        if e - 2 * k:
                            rest.append((x, e - 2 * k))
                    elif at.kind == 'sin' and e >= 2:
                        k = int(e) // 2
                        cid = self.index[('cos', at.data)]
                        one = {(): Fraction(1), ((cid, 2),): Fraction(-1)}
                        pw = Rat({(): Fraction(1)})
                        for _ in range(k):
                            pw = Rat(self.pmul(pw.num, one))
                        f = self._rawmul(f, pw)
                        if e - 2 * k:
                            rest.append((x, e - 2 * k))
                    elif at.kind == 'ind':
                        rest.append((x, 1))
                    else:
                        rest.append((x, e))
                f = self._rawmul(f, Rat({tuple(sorted(rest)): Fraction(1)}))
                acc = self._rawadd(acc, f)
            if len(acc.num) > LIMIT:
                raise Give('too large')
            r = acc

    def _rawmul(self, a, b):
        num = self.pmul(a.num, b.num)
        if not num:
            return Rat({})
        d = dict(a.den)
        for k, e in b.den:
            d[k] = d.get(k, 0) + e
        return self._cancel(num, d)

    def _cancel(self, num, d):
        """cancel a denominator factor that equals num up to a monomial"""
        for k in list(d):
            if d[k] <= 0:
                del d[k]
                continue
            while d.get(k, 0) > 0 and len(num) >= len(k):
                q = self._try_div(num, dict(k))
                if q is None:
                    break
                num = q
                d[k] -= 1
                if d[k] == 0:
                    del d[k]
        return Rat(num, tuple(sorted(d.items())))

    def _try_div(self, num, den):
        """num / den if it divides exactly and quickly (bounded work)"""
        if len(num) > 400 or len(den) > 60:
            if len(num) == len(den):
                pass
            else:
                return None
        # ordering: total order on monomials via sorted tuple with degree
        key = lambda m: self._okey(m)
        dm = max(den, key=key)
        dc = den[dm]
        rem = dict(num)
        q = {}
        steps = 0
        limit = len(num) * 3 + 10
        inv = tuple((x, -e) for x, e in dm)
        while rem:
            steps += 1
            if steps > limit:
                return None
            m = max(rem, key=key)
            qm = self.mmul(m, inv)
            qc = rem[m] / dc
            q[qm] = q.get(qm, 0) + qc
            for m2, c2 in den.items():
                mm = self.mmul(qm, m2)
                v = rem.get(mm, 0) - qc * c2
                if v == 0:
                    rem.pop(mm, None)
                else:
                    rem[mm] = v
            if m in rem:
                return None
            if len(rem) > len(num) * 2 + 50:
                return None
        return q

    def _okey(self, m):
        # lexicographic monomial order: highest atom id first
        return tuple(sorted(((x, e) for x, e in m), reverse=True)) if not any(e < 0 for _, e in m) else \
            tuple(sorted(((x, e) for x, e in m), reverse=True))

    def _rawadd(self, a, b, k=1):
        if not a.num:
            return Rat({m: c * k for m, c in b.num.items()}, b.den)
        if not b.num:
            return a
        if a.den == b.den:
            num = self.padd(a.num, b.num, k)
            return self._cancel(num, dict(a.den)) if a.den else Rat(num)
        da, db = dict(a.den), dict(b.den)
        na, nb = a.num, b.num
        d = {}
        for f in set(da) | set(db):
            ea, eb = da.get(f, 0), db.get(f, 0)
            e = max(ea, eb)
            d[f] = e
            for _ in range(e - ea):
                na = self.pmul(na, dict(f))
            for _ in range(e - eb):
                nb = self.pmul(nb, dict(f))
        num = self.padd(na, nb, k)
        if not num:
            return Rat({})
        return self._cancel(num, d)

    def radd(self, a, b, k=1):
        return self.reduce(self._rawadd(a, b, k))

    def rmul(self, a, b):
        return self.reduce(self._rawmul(a, b))

    def rinv(self, a):
        if not a.num:
            raise ZeroDivisionError
        a = self.reduce(a)
        if len(a.num) == 1:
            (m, c), = a.num.items()
            num = {tuple((x, -e) for x, e in m): 1 / Fraction(c)}
            r = Rat(num)
        else:
            mono, poly = self.content(a.num)
            r = Rat({tuple((x, -e) for x, e in mono[0]): 1 / mono[1]}, ((pkey(poly), 1),))
        for k, e in a.den:
            p = dict(k)
            for _ in range(e):
                r = self._rawmul(r, Rat(p))
        return self.reduce(r)

    def content(self, p):
        """monomial gcd (min exponents) and leading coefficient; returns ((mono, coef), poly)"""
        ms = list(p)
        d = dict(ms[0])
        for m in ms[1:]:
            dm = dict(m)
            for x in list(d):
                d[x] = min(d[x], dm.get(x, 0))
            for x, e in dm.items():
                if x not in d and e < 0:
                    d[x] = e
        # entries with min over missing = 0
        for m in ms:
            dm = dict(m)
            for x in list(d):
                d[x] = min(d[x], dm.get(x, 0))
        mono = tuple(sorted((x, e) for x, e in d.items() if e))
        inv = tuple((x, -e) for x, e in mono)
        q = {self.mmul(m, inv): c for m, c in p.items()}
        lead = max(q, key=self._okey)
        c = q[lead]
        q = {m: v / c for m, v in q.items()}
        return (mono, c), q

    def rpow(self, a, n):
        if n < 0:
            return self.rpow(self.rinv(a), -n)
        r = Rat({(): Fraction(1)})
        for _ in range(n):
            r = self._rawmul(r, a)
        return self.reduce(r) if n else r

    def const(self, c):
        return Rat({(): Fraction(c)}) if c else Rat({})

    def is_zero(self, r):
        if not r.num:
            return True
        low = {}
        for m in r.num:
            for x, e in m:
                if e < 0 and self.atoms[x].kind == 'sin':
                    low[x] = min(low.get(x, 0), e)
        if not low or any(Fraction(e).denominator != 1 for e in low.values()):
            return False
        up = Rat({tuple(sorted((x, -int(e)) for x, e in low.items())): Fraction(1)})
        return not self.reduce(self._rawmul(Rat(r.num), up)).num

    def requal(self, a, b):
        return self.is_zero(self.radd(a, b, -1))

    # ---- atoms -------------------------------------------------------
    def rkey(self, r):
        return (pkey(r.num), r.den)

    def atom(self, kind, data, key, term=None):
        k = (kind, key)
        i = self.index.get(k)
        if i is None:
            at = Atom()
            at.id, at.kind, at.data, at.term = len(self.atoms), kind, data, term
            self.atoms.append(at)
            i = at.id
            self.index[k] = i
            self.bykind.setdefault(kind, []).append(i)
        return i

    def amono(self, i, e=1, c=1):
        return Rat({((i, e),): Fraction(c)})

    def find_fn(self, kind, rats, term):
        """atom for uninterpreted kind(args) modulo provable equality of the arguments"""
        key = tuple(self.rkey(r) for r in rats)
        i = self.index.get((kind, key))
        if i is not None:
            return i
        for j in self.bykind.get(kind, ()):
            d = self.atoms[j].data
            if len(d) == len(rats) and all(self.requal(x, y) for x, y in zip(d, rats)):
                self.index[(kind, key)] = j
                return j
        return self.atom(kind, tuple(rats), key, term)

    # ---- terms -> Rat --------------------------------------------------
    def rat(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self.reduce(self._rat(t))
            if len(r.num) > LIMIT:
                raise Give('too large')
            self.cache[t] = r
        return r

    def _rat(self, t):
        op = t.op
        if op == 'const':
            if t.sort == T.B:
                raise Give('bool')
            return self.const(T.cval(t))
        if op == 'var':
            return self.amono(self.atom('var', t, t, t))
        if op == 'add':
            r = Rat({})
            for a in t.args:
                r = self._rawadd(r, self.rat(a))
            return r
        if op == 'mul':
            r = self.const(1)
            for a in t.args:
                r = self.rmul(r, self.rat(a))
            return r
        if op == 'div':
            d = self.rat(t.args[1])
            if self.is_zero(d):
                raise Give('division by zero')
            return self.rmul(self.rat(t.args[0]), self.rinv(d))
        if op == 'fn':
            f = getattr(self, 'f_' + t.args[0], None)
            if f is not None:
                return f(t)
            rats = [self.rat(a) for a in t.args[1:]]
            return self.amono(self.find_fn('fn:' + t.args[0], rats, t))
        if op == 'ite':
            d = self._decide(t.args[0])
            if d is True:
                return self.rat(t.args[1])
            if d is False:
                return self.rat(t.args[2])
            a, b = self.rat(t.args[1]), self.rat(t.args[2])
            if self.requal(a, b):
                return a
            c = t.args[0]
            if ('pol', c) not in self.nice and ('pol', T.not_(c)) not in self.nice:
                # the first use fixes which of [c], [not c] is the indicator atom
                self.nice[('pol', T.not_(c) if not a.num or t.args[1] is NEG else c)] = True
            if ('pol', c) not in self.nice:
                c, a, b = T.not_(c), b, a
            i = self.amono(self.atom('ind', c, c, c))
            # c ? a : b  ==  b + [c]*(a-b)
            return self.radd(b, self.rmul(i, self.radd(a, b, -1)))
        if op == 'bigsum':
            return self.bigsum(t)
        if op in ('bigmax', 'bigmin', 'bigprod'):
            v, n, body = t.args
            nr = self.rat(n)
            br = self.rat(body)
            return self.amono(self.find_fn(op + ':' + v.args[0], [nr, br], t))
        if op in ('mod', 'idiv'):
            rats = [self.rat(a) for a in t.args]
            return self.amono(self.find_fn(op, rats, t))
        raise Give(op)

    # positivity of an atom / Rat via its term
    def apos(self, i):
        at = self.atoms[i]
        if at.kind == 'exp':
            return True
        if at.kind == 'abs' or at.kind == 'sqrt':
            return True      # nonzero wherever it is divided by / logged
        if at.term is not None:
            return bool(self._pos(at.term))
        if at.kind in ('sin', 'cos'):
            return self.sgn(i)[0]
        if at.kind.startswith('bigsum'):
            return bool(self._pos(self.aterm(i)))
        return False

    def sgn(self, i):
        """(positive, at least zero) of a sine / cosine"""
        if i not in self._sgn:
            try:
                t = self.aterm(i)
                p = bool(self._pos(t))
                self._sgn[i] = p, p or self._decide(T.le(T.ZERO, t)) is True
            except Give:
                self._sgn[i] = False, False
        return self._sgn[i]

    def rterm(self, r):
        """Rat back to a term"""
        def pterm(p):
            out = []
            for m, c in sorted(p.items()):
                fs = [T.const(c, T.R)]
                for x, e in m:
                    fs.append(self.apow(x, e))
                out.append(T.mul(*fs))
            return T.add(*out) if out else T.ZERO
        n = pterm(r.num)
        for k, e in r.den:
            n = T.div(n, T.powi(pterm(dict(k)), e))
        return n

    def apow(self, x, e):
        at = self.atoms[x]
        if at.kind == 'exp':
            return rules.exp(T.mul(T.const(e, T.R), self.aterm(x)))
        e = int(e)
        return T.powi(self.aterm(x), e)

    def aterm(self, x):
        at = self.atoms[x]
        if at.kind == 'exp':
            return self.rterm(at.data)
        if at.kind == 'ind':
            return T.ite(at.data, T.ONE, T.ZERO)
        if at.kind in ('sin', 'cos'):
            return rules.mkfn(at.kind, self.rterm_angle(at.data))
        if at.kind in ('sqrt', 'abs', 'log'):
            return rules.mkfn(at.kind, self.rterm(at.data if at.kind != 'log' else at.data[0]))
        if at.term is None and at.kind.startswith('bigsum:'):
            n = self.rterm(at.data[0])
            v = T.var(at.kind.split(':')[1], T.I)
            return T.big('bigsum', v, self.intterm(n), self.rterm(at.data[1]))
        return at.term

    def intterm(self, n):
        if n.op == 'const' and T.cval(n).denominator == 1:
            return T.const(int(T.cval(n)), T.I)
        return n

    def rterm_angle(self, data):
        m, q = data
        return self.rterm(Rat({m: Fraction(1, q)}))

    def rpos(self, r):
        """is the Rat known positive (syntactically, or through the oracle)"""
        if not r.num:
            return False
        if len(r.num) == 1 and not r.den:
            (m, c), = r.num.items()
            if c > 0 and all(self.apos(x) or (self.atoms[x].kind == 'var' and e % 2 == 0 and False) for x, e in m):
                return True
        try:
            return bool(self._pos(self.rterm(r)))
        except Give:
            return False

    # ---- interpreted functions -----------------------------------------
    def f_exp(self, t):
        a = self.rat(t.args[1])
        return self.exp_rat(a)

    def exp_rat(self, a):
        if not a.num:
            return self.const(1)
        if a.den:
            # split off nothing; match up to a rational multiple
            for j in self.bykind.get('exp', ()):
                d = self.atoms[j].data
                if not d.den:
                    continue
                try:
                    q = self.rmul(a, self.rinv(d))
                except ZeroDivisionError:
                    continue
                if not q.den and list(q.num) == [()]:
                    return self.amono(j, q.num[()])
            i = self.atom('exp', a, self.rkey(a))
            return self.amono(i)
        r = self.const(1)
        for m, c in sorted(a.num.items()):
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'log' and c.denominator == 1:
                la = self.atoms[m[0][0]]
                r = self.rmul(r, self.rpow(la.data[0], int(c)))
                continue
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'log' and c.denominator == 2:
                la = self.atoms[m[0][0]]
                r = self.rmul(r, self.rpow(self.sqrt_rat(la.data[0]), int(c * 2)))
                continue
            one = Rat({m: Fraction(1)})
            i = self.atom('exp', one, self.rkey(one))
            r = self.rmul(r, self.amono(i, c))
        return r

    def f_log(self, t):
        return self.log_rat(self.rat(t.args[1]), t)

    def log_rat(self, a, t=None):
        if not a.num:
            raise Give('log 0')
        r = Rat({})
        if a.den and all(self.rpos(Rat(dict(k))) for k, e in a.den):
            for k, e in a.den:
                r = self.radd(r, self.log_rat(Rat(dict(k))), -e)
            return self.radd(r, self.log_rat(Rat(a.num)))
        if a.den:
            return self.amono(self._logatom(a))
        # pull out monomial content whose atoms are positive
        if len(a.num) == 1:
            (m, c), = a.num.items()
            mono, coef, poly = m, c, {(): Fraction(1)}
        else:
            (mono, coef), poly = self.content(a.num)
        rest = {(): Fraction(1)}
        for x, e in mono:
            at = self.atoms[x]
            if at.kind == 'exp':
                r = self.radd(r, self.rmul(self.const(e), at.data))
            elif at.kind == 'sqrt':
                r = self.radd(r, self.rmul(self.const(Fraction(e) / 2), self.log_rat(at.data)))
            elif self.apos(x):
                r = self.radd(r, self.rmul(self.const(e), self.amono(self._logatom(self.amono(x)))))
            else:
                rest = self.pmul(rest, {((x, e),): Fraction(1)})
        p = self.pmul(poly, rest)
        if coef < 0:
            p = {m: -c for m, c in p.items()}
            coef = -coef
        if coef != 1:
            r = self.radd(r, self._logconst(coef))
        if list(p) == [()] and p[()] == 1:
            return r
        return self.radd(r, self.amono(self._logatom(Rat(p))))

    def _logconst(self, c):
        r = Rat({})
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            k = 2
            while n > 1:
                while n % k == 0:
                    n //= k
                    r = self.radd(r, self.amono(self._logatom(self.const(k))), s)
                k += 1
                if k > 1000 and n > 1:
                    r = self.radd(r, self.amono(self._logatom(self.const(n))), s)
                    break
        return r

    def _logatom(self, r):
        return self.find_fn('log', [r], None)

    def f_sqrt(self, t):
        return self.sqrt_rat(self.rat(t.args[1]))

    def sqrt_rat(self, a):
        if not a.num:
            return Rat({})
        if a.den:
            # sqrt(n/d) = sqrt(n*d)/d for d>0   (d is a product of factors; keep even powers out)
            if all(self.rpos(Rat(dict(k))) for k, e in a.den):
                n = Rat(a.num)
                outk, apart = [], self.const(1)
                for k, e in a.den:
                    if e % 2:
                        if len(k) > 1 and len(a.num) > 1:
                            apart = self.rmul(apart, self.sqrt_rat(Rat(dict(k))))
                        else:
                            n = Rat(self.pmul(n.num, dict(k)))
                        e += 1
                    outk.append((k, e // 2))
                s = self.rmul(self.sqrt_rat(self.reduce(n)), apart)
                return self.reduce(self._rawmul(s, Rat({(): Fraction(1)}, tuple(outk))))
            return self.amono(self._sqrtatom(a))
        if len(a.num) == 1:
            (m, c), = a.num.items()
            poly = {(): Fraction(1)}
        else:
            (m, c), poly = self.content(a.num)
        r = self.const(1)
        inside = dict(poly)
        for x, e in m:
            at = self.atoms[x]
            if at.kind == 'exp':
                r = self.rmul(r, self.amono(x, Fraction(e) / 2))
            elif self.apos(x):
                if e % 2 == 0:
                    r = self.rmul(r, self.amono(x, e // 2))
                else:
                    r = self.rmul(r, self.rpow(self.amono(self._sqrtatom(self.amono(x))), int(e)))
            elif e % 2 == 0 and (e // 2) % 2 == 0:
                r = self.rmul(r, self.amono(x, e // 2))
            elif e % 2 == 0:
                r = self.rmul(r, self.rpow(self.abs_rat(self.amono(x)), int(e // 2)))
            else:
                inside = self.pmul(inside, {((x, e),): Fraction(1)})
        if c < 0:
            inside = {k: -v for k, v in inside.items()}
            c = -c
        # rational constant: extract square part
        st = rules.sqrt_const(c)
        if st.op == 'const':
            r = self.rmul(r, self.const(T.cval(st)))
        elif st.op == 'fn':
            r = self.rmul(r, self._sqrtint(T.cval(st.args[1])))
        else:
            r = self.rmul(r, self.const(T.cval(st.args[0])))
            r = self.rmul(r, self._sqrtint(T.cval(st.args[1].args[1])))
        if list(inside) == [()] and inside[()] == 1:
            return r
        # perfect square?
        q = self._polysqrt(inside)
        if q is not None:
            return self.rmul(r, self.abs_rat(Rat(q)))
        for x in sorted({x for m in inside for x, _ in m}):
            if self.atoms[x].kind != 'cos':
                continue
            left = self._by_sin2(inside, x)
            if left is not None:            # 1 - cos^2 is the square of the sine
                sn = self.index.get(('sin', self.atoms[x].data))
                if sn is not None:
                    return self.rmul(self.rmul(r, self.abs_rat(self.amono(sn))), self.sqrt_rat(Rat(left)))
        sq = self._squares(inside)
        if sq is not None:
            outs, left = sq
            for q, e in outs:
                r = self.rmul(r, self.rpow(self.abs_rat(Rat(q)), e))
            return self.rmul(r, self.sqrt_rat(Rat(left)))
        return self.rmul(r, self.amono(self._sqrtatom(Rat(inside))))

    def _by_sin2(self, p, x):
        """quotient of the polynomial p by (1 - x^2), None if it does not divide"""
        by = {}
        for m, c in p.items():
            d = dict(m)
            e = d.pop(x, 0)
            if not isinstance(e, int) and Fraction(e).denominator != 1 or e < 0:
                return None
            by.setdefault(int(e), {})[tuple(sorted(d.items()))] = c
        top, out = max(by), {}
        for e in range(top, 1, -1):
            for m, c in list(by.get(e, {}).items()):
                if not c:
                    continue
                # c x^e = -c (1-x^2) x^(e-2) + c x^(e-2)
                k = tuple(sorted(list(m) + ([(x, e - 2)] if e > 2 else [])))
                out[k] = out.get(k, 0) - c
                lo = by.setdefault(e - 2, {})
                lo[m] = lo.get(m, 0) + c
        if any(c for e in (0, 1) for c in by.get(e, {}).values()):
            return None
        out = {k: v for k, v in out.items() if v}
        return out or None

    def _squares(self, p):
        """square factors of a polynomial: ([(q, e)], left) with p == prod q^(2e) * left, or None"""
        xs = sorted({x for m in p for x, _ in m})
        if not (3 <= len(p) <= 60 and 1 <= len(xs) <= 5) or any(not isinstance(e, int) and Fraction(e).denominator != 1 or e < 0 for m in p for _, e in m):
            return None
        key = frozenset(p.items())
        if key in self._sqcache:
            return self._sqcache[key]
        import sympy
        v = {x: sympy.Symbol('x%d' % x) for x in xs}
        d = {tuple(int(dict(m).get(x, 0)) for x in xs): sympy.Rational(Fraction(c).numerator, Fraction(c).denominator) for m, c in p.items()}
        P = sympy.Poly.from_dict(d, *[v[x] for x in xs])
        coef, fs = P.sqf_list()

        def back(q):
            return {tuple((x, int(e)) for x, e in zip(xs, m) if e): Fraction(int(c.p), int(c.q)) for m, c in q.terms()}
        outs = [(back(q), e // 2) for q, e in fs if e >= 2]
        res = None
        if outs:
            left = {(): Fraction(int(coef.p), int(coef.q))}
            for q, e in fs:
                if e % 2:
                    left = self.pmul(left, back(q))
            res = outs, left
        self._sqcache[key] = res
        return res

    def _sqrtint(self, n):
        """sqrt of a square-free whole number, over its (small) primes"""
        n, k, r = int(n), 2, self.const(1)
        while k * k <= n and k < 2000:
            if n % k == 0:
                r = self.rmul(r, self.amono(self._sqrtatom(self.const(k))))
                n //= k
            else:
                k += 1
        return self.rmul(r, self.amono(self._sqrtatom(self.const(n)))) if n > 1 else r

    def _polysqrt(self, p):
        """q with q^2 == p (up to reduction), for small p: tries binomials/trinomials"""
        if len(p) < 3 or len(p) > 6:
            return None
        sq = []
        for m, c in p.items():
            if c > 0 and all(e % 2 == 0 for _, e in m):
                s = rules.sqrt_const(c)
                if s.op == 'const':
                    sq.append({tuple((x, e // 2) for x, e in m): T.cval(s)})
        import itertools
        for k in (2, 3):
            for combo in itertools.combinations(sq, k):
                for sg in itertools.product((1, -1), repeat=k - 1):
                    q = dict(combo[0])
                    for s, d in zip(sg, combo[1:]):
                        q = self.padd(q, d, s)
                    if self.pmul(q, q) == p:
                        return q
        return None

    def _sqrtatom(self, r):
        key = self.rkey(r)
        i = self.index.get(('sqrt', key))
        if i is not None:
            return i
        for j in self.bykind.get('sqrt', ()):
            if self.requal(self.atoms[j].data, r):
                self.index[('sqrt', key)] = j
                return j
        return self.atom('sqrt', r, key)

    def f_abs(self, t):
        return self.abs_rat(self.rat(t.args[1]))

    def abs_rat(self, a):
        if not a.num:
            return a
        if self.rpos(a):
            return a
        n = Rat({m: -c for m, c in a.num.items()}, a.den)
        if self.rpos(n):
            return n
        if a.den:
            r = self.abs_rat(Rat(a.num))
            for k, e in a.den:
                p = Rat(dict(k))
                q = self.abs_rat(p)
                for _ in range(e):
                    r = self.rmul(r, self.rinv(q))
            return r
        if len(a.num) == 1:
            (m, c), = a.num.items()
            r = self.const(abs(c))
            for x, e in m:
                if self.apos(x) or e % 2 == 0 or self.atoms[x].kind in ('sin', 'cos') and self.sgn(x)[1]:
                    r = self.rmul(r, self.amono(x, e))
                else:
                    i = self._absatom(self.amono(x))
                    r = self.rmul(r, self.amono(i, e))
            return r
        (mono, c), poly = self.content(a.num)
        r = self.abs_rat(Rat({mono: abs(c)})) if mono else self.const(abs(c))
        if self.rpos(Rat(poly)):
            return self.rmul(r, Rat(poly))
        return self.rmul(r, self.amono(self._absatom(Rat(poly))))

    def _absatom(self, r):
        key = self.rkey(r)
        i = self.index.get(('abs', key))
        if i is not None:
            return i
        for j in self.bykind.get('abs', ()):
            d = self.atoms[j].data
            if self.requal(d, r) or self.is_zero(self.radd(d, r)):
                self.index[('abs', key)] = j
                return j
        i = self.atom('abs', r, key)
        if len(r.num) == 1 and not r.den:
            (m, c), = r.num.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind not in ('sqrt', 'sin', 'abs', 'ind', 'exp', 'cos'):
                self.absof[m[0][0]] = i
                self.absval.add(i)
        return i

    # sin/cos with angle addition
    def f_sin(self, t):
        return self.sincos(t.args[1])[0]

    def f_cos(self, t):
        return self.sincos(t.args[1])[1]

    def f_tan(self, t):
        s, c = self.sincos(t.args[1])
        return self.rmul(s, self.rinv(c))

    def sincos(self, arg):
        r = self._sc(self.rat(arg))
        return r

    def _sc(self, a):
        s, c = Rat({}), self.const(1)
        if a.den:
            i, j = self._scatoms((self.rkey(a), 'den'), a)
            return self.amono(i), self.amono(j)
        for m, k in sorted(a.num.items()):
            s1, c1 = self._sc1(m, k)
            s, c = (self.radd(self.rmul(s, c1), self.rmul(c, s1)),
                    self.radd(self.rmul(c, c1), self.rmul(s, s1), -1))
        return s, c

    def _sc1(self, m, k):
        # pi multiples
        pit = self.index.get(('var', T.PI))
        if pit is not None and m == ((pit, 1),):
            q = k
            st, ct = rules._sincos(T.mul(T.const(q, T.R), T.PI), True), rules._sincos(T.mul(T.const(q, T.R), T.PI), False)
            if st is not None and ct is not None:
                return self.rat(st), self.rat(ct)
        if len(m) == 1 and m[0][1] == 1:
            at = self.atoms[m[0][0]]
            if at.kind in ('fn:acos', 'fn:asin', 'fn:atan2', 'fn:atan') and k.denominator == 1:
                s, c = self._inverse(at)
                return self._multi(s, c, int(k))
            if at.kind == 'mod' and k.denominator == 1 and pit is not None and at.data[1].num == {((pit, 1),): Fraction(2)} and not at.data[1].den:
                s, c = self._sc(at.data[0])          # sin and cos do not see a reduction modulo 2 pi
                return self._multi(s, c, int(k))
        q = max(self.angle_den.get(m, 1), k.denominator)
        if q % k.denominator:
            q = q * k.denominator
        self.angle_den[m] = q
        i, j = self._scatoms((m, q), None)
        return self._multi(self.amono(i), self.amono(j), int(k * q))

    def _scatoms(self, data, rat):
        j = self.atom('cos', data, data)
        i = self.atom('sin', data, data)
        return i, j

    def _inverse(self, at):
        one = self.const(1)
        if at.kind == 'fn:acos':
            x = at.data[0]
            return self.sqrt_rat(self.radd(one, self.rmul(x, x), -1)), x
        if at.kind == 'fn:asin':
            x = at.data[0]
            return x, self.sqrt_rat(self.radd(one, self.rmul(x, x), -1))
        if at.kind == 'fn:atan':
            x = at.data[0]
            h = self.sqrt_rat(self.radd(one, self.rmul(x, x)))
            return self.rmul(x, self.rinv(h)), self.rinv(h)
        y, x = at.data
        h = self.sqrt_rat(self.radd(self.rmul(x, x), self.rmul(y, y)))
        return self.rmul(y, self.rinv(h)), self.rmul(x, self.rinv(h))

    def _multi(self, s, c, k):
        if k < 0:
            s1, c1 = self._multi(s, c, -k)
            return Rat({m: -v for m, v in s1.num.items()}, s1.den), c1
        S, C = Rat({}), self.const(1)
        for _ in range(k):
            S, C = (self.radd(self.rmul(S, c), self.rmul(C, s)),
                    self.radd(self.rmul(C, c), self.rmul(S, s), -1))
        return S, C

    def f_erf(self, t):
        a = self.rat(t.args[1])
        return self._odd('fn:erf', a, t)

    def _odd(self, kind, a, t):
        for j in self.bykind.get(kind, ()):
            d = self.atoms[j].data[0]
            if self.requal(d, a):
                return self.amono(j)
            if self.is_zero(self.radd(d, a)):
                return self.amono(j, 1, -1)
        return self.amono(self.find_fn(kind, [a], t))

    def f_sign(self, t):
        a = self.rat(t.args[1])
        if self.rpos(a):
            return self.const(1)
        if self.rpos(Rat({m: -c for m, c in a.num.items()}, a.den)):
            return self.const(-1)
        return self._odd('fn:sign', a, t)

    # big sums: linear, factors free of the index come out
    def bigsum(self, t):
        v, n, body = t.args
        nr = self.rat(n)
        b = self.rat(body)
        vid = self.index.get(('var', v))
        if b.den:
            i = self.find_fn('bigsum:' + v.args[0], [nr, b], t)
            return self.amono(i)
        out = Rat({})
        groups = {}
        for m, c in b.num.items():
            inside = tuple((x, e) for x, e in m if self.depends(x, v))
            outside = tuple((x, e) for x, e in m if not self.depends(x, v))
            groups.setdefault(inside, {})
            groups[inside][outside] = groups[inside].get(outside, 0) + c
        for inside, coef in sorted(groups.items()):
            if not inside:
                s = nr
            else:
                s = None
                if v.args[0] != '_b0':
                    # a body that lost its inner binders: use the canonical bound variable
                    u = T.big('bigsum', v, n, self.rterm(Rat({inside: Fraction(1)})))
                    if u.op == 'bigsum' and u.args[0] is not v:
                        s = self.rat(u)
                if s is None:
                    s = self.amono(self.find_fn('bigsum:' + v.args[0], [nr, Rat({inside: Fraction(1)})], None))
            out = self.radd(out, self.rmul(Rat(coef), s))
        return out

    def depends(self, x, v):
        at = self.atoms[x]
        k = ('dep', x, v)
        r = self.nice.get(k)
        if r is None:
            r = self._depends(at, v)
            self.nice[k] = r
        return r

    def _rdep(self, r, v):
        return any(self.depends(x, v) for m in r.num for x, _ in m) or \
            any(self.depends(x, v) for k, _ in r.den for m, _c in k for x, _ in m)

    def _depends(self, at, v):
        if at.kind == 'var':
            return at.data is v
        if at.kind == 'ind':
            return v in T.free_vars(at.data)
        if at.kind in ('exp', 'sqrt', 'abs'):
            return self._rdep(at.data, v)
        if at.kind in ('sin', 'cos'):
            m, q = at.data
            if q == 'den':
                num, den = m
                return any(self.depends(x, v) for mm, _ in num for x, _ in mm)
            return any(self.depends(x, v) for x, _ in m)
        if at.kind.startswith('big'):
            if at.kind.endswith(':' + v.args[0]):
                return self._rdep(at.data[0], v)
        return any(self._rdep(r, v) for r in at.data)


def equal(a, b, positive=None, decide=None):
    """True if a == b is established, False if the normal forms differ, None if out of reach"""
    try:
        N = Norm(positive, decide)
        _prescan(N, (a, b))
        d = N.rat(T.sub(a, b)) if a.op == 'add' and b.op == 'add' else N.radd(N.rat(a), N.rat(b), -1)
        return N.is_zero(d)
    except (Give, ZeroDivisionError, RecursionError):
        return None


def multiple(t, others):
    """is t a nonzero constant, or a constant multiple of one of the others, once divisors (which the
    caller knows not to be zero) are cleared"""
    try:
        N = Norm(None, None)
        a = N.rat(t)
        if not a.num:
            return False
        if len(a.num) == 1 and () in a.num:
            return True
    except (Give, ZeroDivisionError, RecursionError):
        return False

    def scaled(p):
        k = p[min(p)]
        return {m: c / k for m, c in p.items()}
    na = scaled(a.num)
    for o in others:
        if len(T.subterms(o)) > 300:
            continue
        try:
            b = N.rat(o)
            if b.num and scaled(b.num) == na:
                return True
        except (Give, ZeroDivisionError, RecursionError):
            pass
    return False


def _prescan(N, terms):
    """common angle denominators: sin(x/2) together with sin(x)"""
    for t in terms:
        for s in T.subterms(t):
            if s.op == 'fn' and s.args[0] == 'abs' and s.args[1].op in ('var', 'fn'):
                try:
                    N.rat(s)
                except (Give, ZeroDivisionError):
                    pass
            if s.op == 'fn' and s.args[0] in ('sin', 'cos', 'tan'):
                try:
                    r = N.rat(s.args[1])
                except (Give, ZeroDivisionError):
                    continue
                if r.den:
                    continue
                for m, k in r.num.items():
                    q = N.angle_den.get(m, 1)
                    d = Fraction(k).denominator
                    import math
                    N.angle_den[m] = q * d // math.gcd(q, d)
