"""Hash-consed terms over reals, integers and booleans (the verifier's logic)."""
from fractions import Fraction

R, I, B = 'R', 'I', 'B'
_table = {}
_count = [0]


class Term(object):
    __slots__ = ('op', 'args', 'sort', 'id', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __reduce__(self):
        raise TypeError('terms are not picklable')


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        _count[0] += 1
        t.id = _count[0]
        _table[key] = t
    return t


def const(v, sort=None):
    if isinstance(v, bool):
        return mk('const', (v,), B)
    if sort is None:
        sort = I if isinstance(v, int) else R
    v = Fraction(v)
    return mk('const', (v,), sort)


TRUE, FALSE = const(True), const(False)
ZERO, ONE = const(Fraction(0), R), const(Fraction(1), R)
IZERO, IONE = const(0, I), const(1, I)
_fresh = [0]


def var(name, sort=R):
    return mk('var', (name,), sort)


def fresh(prefix, sort=R):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), sort)


def reset_fresh():
    _fresh[0] = 0


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


PI = var('pi', R)


def _join(sorts):
    return I if all(s == I for s in sorts) else R


def add(*ts):
    flat = []
    c = Fraction(0)
    sort = _join([t.sort for t in ts])
    stack = list(ts)[::-1]
    coef = {}
    order = []
    while stack:
        t = stack.pop()
        if t.op == 'add':
            stack.extend(reversed(t.args))
        elif t.op == 'const':
            c += cval(t)
        else:
            k, m = 1, t
            if t.op == 'mul' and t.args[0].op == 'const':
                k = cval(t.args[0])
                rest = t.args[1:]
                m = rest[0] if len(rest) == 1 else mk('mul', rest, _join([x.sort for x in rest]))
            if m not in coef:
                coef[m] = Fraction(0)
                order.append(m)
            coef[m] += k
    for m in order:
        k = coef[m]
        if k == 0:
            continue
        flat.append(m if k == 1 else _mulc(k, m))
    if c != 0 or not flat:
        flat.append(const(c, sort if c.denominator == 1 else R))
    if len(flat) == 1:
        return flat[0]
    flat.sort(key=lambda t: t.id)
    return mk('add', tuple(flat), sort)


def _mulc(k, m):
    ck = const(Fraction(k), m.sort if Fraction(k).denominator == 1 else R)
    if m.op == 'mul':
        return mk('mul', (ck,) + m.args, m.sort)
    return mk('mul', (ck, m), m.sort)


def mul(*ts):
    c = Fraction(1)
    flat = []
    sort = _join([t.sort for t in ts])
    stack = list(ts)[::-1]
    while stack:
        t = stack.pop()
        if t.op == 'mul':
            stack.extend(reversed(t.args))
        elif t.op == 'const':
            c *= cval(t)
        else:
            flat.append(t)
    if c == 0:
        return const(0, sort)
    if not flat:
        return const(c, sort)
    flat.sort(key=lambda t: t.id)
    if len(flat) == 1:
        m = flat[0]
        if c == 1:
            return m
        if m.op == 'add':
            return add(*[mul(const(c, R if c.denominator != 1 else m.sort), a) for a in m.args])
        return _mulc(c, m)
    m = mk('mul', tuple(flat), sort)
    return m if c == 1 else mk('mul', (const(c, sort if c.denominator == 1 else R),) + m.args, sort)


def neg(t):
    return mul(const(-1, t.sort), t)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    """real division; meaningless when b == 0 (callers guard)"""
    if b.op == 'const' and cval(b) != 0:
        return mul(const(1 / cval(b), R), a)
    if a.op == 'const' and cval(a) == 0:
        return ZERO
    if a is b:
        return ONE if b.op != 'const' else div(const(1), ONE)
    if a.op == 'mul' and a.args[0].op == 'const':
        return mul(a.args[0], div(mul(*a.args[1:]), b))
    return mk('div', (a, b), R)


def powi(a, n):
    if n == 0:
        return ONE
    if n == 1:
        return a
    if n < 0:
        return div(ONE, powi(a, -n))
    return mul(*([a] * n))


def idiv(a, b):
    if is_const(a) and is_const(b) and cval(b) != 0:
        return const(int(cval(a) // cval(b)), I)
    return mk('idiv', (a, b), I)


def imod(a, b):
    if is_const(a) and is_const(b) and cval(b) != 0:
        return const(cval(a) % cval(b), _join([a.sort, b.sort]))
    return mk('mod', (a, b), _join([a.sort, b.sort]))


def fn(name, *args, sort=R):
    """application of a (possibly interpreted-by-axioms) function symbol"""
    return mk('fn', (name,) + tuple(args), sort)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == B:
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b), _join([a.sort, b.sort]))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), B)


def and_(*ts):
    flat = []
    seen = set()
    stack = list(ts)[::-1]
    while stack:
        t = stack.pop()
        if t is FALSE:
            return FALSE
        if t is TRUE or t in seen:
            continue
        if t.op == 'and':
            stack.extend(reversed(t.args))
            continue
        seen.add(t)
        flat.append(t)
    for t in flat:
        if not_(t) in seen:
            return FALSE
    if not flat:
        return TRUE
    if len(flat) == 1:
        return flat[0]
    return mk('and', tuple(sorted(flat, key=lambda t: t.id)), B)


def or_(*ts):
    return not_(and_(*[not_(t) for t in ts]))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return and_(implies(a, b), implies(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == B or b.sort == B:
        return iff(a, b)
    if is_const(a) and is_const(b):
        return const(cval(a) == cval(b))
    d = sub(a, b)
    if is_const(d):
        return const(cval(d) == 0)
    for p, q in ((a, b), (b, a)):
        # ite(c, 0, 1) = 0 is c
        if p.op == 'ite' and is_const(q) and is_const(p.args[1]) and is_const(p.args[2]):
            x, y = cval(p.args[1]) == cval(q), cval(p.args[2]) == cval(q)
            return const(x) if x == y else (p.args[0] if x else not_(p.args[0]))
    if SIGN is not None and (is_zero(a) or is_zero(b)) and 0 not in SIGN(b if is_zero(a) else a):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), B)


SIGN = None         # sign analysis installed by dpv/signs.py


def is_zero(t):
    return t.op == 'const' and t.sort != B and cval(t) == 0


def _order(a, b, strict):
    """sign-based decision of a < b / a <= b against zero, or None"""
    if SIGN is None:
        return None
    if is_zero(b):
        s = SIGN(a)
    elif is_zero(a):
        s = frozenset(-x for x in SIGN(b))
    else:
        return None
    yes = {-1} if strict else {-1, 0}
    if s <= yes:
        return TRUE
    if not s & yes:
        return FALSE
    return None


def lt(a, b):
    d = sub(a, b)
    if is_const(d):
        return const(cval(d) < 0)
    r = _order(a, b, True)
    if r is not None:
        return r
    return mk('lt', (a, b), B)


def le(a, b):
    d = sub(a, b)
    if is_const(d):
        return const(cval(d) <= 0)
    r = _order(a, b, False)
    if r is not None:
        return r
    return mk('le', (a, b), B)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


GATHER = {}         # count term of a mask -> (enumeration name, mask, size)


def _replace1(t, a, b, cache=None):
    cache = {} if cache is None else cache
    r = cache.get(t)
    if r is None:
        if t is a:
            r = b
        elif t.op in ('const', 'var') or a.args[1] not in free_vars(t):
            r = t
        else:
            r = rebuild(t, tuple(_replace1(x, a, b, cache) if isinstance(x, Term) else x for x in t.args))
        cache[t] = r
    return r


def big(op, v, n, body):
    """op in bigsum/bigprod/bigmax/bigmin/forall/exists over 0 <= v < n"""
    if n in GATHER and v in free_vars(body):
        # over the enumeration of a mask: the same operator over the masked range
        name, mask, n0 = GATHER[n]
        w = fresh('gw', I)
        e = fn(name, v, sort=I)
        b2 = _replace1(body, e, w)
        if v not in free_vars(b2):
            m = mask(w)
            if op == 'bigsum':
                return big(op, w, n0, ite(m, b2, const(0, b2.sort)))
            if op == 'bigmax':
                return big(op, w, n0, ite(m, b2, var('-oo', R)))
            if op == 'exists':
                return big(op, w, n0, and_(m, b2))
            if op == 'forall':
                return big(op, w, n0, or_(not_(m), b2))
    if n is IONE:
        return subst(body, {v: IZERO})
    if op in ('bigmax', 'bigmin') and body.op == 'add':
        # a maximum is only ever taken of a non-empty range
        f = [a for a in body.args if v not in free_vars(a)]
        if f and len(f) < len(body.args):
            return add(*(f + [big(op, v, n, add(*[a for a in body.args if v in free_vars(a)]))]))
    if op in ('forall', 'exists'):
        if is_const(body):
            if op == 'forall':
                return TRUE if body is TRUE else mk(op, _alpha(v, n, body), B)
            return FALSE if body is FALSE else gt(n, IZERO)
        return mk(op, _alpha(v, n, body), B)
    if op == 'bigsum' and is_const(body):
        return mul(body, n)
    if op == 'bigsum' and body.sort == R:
        out, body = pull(body, v)
        if out is not None:
            return mul(out, big(op, v, n, body))
    return mk(op, _alpha(v, n, body), R if body.sort != I else I)


def pull(b, v):
    """(factor free of v or None, rest) with factor*rest = b"""
    if b.op == 'mul':
        f = [a for a in b.args if v not in free_vars(a)]
        if f:
            g = [a for a in b.args if v in free_vars(a)]
            o, r = pull(mul(*g), v) if g else (None, ONE)
            return (mul(*f) if o is None else mul(o, *f)), r
        for i, a in enumerate(b.args):
            o, r = pull(a, v)
            if o is not None:
                return o, mul(r, *(b.args[:i] + b.args[i + 1:]))
    elif b.op == 'div' and v not in free_vars(b.args[1]) and not is_const(b.args[0]):
        return div(ONE, b.args[1]), b.args[0]
    elif b.op == 'ite' and v in free_vars(b.args[0]):
        c, p, q = b.args
        for zero, x, flip in ((p, q, False), (q, p, True)):
            if is_const(zero) and cval(zero) == 0:
                o, r = pull(x, v)
                if o is not None:
                    return o, (ite(c, r, zero) if flip else ite(c, zero, r))
    elif b.op == 'fn' and b.args[0] == 'exp' and b.args[1].op == 'add':
        f = [a for a in b.args[1].args if v not in free_vars(a)]
        if f:
            return fn('exp', add(*f)), fn('exp', add(*[a for a in b.args[1].args if v in free_vars(a)]))
    return None, b


def _alpha(v, n, body):
    d = depth(body)
    w = var('_b%d' % d, I)
    return (w, n, subst(body, {v: w}))


_depth = {}


def depth(t):
    """1 + nesting depth of binders inside t"""
    r = _depth.get(t)
    if r is None:
        r = 0
        for a in t.args:
            if isinstance(a, Term):
                r = max(r, depth(a))
        if t.op in BINDERS:
            r += 1
        _depth[t] = r
    return r


BINDERS = ('bigsum', 'bigprod', 'bigmax', 'bigmin', 'forall', 'exists')


def rebuild(t, args):
    op = t.op
    if op in ('const', 'var'):
        return t
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'div':
        return div(*args)
    if op == 'idiv':
        return idiv(*args)
    if op == 'mod':
        return imod(*args)
    if op == 'fn':
        from . import rules
        return rules.mkfn(args[0], *args[1:], sort=t.sort)
    if op == 'ite':
        return ite(*args)
    if op == 'not':
        return not_(*args)
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'lt':
        return lt(*args)
    if op == 'le':
        return le(*args)
    if op in BINDERS:
        return big(op, *args)
    raise ValueError(op)


def subst(t, m, cache=None):
    if not m:
        return t
    if cache is None:
        cache = {}
    r = m.get(t)
    if r is not None:
        return r
    if t.op in ('const', 'var'):
        return t
    r = cache.get(t)
    if r is not None:
        return r
    if t.op in BINDERS:
        v, n, body = t.args
        n2 = subst(n, m, cache)
        if v in m:
            m2 = dict(m)
            del m2[v]
            body2 = subst(body, m2) if m2 else body
            r = t if (n2 is n and body2 is body) else big(t.op, v, n2, body2)
        else:
            w = fresh('_bb', I)   # avoid capture
            body1 = subst(body, {v: w})
            body2 = subst(body1, m)
            if body2 is body1 and n2 is n:
                r = t
            else:
                r = big(t.op, w, n2, body2)
    else:
        args = tuple(subst(a, m, cache) if isinstance(a, Term) else a for a in t.args)
        r = t if all(x is y for x, y in zip(args, t.args)) else rebuild(t, args)
    cache[t] = r
    return r


def instantiate(t, k):
    """body of a binder at index k"""
    v, n, body = t.args
    return subst(body, {v: k})


_fv = {}


def free_vars(t):
    r = _fv.get(t)
    if r is None:
        if t.op == 'var':
            r = frozenset([t])
        elif t.op in BINDERS:
            r = free_vars(t.args[1]) | (free_vars(t.args[2]) - {t.args[0]})
        else:
            r = frozenset()
            for a in t.args:
                if isinstance(a, Term):
                    r = r | free_vars(a)
        _fv[t] = r
    return r


def subterms(t, out=None, under=True):
    if out is None:
        out = {}
    if t in out:
        return out
    out[t] = True
    if t.op in BINDERS and not under:
        subterms(t.args[1], out, under)
        return out
    for a in t.args:
        if isinstance(a, Term):
            subterms(a, out, under)
    return out


def show(t, budget=None):
    """text of a term, cut short when it is long (terms share subterms heavily)"""
    if budget is None:
        budget = [6000]
    if budget[0] <= 0:
        return '..'
    op = t.op
    if op == 'const' or op == 'var':
        r = str(t.args[0])
        budget[0] -= len(r) + 1
        return r
    s = [show(a, budget) if isinstance(a, Term) else str(a) for a in t.args]
    budget[0] -= 3
    if op == 'add':
        return '(' + ' + '.join(s) + ')'
    if op == 'mul':
        return '*'.join(s)
    if op == 'div':
        return '(%s)/(%s)' % tuple(s)
    if op == 'fn':
        return '%s(%s)' % (s[0], ', '.join(s[1:]))
    if op == 'eq':
        return '(%s = %s)' % tuple(s)
    if op == 'lt':
        return '(%s < %s)' % tuple(s)
    if op == 'le':
        return '(%s <= %s)' % tuple(s)
    if op in BINDERS:
        return '%s[%s<%s](%s)' % (op, s[0], s[1], s[2])
    return '%s(%s)' % (op, ', '.join(s))


def evaluate(t, env, funcs=None, cache=None):
    """numeric evaluation of a term (floats); env maps var name -> value,
    funcs maps function name -> callable.  Used to replay counter-models."""
    import math
    if cache is None:
        cache = {}
    if t in cache:
        return cache[t]
    op = t.op
    ev = lambda a: evaluate(a, env, funcs, cache)
    if op == 'const':
        v = cval(t)
        r = v if isinstance(v, bool) else (int(v) if t.sort == I else float(v))
    elif op == 'var':
        r = math.pi if t is PI else env[t.args[0]]
    elif op == 'add':
        r = sum(ev(a) for a in t.args)
    elif op == 'mul':
        r = 1
        for a in t.args:
            r = r * ev(a)
    elif op == 'div':
        r = ev(t.args[0]) / ev(t.args[1])
    elif op == 'ite':
        r = ev(t.args[1]) if ev(t.args[0]) else ev(t.args[2])
    elif op == 'not':
        r = not ev(t.args[0])
    elif op == 'and':
        r = all(ev(a) for a in t.args)
    elif op == 'eq':
        r = ev(t.args[0]) == ev(t.args[1])
    elif op == 'lt':
        r = ev(t.args[0]) < ev(t.args[1])
    elif op == 'le':
        r = ev(t.args[0]) <= ev(t.args[1])
    elif op == 'mod':
        r = ev(t.args[0]) % ev(t.args[1])
    elif op == 'idiv':
        r = ev(t.args[0]) // ev(t.args[1])
    elif op == 'fn':
        f = None
        if funcs and t.args[0] in funcs:
            f = funcs[t.args[0]]
        else:
            import math as m
            f = {'exp': m.exp, 'log': m.log, 'erf': m.erf, 'sin': m.sin, 'cos': m.cos, 'sqrt': m.sqrt,
                 'atan2': m.atan2, 'acos': m.acos, 'asin': m.asin, 'atan': m.atan, 'tan': m.tan}[t.args[0]]
        r = f(*[ev(a) for a in t.args[1:]])
    elif op in BINDERS:
        v, n, body = t.args
        vals = []
        for k in range(int(ev(n))):
            e2 = dict(env)
            e2[v.args[0]] = k
            vals.append(evaluate(body, e2, funcs))
        if op == 'bigsum':
            r = sum(vals)
        elif op == 'bigmax':
            r = max(vals)
        elif op == 'bigmin':
            r = min(vals)
        elif op == 'bigprod':
            r = 1
            for x in vals:
                r *= x
        elif op == 'forall':
            r = all(vals)
        else:
            r = any(vals)
    else:
        raise ValueError(op)
    cache[t] = r
    return r
