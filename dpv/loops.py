"""Source instrumentation applied to every loaded module (mechanical, on each run):
list comprehensions with one generator become calls of seq.comp, `x in s` inside their
conditions becomes seq.contains; both agree with Python on concrete values."""
import ast


class _In(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name('__dpv_in__', ast.Load()), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.Call(ast.Name('__dpv_not__', ast.Load()), [c], [])
            return ast.copy_location(c, n)
        return n


class _Comp(ast.NodeTransformer):
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1:
            return n
        g = n.generators[0]
        if g.is_async or len(g.ifs) > 1 or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(n)):
            return n
        if isinstance(g.target, ast.Name):
            names, star = [g.target.id], False
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            names, star = [e.id for e in g.target.elts], True
        else:
            return n

        def lam(body):
            inner = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), body)
            if not star:
                return inner
            return ast.Lambda(ast.arguments([], [ast.arg('__t')], None, [], [], None, []),
                              ast.Call(inner, [ast.Starred(ast.Name('__t', ast.Load()), ast.Load())], []))
        args = [lam(n.elt), g.iter]
        if g.ifs:
            args.append(lam(_In().visit(g.ifs[0])))
        return ast.copy_location(ast.Call(ast.Name('__dpv_comp__', ast.Load()), args, []), n)

    def visit_ClassDef(self, n):
        # class bodies have scoping of their own; methods are transformed
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]
        return n


class _While(ast.NodeTransformer):
    """`while` loops with a loop contract become: check on entry; havoc what the body assigns;
    one arbitrary iteration (checked, then cut); continue after the loop with the condition false"""
    def __init__(self, contracts):
        self.contracts, self.stack, self.count = contracts, [], {}

    def _fn(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n
    visit_FunctionDef = visit_ClassDef = _fn

    def visit_While(self, n):
        q = '.'.join(self.stack)
        k = self.count[q] = self.count.get(q, -1) + 1
        c = self.contracts.get((q, k)) or self.contracts.get((q, None))
        if c is None or n.orelse or any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.While, ast.For)) for b in n.body for x in ast.walk(b)):
            self.generic_visit(n)
            return n
        names, attrs, other = set(), set(), False
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    attrs.add(ast.unparse(x))
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    other = True
                elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                    other = True
        key = '%s#%d' % (q, k)
        self.contracts.setdefault('used', {})[key] = c
        names = sorted(names)

        def call(stage):
            return ast.Call(ast.Name('__dpv_loop__', ast.Load()), [ast.Constant(key), ast.Constant(stage), ast.Call(ast.Name('locals', ast.Load()), [], []),
                            ast.Constant(tuple(names)), ast.Constant(tuple(sorted(attrs))), ast.Constant(other)], [])
        havoc = call('havoc')
        st = [ast.Expr(call('entry'))]
        st.append(ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())], havoc) if names else ast.Expr(havoc))
        st.append(ast.If(n.test, n.body + [ast.Expr(call('step'))], []))
        return [ast.copy_location(x, n) for x in st]


class _Retry(ast.NodeTransformer):
    """every `while` loop without a contract of its own is followed for two turns; arriving at its head
    a third time, the state must be the one of the second time with the numbers drawn in between renamed
    (the loop keeps no memory of rejected draws), and the path is cut: all further turns repeat it"""
    def __init__(self):
        self.k = 0

    def visit_While(self, n):
        self.generic_visit(n)
        self.k += 1
        h = '__dpv_head%d' % self.k
        at = ast.Call(ast.Attribute(ast.Name(h, ast.Load()), 'at', ast.Load()), [ast.Call(ast.Name('locals', ast.Load()), [], [])], [])
        n.test = ast.copy_location(ast.BoolOp(ast.And(), [at, n.test]), n.test)
        mk = ast.Assign([ast.Name(h, ast.Store())], ast.Call(ast.Name('__dpv_head__', ast.Load()), [], []))
        return [ast.copy_location(mk, n), n]


def _flat(v, path, out, depth=0):
    from . import sym
    import numpy as np
    if depth > 6:
        out[path] = ('opaque', id(v))
    elif isinstance(v, sym.S):
        out[path] = ('term', v.t, v.k)
    elif isinstance(v, sym.SB):
        out[path] = ('term', v.t, 'b')
    elif isinstance(v, dict):
        for k in v:
            _flat(v[k], path + (str(k),), out, depth + 1)
        out[path] = ('dict', tuple(map(str, v)))
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            _flat(x, path + (i,), out, depth + 1)
        out[path] = ('seq', len(v))
    elif isinstance(v, np.ndarray) and v.dtype != object:
        out[path] = ('numbers', v.shape, hash(v.tobytes()))
    elif isinstance(v, np.ndarray) and v.size > 2000:
        # the very same objects in the very same places (the copy keeps them alive)
        out[path] = ('numbers', v.shape, hash(v.tobytes()))
        out.setdefault('keep', []).append(v.copy())
    elif isinstance(v, np.ndarray):
        for i, x in enumerate(v.flat):
            _flat(x, path + (i,), out, depth + 1)
        out[path] = ('array', v.shape)
    elif isinstance(v, (bool, int, float, str, type(None), np.number)):
        out[path] = ('const', v)
    elif hasattr(v, '__dict__') and not isinstance(v, type) and type(v).__module__.startswith('MTfit'):
        for k, x in vars(v).items():
            _flat(x, path + ('.' + k,), out, depth + 1)
        out[path] = ('object', id(v))
    else:
        out[path] = ('opaque', id(v))


class Head(object):
    def __init__(self):
        self.n, self.snap, self.mark, self.last, self.keep = 0, None, [], 3, []

    def at(self, loc):
        from .paths import ctx, Unsupported, Infeasible
        from . import term as T, sym
        d = ctx().ghost.get('draws', [])
        self.mark.append(len(d))
        self.n += 1
        out = {}
        _flat({k: v for k, v in loc.items() if not k.startswith('__dpv')}, (), out)
        self.keep.append(out.pop('keep', None))
        if self.n == 1:
            self.snap = out
            return True
        if self.n == 2:
            # a loop entered with a dummy value has kept its first draw only now: follow it one turn more
            k = self.mark[1] - self.mark[0]
            kinds = [a[0] for a in d[self.mark[0]:self.mark[1]]]
            if self.mark[0] < k or [a[0] for a in d[self.mark[0] - k:self.mark[0]]] != kinds or self.differs(
                    self.snap, out, {sym.lift(a[1]).t: sym.lift(b[1]).t for a, b in zip(d[self.mark[0] - k:self.mark[0]], d[self.mark[0]:self.mark[1]])}):
                self.last = 4
            self.snap = out
            return True
        if self.n > 3:
            raise Infeasible()
        z1, z2 = d[self.mark[0]:self.mark[1]], d[self.mark[1]:self.mark[2]]
        if not z2 or len(z1) != len(z2) or [a[0] for a in z1] != [a[0] for a in z2]:
            raise Unsupported('loop without a contract does not simply redraw')
        ren = {sym.lift(a[1]).t: sym.lift(b[1]).t for a, b in zip(z1, z2)}
        k = self.differs(self.snap, out, ren)
        if k:
            raise Unsupported('loop without a contract keeps a memory of rejected draws: %s' % (k,))
        if self.last == 3:
            raise Infeasible()
        return True

    @staticmethod
    def differs(snap, out, ren):
        from . import term as T
        old = set(ren)

        def mentions(t):
            seen, todo = set(), [t]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in old:
                    return True
                todo += [a for a in x.args if isinstance(a, T.Term)]
            return False
        if set(snap) != set(out):
            return 'shape'
        for k, b in out.items():
            a = snap[k]
            if a[0] == 'term' and b[0] == 'term':
                same = a[2] == b[2] and T.subst(a[1], ren) is b[1] and not mentions(b[1])
            else:
                same = a == b or (a[0] == b[0] == 'const' and a[1] is b[1])
            if not same:
                return k
        return None


def runner(contracts):
    from .paths import Unsupported, Infeasible

    def run(key, stage, loc, names, attrs, other):
        c = contracts['used'][key]
        if stage == 'entry':
            if other or not set(names) | set(attrs) <= set(c.frame):
                raise Unsupported('loop %s assigns more than its contract states' % key)
            c.enter(loc)
        elif stage == 'havoc':
            r = c.havoc(loc)
            return tuple(r[x] for x in names)
        else:
            c.step(loc)
            raise Infeasible()
    return run


def instrument(tree, name, contracts=None):
    if contracts and '*' in contracts:
        tree = _Retry().visit(tree)
    elif contracts:
        tree = _While(contracts).visit(tree)
    return ast.fix_missing_locations(_Comp().visit(tree))
