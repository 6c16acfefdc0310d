"""Load the modules of /repo's working tree into the verifier's world.

The text executed is the file itself (parsed on every run).  What is replaced, by name:
numpy, scipy and math (facades), the compiled extensions (blocked: the fallback path runs, or
a mechanically translated body when asked), and whatever the property's contract substitutes.
builtins float/int/len/range/max/min/sum are replaced by versions that agree with the
originals on concrete values."""
import ast
import builtins
import hashlib
import os
import types
from . import snp
from .paths import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

COMPILED = ('cprobability', 'cmoment_tensor_conversion', 'cmarkov_chain_monte_carlo', 'cscatangle')


class _Stub(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Anything(n)


class _Anything(object):
    def __init__(self, n):
        self._n = n

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return _Anything(self._n + '.' + n)

    def __call__(self, *a, **k):
        raise Unsupported('call of unmodelled %s' % self._n)


_CODE = {}           # compiled text of the modules of this run


class Loader(object):
    def __init__(self, replace=None, stubs=(), loops=None, instrument=True):
        self.mods = {}
        self.replace = dict(replace or {})      # module name -> module object
        self.stubs = set(stubs)
        self.np = snp.NP()
        self.scipy = snp.Scipy()
        self.math = snp.Math()
        self.text = {}
        self.instrument = instrument
        self.loops = dict(loops or {})          # module name -> {(function, n-th while): loop contract}

    def path(self, name):
        p = os.path.join(SRC, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p, ispkg = self.path(name)
        with open(p) as f:
            src = f.read()
        self.text[os.path.relpath(p, REPO)] = hashlib.sha256(src.encode()).hexdigest()
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(p)]
        self.mods[name] = m
        m.__dict__['__builtins__'] = self.builtins(m)
        lc = self.loops.get(name) if self.instrument else None
        key = (p, src, self.instrument, 'retry' if lc and '*' in lc else '')
        code = _CODE.get(key) if lc is None or '*' in lc else None
        if code is None:
            tree = ast.parse(src, p)
            if self.instrument:
                from . import loops
                tree = loops.instrument(tree, name, lc)
            code = compile(tree, p, 'exec')
            if lc is None or '*' in lc:
                _CODE[key] = code
        if self.instrument:
            from . import loops
            if lc:
                m.__dict__['__dpv_loop__'] = loops.runner(lc)
                m.__dict__['__dpv_head__'] = loops.Head
            from . import seq, snp as _snp
            m.__dict__.update(__dpv_comp__=seq.comp, __dpv_in__=seq.contains, __dpv_not__=lambda v: (not v) if isinstance(v, bool) else ~v)
        exec(code, m.__dict__)
        return m

    def builtins(self, m):
        b = dict(builtins.__dict__)
        b['__import__'] = lambda n, g=None, l=None, fl=(), lvl=0: self.imp(m, n, fl, lvl)
        from . import seq
        b.update(set=seq.symset, list=seq.symlist, sorted=seq.symsorted, enumerate=seq.symenumerate)
        b.update(float=snp.symfloat, int=snp.symint, max=snp.sym_max, min=snp.sym_min, len=snp.sym_len,
                 range=snp.sym_range, sum=snp.sym_sum, xrange=snp.sym_range)
        return b

    def imp(self, m, name, fl, lvl):
        if lvl:
            base = m.__package__.split('.')
            base = base[:len(base) - (lvl - 1)]
            full = '.'.join(base + ([name] if name else []))
        else:
            full = name
        top = full.split('.')[0]
        if full.split('.')[-1] in COMPILED:
            r = self.replace.get(full.split('.')[-1])
            if r is None:
                raise ImportError('compiled extension not used here: ' + full)
            return r
        if top == 'numpy':
            return self.np
        if top == 'scipy':
            if not fl:
                return self.scipy
            x = self.scipy
            for q in full.split('.')[1:]:
                x = getattr(x, q)
            return _Ns(x)
        if full == 'math':
            return self.math
        if full in self.replace:
            return self.replace[full]
        if full in self.stubs:
            return _Stub(full)
        if top == 'MTfit':
            mod = self.load(full) if self.wanted(full) else _Stub(full)
            for a in fl or ():
                if a in COMPILED:
                    r = self.replace.get(a)
                    if r is None:
                        raise ImportError(a)
                    setattr(mod, a, r)
                    continue
                if not hasattr(mod, a) or isinstance(mod, _Stub):
                    sub = full + '.' + a
                    try:
                        p, _ = self.path(sub)
                        if os.path.exists(p):
                            setattr(mod, a, self.replace.get(sub) or (self.load(sub) if self.wanted(sub) else _Stub(sub)))
                    except OSError:
                        pass
            if not fl:
                return self.mods.get(top) or _Stub(top)
            return mod
        if top in ('matplotlib', 'mplstereonet', 'h5py', 'hdf5storage', 'mpi4py', 'pyqsub', 'Cython', 'cython'):
            return _Stub(full)
        return builtins.__import__(name, m.__dict__, None, fl, lvl)

    def plain(self, name):
        """load a module with no third-party plugins installed (contract of get_extensions)"""
        m = self.load(name)
        for x in [m] + [y for k, y in self.mods.items() if k.startswith('MTfit.') and 'get_extensions' in y.__dict__]:
            x.get_extensions = lambda group, defaults={}: (list(defaults.keys()), dict(defaults))
        return m

    wanted_prefixes = ('MTfit.probability', 'MTfit.algorithms', 'MTfit.convert', 'MTfit.sampling', 'MTfit.inversion')

    def wanted(self, full):
        if full in self.stubs:
            return False
        if full == 'MTfit':
            return False
        return any(full == w or full.startswith(w + '.') for w in self.wanted_prefixes)


class _Ns(object):
    def __init__(self, x):
        self.__dict__['x'] = x

    def __getattr__(self, n):
        return getattr(self.__dict__['x'], n)
