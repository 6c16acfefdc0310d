"""The real package, concretely: pure-Python (extensions blocked) and compiled (extensions built
from the current .pyx) instances side by side in one process."""
import atexit
import importlib
import logging
import os
import shutil
import subprocess
import sys
import tempfile
import warnings
from . import load

REPO = load.REPO
_KEY = r'''cd %s || exit 1
{ git ls-files -co --exclude-standard -- 'src/*.pyx' 'src/*.pxd' 'src/*.pxi' | LC_ALL=C sort -u | while read -r f; do [ -f "$f" ] && sha256sum "$f"; done
sha256sum setup.py setup.cfg versioneer.py src/MTfit/_version.py /opt/vp/lib/cc; } 2>&1 | sha256sum'''
_src = {}
EXT = ['MTfit.probability.cprobability', 'MTfit.convert.cmoment_tensor_conversion',
       'MTfit.algorithms.cmarkov_chain_monte_carlo', 'MTfit.extensions.cscatangle']


def fresh_key():
    return subprocess.run(['bash', '-c', _KEY % REPO], capture_output=True, text=True).stdout.strip()


def compiled_src():
    """directory whose MTfit package carries extensions built from the current sources"""
    if 'c' in _src:
        return _src['c']
    stamp = ''
    try:
        with open(os.path.join(REPO, 'build', 'vp.stamp')) as f:
            stamp = f.read().strip()
    except OSError:
        pass
    have = all(any(n.startswith(m.split('.')[-1] + '.cpython-312') for n in
                   os.listdir(os.path.join(REPO, 'src', *m.split('.')[:-1]))) for m in EXT)
    if have and stamp and stamp == fresh_key():
        _src['c'] = (os.path.join(REPO, 'src'), 'reused /repo extensions (stamp matches the sources)')
        return _src['c']
    d = tempfile.mkdtemp(prefix='dpvbuild')
    atexit.register(shutil.rmtree, d, True)
    w = os.path.join(d, 'repo')
    shutil.copytree(REPO, w, symlinks=True, ignore=shutil.ignore_patterns('.git', 'build', '*.so', '*.c', 'docs'))
    env = dict(os.environ)
    r = subprocess.run(['bash', '-c', '. /opt/vp/lib/env.sh; export CCACHE_DIR="$1/.ccache" MPLCONFIGDIR="$1/.mpl"; cd "$1" && python setup.py build_ext --inplace --force -j 4', '-', w],
                       capture_output=True, text=True, env=env, timeout=700)
    ok = all(any(n.startswith(m.split('.')[-1] + '.cpython-312') for n in
                 os.listdir(os.path.join(w, 'src', *m.split('.')[:-1]))) for m in EXT)
    if not ok:
        raise RuntimeError('extensions do not build: ' + (r.stdout + r.stderr)[-3000:])
    _src['c'] = (os.path.join(w, 'src'), 'extensions rebuilt from the current sources')
    return _src['c']


class Pkg(object):
    """one imported instance of MTfit"""
    def __init__(self, mode):
        self.mode = mode
        self.how = 'extensions blocked'
        src = os.path.join(REPO, 'src')
        if mode == 'c':
            src, self.how = compiled_src()
        saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k == 'MTfit' or k.startswith('MTfit.')}
        sys.dont_write_bytecode = True
        os.environ.setdefault('MPLBACKEND', 'Agg')
        self.src = src
        sys.path.insert(0, src)
        try:
            if mode != 'c':
                for m in EXT:
                    sys.modules[m] = None
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                for m in ('MTfit', 'MTfit.probability.probability', 'MTfit.convert.moment_tensor_conversion', 'MTfit.sampling',
                          'MTfit.algorithms.base', 'MTfit.algorithms.monte_carlo', 'MTfit.algorithms.markov_chain_monte_carlo',
                          'MTfit.inversion', 'MTfit.utilities.file_io', 'MTfit.utilities.multiprocessing_helper',
                          'MTfit.extensions.scatangle'):
                    importlib.import_module(m)
            self.mods = {k: v for k, v in sys.modules.items() if k == 'MTfit' or k.startswith('MTfit.')}
        finally:
            sys.path.remove(src)
            for k in [k for k in sys.modules if k == 'MTfit' or k.startswith('MTfit.')]:
                del sys.modules[k]
            sys.modules.update(saved)
        quiet()
        for n in list(logging.root.manager.loggerDict):
            if n.startswith('MTfit'):
                lg = logging.getLogger(n)
                lg.setLevel(logging.CRITICAL + 10)

    def __getitem__(self, name):
        return self.mods['MTfit.' + name]

    def activate(self):
        """make this instance the one found by (lazy) import statements"""
        for k in [k for k in sys.modules if k == 'MTfit' or k.startswith('MTfit.')]:
            del sys.modules[k]
        sys.modules.update(self.mods)
        return self

    def more(self, name):
        """import another module into this instance"""
        full = 'MTfit.' + name
        if full not in self.mods:
            self.activate()
            sys.path.insert(0, self.src)
            try:
                importlib.import_module(full)
            finally:
                sys.path.remove(self.src)
            self.mods = {k: v for k, v in sys.modules.items() if k == 'MTfit' or k.startswith('MTfit.')}
        return self.mods[full]


_pk = {}


def pkg(mode):
    if mode not in _pk:
        _pk[mode] = Pkg(mode)
    return _pk[mode]


def quiet():
    import numpy as np
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
