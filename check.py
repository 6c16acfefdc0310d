#!/opt/venv/bin/python
"""check.py <property id>: verify one property of the code in /repo."""
import importlib
import os
import sys
if not sys.executable.startswith('/opt/venv') and os.path.exists('/opt/venv/bin/python'):
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
import dpv            # noqa
if __name__ == '__main__':
    pid = sys.argv[1]
    m = importlib.import_module('props.' + pid)
    sys.exit(m.CHECK.main())
