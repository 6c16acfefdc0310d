"""dpv: a small deductive verifier for numeric Python (contracts checked on the code in /repo)."""
import os
import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if os.path.isdir(_VT) and _VT not in sys.path:
    sys.path.append(_VT)   # after /opt/venv: numpy/scipy stay the repository's own
