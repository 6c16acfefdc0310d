#!/opt/venv/bin/python
"""setup: the engine must refuse a wrong obligation and accept a right one"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import dpv            # noqa
from dpv import prove, rules, term as T
R = T.R
x, y = T.var('x', R), T.var('y', R)
P = prove.Prover(timeout=2000, budget=10)
good = P.prove(T.eq(rules.log(T.mul(rules.exp(x), rules.exp(y))), T.add(x, y)), [])
bad = P.prove(T.le(x, y), [T.lt(x, T.add(y, T.ONE))])
if not good.ok or bad.ok:
    sys.exit('engine self-test failed: %s %s' % (good.ok, bad.ok))
print('engine self-test passed')
