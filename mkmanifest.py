#!/usr/bin/env python3
"""writes MANIFEST.json from the list of built checks (developer tool)"""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'contract-based deductive verification: the functions are executed symbolically from /repo source, obligations discharged by an algebraic normaliser, z3 and cvc5; bounded run-time contracts on the real package (pure and compiled) alongside'
NOTE = {}
NA = {}
exec(open(os.path.join(HERE, 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
checks = []
for i in ids:
    if i in NOTE:
        n = NOTE[i]
        checks.append({'property': i, 'quick_cmd': '/opt/venv/bin/python check.py %s 2>/dev/null' % i,
                       'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python check.py %s 2>/dev/null' % i,
                       'technique': n.get('technique', TECH), 'level': n.get('level', 'proof'), 'level_note': n['note']})
        if n.get('theorems'):
            checks[-1]['theorems'] = n['theorems']
na = [{'property': i, 'reason': NA.get(i, 'not built yet: the contracts for this property are in progress')} for i in ids if i not in NOTE]
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python selftest.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: nothing in /repo is guarded. fix: commits in /repo are listed in known_findings.json.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
