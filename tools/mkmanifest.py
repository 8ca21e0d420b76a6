#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
NOTE = {}
execfile = None
try:
    from levels import LEVEL
except ImportError:
    LEVEL = {}
checks = []
for p in props:
    i = p['id']
    lv, note = LEVEL.get(i, ('exploration', 'runtime contracts on generated inputs (bounded)'))
    tech = ('contract-based deductive verification: obligations generated from the source in /repo, discharged by '
            'normalisation and SMT solvers; the same contracts evaluated at run time on bounded inputs give counterexamples'
            if lv == 'proof' else
            'contracts evaluated at run time on generated inputs (bounded stand-in for deductive verification)')
    checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python check.py %s quick' % i,
                       thorough_cmd='/opt/venv/bin/python check.py %s thorough' % i,
                       technique=tech, level=lv, level_note=note))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, sklearn"',
               checks=checks, not_applicable=[]), open(HERE + '/MANIFEST.json', 'w'), indent=1)
