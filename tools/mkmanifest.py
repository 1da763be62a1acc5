#!/usr/bin/env python3
"""writes MANIFEST.json from the list of specs"""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'rdv'))
from specs.notes import INFO
NA = json.load(open(os.path.join(V, 'tools', 'na.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    n = INFO.get(i, {})
    if os.path.exists(os.path.join(V, 'rdv', 'specs', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique=n.get('technique', 'deductive verification: contracts on the real C functions (LLVM IR extracted from the sources on every run), obligations discharged by z3'),
                           level=n.get('level', 'proof'), level_note=n['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet: contracts for these functions are not finished')))
d = dict(version=1, setup_cmd='python3-vt -c "import z3, numpy"', checks=checks, not_applicable=na,
         notes='See DESIGN.md. Every check rebuilds the IR and the concrete harness from /repo\'s working tree in a scratch directory.')
json.dump(d, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
