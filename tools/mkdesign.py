#!/usr/bin/env python3
"""assembles DESIGN.md from tools/DESIGN.in.md, the property list, notes, known findings and planted bugs"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'rdv'))
from specs.notes import INFO
NA = json.load(open(os.path.join(V, 'tools', 'na.json')))
t = open(os.path.join(V, 'tools', 'DESIGN.in.md')).read()
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
o = ['## Properties\n']
for p in props:
    i = p['id']
    n = INFO.get(i)
    o.append('### %s %s\n' % (i, p['title']))
    if n and os.path.exists(os.path.join(V, 'rdv', 'specs', i.lower() + '.py')):
        o.append('Level: %s. Under contract: %s.\n' % (n.get('level', 'proof'), ', '.join('`%s`' % f for f in n.get('functions', []))))
        o.append(n['how'] if 'how' in n else n['note'])
        if n.get('assumptions'):
            o.append('\nAssumes: ' + '; '.join(n['assumptions']) + '.')
        o.append('')
    else:
        o.append('Not claimed: %s\n' % NA.get(i, 'no check yet.'))
t = t.replace('@PROPS@', '\n'.join(o))
k = [l.strip() for l in open(os.path.join(V, 'known_findings.txt')) if l.startswith(('fixed', 'finding'))]
t = t.replace('@FIXED@', '\n'.join('* ' + x for x in k))
res = json.load(open(os.path.join(V, 'tools', 'seed_results.json'))) if os.path.exists(os.path.join(V, 'tools', 'seed_results.json')) else {}
s = ['| id | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    s.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks'], res.get(d, '?')))
t = t.replace('@SEEDS@', '\n'.join(s))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
