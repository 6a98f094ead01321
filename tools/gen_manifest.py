#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the check modules present"""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'N01': 'quantifies over load, scheduling and wall-clock time; no static argument bounds the delay of the event loop, the kernel and the peer (C10 decides the static part: every wait has an armed timer)',
 'N02': 'liveness over a real network and two processes; depends on the peer, the kernel and fairness of delivery, none of which the source determines',
}
TECH = {}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    if not os.path.exists(f):
        na.append({'property': i, 'reason': 'check not built yet'}); continue
    t = ast.parse(open(f).read())
    tech = next((ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and n.targets[0].id == 'TECHNIQUE'), None)
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                   'technique': tech, 'level': 'other', 'level_note': ' '.join(ast.get_docstring(t).split())})
m = {'version': 1, 'setup_cmd': 'python3 -c "from sa.model import Model; Model()"', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
