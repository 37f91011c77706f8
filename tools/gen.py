#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (the single place where properties are written)."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, V)
from props import PROPS
from sa import registry

have = set(registry.ids())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in PROPS:
    if p['id'] in have and 'na' not in p:
        checks.append({
            'property': p['id'],
            'quick_cmd': f'python3 -B check {p["id"]} --tier quick',
            'thorough_cmd': f'python3 -B check {p["id"]} --tier thorough',
            'technique': p['technique'],
            'level': 'other',
            'level_note': p['level_note'],
        })
    else:
        na.append({'property': p['id'], 'reason': p.get('na', 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -B -c "import sys; sys.path.insert(0, \'.\'); import sa.registry as r; print(r.ids())"',
     'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static analyses of /repo\'s working tree (source text only; marcel is never imported or run). '
              '/verif/check all runs every check.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
ids = [p['id'] for p in PROPS]
assert len(set(ids)) == len(ids)
miss = have - set(ids)
print(len(PROPS), 'properties;', len(checks), 'claimed;', 'checks without property:' if miss else '', miss or '')
