#!/usr/bin/env python3
"""Regenerates DESIGN.md: tools/design_head.md, one section per property (from props.py and the rules the checks declare), the fixed
defects and the catch matrix (tools/matrix.json, written by tools/seed.sh), tools/design_tail.md."""
import ast
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [HERE, V]
sys.setrecursionlimit(10000)
from props import PROPS
from sa import registry
from sa.common import Ctx
from sa.model import Project

p = Project('/repo')
out = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '']
known = json.load(open(os.path.join(V, 'known-findings.json')))
for d in PROPS:
    i = d['id']
    out += ['', f'### {i}. {d["title"]}', '']
    if 'na' in d:
        out += [f'Not applicable: {d["na"]}']
        continue
    ctx = Ctx(p, 'quick')
    fn = registry.check(i)
    fn(ctx)
    meta = getattr(sys.modules[fn.__module__], 'META', {}).get(i, {})
    out += [d['statement'], '', f'*Technique:* {d["technique"]}.', '', f'*How it is decided.* {meta.get("explanation", "")}', '', '*Rules* (a finding is one rule broken at one construct):', '']
    out += [f'- `{r}`: {t}' for r, t in ctx.rules.items()]
    out += ['', '*Analysed on the current tree:* ' + ', '.join(f'{n} {k}' for k, n in ctx.analysed.items()) + f'; {ctx.obligations} obligations.']
    if meta.get('assumptions'):
        out += ['', '*Assumes:* ' + '; '.join(meta['assumptions']) + '.']
    out += ['', '*Bounds and trust.* ' + d['level_note'], '', '*What tests cannot settle.* ' + d['why_tests_cant']]
    fixed = [f for f in known['fixed'] if f'property={i} ' in f]
    if fixed:
        out += ['', f'*Defects found by it and repaired:* {len(fixed)} (known-findings.json).']
    for k in known['findings']:
        if k['property'] == i:
            out += ['', f'*Known finding* `{k["construct"]}`: {k["what"]}. {k["demonstration"]}']
out += ['', open(os.path.join(HERE, 'design_tail.md')).read().rstrip(), '', '### Planted bugs and the checks that catch them', '',
        'Each was confirmed in a scratch copy: it builds, passes the stable tests, its demonstration passes on the unchanged tree and '
        'fails with the change.', '', '| seed | property | what it breaks | needs | reported by |', '|---|---|---|---|---|']
mx = {}
mf = os.path.join(HERE, 'matrix.json')
if os.path.exists(mf):
    mx = json.load(open(mf))
sd = os.path.join(V, 'seeded')
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, 'meta.json')))
    out.append(f'| {s} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | {", ".join(mx.get(s, [])) or "?"} |')
out += ['']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
