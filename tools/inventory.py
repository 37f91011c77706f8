#!/usr/bin/env python3
"""Write sa/inventory.txt: the functions of /repo as the checks know them. A function that isn't listed is taken for a helper extracted from one that is (see sa/normal.py)."""
import ast
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.normal import qualnames  # noqa
root = '/repo'
names = set()
for d, dirs, files in os.walk(os.path.join(root, 'marcel')):
    for f in files:
        if f.endswith('.py'):
            rel = os.path.relpath(os.path.join(d, f), root)
            mod = rel[:-3].replace(os.sep, '.')
            mod = mod[:-9] if mod.endswith('.__init__') else mod
            names |= set(qualnames(ast.parse(open(os.path.join(root, rel)).read()), mod).values())
names |= set(qualnames(ast.parse(open(os.path.join(root, 'bin/farcel.py')).read()), 'bin.farcel').values())
with open(os.path.join(V, 'sa', 'inventory.txt'), 'w') as o:
    o.write('\n'.join(sorted(names)) + '\n')
print(len(names))
