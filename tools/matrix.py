#!/usr/bin/env python3
"""tools/matrix.py [ID...]: which checks report each planted bug (in a scratch clone); updates tools/matrix.json"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ProcessPoolExecutor
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [V]
sys.setrecursionlimit(10000)


def one(a):
    sid, prop, root = a
    from sa.common import analyse, load_known
    from sa.model import Project, AnalysisBroken
    known = {k['construct'] for k in load_known() if k['property'] == prop}
    try:
        c = analyse(prop, Project(root))
        f = [x.ident() for x in c.findings if x.ident() not in known]
    except AnalysisBroken as e:
        f = ['BROKEN ' + str(e)]
    return sid, prop, f


def main():
    from sa import registry
    sd = os.path.join(V, 'seeded')
    ids = sys.argv[1:] or sorted(os.listdir(sd))
    mf = os.path.join(HERE, 'matrix.json')
    mx = json.load(open(mf)) if os.path.exists(mf) else {}
    w = tempfile.mkdtemp()
    jobs = []
    for s in ids:
        r = os.path.join(w, s)
        subprocess.check_call(['git', 'clone', '-q', '/repo', r])
        subprocess.check_call(['git', '-C', r, 'apply', os.path.join(sd, s, 'patch.diff')])
        jobs += [(s, q, r) for q in registry.ids()]
    res = {s: {} for s in ids}
    with ProcessPoolExecutor(8) as ex:
        for s, q, f in ex.map(one, jobs):
            if f:
                res[s][q] = f
    shutil.rmtree(w)
    for s in ids:
        prop = json.load(open(os.path.join(sd, s, 'meta.json')))['property']
        mx[s] = [f'{q} `{f[0].split(":")[0]}`' for q, f in sorted(res[s].items())]
        print(s, prop, 'caught' if prop in res[s] else 'MISSED', res[s])
    mx = {s: v for s, v in sorted(mx.items()) if os.path.isdir(os.path.join(sd, s))}
    json.dump(mx, open(mf, 'w'), indent=1)
    open(mf, 'a').write('\n')


main()
