#!/usr/bin/env python3
"""Each repaired defect is a realistic bug: undo every fix: commit of /repo in turn (in a scratch copy) and show which checks
report it. usage: refix.py [-p PROPS,..] [commit...]"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
BASE = 'bcd359b'
args = sys.argv[1:]
props = ['all']
if args[:1] == ['-p']:
    props = args[1].split(',')
    args = args[2:]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse', f'{BASE}..HEAD'], text=True).split('\n')
fixes = [l.split(' ', 1) for l in log if l and (not args or l.split()[0] in args)]


def one(f):
    h, subj = f
    d = tempfile.mkdtemp(prefix='refix', dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '-s', '/repo', d + '/r'])
        r = subprocess.run(['git', '-C', d + '/r', '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '-n', h],
                           capture_output=True, text=True)
        if r.returncode:
            return h, subj, 'CONFLICT'
        hits = []
        for p in props:
            o = subprocess.run([sys.executable, '-B', V + '/check', p, '--repo', d + '/r'], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_NOWRITE='1')).stdout
            hits += re.findall(r'^VIOLATION property=(\S+)', o, re.M) + ['BROKEN:' + x for x in re.findall(r'^ANALYSIS-BROKEN property=(\S+)', o, re.M)]
        return h, subj, ' '.join(hits) or '-- missed'
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(7) as ex:
    for h, s, r in ex.map(one, fixes):
        print(h, r.ljust(18), s, flush=True)
