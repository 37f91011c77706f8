"""Findings, known findings, evidence and the command-line driver shared by every check."""
import ast
import importlib
import json
import os
import sys
import time
import traceback

from .model import Project, AnalysisBroken, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known-findings.json')
REPLAY = os.path.join(VERIF, 'evidence', 'replay')


class Finding:
    """A construct that breaks a rule. `key` identifies the construct (never a line number)."""

    def __init__(self, rule, key, file, line, message, func=None, path=None):
        self.rule = rule
        self.key = key
        self.file = file
        self.line = line
        self.func = func
        self.message = message
        self.path = path or []

    def ident(self):
        return f'{self.rule}:{self.key}'

    def as_dict(self):
        return {'rule': self.rule, 'construct': self.key, 'file': self.file, 'line': self.line, 'function': self.func,
                'message': self.message, 'path': self.path}


class Ctx:
    def __init__(self, project, tier='quick'):
        self.p = project
        self.tier = tier
        self.findings = []
        self.analysed = {}        # kind -> count
        self.samples = []
        self.rules = {}
        self.obligations = 0
        self.failed = 0
        self.notes = []

    def rule(self, name, text):
        self.rules[name] = text

    def count(self, kind, n=1):
        self.analysed[kind] = self.analysed.get(kind, 0) + n

    def ok(self, rule, key, sample=None):
        self.obligations += 1
        if sample or len(self.samples) < 400:
            self.samples.append(f'{rule}: {key}' + (f' [{sample}]' if sample else ''))

    def bad(self, rule, key, where, message, node=None, path=None):
        """where: FuncInfo/ClassInfo/Module"""
        self.obligations += 1
        for f in self.findings:
            if f.rule == rule and f.key == key:
                return
        self.failed += 1
        file = getattr(where, 'file', None) or getattr(where, 'path', '?')
        line = getattr(node, 'lineno', None) if node is not None else None
        if line is None:
            line = node if isinstance(node, int) else getattr(where, 'line', 1)
        fn = getattr(where, 'qualname', None)
        self.findings.append(Finding(rule, key, file, line, message, fn, path))

    def share(self, prop, rules):
        """rules of another property that are part of this one as well"""
        from . import registry
        sub = Ctx(self.p, self.tier)
        try:
            registry.check(prop)(sub)
        except AnalysisBroken as e:
            self.notes.append(f'{prop}: {e}')
            return
        known = {k['construct'] for k in load_known() if k['property'] == prop and k.get('status', 'open') == 'open'}
        for r in rules:
            self.rules[r] = f'{sub.rules[r]} ({prop})'
        self.obligations += sum(1 for x in sub.samples if x.split(':')[0] in rules)
        for f in sub.findings:
            if f.rule in rules and f.ident() not in known:
                self.obligations += 1
                self.failed += 1
                self.findings.append(f)

    def need(self, kind, floor):
        """instance-count floor: the anchors must not silently vanish"""
        n = self.analysed.get(kind, 0)
        if n < floor:
            raise AnalysisBroken(f'only {n} {kind} found (expected at least {floor})')


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)['findings']


def analyse(prop, project, tier='quick'):
    from . import registry
    ctx = Ctx(project, tier)
    fn = registry.check(prop)
    fn(ctx)
    return ctx


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--repo', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    sys.setrecursionlimit(10000)
    if a.property == 'all':
        return _all(a)
    return run_one(a.property, a)


def _all(a):
    from . import registry
    rc = 0
    for p in registry.ids():
        r = run_one(p, a)
        rc = max(rc, r)
    return rc


def run_one(prop, a):
    from . import registry
    t0 = time.time()
    try:
        project = Project(a.repo)
        ctx = analyse(prop, project, a.tier)
        sens = None
        if a.tier == 'thorough':
            from . import sensitivity
            sens = sensitivity.run(prop, project)
    except AnalysisBroken as e:
        print(f'ANALYSIS-BROKEN property={prop} {e}')
        return 2
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={prop} internal error')
        return 2
    known = [k for k in load_known() if k['property'] == prop and k.get('status', 'open') == 'open']
    ids = {k['construct']: k for k in known}
    new, old = [], []
    for f in ctx.findings:
        (old if f.ident() in ids else new).append(f)
    for f in old:
        print(f'KNOWN-FINDING: property={prop} {f.ident()} at {f.file}:{f.line}: {f.message}')
    rc = 0
    nowrite = bool(os.environ.get('VERIF_NOWRITE'))     # tools/refix.py: no evidence is written
    if new and nowrite:
        for f in new:
            print(f'{f.file}:{f.line}: [{f.rule}] {f.func or ""}: {f.message}   (construct {f.key})')
        print(f'VIOLATION property={prop} replay=-')
        return 1
    if nowrite:
        if sens is not None and sens.get('missed'):
            print(f'SENSITIVITY property={prop} rules failed to fire on: {sens["missed"]}')
        return 0
    if new:
        os.makedirs(REPLAY, exist_ok=True)
        path = os.path.join(REPLAY, f'{prop}.json')
        with open(path, 'w') as out:
            json.dump({'property': prop, 'violations': [f.as_dict() for f in new],
                       'rules': ctx.rules}, out, indent=1)
        for f in new:
            print(f'{f.file}:{f.line}: [{f.rule}] {f.func or ""}: {f.message}   (construct {f.key})')
            for s in f.path:
                print(f'      {s}')
        print(f'VIOLATION property={prop} replay={path}')
        rc = 1
    meta = registry.meta(prop)
    samples = ctx.samples
    if len(samples) > 60:
        step = len(samples) / 60
        samples = [samples[int(i * step)] for i in range(60)]
    cov = {
        'explanation': meta['explanation'],
        'rules': ctx.rules,
        'analysed': ctx.analysed,
        'obligations': ctx.obligations,
        'discharged': ctx.obligations - ctx.failed,
        'known_findings_suppressed': len(old),
        'modules_parsed': len(project.modules),
        'functions_in_scope': len(project.functions),
        'samples': samples,
        'notes': ctx.notes,
    }
    if sens is not None:
        cov['rule_sensitivity'] = sens
    ev = {'property': prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 3),
          'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as out:
        json.dump(ev, out, indent=1)
    if not new:
        print(f'OK property={prop} tier={a.tier} obligations={ctx.obligations} known={len(old)} '
              f'wall={ev["wall_s"]}s ' + ' '.join(f'{k}={v}' for k, v in ctx.analysed.items()))
    if sens is not None and sens.get('missed'):
        print(f'SENSITIVITY property={prop} rules failed to fire on: {sens["missed"]}')
    return rc
