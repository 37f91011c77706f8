"""Thorough tier: show that each rule can fire.

Each check module may define MUTANTS = {property: [(file, old, new, label)]}. The edit is applied to the source text in
memory (nothing is written), the check is run on the edited model, and it must report at least one finding that it does not
report on the current tree. An edit whose `old` text is not present exactly once (the code was rewritten) is skipped and
counted as such. This never changes the verdict; it goes into the evidence.
"""
import os

from .model import Project, AnalysisBroken


def run(prop, project):
    from . import registry
    from .common import analyse
    muts = registry.mutants(prop)
    base = {f.ident() for f in analyse(prop, project, 'quick').findings}
    fired, missed, skipped = [], [], []
    for file, old, new, label in muts:
        path = os.path.join(project.root, file)
        try:
            with open(path, encoding='utf-8') as f:
                src = f.read()
        except OSError:
            skipped.append(label)
            continue
        if src.count(old) != 1:
            skipped.append(label)
            continue
        try:
            p2 = Project(project.root, overlay={file: src.replace(old, new)})
            got = {f.ident() for f in analyse(prop, p2, 'quick').findings}
        except AnalysisBroken as e:
            got = {f'broken:{e}'}
        new_findings = sorted(got - base)
        (fired if new_findings else missed).append(label if not new_findings else f'{label} -> {new_findings[0]}')
    return {'edits_tried': len(muts) - len(skipped), 'fired': fired, 'missed': missed, 'skipped': skipped}
