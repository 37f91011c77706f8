"""Property id -> check function and metadata. Every module in sa/checks contributes CHECKS and META."""
import importlib
import os
import pkgutil

_checks = {}
_meta = {}
_mutants = {}


def _load():
    if _checks:
        return
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks')
    for m in sorted(x.name for x in pkgutil.iter_modules([d])):
        mod = importlib.import_module('sa.checks.' + m)
        for k, v in mod.CHECKS.items():
            assert k not in _checks, k
            _checks[k] = v
        _meta.update(mod.META)
        for k, v in getattr(mod, 'MUTANTS', {}).items():
            _mutants.setdefault(k, []).extend(v)


def check(prop):
    _load()
    return _checks[prop]


def meta(prop):
    _load()
    return _meta[prop]


def ids():
    _load()
    return sorted(_checks)


def mutants(prop):
    _load()
    return _mutants.get(prop, [])
