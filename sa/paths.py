"""What a path expression denotes: follows local names, parameters (through the frames of the engine or, without frames, to all
call sites) and attributes to the expressions that compute them."""
import ast

from .model import ClassInfo, FuncInfo, own_nodes

EFFECTS = {'unlink': 'removes', 'rmdir': 'removes', 'rename': 'renames', 'replace': 'replaces', 'write_text': 'writes',
           'write_bytes': 'writes', 'touch': 'creates', 'mkdir': 'creates', 'chmod': 'changes', 'symlink_to': 'creates',
           'hardlink_to': 'creates', 'link_to': 'creates', 'rmtree': 'removes', 'move': 'moves', 'copy': 'copies', 'copy2': 'copies',
           'copyfile': 'copies', 'copytree': 'copies', 'remove': 'removes', 'removedirs': 'removes', 'makedirs': 'creates',
           'truncate': 'truncates', 'renames': 'renames', 'link': 'creates', 'symlink': 'creates'}
FUNCS = ('os', 'shutil')
# names that other things have too (str.replace, list.remove, dict.copy ...)
AMBIGUOUS = ('replace', 'remove', 'copy', 'move', 'link', 'truncate')


def trace(p, e, func, fr=None, depth=0, seen=None):
    """yield (expr, func, frame) that e may come from"""
    seen = seen if seen is not None else set()
    if depth > 12 or (id(e), func) in seen:
        return
    seen.add((id(e), func))
    if isinstance(e, ast.IfExp):
        yield from trace(p, e.body, func, fr, depth + 1, seen)
        yield from trace(p, e.orelse, func, fr, depth + 1, seen)
        return
    if isinstance(e, ast.NamedExpr):
        yield from trace(p, e.value, func, fr, depth + 1, seen)
        return
    if isinstance(e, ast.Name):
        g = func
        while g is not None:
            vs = [v for v in g.local_assigns().get(e.id, []) if isinstance(v, ast.AST)]
            loops = [n for n in own_nodes(g.node) if isinstance(n, (ast.For, ast.comprehension)) and
                     any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.target))]
            if loops:
                yield (e, func, fr)
                for lp in loops:
                    yield ('iter', lp, func)
                return
            if vs:
                for v in vs:
                    yield from trace(p, v, g, fr if g is func else None, depth + 1, seen)
                if e.id not in g.params:
                    return
            if e.id in g.params:
                yield from trace_param(p, g, e.id, fr if g is func else None, depth, seen)
                return
            g = g.parent
        yield (e, func, fr)
        return
    yield (e, func, fr)


def call_sites(p, f):
    """[(call, caller)] of f, found by name and confirmed by resolution"""
    cache = p.__dict__.setdefault('_call_sites', {})
    if f in cache:
        return cache[f]
    idx = p.__dict__.get('_calls_by_name')
    if idx is None:
        idx = {}
        for g in p.functions:
            for n in own_nodes(g.node):
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                    if nm:
                        idx.setdefault(nm, []).append((n, g))
                    if isinstance(n.func, ast.Call) or isinstance(n.func, ast.Name) and n.func.id in g.local_assigns():
                        idx.setdefault(None, []).append((n, g))       # what another call has returned
        p._calls_by_name = idx
    out = []
    names = [f.name]
    if f.name == '__init__' and f.cls is not None:
        names = [f.cls.name, '__init__'] + [c.name for c in p.subclasses(f.cls)] + [None]
    for nm in names:
        for n, g in idx.get(nm, []):
            tt = p.callees(n, g, g.cls)
            if any(t is f or isinstance(t, ClassInfo) and t.find('__init__') is f for t in tt) or \
                    not any(isinstance(t, (FuncInfo, ClassInfo)) for t in tt) and any(isinstance(t, str) and t.startswith('?') for t in tt):
                out.append((n, g))
    cache[f] = out
    return out


def given_types(p, e, f, depth=0):
    """classes of what expression e of function f denotes, if it is (an attribute that holds) what a caller handed over"""
    out = set(p.infer(e, f, f.cls))
    if out or depth > 5:
        return out
    if isinstance(e, ast.Name):
        if e.id == f.self_name() and f.cls is not None:
            return {f.cls}
        for v in f.local_assigns().get(e.id, []):
            if isinstance(v, (ast.Name, ast.Attribute)) and not (isinstance(v, ast.Name) and v.id == e.id):
                out |= given_types(p, v, f, depth + 1)
        if e.id in f.params and f.name == '__init__':
            for call, g in call_sites(p, f):
                a = arg_for(f, call, e.id)
                if isinstance(a, ast.AST):
                    out |= given_types(p, a, g, depth + 1)
    elif isinstance(e, ast.Attribute):
        for t in given_types(p, e.value, f, depth + 1):
            for g, v in t.all_attr_assigns(e.attr):
                if isinstance(v, ast.AST):
                    out |= given_types(p, v, g, depth + 1)
    return out


def arg_for(f, call, name, bound=None):
    ps = list(f.params)
    for k in call.keywords:
        if k.arg == name:
            return k.value
    if name not in ps:
        return None
    i = ps.index(name)
    if f.self_name() and ps and ps[0] == f.self_name() and not (isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and
                                                                f.cls is not None and call.func.value.id == f.cls.name):
        i -= 1
    if 0 <= i < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args[:i + 1]):
        return call.args[i]
    # default
    a = f.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d.get(name)


def trace_param(p, g, name, fr, depth, seen):
    if fr is not None and fr.caller is not None and isinstance(fr.site, ast.Call):
        a = arg_for(g, fr.site, name)
        if a is not None:
            yield from trace(p, a, fr.caller.func, fr.caller, depth + 1, seen)
            return
        yield ('param', name, g)
        return
    sites = call_sites(p, g)
    if not sites:
        yield ('param', name, g)
    for c, h in sites:
        a = arg_for(g, c, name)
        if a is not None:
            yield from trace(p, a, h, None, depth + 1, seen)
        else:
            yield ('param', name, g)


def root_call(e):
    """the innermost call or attribute a path is derived from: (a.b(c) / 'x').with_name('y') -> a.b(c)"""
    while True:
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
            e = e.left
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in (
                'with_name', 'with_suffix', 'with_stem', 'absolute', 'resolve', 'as_posix', 'joinpath', 'expanduser'):
            e = e.func.value
        elif isinstance(e, ast.Call) and (isinstance(e.func, ast.Name) and e.func.id in ('str', 'Path', 'PurePath', 'open') or
                                          isinstance(e.func, ast.Attribute) and e.func.attr in ('Path', 'PurePath', 'fspath')) and e.args:
            e = e.args[0]
        elif isinstance(e, ast.Attribute) and e.attr in ('parent',):
            e = e.value
        else:
            return e


def effect(n, p=None, f=None):
    """(kind, [path exprs]) if call n changes the file system"""
    if not isinstance(n, ast.Call):
        return None
    fn = n.func
    if isinstance(fn, ast.Name) and fn.id == 'open' or isinstance(fn, ast.Attribute) and fn.attr == 'open' and not (
            isinstance(fn.value, ast.Name) and fn.value.id in ('os', 'self')):
        isname = isinstance(fn, ast.Name)
        pos = 1 if isname else 0
        mode = None
        if len(n.args) > pos:
            mode = n.args[pos]
        for k in n.keywords:
            if k.arg == 'mode':
                mode = k.value
        if isinstance(mode, ast.Constant) and isinstance(mode.value, str) and set(mode.value) & set('wax+'):
            return 'open', [n.args[0] if isname and n.args else fn.value]
        return None
    if isinstance(fn, ast.Attribute) and fn.attr in EFFECTS:
        base = fn.value
        if isinstance(base, ast.Name) and base.id in FUNCS:
            return fn.attr, list(n.args[:2])
        if fn.attr in AMBIGUOUS and (fn.attr != 'replace' or len(n.args) != 1):
            return None
        return fn.attr, [base] + list(n.args[:1] if fn.attr in ('rename', 'replace', 'symlink_to', 'hardlink_to', 'link_to') else [])
    return None
