"""N04: what is written when a variable, workspace, file or environment is saved or transmitted is what is read back."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate
from ..ops import reach_names

META = {
    'N04': {
        'explanation': 'For every class that defines how its instances are saved or transmitted (to_persistent_state/from_persistent_state, '
                       '__getstate__/__setstate__) the keys written and the attribute each is taken from are computed, and so are the keys read '
                       'and the attribute each is put into: they must agree on all paths, everything the object needs afterwards (attributes '
                       'read by reconstitute or __repr__, attributes omitted from the saved state) must be restored, saving must not change '
                       'the object saved, and must not fail because of the state of something outside the object. Every kind of variable value '
                       'must be recognised, by the name under which it was saved, by the function that restores it, and '
                       'whatever must be recompiled must be saved with its source.',
        'assumptions': ['dill restores the values of plain variables'],
    },
}


def dict_keys(f):
    """key -> set of attributes its value is computed from, for the dictionaries returned by f (None: not understood)"""
    self_ = f.self_name()
    out = {}
    whole = set()           # attributes dropped from a copy of __dict__
    copy = False
    names = {}

    def attrs(e, depth=0):
        r = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == self_:
                r.add(n.attr)
            if isinstance(n, ast.Name) and depth < 3:
                for v in f.local_assigns().get(n.id, []):
                    if v is not None and v is not e:
                        r |= attrs(v, depth + 1)
        return r

    def add_dict(e):
        for k, v in zip(e.keys, e.values):
            if isinstance(k, ast.Constant):
                out.setdefault(k.value, set()).update(attrs(v))
            elif k is None:
                add(v)

    def add(e, depth=0):
        nonlocal copy
        if depth > 4:
            return
        if isinstance(e, ast.Dict):
            add_dict(e)
        elif isinstance(e, ast.Name):
            for v in f.local_assigns().get(e.id, []):
                if v is not None:
                    add(v, depth + 1)
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id and isinstance(t.slice, ast.Constant):
                            if isinstance(n.value, ast.Constant) and n.value.value is None:
                                whole.add(t.slice.value)
                            else:
                                out.setdefault(t.slice.value, set()).update(attrs(n.value))
                if isinstance(n, ast.Delete):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id and isinstance(t.slice, ast.Constant):
                            whole.add(t.slice.value)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id \
                        and n.func.attr == 'pop' and n.args and isinstance(n.args[0], ast.Constant):
                    whole.add(n.args[0].value)
        elif isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'dict':
                for k in e.keywords:
                    if k.arg:
                        out.setdefault(k.arg, set()).update(attrs(k.value))
                for a in e.args:
                    add(a, depth + 1)
            elif isinstance(e.func, ast.Attribute) and e.func.attr == 'copy':
                add(e.func.value, depth + 1)
        elif isinstance(e, ast.Attribute) and e.attr == '__dict__':
            copy = True
        elif isinstance(e, ast.IfExp):
            add(e.body, depth + 1)
            add(e.orelse, depth + 1)
    rets = [n for n in own_nodes(f.node) if isinstance(n, ast.Return) and n.value is not None]
    if not rets:
        return None
    for r in rets:
        add(r.value)
    return out, whole, copy


def reads(f):
    """keys read from the parameter of f: key -> (required?, attributes it is put into); update: the whole state is put back"""
    self_ = f.self_name()
    ps = [x for x in f.params if x != self_]
    if not ps:
        return None
    q = ps[0]
    keys = {}
    whole = False
    local = {}
    for n in own_nodes(f.node):
        k = req = None
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == q and isinstance(n.slice, ast.Constant) and \
                isinstance(n.ctx, ast.Load):
            k, req = n.slice.value, True
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == q and \
                n.func.attr in ('get', 'pop') and n.args and isinstance(n.args[0], ast.Constant):
            k, req = n.args[0].value, len(n.args) < 2 and n.func.attr == 'pop'
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'update' and any(
                isinstance(a, ast.Name) and a.id == q for a in n.args):
            whole = True
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == q and any(
                isinstance(t, ast.Attribute) and t.attr == '__dict__' for t in n.targets):
            whole = True
        if k is not None:
            d = keys.setdefault(k, [False, set()])
            d[0] = d[0] or req
            local.setdefault(k, []).append(n)
    for n in own_nodes(f.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self_:
                    for k in keys:
                        if _uses(n.value, local[k], f):
                            keys[k][1].add(t.attr)
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)):
                    for tt, vv in zip(t.elts, n.value.elts):
                        if isinstance(tt, ast.Attribute) and isinstance(tt.value, ast.Name) and tt.value.id == self_:
                            for k in keys:
                                if _uses(vv, local[k], f):
                                    keys[k][1].add(tt.attr)
    return keys, whole


def _uses(e, nodes, f, depth=0):
    for n in ast.walk(e):
        if any(n is x for x in nodes):
            return True
        if isinstance(n, ast.Name) and depth < 3:
            for v in f.local_assigns().get(n.id, []):
                if v is not None and v is not e and _uses(v, nodes, f, depth + 1):
                    return True
    return False


class SetTS(Typestate):
    """attributes of self assigned, in a method that restores. Handles `if key in state` / `if self.x:` as they come."""
    max_depth = 3
    track_exc = False

    def __init__(self, p, cls):
        super().__init__(p)
        self.cls = cls

    def relevant(self, t):
        return t.cls is not None and self.cls.derives(t.cls) and t.name.startswith('from_')

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and target.value.id == fr.func.self_name():
            return [st | {target.attr}]
        return [st]


def abstract(f):
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return bool(b) and all(isinstance(s, (ast.Assert, ast.Pass)) or isinstance(s, ast.Raise) for s in b)


def loads_of(f, names=None):
    self_ = f.self_name()
    return {n.attr for n in own_nodes(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name)
            and n.value.id == self_}


def check_N04(ctx):
    p = ctx.p
    ctx.rule('agree', 'the state saved and the state restored use the same keys, for the same attributes')
    ctx.rule('complete', 'every attribute that a restored object uses has been restored')
    ctx.rule('dispatch', 'every kind of variable value is restored as the kind it was saved as')
    ctx.rule('source', 'a value that is restored by compiling its source is saved with its source')
    ctx.rule('importable', 'a value that can be imported is saved by reference: where it comes from, under the name it has there')
    ctx.rule('isolated', 'a variable that cannot be saved or restored does not prevent the others from being saved or restored')
    ctx.rule('pure', 'saving or transmitting an object does not change it')
    ctx.rule('total', 'saving or transmitting an object does not fail because of the state of the file system')
    ev = p.cls('EnvValue', 'marcel.nestednamespace')
    n = 0
    # ---- to_persistent_state / from_persistent_state
    for c in sorted(p.classes, key=lambda c: c.qualname) if not isinstance(p.classes, dict) else sorted(p.classes.values(), key=lambda c: c.qualname):
        w, r = c.find('to_persistent_state'), c.find('from_persistent_state')
        if w is None or r is None or abstract(w) or abstract(r):
            continue
        if w.cls is not c and r.cls is not c and not (c.derives(ev) and c.methods):
            continue
        wk, rk = dict_keys(w), reads(r)
        if wk is None or not wk[0]:
            if p.cls('NestedNamespace') is c:
                continue
            raise AnalysisBroken(f'the state written by {w.qualname} is not understood')
        n += 1
        keys = wk[0]
        for k in sorted(set(keys) | set(rk[0])):
            key = f'{c.name}.{k}'
            if k not in keys:
                # an optional key may be one of an older format, if what it holds is also saved under another key
                if rk[0][k][0] or not any(rk[0][k][1] & rk[0][j][1] for j in rk[0] if j != k and j in keys):
                    ctx.bad('agree', key, r, f'{c.name}: restoring reads {k!r}, which is not saved', r.node)
                continue
            lossy = _lossy(w, r, k)
            if lossy is not None:
                ctx.bad('agree', key, w, f'{c.name}: what is saved as {k!r} is {ast.unparse(lossy)}, which is not what is restored', lossy)
                continue
            if k not in rk[0] and not rk[1]:
                ctx.bad('agree', key, w, f'{c.name}: {k!r} is saved but is not restored', w.node)
                continue
            put = rk[0].get(k, [True, {k}])[1]
            if keys[k] and put and not (keys[k] & put):
                ctx.bad('agree', key, r, f'{c.name}: {k!r} is saved from {", ".join(sorted(keys[k]))}, but restored into {", ".join(sorted(put))}', r.node)
            elif not put:
                ctx.bad('agree', key, r, f'{c.name}: {k!r} is read but not restored into an attribute', r.node)
            else:
                ctx.ok('agree', key, f'{c.qualname}: {k!r} <-> self.{sorted(put)[0]}')
        ts = SetTS(p, c)
        o = ts.run_function(r, c, frozenset())
        rets = [k[0] for k in o['ret']]
        done = frozenset.intersection(*rets) if rets else frozenset()
        need = set()
        data = set()
        for k in c.repo_mro():
            f = k.methods.get('__init__')
            if f is not None:
                data |= {t.attr for m in own_nodes(f.node) if isinstance(m, ast.Assign) for t in m.targets
                         if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.self_name()}
        if c.derives(ev):
            base = {a for a in ev.attr_assigns()}
            for nm in ('reconstitute', '__repr__'):
                f = c.find(nm)
                if f is not None:
                    need |= {a for a in loads_of(f) if a in data} - base
        else:
            need = set(data)
        for a in sorted(need):
            if a in done:
                ctx.ok('complete', f'{c.name}.{a}')
            else:
                ctx.bad('complete', f'{c.name}.{a}', r, f'{c.name}.{a} is needed after restoring, but is not restored on every path', r.node)
    ctx.count('kinds of saved state', n)
    ctx.need('kinds of saved state', 6)
    _dispatch(ctx, ev)
    _source(ctx, ev)
    _reconstituted(ctx, ev)
    _isolated(ctx, ev)
    _simple(ctx, ev)
    _captured(ctx, ev)
    _source_text(ctx, ev)
    _states(ctx)
    ctx.share('N02', {'saved'})


LOSSY = {'str', 'repr', 'int', 'bool', 'float', 'len', 'type', 'hash', 'id'}


def _lossy(w, r, key):
    """the expression saved under key, if it is a constant or a conversion that restoring does not undo"""
    for n in own_nodes(w.node):
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if not (isinstance(k, ast.Constant) and k.value == key):
                    continue
                es = [v]
                if isinstance(v, ast.Name):
                    es = [x for x in w.local_assigns().get(v.id, []) if isinstance(x, ast.AST)]
                for e in es:
                    if isinstance(e, ast.Constant) and not _restores(r, key, plain=False):
                        return e
                    if isinstance(e, ast.JoinedStr) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in LOSSY:
                        if not _restores(r, key, plain=False):
                            return e
                    if edited(e) and not _restores(r, key, plain=False):
                        return e
    return None


EDITS = {'lower', 'upper', 'replace', 'casefold', 'title', 'swapcase', 'capitalize', 'translate', 'expandtabs', 'split', 'rsplit', 'partition',
         'removeprefix', 'removesuffix', 'zfill', 'center', 'ljust', 'rjust'}


def edited(e):
    """e is a text derived from another by something that changes it"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        return e.func.attr in EDITS or e.func.attr in ('strip', 'lstrip', 'rstrip') and bool(e.args)
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Call) and edited(e.value):
        # a part of it
        return True
    if isinstance(e, ast.Subscript):
        return isinstance(e.slice, ast.Slice) and (e.slice.lower is not None or e.slice.upper is not None or e.slice.step is not None)
    return False


def _restores(r, key, plain):
    """is what restoring reads under key converted before it is put into an attribute?"""
    for n in own_nodes(r.node):
        if isinstance(n, ast.Assign) and not isinstance(n.value, (ast.Subscript, ast.Name)):
            if any(isinstance(x, ast.Constant) and x.value == key for x in ast.walk(n.value)) and any(isinstance(t, ast.Attribute) for t in n.targets) and \
                    not (isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ('get', 'pop')):
                return True
    return False


def _reconstituted(ctx, ev):
    p = ctx.p
    comp = p.cls('Compilable', ev.module.name)
    # what is compiled from the source of an assignment is evaluated, as the assignment does
    for c in p.subclasses(comp):
        f = c.methods.get('reconstitute')
        if f is None or abstract(f):
            continue
        calls = [n for n in own_nodes(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'parse_function']
        for n in own_nodes(f.node):
            if isinstance(n, ast.Return) and n.value is not None and calls:
                e = n.value
                for _ in range(3):
                    if isinstance(e, ast.Name):
                        vs = [v for v in f.local_assigns().get(e.id, []) if isinstance(v, ast.AST)]
                        if len(vs) == 1:
                            e = vs[0]
                ctx.count('values restored by compiling')
                if any(e is k for k in calls):
                    ctx.bad('source', f.qualname, f, f'{f.name} returns the compiled expression, instead of the function that is its value', n)
                else:
                    ctx.ok('source', f.qualname)
    # every kind that can be restored is made by somebody
    subs = [c for c in p.subclasses(ev) if c is not ev]
    kinds = [c for c in subs if not any(d is not c and d.derives(c) for d in subs)]
    for c in sorted(kinds, key=lambda c: c.name):
        made = False
        for g in p.functions:
            if g.module is not ev.module or g.name == 'restore':
                continue
            if any(isinstance(n, ast.Name) and n.id == c.name for n in own_nodes(g.node)):
                made = True
        if made:
            ctx.ok('dispatch', c.name + ':made')
        else:
            ctx.bad('dispatch', c.name + ':made', ev, f'nothing is ever saved as a {c.name}')
    # by reference
    for c in sorted(kinds, key=lambda c: c.name):
        f = c.find('reconstitute')
        for n in own_nodes(f.node) if f is not None else []:
            if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'import_symbol' and len(n.args) == 2:
                ctx.count('values restored by importing')
                a = n.args[1]
                if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == f.self_name():
                    why = _symbol_source(p, c, a.attr)
                    if why:
                        ctx.bad('importable', f'{c.name}.{a.attr}', f, f'{f.name} of {c.name} looks up self.{a.attr} in the module, {why}', n)
                    else:
                        ctx.ok('importable', f'{c.name}.{a.attr}')
    _wrap_by_reference(ctx, ev, comp)


def _symbol_source(p, c, attr):
    """None if the attribute is the name under which its value is found in its module"""
    ok = None
    for f, v in c.all_attr_assigns(attr):
        if f.name in ('__init__', 'from_persistent_state') or isinstance(v, ast.Constant):
            continue
        if isinstance(v, ast.Attribute) and v.attr in ('__name__', '__qualname__'):
            continue
        if isinstance(v, ast.Name) and v.id in f.params and len([x for x in f.local_assigns().get(v.id, []) if isinstance(x, ast.AST)]) == 0:
            why = _symbol_param(p, f, v.id, set())
            if why:
                return why
            continue
        return f'which is {ast.unparse(v)[:60]}' if isinstance(v, ast.AST) else 'which is computed'
    return ok


def _symbol_param(p, f, name, seen):
    from ..paths import call_sites, arg_for
    if (f, name) in seen:
        return None
    seen.add((f, name))
    for call, g in call_sites(p, f):
        a = arg_for(f, call, name)
        if a is None or isinstance(a, ast.Constant):
            continue
        if isinstance(a, ast.Name) and a.id in g.params:
            why = _symbol_param(p, g, a.id, seen)
            if why:
                return why
            continue
        # the value handed along is what the module has under that name
        vals = [x for x in list(call.args) + [k.value for k in call.keywords] if x is not a]
        keyed = False
        known = False
        for v in vals:
            if isinstance(v, ast.Name):
                for d in g.local_assigns().get(v.id, []):
                    if isinstance(d, ast.Subscript) and isinstance(d.value, ast.Attribute) and d.value.attr == '__dict__':
                        known = True
                        keyed |= ast.unparse(d.slice) == ast.unparse(a)
                    if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'getattr' and len(d.args) > 1:
                        known = True
                        keyed |= ast.unparse(d.args[1]) == ast.unparse(a)
                for lp in own_nodes(g.node):
                    if isinstance(lp, ast.For) and isinstance(lp.target, ast.Tuple) and len(lp.target.elts) == 2 and isinstance(lp.target.elts[1], ast.Name) and \
                            lp.target.elts[1].id == v.id and any(x is call for b in lp.body for x in ast.walk(b)):
                        known = True
                        keyed |= ast.unparse(lp.target.elts[0]) == ast.unparse(a)
        if known and not keyed:
            return f'which {g.name} sets to {ast.unparse(a)}, not the name of the value in its module'
    return None


def _wrap_by_reference(ctx, ev, comp):
    p = ctx.p
    w = ev.find('wrap')
    ts = RefTS(p, ev, comp)
    ts.run_function(w, ev, frozenset())
    if ts.bad:
        ctx.bad('importable', w.qualname, w, 'a function without source that could be imported is saved as if it had been compiled', ts.bad[0][0])
    else:
        ctx.ok('importable', w.qualname, f'{ts.n} paths')


def _isolated(ctx, ev):
    from .names import tests_picklability, NS, _conds
    p = ctx.p
    ns = NS(p)
    w, r = ns.ns.find('to_persistent_state'), ns.ns.find('from_persistent_state')
    if w is None or r is None:
        raise AnalysisBroken('the state of the namespace is not saved and restored by the methods expected')
    for n in own_nodes(w.node):
        conds = None
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            conds = _conds(w, n)
            conds += [(x.test, False) for lp in own_nodes(w.node) if isinstance(lp, ast.For) for x in lp.body
                      if isinstance(x, ast.If) and x.body and isinstance(x.body[-1], ast.Continue)]
        elif isinstance(n, ast.DictComp):
            conds = [(t, True) for g in n.generators for t in g.ifs]
        if conds is None:
            continue
        if any(tests_picklability(p, t, w) for t, sense in conds):
            ctx.ok('isolated', w.qualname)
        else:
            ctx.bad('isolated', w.qualname, w, 'a variable is saved without testing that it can be: one that cannot be pickled prevents all of the variables from being saved', n)
    for n in own_nodes(r.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('unwrap', 'reconstitute'):
            ctx.count('places where a variable is restored')
            if _caught_in_loop(r, n):
                ctx.ok('isolated', r.qualname)
            else:
                ctx.bad('isolated', r.qualname, r, 'a variable whose value cannot be restored prevents the others from being restored', n)
    # what could not be restored is kept, and tried again when others have been
    scopes = {k for k, vs in r.local_assigns().items() for v in vs if isinstance(v, ast.AST) and any(
        isinstance(x, ast.Attribute) and x.attr == ns.stack for x in ast.walk(v))}
    for n in own_nodes(r.node):
        tgt = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('delete', 'pop', '__delitem__', 'clear', 'popitem'):
            tgt = n.func.value
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Del):
            tgt = n.value
        if isinstance(tgt, ast.Name) and (tgt.id in scopes or tgt.id == r.self_name()) or isinstance(tgt, ast.Subscript) and ns.is_stack(tgt.value, r):
            ctx.bad('isolated', r.qualname + ':forgotten', r, 'a variable that cannot be restored is forgotten: it will not be saved again', n)
    for lp in own_nodes(r.node):
        if not isinstance(lp, ast.While):
            continue
        for i in ast.walk(lp):
            if not isinstance(i, ast.If):
                continue
            for c in value_tests(i.test):
                sides = [len_of(x) for x in [c.left, c.comparators[0]]]
                if len(c.ops) != 1 or not all(sides) or sides[0] == sides[1]:
                    continue
                sub = [j for j in (0, 1) if any(isinstance(q, ast.For) and isinstance(q.iter, ast.Name) and q.iter.id == sides[1 - j] and any(
                    isinstance(z, ast.Name) and z.id == sides[j] for z in ast.walk(q)) for q in ast.walk(lp))]
                if len(sub) != 1:
                    continue
                op = type(c.ops[0])
                if sub[0] == 1:
                    op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op)
                ends = isinstance(i.body[-1], (ast.Return, ast.Break))
                ctx.count('tests for progress in restoring')
                if ends and op in (ast.LtE, ast.Lt, ast.NotEq, ast.Gt) or not ends and op in (ast.LtE, ast.GtE, ast.Eq, ast.Gt):
                    ctx.bad('isolated', r.qualname + ':retry', r, 'a variable that needs another one is not tried again after the other one has been restored, or is tried for ever', c)
                else:
                    ctx.ok('isolated', r.qualname + ':retry')


def value_tests(t):
    return [x for x in ast.walk(t) if isinstance(x, ast.Compare)]


def len_of(e):
    return e.args[0].id if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1 and isinstance(e.args[0], ast.Name) else None


class SimpleTS(Typestate):
    """state: kinds of values that the value is known not to be"""
    max_depth = 3
    track_exc = False

    def __init__(self, p, ev, simple):
        super().__init__(p)
        self.ev, self.simple = ev, simple
        self.bad = []
        self.n = 0

    def relevant(self, t):
        return False

    def kind(self, call, targets, fr):
        nm = (dotted(call.func) or getattr(call.func, 'attr', '')).split('.')[-1]
        if nm in ('callable', 'ismodule'):
            return nm
        nodes = [call] + [n for t in targets if isinstance(t, FuncInfo) for n in own_nodes(t.node)]
        for n in nodes:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2 and \
                    (dotted(n.args[1]) or '').split('.')[-1] == 'Pipeline':
                return 'pipeline'
        return None

    def on_call(self, call, targets, st, fr):
        k = self.kind(call, targets, fr)
        if k:
            return [('rv', st, 'T'), ('rv', st | {k}, 'F')]
        if any(t is self.simple or isinstance(t, FuncInfo) and t.name == '__init__' and t.cls is self.simple for t in targets):
            self.n += 1
            if {'callable', 'ismodule', 'pipeline'} - st:
                self.bad.append((call, sorted({'callable', 'ismodule', 'pipeline'} - st)))
        return None


def _simple(ctx, ev):
    """functions, modules and pipelines are not saved as plain values"""
    p = ctx.p
    w = ev.find('wrap')
    simple = [c for c in p.subclasses(ev) if c.name == 'Simple']
    if w is None or not simple:
        return
    ts = SimpleTS(p, ev, simple[0])
    ts.run_function(w, ev, frozenset())
    ctx.count('ways to save a plain value', ts.n)
    if ts.bad:
        ctx.bad('dispatch', f'{w.qualname}:plain', w, f'a value that may be a {ts.bad[0][1][0]} is wrapped as a plain value, which is pickled', ts.bad[0][0])
    else:
        ctx.ok('dispatch', f'{w.qualname}:plain')


def _captured(ctx, ev):
    """what is saved is taken from the value when it is assigned; a value restored by importing is imported"""
    p = ctx.p
    subs = [c for c in p.subclasses(ev) if c is not ev]
    for c in sorted(subs, key=lambda c: c.name):
        m, w = c.methods.get('assign'), c.find('to_persistent_state')
        if m is not None and w is not None and dict_keys(w):
            saved = set().union(*dict_keys(w)[0].values()) if dict_keys(w)[0] else set()
            for a in sorted(saved):
                vs = [v for g, v in c.all_attr_assigns(a) if g is m]
                if vs and all(isinstance(v, ast.Constant) for v in vs):
                    ctx.bad('agree', f'{c.name}.{a}:constant', m, f'{c.name}: self.{a}, which is saved, does not depend on the value assigned', vs[0])
                elif vs:
                    ctx.ok('agree', f'{c.name}.{a}:constant')
        f = c.methods.get('reconstitute')
        if f is None:
            continue
        if any(isinstance(n, ast.Attribute) and dotted(n) == 'sys.modules' for n in own_nodes(f.node)) and not any(
                isinstance(n, ast.Call) and 'import' in (dotted(n.func) or getattr(n.func, 'attr', '')) for n in own_nodes(f.node)):
            ctx.bad('importable', f.qualname, f, f'{c.name} is restored only if its module happens to have been imported already', f.node)


def _source_text(ctx, ev):
    """the text saved with a variable is the one that was entered"""
    from ..paths import trace
    p = ctx.p
    n = 0
    for f in p.functions:
        for c in own_nodes(f.node):
            if not (isinstance(c, ast.Call) and isinstance(c.func, (ast.Attribute, ast.Name))):
                continue
            for t in p.callees(c, f, f.cls):
                if isinstance(t, FuncInfo) and t.cls is not None and t.name in ('setvar_with_source', 'set_var_and_value', 'wrap') and 'source' in t.params:
                    from ..paths import arg_for
                    a = arg_for(t, c, 'source')
                    if a is None:
                        continue
                    n += 1
                    cut = [x for x, g, _ in (y for y in trace(p, a, f) if not isinstance(y[0], str)) for z in ast.walk(x) if edited(z) and
                           any(isinstance(q, (ast.Attribute, ast.Name)) and 'source' in (getattr(q, 'attr', None) or getattr(q, 'id', '')) for q in ast.walk(z)) and f.module.name.startswith('marcel.op.')]
                    if cut:
                        ctx.bad('source', f'{f.qualname}:text', f, f'the text saved with a variable is changed ({ast.unparse(cut[0])[:50]}), so what is restored is something else', c)
                    else:
                        ctx.ok('source', f'{f.qualname}:text')
    ctx.count('places where the source of a value is given', n)


def _caught_in_loop(f, node):
    """node is in a try, within its innermost loop, that catches Exception and goes on"""
    inner = None
    for lp in own_nodes(f.node):
        if isinstance(lp, (ast.For, ast.While)) and any(x is node for b in lp.body for x in ast.walk(b)):
            if inner is None or any(x is lp for x in ast.walk(inner)):
                inner = lp
    if inner is None:
        return False
    for t in ast.walk(inner):
        if isinstance(t, ast.Try) and any(x is node for b in t.body for x in ast.walk(b)):
            for h in t.handlers:
                names = [dotted(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else [None]
                if any(n is None or n.split('.')[-1] in ('Exception', 'BaseException') for n in names) and \
                        not any(isinstance(x, (ast.Raise, ast.Return, ast.Break)) for b in h.body for x in ast.walk(b)):
                    return True
    return False


# ------------------------------------------------------------------------------------------------ dispatch
class NameTS(Typestate):
    """restore(), given a class name: which class is instantiated?"""
    max_depth = 3
    track_exc = False

    def __init__(self, p, ev, name, param):
        super().__init__(p)
        self.ev, self.name, self.param = ev, name, param

    def on_call(self, call, targets, st, fr):
        hit = [t for t in targets if isinstance(t, ClassInfo) and t.derives(self.ev)]
        hit += [t.cls for t in targets if isinstance(t, FuncInfo) and t.name == '__init__' and t.cls is not None and t.cls.derives(self.ev)]
        if hit:
            return [st | {hit[0].name}]
        # a table of classes
        e = call.func
        if isinstance(e, ast.Name):
            vs = [v for v in fr.func.local_assigns().get(e.id, []) if v is not None]
            e = vs[0] if len(vs) == 1 else e
        sub = None
        if isinstance(e, ast.Subscript):
            sub, idx = e.value, e.slice
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get' and e.args:
            sub, idx = e.func.value, e.args[0]
        if sub is not None and isinstance(idx, ast.Name) and idx.id == self.param:
            if isinstance(sub, ast.Call) and isinstance(sub.func, ast.Name) and sub.func.id in ('globals', 'vars'):
                return [st | {self.name}]
            d = self._dict(sub, fr)
            if d is not None:
                for k, v in zip(d.keys, d.values):
                    kn = k.value if isinstance(k, ast.Constant) else k.value.id if isinstance(k, ast.Attribute) and k.attr == '__name__' and \
                        isinstance(k.value, ast.Name) else None
                    if kn == self.name:
                        c = self.p.resolve_global(v, fr.func.module, fr.cls)
                        return [st | {c.name if isinstance(c, ClassInfo) else '?'}]
                return []
        return None

    def _dict(self, e, fr, depth=0):
        if isinstance(e, ast.Dict):
            return e
        if isinstance(e, ast.DictComp):
            # {c.__name__: c for c in (A, B, ...)}
            g = e.generators[0]
            it = g.iter
            if isinstance(it, (ast.Tuple, ast.List)) and isinstance(e.key, ast.Attribute) and e.key.attr == '__name__' and isinstance(e.value, ast.Name):
                return ast.Dict(keys=[ast.Constant(value=x.id if isinstance(x, ast.Name) else '') for x in it.elts], values=list(it.elts))
        if isinstance(e, ast.Name) and depth < 3:
            for v in fr.func.local_assigns().get(e.id, []):
                if v is not None:
                    return self._dict(v, fr, depth + 1)
            v = fr.func.module.assigns.get(e.id) if hasattr(fr.func.module, 'assigns') else None
            if isinstance(v, list):
                v = v[-1] if v else None
            if v is not None:
                return self._dict(v, fr, depth + 1)
        if isinstance(e, ast.Attribute):
            for k in [fr.cls] if fr.cls else []:
                for s in k.node.body:
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.attr for t in s.targets):
                        return self._dict(s.value, fr, depth + 1)
        return None

    def on_test(self, test, truth, st, fr):
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id == self.param:
            c = test.comparators[0]
            vals = None
            if isinstance(c, ast.Constant):
                vals = [c.value]
            elif isinstance(c, ast.Attribute) and c.attr == '__name__' and isinstance(c.value, ast.Name):
                vals = [c.value.id]
            elif isinstance(c, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) for x in c.elts):
                vals = [x.value for x in c.elts]
            if vals is not None:
                pos = isinstance(test.ops[0], (ast.Eq, ast.Is, ast.In))
                same = self.name in vals
                return st if (same == pos) == truth else None
        return st


def _dispatch(ctx, ev):
    p = ctx.p
    f = ev.find('restore')
    if f is None:
        raise AnalysisBroken('EnvValue.restore not found')
    subs = [c for c in p.subclasses(ev) if c is not ev]
    kinds = [c for c in subs if not any(d is not c and d.derives(c) for d in subs)]
    ctx.count('kinds of variable value', len(kinds))
    ctx.need('kinds of variable value', 5)
    # the parameter that holds the class name
    param = None
    for n in own_nodes(f.node):
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id in f.params:
            param = n.left.id
    if param is None:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and n.slice.id in f.params:
                param = n.slice.id
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and n.args and isinstance(n.args[0], ast.Name) and \
                    n.args[0].id in f.params:
                param = n.args[0].id
    if param is None:
        raise AnalysisBroken('EnvValue.restore does not depend on the name of the class')
    for c in sorted(kinds, key=lambda c: c.name):
        ts = NameTS(p, ev, c.name, param)
        o = ts.run_function(f, ev, frozenset())
        got = set()
        for k in o['ret']:
            got |= set(k[0]) or {'nothing'}
        if got == {c.name}:
            ctx.ok('dispatch', c.name, f'{c.name} restored as {c.name}')
        else:
            ctx.bad('dispatch', c.name, f, f'a value saved as {c.name} is restored as {", ".join(sorted(got)) or "nothing (the restoration fails)"}', f.node)
    # saved under the name of its own class, along with its own state
    n = 0
    for g in p.functions:
        if g.module is not ev.module or g.cls is not None and g.cls.derives(ev):
            continue
        for x in own_nodes(g.node):
            if isinstance(x, (ast.Tuple, ast.List)) and len(x.elts) == 2 and isinstance(x.elts[1], ast.Call) and isinstance(x.elts[1].func, ast.Attribute) \
                    and x.elts[1].func.attr == 'to_persistent_state':
                n += 1
                v = ast.unparse(x.elts[1].func.value)
                e = x.elts[0]
                if isinstance(e, ast.Name):
                    vs = [y for y in g.local_assigns().get(e.id, []) if y is not None]
                    e = vs[0] if len(vs) == 1 else e
                nm = ast.unparse(e)
                if nm in (f'{v}.__class__.__name__', f'type({v}).__name__'):
                    ctx.ok('dispatch', g.qualname)
                else:
                    ctx.bad('dispatch', g.qualname, g, f'{nm} is saved as the kind of {v}', x)
    ctx.count('places where variables are saved', n)
    ctx.need('places where variables are saved', 1)


# ------------------------------------------------------------------------------------------------ source
class WrapTS(Typestate):
    """state: names known not to be None"""
    max_depth = 3
    track_exc = False

    def __init__(self, p, ev, comp):
        super().__init__(p)
        self.ev, self.comp = ev, comp
        self.bad = []
        self.n = 0

    def relevant(self, t):
        return False

    def on_call(self, call, targets, st, fr):
        for t in targets:
            if isinstance(t, FuncInfo) and t.name == 'assign' and t.cls is not None and t.cls.derives(self.comp):
                kinds = _bound_class(self.p, fr.func, call)
                if kinds and not any(k.derives(self.comp) for k in kinds):
                    return [st]
                self.n += 1
                a = call.args[1] if len(call.args) > 1 else next((k.value for k in call.keywords if k.arg == 'source'), None)
                if a is None or self.maybe_none(a, st, fr):
                    self.bad.append((call, a))
                return [st]
        return None

    def maybe_none(self, e, st, fr, depth=0):
        if depth > 4:
            return True
        if isinstance(e, ast.Constant):
            return e.value is None
        if isinstance(e, ast.JoinedStr):
            return any(self.maybe_none(v.value, st, fr, depth + 1) for v in e.values if isinstance(v, ast.FormattedValue))
        if isinstance(e, ast.BinOp):
            return self.maybe_none(e.left, st, fr, depth + 1) or self.maybe_none(e.right, st, fr, depth + 1)
        if isinstance(e, ast.Name):
            if e.id in st:
                return False
            f = fr.func
            if e.id in f.params:
                return True
            vs = f.local_assigns().get(e.id, [])
            return not vs or any(v is None or self.maybe_none(v, st, fr, depth + 1) for v in vs)
        if isinstance(e, ast.IfExp):
            t = e.test
            then, other = st, st
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant) and \
                    t.comparators[0].value is None:
                if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                    then = st | {t.left.id}
                else:
                    other = st | {t.left.id}
            elif isinstance(t, ast.Name):
                then = st | {t.id}
            return self.maybe_none(e.body, then, fr, depth + 1) or self.maybe_none(e.orelse, other, fr, depth + 1)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
            return self.maybe_none(e.values[-1], st, fr, depth + 1)
        if isinstance(e, ast.Call):
            # the text of something that was not given
            return isinstance(e.func, ast.Name) and e.func.id in ('str', 'repr') and len(e.args) == 1 and isinstance(e.args[0], ast.Name) and \
                e.args[0].id in _optional(fr.func) and self.maybe_none(e.args[0], st, fr, depth + 1)
        if isinstance(e, ast.Attribute):
            return False
        return True

    def on_test(self, test, truth, st, fr):
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            absent = truth if isinstance(test.ops[0], (ast.Is, ast.Eq)) else not truth
            return st if absent else st | {test.left.id}
        if isinstance(test, ast.Name) and truth:
            return st | {test.id}
        return st


def _optional(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = {x.arg for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults) if isinstance(d, ast.Constant) and d.value is None}
    return out | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if isinstance(d, ast.Constant) and d.value is None}


def _source(ctx, ev):
    p = ctx.p
    comp = p.cls('Compilable', ev.module.name)
    w = ev.find('wrap')
    if w is None:
        raise AnalysisBroken('EnvValue.wrap not found')
    ts = WrapTS(p, ev, comp)
    ts.run_function(w, ev, frozenset())
    seen = set()
    for call, a in ts.bad:
        cls = [t.cls.name for t in p.callees(call, w, ev) if isinstance(t, FuncInfo) and t.cls is not None]
        o = [v for v in w.local_assigns().get(call.func.value.id, []) if isinstance(call.func.value, ast.Name)] if isinstance(call.func, ast.Attribute) \
            and isinstance(call.func.value, ast.Name) else []
        kinds = [k.name for k in _bound_class(p, w, call) or []] or cls
        key = f'{w.qualname}:{kinds[0] if kinds else "?"}'
        if key in seen:
            continue
        seen.add(key)
        ctx.bad('source', key, w, f'a value that is restored by compiling its source is wrapped on a path on which its source is unknown '
                f'({ast.unparse(a) if a is not None else "no source"})', call)
    if not ts.bad:
        ctx.ok('source', w.qualname)
    ctx.count('values wrapped with source', ts.n)
    ctx.need('values wrapped with source', 2)


def _bound_class(p, w, call):
    """the class whose instance is assigned just before the call, in the same block"""
    for n in ast.walk(w.node):
        for body in (getattr(n, 'body', None), getattr(n, 'orelse', None)):
            if isinstance(body, list):
                for i, s in enumerate(body):
                    if any(x is call for x in ast.walk(s)) and not isinstance(s, (ast.If, ast.For, ast.While, ast.Try)):
                        for t in reversed(body[:i]):
                            if isinstance(t, ast.Assign) and isinstance(t.value, ast.Call):
                                r = [x if isinstance(x, ClassInfo) else x.cls for x in p.callees(t.value, w, w.cls)
                                     if isinstance(x, ClassInfo) or isinstance(x, FuncInfo) and x.name == '__init__']
                                if r:
                                    return r
    return None


# ------------------------------------------------------------------------------------------------ __getstate__ / __setstate__
FS = {'lstat', 'stat', 'resolve', 'open', 'exists', 'readlink', 'samefile', 'iterdir', 'owner', 'group'}


class TotalTS(Typestate):
    """can a method raise because of the file system? An explicit raise or a file system call outside a try that absorbs it."""
    max_depth = 4

    def __init__(self, p, mods):
        super().__init__(p)
        self.mods = mods
        self.cache = {}

    def relevant(self, t):
        return t.module in self.mods and t.name not in ('__repr__', '__str__')

    def may_raise(self, call, targets, fr):
        return False

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute) and call.func.attr in ('lstat', 'stat', 'readlink', 'iterdir', 'owner', 'group') and not any(
                isinstance(t, FuncInfo) for t in targets):
            return [st, ('exc', st, 'FileNotFoundError'), ('exc', st, 'PermissionError')]
        return None


def _states(ctx):
    p = ctx.p
    classes = p.classes.values() if isinstance(p.classes, dict) else p.classes
    n = 0
    for c in sorted(classes, key=lambda c: c.qualname):
        g = c.methods.get('__getstate__')
        if g is None or abstract(g):
            continue
        n += 1
        # pure
        self_ = g.self_name()
        muts = []
        for x in own_nodes(g.node):
            ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self_:
                    muts.append(x)
                if isinstance(t, ast.Subscript) and _is_own_dict(t.value, g):
                    muts.append(x)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('pop', 'update', 'clear', 'setdefault') and \
                    _is_own_dict(x.func.value, g):
                muts.append(x)
        if muts:
            ctx.bad('pure', c.name, g, f'transmitting a {c.name} changes it: {ast.unparse(muts[0])}', muts[0])
        else:
            ctx.ok('pure', c.name)
        # total
        ts = TotalTS(p, {c.module})
        o = ts.run_function(g, c, 0)
        if o['exc']:
            ctx.bad('total', c.name, g, f'a {c.name} cannot be saved or transmitted if the file it describes has been deleted or is not accessible', g.node)
        else:
            ctx.ok('total', c.name)
        # agree
        s = c.find('__setstate__')
        wk = dict_keys(g)
        if wk is None:
            raise AnalysisBroken(f'the state written by {g.qualname} is not understood')
        keys, gone, copy = wk
        if s is None:
            if copy:
                # restored by pickle itself: what is omitted must be restored on demand (functions: F06)
                for a in sorted(gone):
                    if _on_demand(p, c, a):
                        ctx.ok('complete', f'{c.name}.{a}')
                    else:
                        ctx.bad('complete', f'{c.name}.{a}', g, f'{c.name}.{a} is not transmitted and nothing restores it', g.node)
            else:
                data = _data(c)
                for a in sorted(data - set(keys)):
                    ctx.bad('complete', f'{c.name}.{a}', g, f'{c.name}.{a} is not transmitted and nothing restores it', g.node)
            continue
        rk = reads(s)
        if rk is None:
            raise AnalysisBroken(f'{s.qualname} is not understood')
        if not copy:
            for k in sorted(set(keys) | set(rk[0])):
                if k not in keys:
                    if rk[0][k][0]:
                        ctx.bad('agree', f'{c.name}.{k}', s, f'{c.name}: restoring reads {k!r}, which is not transmitted', s.node)
                elif k not in rk[0] and not rk[1]:
                    ctx.bad('agree', f'{c.name}.{k}', g, f'{c.name}: {k!r} is transmitted but is ignored', g.node)
                else:
                    ctx.ok('agree', f'{c.name}.{k}')
        else:
            if not rk[1]:
                ctx.bad('agree', c.name, s, f'{c.name} transmits all of its attributes, but they are not put back', s.node)
            else:
                ctx.ok('agree', c.name)
            restored = {a for a, assigns in c.attr_assigns().items() for f, v in assigns if f is s and not (
                isinstance(v, ast.Constant) and v.value is None)}
            for a in sorted(gone):
                if a in restored or _on_demand(p, c, a):
                    ctx.ok('complete', f'{c.name}.{a}')
                else:
                    ctx.bad('complete', f'{c.name}.{a}', s, f'{c.name}.{a} is not transmitted and is not restored', s.node)
    ctx.count('classes that define how they are transmitted', n)
    ctx.need('classes that define how they are transmitted', 4)


def _data(c):
    f = c.find('__init__')
    if f is None:
        return set()
    return {t.attr for m in own_nodes(f.node) if isinstance(m, ast.Assign) for t in m.targets
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.self_name()} if not c.find('__setstate__') else set()


def _is_own_dict(e, g, depth=0):
    if isinstance(e, ast.Attribute) and e.attr == '__dict__':
        return True
    if isinstance(e, ast.Name) and depth < 3:
        return any(v is not None and _is_own_dict(v, g, depth + 1) for v in g.local_assigns().get(e.id, []))
    return False


def _on_demand(p, c, a):
    """some method assigns self.a (not None) guarded by a test that it is missing"""
    for f, v in c.all_attr_assigns(a):
        if f.name in ('__init__', '__getstate__') or (isinstance(v, ast.Constant) and v.value is None):
            continue
        for n in own_nodes(f.node):
            if isinstance(n, (ast.If, ast.IfExp)) and any(isinstance(x, ast.Attribute) and x.attr == a for x in ast.walk(n.test)):
                return True
    return False


class RefTS(WrapTS):
    """as WrapTS; '%imp' in the state: the value was found not to be what its module has under its name"""

    def looks(self, e, fr, depth=0):
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and n.attr in ('modules', '__module__') or isinstance(n, ast.Constant) and n.value == '__module__':
                return True
            if isinstance(n, ast.Name) and depth < 3:
                if any(isinstance(v, ast.AST) and v is not e and self.looks(v, fr, depth + 1) for v in fr.func.local_assigns().get(n.id, [])):
                    return True
            if isinstance(n, ast.Call):
                for t in self.p.callees(n, fr.func, fr.cls):
                    if isinstance(t, FuncInfo) and depth < 3 and any(
                            isinstance(m, ast.Attribute) and m.attr in ('modules', '__module__') or isinstance(m, ast.Constant) and m.value == '__module__'
                            for m in own_nodes(t.node)):
                        return True
        return False

    def on_test_call(self, call, targets, truth, st, fr):
        if self.looks(call, fr) and not truth:
            return st | {'%imp'}
        return st

    def on_test(self, test, truth, st, fr):
        st = super().on_test(test, truth, st, fr)
        if st is not None and not truth and self.looks(test, fr):
            return st | {'%imp'}
        return st

    def on_call(self, call, targets, st, fr):
        for t in targets:
            if isinstance(t, FuncInfo) and t.name == 'assign' and t.cls is not None and t.cls.derives(self.comp):
                kinds = _bound_class(self.p, fr.func, call)
                if kinds and not any(k.derives(self.comp) and 'unction' in k.name for k in kinds):
                    return [st]
                a = call.args[1] if len(call.args) > 1 else next((k.value for k in call.keywords if k.arg == 'source'), None)
                self.n += 1
                if (a is None or self.maybe_none(a, st, fr)) and '%imp' not in st:
                    self.bad.append((call, a))
                return [st]
        return None


CHECKS = {'N04': check_N04}

MUTANTS = {
    'N04': [
        ('marcel/nestednamespace.py', "        return {'source': self.source}\n\n    def from_persistent_state(self, persisted):\n        self.source = persisted['source']\n\n    def reconstitute(self):\n        assert self.env is not None\n        return marcel.parser.Parser(self.source, self.env).parse_pipeline()",
         "        return {'source': self.source.strip('()')}\n\n    def from_persistent_state(self, persisted):\n        self.source = persisted['source']\n\n    def reconstitute(self):\n        assert self.env is not None\n        return marcel.parser.Parser(self.source, self.env).parse_pipeline()", 'source changed when it is saved'),
        ('marcel/op/assign.py', '        env.setvar_with_source(self.var, self.value, source)',
         '        env.setvar_with_source(self.var, self.value, source.lower() if source else source)', 'source changed before it is saved'),
        ('marcel/nestednamespace.py', '            if len(failures) in (0, len(pending)):',
         '            if len(failures) <= len(pending):', 'no second attempt to restore'),
        ('marcel/nestednamespace.py', '                except (Exception, marcel.exception.KillCommandException) as e:\n                    failures[var] = e',
         '                except (Exception, marcel.exception.KillCommandException) as e:\n                    failures[var] = e\n                    scope.delete(var)', 'unrestorable variable forgotten'),
        ('marcel/nestednamespace.py', '        elif is_pipeline(value):\n            ev',
         '        elif is_pipeline(value) and source is not None:\n            ev', 'pipeline pickled'),
        ('marcel/nestednamespace.py', '    def reconstitute(self):\n        return marcel.util.import_module(self.module_name)',
         '    def reconstitute(self):\n        return sys.modules.get(self.module_name)', 'module looked up instead of imported'),
        ('marcel/nestednamespace.py', '        self.module_name = function.__module__\n',
         "        self.module_name = 'builtins'\n", 'module of a function not saved'),
        ('marcel/nestednamespace.py', "return {'module': self.module, 'symbol': self.symbol, 'name': self.name}", "return {'module': self.module, 'name': self.name}", 'symbol not saved'),
        ('marcel/nestednamespace.py', "        self.function_name = persisted['function_name']", "        self.module_name = persisted['function_name']", 'restored into the wrong attribute'),
        ('marcel/nestednamespace.py', "elif classname == 'CompilablePipeline':\n            value = CompilablePipeline(env)", "elif classname == 'CompilablePipeline':\n            value = CompilableFunction(env)", 'pipeline restored as a function'),
        ('marcel/object/workspace.py', "'save_time': self.save_time}", "'save_time': self.open_time}", 'wrong attribute saved'),
        ('marcel/env.py', "namespace = state['namespace']", "namespace = {}", 'namespace ignored'),
        ('marcel/object/file.py', "            self.base = pathlib.Path(self.base_str)\n", '            pass\n', 'base not restored'),
    ],
}
