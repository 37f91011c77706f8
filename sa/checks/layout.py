"""W04: upgrading the storage layout."""
import ast
import itertools

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate, Frame, test_key
from ..paths import arg_for, call_sites, effect

META = {
    'W04': {
        'explanation': 'The chain of storage layouts is read off the classes: which layouts are tried, in which order, which layout each migration expects '
                       'to reach. Each migration is executed abstractly along all paths, every path expression being '
                       'resolved (through locals, parameters of helpers, loop variables) to a symbolic path; the resulting sequences of effects '
                       'on the file system are checked against the rules that make an interrupted migration resumable: the effect by '
                       'which the next layout is recognised comes last, sources that may have been moved already are tested for, '
                       'files are complete when they appear, nothing is removed that was not copied, and everything the '
                       'old layout has is moved.',
        'assumptions': ['what each released version of marcel stored, and where (OLD in this file)',
                        'renaming within one of the directories (config, data) is atomic; moving between file systems is not'],
    },
}

# What the layouts before the current one kept: {layout: [(old place, new place)]}. home, config and data are directories of the user.
OLD = {
    'original': [('home/.marcel.py', 'config/startup.py'), ('home/.marcel_history', 'data/history')],
    'ws1': [('data/history', 'data/__DEFAULT_WORKSPACE__/history'), ('data/reservoirs', 'data/__DEFAULT_WORKSPACE__/reservoirs'),
            ('config/startup.py', 'config/__DEFAULT_WORKSPACE__/startup.py')],
    'ws2': [('data/__DEFAULT_WORKSPACE__', 'data/workspace/__DEFAULT__'), ('config/__DEFAULT_WORKSPACE__', 'config/workspace/__DEFAULT__'),
            ('data/*', 'data/workspace/*'), ('config/*', 'config/workspace/*')],
}
MARKERS = ('.WORKSPACE',)
# Where the current layout keeps what earlier versions with the same layout have written: {method of Locations: file}
NOW = {
    'config': 'config_base/marcel', 'data': 'data_base/marcel', 'config_ws': 'config_base/marcel/workspace', 'data_ws': 'data_base/marcel/workspace',
    'config_ws_startup': 'config_base/marcel/workspace/startup.py', 'config_version': 'config_base/marcel/VERSION',
    'data_ws_prop': 'data_base/marcel/workspace/properties.pickle', 'data_ws_env': 'data_base/marcel/workspace/env.pickle',
    'data_ws_hist': 'data_base/marcel/workspace/history', 'data_ws_res': 'data_base/marcel/workspace/reservoirs',
    'workspace_dir_name': '__DEFAULT__',
}
ITER = ('iterdir', 'glob', 'rglob', 'scandir', 'listdir')


class Sym:
    """symbolic paths"""

    def __init__(self, p, base):
        self.p = p
        self.base = base
        self.loops = {}         # placeholder -> [constants] | None

    def path(self, e, fr, depth=0):
        """set of symbolic paths"""
        p = self.p
        if depth > 25:
            return set()
        if isinstance(e, ast.Name):
            f = fr
            # the frame that owns the name
            while f is not None:
                fn = f.func
                lps = [n for n in own_nodes(fn.node) if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name) and n.target.id == e.id]
                if lps:
                    out = set()
                    for lp in lps:
                        out |= self.loopvar(lp, e.id, f, depth)
                    return out
                vs = [v for v in fn.local_assigns().get(e.id, []) if isinstance(v, ast.AST)]
                if vs:
                    out = set()
                    for v in vs:
                        if any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(v)):
                            continue
                        out |= self.path(v, f, depth + 1)
                    return out
                if e.id in fn.params:
                    if f.caller is not None and isinstance(f.site, ast.Call):
                        a = arg_for(fn, f.site, e.id)
                        return self.path(a, f.caller, depth + 1) if a is not None else set()
                    return {e.id} if e.id != fn.self_name() else set()
                # enclosing function
                up = f.caller
                while up is not None and up.func is not fn.parent:
                    up = up.caller
                f = up
            m = p.resolve_global(e, fr.func.module, fr.func.cls)
            return self.const(m, e)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return {e.value}
        if isinstance(e, ast.JoinedStr):
            parts = []
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    parts.append(self.path(v.value, fr, depth + 1) or {'?'})
                else:
                    parts.append({v.value})
            return {''.join(x) for x in itertools.product(*parts)}
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
            return {f'{a}/{b}' for a in self.path(e.left, fr, depth + 1) for b in self.path(e.right, fr, depth + 1)}
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return {f'{a}{b}' for a in self.path(e.left, fr, depth + 1) for b in self.path(e.right, fr, depth + 1)}
        if isinstance(e, ast.IfExp):
            return self.path(e.body, fr, depth + 1) | self.path(e.orelse, fr, depth + 1)
        if isinstance(e, ast.Attribute):
            if e.attr == 'name':
                return {x.rsplit('/', 1)[-1] for x in self.path(e.value, fr, depth + 1)}
            if e.attr == 'parent':
                return {x.rsplit('/', 1)[0] for x in self.path(e.value, fr, depth + 1) if '/' in x}
            if e.attr in ('config_base', 'data_base'):
                return {e.attr}
            if isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls') or isinstance(e.value, ast.Name) and e.attr in ('home', 'config', 'data', 'config_base', 'data_base'):
                if e.attr in ('home', 'config', 'data'):
                    return {e.attr}
                # another attribute: what it is assigned
                c = fr.cls or fr.func.cls
                if c is not None:
                    out = set()
                    for g, v in c.all_attr_assigns(e.attr):
                        if isinstance(v, ast.AST):
                            out |= self.path(v, Frame(g, c), depth + 1)
                    if out:
                        return {x.replace('config_base/marcel', 'config').replace('data_base/marcel', 'data') for x in out}
                    for k in c.mro():
                        if isinstance(k, ClassInfo):
                            v = k.find_attr(e.attr)
                            if isinstance(v, ast.AST):
                                return self.path(v, fr, depth + 1)
                return {e.attr}
            m = p.resolve_global(e, fr.func.module, fr.func.cls)
            return self.const(m, e)
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Attribute) and fn.attr in ('with_name',) and e.args:
                return {f"{x.rsplit('/', 1)[0]}/{n}" for x in self.path(fn.value, fr, depth + 1) for n in self.path(e.args[0], fr, depth + 1)}
            if isinstance(fn, ast.Attribute) and fn.attr == 'with_suffix' and e.args:
                return {f'{x}{n}' for x in self.path(fn.value, fr, depth + 1) for n in self.path(e.args[0], fr, depth + 1)}
            if isinstance(fn, ast.Attribute) and fn.attr == 'joinpath':
                out = self.path(fn.value, fr, depth + 1)
                for a in e.args:
                    out = {f'{x}/{n}' for x in out for n in self.path(a, fr, depth + 1)}
                return out
            if isinstance(fn, ast.Attribute) and fn.attr in ('resolve', 'absolute', 'expanduser', 'as_posix'):
                return self.path(fn.value, fr, depth + 1)
            nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ''
            if nm in ('Path', 'PurePath', 'str', 'fspath') and e.args:
                return self.path(e.args[0], fr, depth + 1)
            if nm == 'join' and e.args and dotted(fn) == 'os.path.join':
                out = self.path(e.args[0], fr, depth + 1)
                for a in e.args[1:]:
                    out = {f'{x}/{n}' for x in out for n in self.path(a, fr, depth + 1)}
                return out
            if nm == 'ensure_dir_exists' and e.args:
                return self.path(e.args[0], fr, depth + 1)
            out = set()
            for t in p.callees(e, fr.func, fr.cls):
                if isinstance(t, FuncInfo):
                    for n in own_nodes(t.node):
                        if isinstance(n, ast.Return) and n.value is not None:
                            g = Frame(t, t.cls if fr.cls is None or t.cls is None or not fr.cls.derives(t.cls) else fr.cls, caller=fr, site=e)
                            out |= self.path(n.value, g, depth + 1)
            return out
        return set()

    def const(self, m, e):
        if isinstance(m, ast.Constant) and isinstance(m.value, str):
            return {m.value}
        v = getattr(m, 'value', None)
        if isinstance(v, ast.Constant) and isinstance(v.value, str):
            return {v.value}
        return set()

    def loopvar(self, lp, name, fr, depth):
        it = lp.iter
        if isinstance(it, ast.Name):
            vs = [v for v in fr.func.local_assigns().get(it.id, []) if isinstance(v, ast.AST)]
            if len(vs) == 1:
                it = vs[0]
            else:
                r = self.p.resolve_global(it, fr.func.module, fr.func.cls)
                it = r if isinstance(r, ast.AST) else it
        if isinstance(it, ast.IfExp):
            it = it.body
        if isinstance(it, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) for x in it.elts):
            key = f'<{name}>'
            self.loops[key] = [str(x.value) for x in it.elts]
            return {key}
        if isinstance(it, (ast.Tuple, ast.List)):
            out = set()
            for x in it.elts:
                out |= self.path(x, fr, depth + 1)
            return out
        while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('sorted', 'list', 'tuple', 'set', 'reversed') and it.args:
            it = it.args[0]
        if isinstance(it, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            it = it.generators[0].iter
        if isinstance(it, ast.Call):
            if isinstance(it.func, ast.Attribute) and it.func.attr in ITER:
                return {f'{x}/*' for x in self.path(it.func.value, fr, depth + 1)}
            if it.args:
                return {f'{x}/*' for x in self.path(it.args[0], fr, depth + 1)}
        return set()

    def expand(self, *paths):
        """tuples of paths with loop variables over constants replaced"""
        keys = [k for k in self.loops if any(k in x for x in paths)]
        if not keys:
            return [tuple(paths)]
        out = []
        for combo in itertools.product(*[self.loops[k] for k in keys]):
            t = []
            for x in paths:
                for k, v in zip(keys, combo):
                    x = x.replace(k, v)
                t.append(x)
            out.append(tuple(t))
        return out


def required(p, sym, f, cls):
    """paths whose existence match() requires"""
    out = set()
    fr = Frame(f, cls)
    neg = set()
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('exists', 'is_file', 'is_dir'):
            out |= sym.path(n.func.value, fr)
    return out - neg


class MigrateTS(Typestate):
    """state (known, created, copies, moved, removed_ident): frozensets of symbolic paths"""
    max_depth = 5
    track_exc = False

    def __init__(self, p, sym, cls, mine, ident):
        super().__init__(p)
        self.sym = sym
        self.wcls = cls
        self.mine = mine
        self.ident = ident
        self.viol = []
        self.effects = 0
        self.moves = set()
        self.identified = 0

    def relevant(self, t):
        return t.module is self.wcls.module and t.name not in ('storage_layout', 'ensure_current', 'match', 'layout', '__init__', 'subdirs')

    def on_test(self, test, truth, st, fr):
        known, made, copies, ids = st
        e = test
        pol = truth
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, pol = e.operand, not pol
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('exists', 'is_file', 'is_dir'):
            ps = self.sym.path(e.func.value, fr)
            if len(ps) == 1 and (ps <= known and not pol or pol and all(f'!{x}' in known for x in ps)):
                return None
            if pol:
                return (known | ps, made, copies, ids)
            return (known - ps | {f'!{x}' for x in ps}, made, copies, ids)
        return st

    def on_test_call(self, call, targets, truth, st, fr):
        return self.on_test(call, truth, st, fr)

    def say(self, rule, call, fr, msg):
        self.viol.append((rule, call, fr, msg))

    def make(self, st, dst):
        """something appears at dst"""
        known, made, copies, ids = st
        hit = {x for x in self.ident if x in dst}
        return (known - {f'!{x}' for x in dst} | dst, made | dst, copies, ids | hit)

    def complete(self, st):
        return bool(self.ident) and self.ident <= st[3]

    def on_call(self, call, targets, st, fr):
        ef = effect(call)
        nm = call.func.attr if isinstance(call.func, ast.Attribute) else getattr(call.func, 'id', '')
        if ef is None and nm in ('move', 'copy', 'copy2', 'copyfile', 'copytree', 'rmtree', 'replace', 'rename', 'unlink', 'remove', 'rmdir') and \
                any(isinstance(t, str) and t.split('.')[0] in ('shutil', 'os') for t in targets):
            ef = (nm, list(call.args[:2]))
        if ef is None:
            return None
        if any(isinstance(t, FuncInfo) for t in targets):
            return None
        kind, es = ef
        if kind in ('chmod',):
            return [st]
        known, made, copies, ids = st
        self.effects += 1
        ps = [self.sym.path(x, fr) for x in es]
        src = ps[0]
        kw = {k.arg: k.value for k in call.keywords}

        def true(name):
            v = kw.get(name)
            return isinstance(v, ast.Constant) and v.value is True

        def late(what):
            if self.complete(st):
                self.say('last', call, fr, f'{what} after the step by which the next layout is recognised: if the upgrade stops in between, it is never done')

        def there(x):
            """certainly present: tested for, made by this upgrade, what the layout is recognised by, or found by listing"""
            if x in known or x.endswith('/*') or '*' in x.rsplit('/', 2)[-2:][0]:
                return True
            if x in self.mine and f'!{x}' not in known:
                return True
            return False

        if kind == 'mkdir' or kind == 'makedirs':
            if not (true('exist_ok') or all(f'!{x}' in known for x in src)):
                self.say('again', call, fr, 'a directory is created although an interrupted upgrade may have created it')
            return [self.make(st, src)]
        if kind == 'touch':
            late('a file is created')
            if any(k.arg == 'exist_ok' and isinstance(k.value, ast.Constant) and k.value.value is False for k in call.keywords):
                self.say('again', call, fr, 'a file is created although an interrupted upgrade may have created it')
            return [self.make(st, src)]
        if kind in ('rename', 'replace', 'renames') or kind == 'move':
            dst = ps[1] if len(ps) > 1 else set()
            late('files are moved')
            if kind == 'move':
                self.say('complete', call, fr, 'files are moved by copying, so that an incomplete file can be found in the new place')
            if not all(there(x) for x in src):
                self.say('again', call, fr, 'a file is moved without testing for it, although an interrupted upgrade may have moved it already')
            pairs = set()
            for a in src:
                for b in dst:
                    pairs |= set(self.sym.expand(a, b))
            # what the source was a copy of
            nc = set(copies)
            for a, b in copies:
                if a in src:
                    for d in dst:
                        pairs |= set(self.sym.expand(b, d))
                        nc.add((d, b))
                        nc.discard((a, b))
                        nc.add(('done', b))
            opened = {x for x in src if ('open', x) in copies}
            for x in opened:
                self.say('complete', call, fr, 'a file is put in its place while it is still being written')
            self.moves |= pairs
            for x in src:
                for y in made | known:
                    # a directory made by this upgrade is moved with what was moved into it
                    if y.startswith(x + '/'):
                        for d in dst:
                            for a, b in list(self.moves):
                                if b.startswith(x + '/'):
                                    self.moves.add((a, d + b[len(x):]))
            for x in src:
                for a, b in list(self.moves):
                    for (b2,) in [(b,)]:
                        if b2.startswith(x + '/'):
                            for d in dst:
                                self.moves.add((a, d + b2[len(x):]))
            return [self.make((known - src, made - src, frozenset(nc), ids), dst)]
        if kind in ('copy', 'copy2', 'copyfile', 'copytree'):
            dst = ps[1] if len(ps) > 1 else set()
            late('files are copied')
            if not all(there(x) for x in src):
                self.say('again', call, fr, 'a file is copied without testing for it, although an interrupted upgrade may have removed it already')
            if dst & self.ident:
                self.say('complete', call, fr, 'the file by which the next layout is recognised is copied in place, so that an incomplete one is taken for it')
            nc = set(copies) | {(d, s) for d in dst for s in src} | {('inplace', d) for d in dst}
            return [self.make((known, made, frozenset(nc), ids), dst)]
        if kind in ('unlink', 'remove', 'rmdir', 'rmtree', 'removedirs'):
            for x in src:
                if x.rsplit('/', 1)[-1] in MARKERS or x in made:
                    continue
                if kind == 'rmdir':
                    continue
                if ('done', x) in copies:
                    continue
                if any(s == x for d, s in copies if d not in ('done', 'inplace', 'open')):
                    self.say('complete', call, fr, 'a file is removed when its copy is not yet in its place')
                else:
                    self.say('lost', call, fr, 'a file of the old layout is removed without having been copied')
            if not true('missing_ok') and not all(there(x) for x in src) and kind in ('unlink', 'remove'):
                self.say('again', call, fr, 'a file is removed without testing for it, although an interrupted upgrade may have removed it already')
            return [(known - src | {f'!{x}' for x in src if '*' not in x and '<' not in x}, made - src, copies, ids)]
        if kind in ('open', 'write_text', 'write_bytes'):
            late('a file is written')
            nc = set(copies) | {('written', x) for x in src}
            return [self.make((known, made, frozenset(nc), ids), src)]
        return [st]

    def on_with(self, expr, phase, st, fr, targets):
        if isinstance(expr, ast.Call) and effect(expr) and effect(expr)[0] == 'open':
            src = self.sym.path(effect(expr)[1][0], fr)
            if phase == 'enter':
                s = (self.on_call(expr, targets, st, fr) or [st])[0]
                return [(s[0], s[1], s[2] | {('open', x) for x in src}, s[3])]
            return [(st[0], st[1], frozenset(c for c in st[2] if not (c[0] == 'open' and c[1] in src)), st[3])]
        return None


def check_W04(ctx):
    p = ctx.p
    base = p.cls('StorageLayout')
    mod = base.module
    ctx.rule('chain', 'every layout leads, by a complete chain of upgrades, to the current one')
    ctx.rule('tried', 'every layout is tried, newer layouts before older ones')
    ctx.rule('driver', 'upgrades are made until the current layout is reached')
    ctx.rule('last', 'the effect by which the next layout is recognised is the last one')
    ctx.rule('again', 'an upgrade that was interrupted can be done again')
    ctx.rule('complete', 'a file is complete when it appears in its new place')
    ctx.rule('lost', 'nothing is removed that was not copied before')
    ctx.rule('places', 'what is upgraded is where marcel keeps its files, and what comes out of it is where the current version looks')
    ctx.rule('all', 'upgrades go through all workspaces')
    ctx.rule('kept', 'a file is written anew only if it was found not to have the new format')
    ctx.rule('moved', 'everything an old layout kept is moved to its new place')
    subs = [c for c in p.subclasses(base) if c is not base]
    layouts = [c for c in subs if c.find('migrate') is not None and c.find('migrate').cls is not base]
    ids = {}
    for c in layouts:
        k = const_return(p, c, 'layout')
        if k is None:
            raise AnalysisBroken(f'the identity of layout {c.qualname} is not a constant')
        if k in ids:
            ctx.bad('chain', f'{c.qualname}:id', c, f'two layouts are called {k}')
        ids[k] = c
    ctx.count('layouts', len(layouts))
    ctx.need('layouts', 3)
    # order
    det = detector(p, mod, layouts)
    if det is None:
        raise AnalysisBroken('the function that tries the layouts was not found')
    f, order = det
    for c in layouts:
        if c not in order:
            ctx.bad('tried', c.qualname, f, f'layout {c.name} is never recognised')
        else:
            ctx.ok('tried', c.qualname)
    nxt = {}
    for c in layouts:
        m = c.find('migrate')
        n = expects(p, m, ids, c)
        nxt[c] = n
    last = [c for c in layouts if nxt[c] is None]
    if len(last) != 1:
        raise AnalysisBroken(f'{len(last)} final layouts')
    for c in layouts:
        seen = []
        x = c
        while x is not None and x not in seen:
            seen.append(x)
            x = nxt.get(x)
        if x is not None or seen[-1] is not last[0]:
            ctx.bad('chain', c.qualname, c.find('migrate'), f'the upgrades starting at layout {c.name} do not lead to the current layout')
        else:
            ctx.ok('chain', c.qualname, ' -> '.join(const_return(p, y, 'layout') for y in seen))
        n = nxt[c]
        if n is not None and c in order and n in order:
            if order.index(n) > order.index(c):
                ctx.bad('tried', f'{c.qualname}:order', f, f'layout {c.name} is tried before the newer {n.name}: an upgrade whose cleanup was interrupted is repeated for ever or fails')
            else:
                ctx.ok('tried', f'{c.qualname}:order')
    _driver(ctx, p, mod)
    _current(ctx, p, mod)
    # effects
    sym = Sym(p, base)
    _places(ctx, p, sym, base, layouts)
    _all(ctx, p, mod, sym)
    total = 0
    for c in layouts:
        if nxt[c] is None:
            continue
        m = c.find('migrate')
        n = nxt[c]
        mine = required(p, sym, c.find('match'), c)
        ident = required(p, sym, n.find('match'), n) - mine
        # a directory is there if what is in it is there
        ident = {x for x in ident if not any(y.startswith(x + '/') for y in ident | mine)}
        ts = MigrateTS(p, sym, c, mine, ident)
        o = ts.run_function(m, c, (frozenset(mine), frozenset(), frozenset(), frozenset()))
        total += ts.effects
        seen = set()
        for rule, call, fr, msg in ts.viol:
            key = f'{c.qualname}:{fr.func.name}'
            if (rule, key) in seen:
                continue
            seen.add((rule, key))
            ctx.bad(rule, key, fr.func, f'upgrade from {const_return(p, c, "layout")}: {msg}', call)
        for rule in ('last', 'again', 'complete', 'lost'):
            if not any(r == rule for r, k in seen):
                ctx.ok(rule, c.qualname)
        # files put in place without having been complete
        ip = {d for (st, fa, rv) in o['ret'] for k, d in st[2] if k in ('inplace', 'written')}
        for d in sorted(ip):
            if not any(a != b and (a == d or a in sym_expand1(sym, d)) for a, b in ts.moves):
                ctx.bad('complete', f'{c.qualname}:{d}', m, f'upgrade from {const_return(p, c, "layout")}: {d} is written in place, so that an interrupted upgrade leaves an incomplete file')
        if ident:
            un = [l for (st, fa, rv), l in o['ret'].items() if not ident <= st[3] | {x for x in ident if x in st[0]}]
            if un:
                ctx.bad('chain', f'{c.qualname}:reached', m, f'the upgrade from {const_return(p, c, "layout")} can end without what the next layout is recognised by', un[0])
            else:
                ctx.ok('chain', f'{c.qualname}:reached')
        for a, b in OLD.get(const_return(p, c, 'layout'), []):
            ctx.count('things an old layout kept')
            if not any(x == a and y == b for x, y in ts.moves):
                ctx.bad('moved', f'{c.qualname}:{a}', m, f'upgrade from {const_return(p, c, "layout")}: {a} is not moved to {b}')
            else:
                ctx.ok('moved', f'{c.qualname}:{a}')
    ctx.count('effects on the file system', total)
    ctx.need('effects on the file system', 8)


class CurrentTS(Typestate):
    """state: the layout has been brought up to date"""
    max_depth = 6
    track_exc = True

    def __init__(self, p, drivers, makes, reach):
        super().__init__(p)
        self.drivers = drivers
        self.makes = makes
        self.reach = reach
        self.viol = []

    def relevant(self, t):
        return t in self.reach

    def may_raise(self, call, targets, fr):
        return False

    def on_call(self, call, targets, st, fr):
        if any(t in self.drivers for t in targets):
            return [True]
        if self.makes(call, targets):
            if not st:
                self.viol.append((call, fr))
            return [st]
        return None


def _current(ctx, p, mod):
    """an environment is made only when the layout is the current one"""
    ctx.rule('current', 'every entry point brings the layout up to date before it makes an environment')
    base = p.cls('Environment')
    drivers = {f for f in p.functions if f.module is mod and f.cls is None and any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'migrate' for n in own_nodes(f.node))}

    def makes(call, targets):
        if any(k.arg == 'attach' and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in call.keywords):
            return False
        return any(isinstance(t, FuncInfo) and t.cls is not None and t.cls.derives(base) and t.name == 'create' for t in targets)

    def up(fs):
        seen, todo = set(fs), list(fs)
        while todo:
            for call, g in call_sites(p, todo.pop()):
                if g not in seen:
                    seen.add(g)
                    todo.append(g)
        return seen

    creators = []
    for f in p.functions:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'create' and makes(n, p.callees(n, f, f.cls)) and f not in creators:
                creators.append(f)
    reach = up(drivers) | up(creators)
    todo, seen = list(creators), set(creators)
    while todo:
        f = todo.pop(0)
        ts = CurrentTS(p, drivers, makes, reach)
        ts.run_function(f, f.cls, False)
        ctx.count('functions that make an environment')
        if not ts.viol:
            ctx.ok('current', f.qualname)
            continue
        sites = [g for c, g in call_sites(p, f)]
        if not sites:
            call, fr = ts.viol[0]
            ctx.bad('current', f.qualname, f, f'an environment is made without the layout having been brought up to date ({fr.func.name})', call)
        for g in sites:
            if g not in seen:
                seen.add(g)
                todo.append(g)
    ctx.need('functions that make an environment', 3)


def sym_expand1(sym, d):
    return {x[0] for x in sym.expand(d)}


def const_return(p, c, name):
    m = c.find(name)
    if m is None:
        return None
    for n in own_nodes(m.node):
        if isinstance(n, ast.Return):
            v = n.value
            if isinstance(v, ast.Constant):
                return v.value
            if isinstance(v, (ast.Attribute, ast.Name)):
                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id in ('self', 'cls', c.name):
                    a = c.find_attr(v.attr)
                    a = getattr(a, 'value', a) if not isinstance(a, ast.Constant) else a
                    if isinstance(a, ast.Constant):
                        return a.value
                r = p.resolve_global(v, m.module, c)
                r = getattr(r, 'value', None) if not isinstance(r, ast.Constant) else r
                if isinstance(r, ast.Constant):
                    return r.value
                vs = m.local_assigns().get(v.id, []) if isinstance(v, ast.Name) else []
                if len(vs) == 1 and isinstance(vs[0], ast.Constant):
                    return vs[0].value
    return None


def detector(p, mod, layouts):
    """(function, [classes in the order in which they are tried])"""
    by = {c.name: c for c in layouts}
    best = None
    for f in p.functions:
        if f.module is not mod:
            continue
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'match' for n in own_nodes(f.node)):
            continue
        seqs = [n for n in own_nodes(f.node) if isinstance(n, (ast.Tuple, ast.List))]
        for n in own_nodes(f.node):
            if isinstance(n, ast.For) and isinstance(n.iter, (ast.Name, ast.Attribute)):
                r = p.resolve_global(n.iter, mod)
                r = r if isinstance(r, ast.AST) else getattr(r, 'value', None)
                if isinstance(r, (ast.Tuple, ast.List)):
                    seqs.append(r)
        for s in seqs:
            cs = []
            for x in s.elts:
                x = x.func if isinstance(x, ast.Call) else x
                nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
                if nm in by:
                    cs.append(by[nm])
            # reversed iteration
            if cs and (best is None or len(cs) > len(best[1])):
                rev = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'reversed' for n in own_nodes(f.node))
                best = (f, cs[::-1] if rev else cs)
        if best is None:
            cs = [(n.lineno, by[n.func.id]) for n in own_nodes(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in by]
            if cs:
                best = (f, [c for _, c in sorted(cs, key=lambda x: x[0])])
    return best


def expects(p, m, ids, cls):
    """the layout a migration leads to; None for the last one"""
    consts = []
    for n in own_nodes(m.node):
        if isinstance(n, ast.Compare) and len(n.comparators) == 1:
            for x in (n.left, n.comparators[0]):
                if isinstance(x, ast.Constant) and x.value in ids:
                    consts.append(ids[x.value])
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Call):
            nm = n.value.func.id if isinstance(n.value.func, ast.Name) else None
            for c in ids.values():
                if c.name == nm:
                    consts.append(c)
        if isinstance(n, ast.Call):
            for a in n.args:
                if isinstance(a, ast.Constant) and isinstance(a.value, str) and a.value in ids and not isinstance(n.func, ast.Attribute):
                    consts.append(ids[a.value])
                elif isinstance(a, ast.Constant) and isinstance(a.value, str) and a.value in ids and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.value.id in ('self', 'StorageLayout'):
                    consts.append(ids[a.value])
    cs = {c for c in consts if c is not cls}
    if len(cs) == 1:
        return cs.pop()
    if cs:
        raise AnalysisBroken(f'{m.qualname}: more than one next layout')
    if consts:
        return cls
    rets = [n for n in own_nodes(m.node) if isinstance(n, ast.Return)]
    if rets and all(r.value is None or isinstance(r.value, ast.Constant) and r.value.value is None for r in rets) or not rets:
        return None
    raise AnalysisBroken(f'{m.qualname}: the next layout is not stated')


def _driver(ctx, p, mod):
    k = 0
    for f in p.functions:
        if f.module is not mod or f.cls is not None:
            continue
        calls = [n for n in own_nodes(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'migrate']
        if not calls:
            continue
        k += 1
        loops = [n for n in own_nodes(f.node) if isinstance(n, ast.While) and any(c in list(ast.walk(n)) for c in calls)]
        ok = False
        for lp in loops:
            if any(isinstance(s, ast.Break) for b in lp.body for s in ast.walk(b)) and not (isinstance(lp.test, ast.Constant)):
                continue
            for n in ast.walk(lp):
                if isinstance(n, ast.Assign) and n.value in calls and isinstance(n.value.func.value, ast.Name) and any(
                        isinstance(t, ast.Name) and (t.id == n.value.func.value.id or aliases(lp, t.id, n.value.func.value.id)) for t in n.targets):
                    ok = True
                if isinstance(n, ast.NamedExpr) and n.value in calls:
                    ok = True
        recursive = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.name for n in own_nodes(f.node))
        # whether it is made depends on the layout that was found, and on what the caller asks for
        layouts = {k for k, vs in f.local_assigns().items() for v in vs if isinstance(v, ast.Call) and (v in calls or any(
            isinstance(t, FuncInfo) and t.module is mod and t.cls is None and any(isinstance(x, ast.Attribute) and x.attr == 'match' for x in own_nodes(t.node))
            for t in p.callees(v, f, None)))}
        for _ in range(3):
            layouts |= {k for k, vs in f.local_assigns().items() for v in vs if isinstance(v, ast.AST) and any(
                isinstance(x, ast.Name) and x.id in layouts for x in ast.walk(v))}
        other = None
        for c in calls:
            for t in _conditions(f, c):
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and x.id not in layouts and x.id not in f.params and isinstance(x.ctx, ast.Load) and x.id not in ('isinstance', 'type', 'len'):
                        r = p.resolve_global(x, mod)
                        if not isinstance(r, ClassInfo) and not (isinstance(r, str) or r is None and x.id in mod.imports):
                            other = other or t
                        elif isinstance(t, ast.Compare) and not any(isinstance(y, ast.Name) and y.id in layouts for y in ast.walk(t)):
                            other = other or t
        if other is not None:
            ctx.bad('driver', f'{f.qualname}:condition', f, f'whether the upgrade is made depends on {ast.unparse(other)}, not on the layout that was found', other)
        if ok or recursive:
            ctx.ok('driver', f.qualname)
        else:
            ctx.bad('driver', f.qualname, f, 'only one upgrade is made, although the layout it leads to may not be the current one', calls[0])
    ctx.count('drivers of the upgrade', k)
    ctx.need('drivers of the upgrade', 1)


def _conditions(f, node):
    """the tests that node depends on, in function f: those it is nested in, and those of earlier exits"""
    out = []

    def has(s):
        return any(x is node for x in ast.walk(s))

    def leaves(stmts):
        return any(isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break)) for s in stmts for x in ast.walk(s) if not isinstance(x, ast.FunctionDef))

    def walk(stmts):
        for s in stmts:
            if has(s):
                if isinstance(s, (ast.If, ast.While)):
                    out.append(s.test)
                    walk(s.body if any(has(x) for x in s.body) else s.orelse)
                elif isinstance(s, (ast.For, ast.With)):
                    walk(s.body)
                elif isinstance(s, ast.Try):
                    walk(s.body + s.orelse + s.finalbody + [x for h in s.handlers for x in h.body])
                else:
                    for x in ast.walk(s):
                        if isinstance(x, ast.IfExp) and (has(x.body) or has(x.orelse)):
                            out.append(x.test)
                        if isinstance(x, ast.BoolOp) and any(has(v) for v in x.values[1:]):
                            out.extend(x.values[:1])
                return
            if isinstance(s, ast.If) and leaves(s.body + s.orelse):
                out.append(s.test)
    walk(f.body)
    return out


def _places(ctx, p, sym, base, layouts):
    L = p.cls('Locations')
    got = {}
    for name, want in NOW.items():
        m = L.find(name)
        if not isinstance(m, FuncInfo):
            continue
        vals = set()
        for n in own_nodes(m.node):
            if isinstance(n, ast.Return) and n.value is not None:
                vals |= sym.path(n.value, Frame(m, L))
        got[name] = vals
        ctx.count('places of the current layout', 1)
        if vals and not any(v == want for v in vals) and not any('?' in v for v in vals):
            ctx.bad('places', name, m, f'{m.qualname} is {" or ".join(sorted(vals))}, but what earlier versions of marcel have written is at {want}', m.node)
        else:
            ctx.ok('places', name)
    # the directories that upgrades work on
    for attr in ('config', 'data'):
        want = got.get(attr)
        for g, v in base.all_attr_assigns(attr):
            vals = sym.path(v, Frame(g, base)) if isinstance(v, ast.AST) else set()
            if want and vals and not vals <= want:
                ctx.bad('places', f'{base.qualname}.{attr}', g, f'upgrades work on {" or ".join(sorted(vals))}, but marcel keeps its files in {" or ".join(sorted(want))}', v)
            else:
                ctx.ok('places', f'{base.qualname}.{attr}')


def _reads(p, f, depth=0, seen=None):
    """does f look at the contents of a file"""
    seen = seen if seen is not None else set()
    if f in seen or depth > 3:
        return False
    seen.add(f)
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
            if nm in ('readline', 'read', 'readlines', 'read_text', 'read_bytes'):
                return True
            if any(isinstance(t, FuncInfo) and _reads(p, t, depth + 1, seen) for t in p.callees(n, f, f.cls)):
                return True
    return False


def _all(ctx, p, mod, sym):
    fs = [f for f in p.functions if f.module is mod]
    listers = {f for f in fs if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ITER for n in own_nodes(f.node))}

    def lists(e, f, depth=0):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ITER:
                    return True
                if any(t in listers for t in p.callees(n, f, f.cls)):
                    return True
            if isinstance(n, ast.Name) and depth < 3 and any(isinstance(v, ast.AST) and lists(v, f, depth + 1) for v in f.local_assigns().get(n.id, [])):
                return True
        return False
    n = 0
    for f in sorted(fs, key=lambda f: f.qualname):
        for lp in own_nodes(f.node):
            if not isinstance(lp, (ast.For, ast.comprehension)) or not lists(lp.iter, f) or not isinstance(lp.target, ast.Name):
                continue
            n += 1
            key = f.qualname
            var = lp.target.id
            names = {var}
            for k, vs in f.local_assigns().items():
                if any(isinstance(v, ast.AST) and any(isinstance(x, ast.Name) and x.id == var for x in ast.walk(v)) for v in vs):
                    names.add(k)

            def derived(e):
                return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))
            tests = list(lp.ifs) if isinstance(lp, ast.comprehension) else [x.test for b in lp.body for x in ast.walk(b) if isinstance(x, (ast.If, ast.IfExp))]
            if isinstance(lp, ast.For):
                for b in lp.body:
                    if any(isinstance(x, ast.Break) for x in ast.walk(b)) and f.name not in ('match',):
                        ctx.bad('all', f'{key}:{var}:break', f, 'not all workspaces are dealt with', b)
            bad = None
            for t in tests:
                for a in atoms(t):
                    if not derived(a):
                        continue
                    if isinstance(a, ast.Compare):
                        if all(isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in a.ops):
                            continue
                    elif isinstance(a, ast.Name):
                        continue
                    elif isinstance(a, ast.Call):
                        if isinstance(a.func, ast.Attribute) and a.func.attr == 'is_dir' and isinstance(a.func.value, ast.Name):
                            continue
                        if any(isinstance(x, FuncInfo) and _reads(p, x) for x in p.callees(a, f, f.cls)):
                            continue        # its format is looked at
                    bad = bad or a
            if bad is not None:
                ctx.bad('all', f'{key}:{var}', f, f'workspaces are left out, depending on {ast.unparse(bad)}', bad)
            else:
                ctx.ok('all', f'{key}:{var}')
        # a layout is recognised only if all of its workspaces have it
        if f.name == 'match':
            for x in own_nodes(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'any' and x.args and isinstance(x.args[0], (ast.GeneratorExp, ast.ListComp)) and \
                        lists(x.args[0].generators[0].iter, f) and not negated(f, x):
                    ctx.bad('all', f'{f.qualname}:any', f, 'the layout is recognised although not all workspaces have it', x)
        # what is written anew
        if f.name == 'migrate' or any(isinstance(x, ast.Name) for x in ()):
            for x in own_nodes(f.node):
                if not (isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == 'open' or isinstance(x.func, ast.Attribute) and x.func.attr in ('write_text', 'open'))):
                    continue
                modes = [a.value for a in x.args + [k.value for k in x.keywords] if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                if isinstance(x.func, ast.Attribute) and x.func.attr == 'write_text' or any(m[:1] in ('w', 'a') for m in modes if len(m) <= 3):
                    conds = _conditions(f, x)
                    looked = any(isinstance(y, ast.Call) and any(isinstance(t, FuncInfo) and _reads(p, t) for t in p.callees(y, f, f.cls))
                                 for t in conds for z in [t] + [v for q in ast.walk(t) if isinstance(q, ast.Name) for v in f.local_assigns().get(q.id, []) if isinstance(v, ast.AST)]
                                 for y in ast.walk(z))
                    if looked:
                        ctx.ok('kept', f.qualname)
                    else:
                        ctx.bad('kept', f.qualname, f, 'a file is written anew without having been found to be in the old format', x)
    ctx.count('loops over workspaces', n)


def atoms(t):
    if isinstance(t, ast.BoolOp):
        return [a for v in t.values for a in atoms(v)]
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return atoms(t.operand)
    return [t]


def negated(f, x):
    return any(isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and n.operand is x for n in own_nodes(f.node))


def aliases(lp, a, b):
    return any(isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == a and any(isinstance(t, ast.Name) and t.id == b for t in n.targets)
               for n in ast.walk(lp))


CHECKS = {'W04': check_W04}
F = 'marcel/persistence/storagelayout.py'
MUTANTS = {
    'W04': [
        (F, "                         StorageLayoutWS1,\n", "", 'layout forgotten'),
        (F, "                         StorageLayoutWS1,\n                         StorageLayoutXDG,\n", "                         StorageLayoutXDG,\n                         StorageLayoutWS1,\n", 'older first'),
        (F, "        (self.config / '.WORKSPACE').unlink()\n", "        (self.config / '.WORKSPACE').unlink()\n        StorageLayout.rename_if_present(self.data / 'x', data_dir / 'x')\n", 'moved after recognition'),
        (F, "('history', 'reservoirs')", "('history',)", 'reservoirs forgotten'),
        (F, "        if source.exists():\n            source.rename(target)", "        source.rename(target)", 'not resumable'),
        (F, "            incomplete.replace(target)\n            source.unlink()", "            source.unlink()\n            incomplete.replace(target)", 'removed before in place'),
        (F, "            shutil.copy2(source, incomplete)\n            incomplete.replace(target)\n", "            shutil.copy2(source, target)\n", 'copied in place'),
        (F, "            incomplete = target.with_name(f'{target.name}.incomplete')\n            shutil.copy2(source, incomplete)\n            incomplete.replace(target)\n            source.unlink()\n", "            shutil.move(source, target)\n", 'moved by copying'),
        (F, "        data_dir.mkdir(parents=True, exist_ok=True)", "        data_dir.mkdir(parents=True)", 'mkdir fails the second time'),
        (F, "        fix_dirs(self.data)\n        # The next layout is identified by the default workspace's new place in config.\n        fix_dirs(self.config)\n", "        fix_dirs(self.config)\n        fix_dirs(self.data)\n", 'config before data'),
        (F, "                # Move workspace directories\n                for", "                StorageLayout.rename_if_present(old_default_workspace_dir, new_default_workspace_dir)\n                for", 'default before others'),
        (F, "                layout = layout.migrate()\n", "                layout.migrate()\n                layout = None\n", 'one step only'),
        (F, "                new_history_file = workspace_dir / 'history.incomplete'\n", "                new_history_file = history_file\n", 'history written in place'),
        (F, "assert layout.layout() == 'ws2'", "assert layout.layout() == 'ws1'", 'chain'),
        ('marcel/api.py', "            marcel.persistence.storagelayout.ensure_current()\n", "", 'the API does not bring the layout up to date'),
        ('bin/farcel.py', "        marcel.persistence.storagelayout.ensure_current()\n", "", 'farcel does not'),
        ('marcel/main.py', "    marcel.persistence.storagelayout.ensure_current(testing=False)\n", "", 'the shell does not'),
        (F, "            if path.is_dir():\n                workspace_dirs.append(path)", "            if path.is_dir() and not path.name.startswith('_'):\n                workspace_dirs.append(path)", 'some directories are left out'),
        (F, "        return all(StorageLayoutPromptToolkit", "        return any(StorageLayoutPromptToolkit", 'one is enough'),
        (F, "            if not StorageLayoutPromptToolkit.is_prompt_toolkit_history(history_file):\n                # Write", "            if history_file.exists():\n                # Write", 'converted twice'),
        ('marcel/locations.py', "        return self.config_ws(workspace) / 'startup.py'", "        return self.config_ws(workspace) / '.startup.py'", 'startup read elsewhere'),
        (F, "        self.data = locations.data_base / 'marcel'", "        self.data = locations.home / '.local' / 'share' / 'marcel'", 'another data directory'),
        (F, "        if not testing:\n            while", "        if not testing and installed_version() < marcel.version.VERSION:\n            while", 'only for older versions'),
    ],
}
