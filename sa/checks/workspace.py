"""W01, W02, W03: workspaces on disk."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate, Frame, test_key
from ..ops import origin, reach_names
from ..paths import trace, root_call, effect, call_sites, arg_for, EFFECTS

META = {
    'W01': {
        'explanation': 'Typestate of the lock of a named workspace. Each operation of Workspace that other modules call is executed '
                       'abstractly along all paths, lock_workspace splitting a path into granted and refused: files are read '
                       'or changed only on granted paths (or on paths on which the workspace does not exist yet), a refused path ends by '
                       'raising, an operation that opens keeps the lock only if it succeeds, and one that closes gives it up however it ends. '
                       'lock_workspace itself is executed with renames that may fail: it grants the lock only after a rename that '
                       'succeeded (or if this process has it), renames another owner\'s marker only where that process was found not to exist, '
                       'and never deletes or recreates a marker. Processes that work for a shell never open or lock.',
        'assumptions': ['renaming a file is atomic, and fails with FileNotFoundError if the file was renamed already',
                        'lock_workspace / unlock_workspace are the only operations on the marker (checked)'],
    },
    'W02': {
        'explanation': 'Every write reachable from the functions that save the variables and properties of a workspace is resolved to the path '
                       'it writes, through locals and parameters. On every path, including exceptional ones, a state file is '
                       'never opened for writing, removed or moved away; it is replaced (rename) by a temporary file which has been '
                       'written and closed on that path. An interrupted save leaves nothing that makes validation reject the workspace.',
        'assumptions': ['renaming within a directory tree is atomic'],
    },
    'W03': {
        'explanation': 'Every construction of a Workspace from a name supplied to an operator is preceded on all paths from setup by a call '
                       'of check_name with the same name; check_name rejects empty, relative, reserved and multi-component names; Locations '
                       'puts the name of the workspace into every path of that workspace; whatever is removed, moved or overwritten by '
                       'a workspace operation is a path of that workspace; files of the default workspace, which processes '
                       'share, are removed only by the process they belong to, or once that process has ended.',
        'assumptions': ['names found on disk by listing the directory of workspaces are single path components'],
    },
}


class WS:
    def __init__(self, p):
        self.p = p
        self.ws = p.cls('Workspace', 'marcel.object.workspace')
        self.mod = self.ws.module
        self.lock = self.method('lock_workspace')
        self.unlock = self.method('unlock_workspace')
        self.exists = self.method('exists')
        self.family = [self.ws] + [c for c in p.subclasses(self.ws) if c is not self.ws]
        self.default = [c for c in self.family if c is not self.ws]

    def method(self, name):
        m = self.ws.find(name)
        if m is None:
            raise AnalysisBroken(f'Workspace.{name} not found')
        return m

    def marker_funcs(self):
        """what the lock is made of: the lock operations and what only they and the validation use"""
        p = self.p
        out = {self.lock, self.unlock}
        for m in self.ws.methods.values():
            if any(effect(n) and self.is_marker(n, m) for n in own_nodes(m.node)):
                if m.name not in ('delete',) and not any(effect(n) and not self.is_marker(n, m) for n in own_nodes(m.node)):
                    out.add(m)
        return out

    def is_marker(self, call, f, fr=None):
        """does an effect concern only markers?"""
        ef = effect(call)
        if ef is None:
            return False
        ok = False
        for e in ef[1]:
            if not any(self.marker_expr(x, g) for x, g in flat(self.p, e, f, fr)):
                return False
            ok = True
        return ok

    def marker_expr(self, x, g):
        if g.cls is not None and g.cls.name == 'Marker':
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            if x.func.attr in ('owned', 'unowned'):
                return True
            t = self.p.callees(x, g, g.cls)
            return any(isinstance(y, FuncInfo) and y.cls is not None and y.cls.name == 'Marker' for y in t)
        if isinstance(x, tuple):
            return False
        return marker_loop(self.p, x, g)


def marker_loop(p, x, g):
    """x is a loop variable whose loop tests that its name starts with the name of a marker"""
    if not isinstance(x, ast.Name):
        return False
    for n in own_nodes(g.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'startswith' and n.args and \
                isinstance(n.func.value, ast.Attribute) and n.func.value.attr == 'name' and isinstance(n.func.value.value, ast.Name) and \
                n.func.value.value.id == x.id and (dotted(n.args[0]) or '').startswith('Marker.'):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'startswith' and n.args and \
                (dotted(n.args[0]) or '').split('.')[0] == 'Marker' and x.id in {y.id for y in ast.walk(n.func) if isinstance(y, ast.Name)}:
            return True
    return False


def flat(p, e, f, fr=None, seen=None):
    """[(root expr, function)]; loop variables stay themselves"""
    seen = seen if seen is not None else set()
    out = []
    for t in trace(p, e, f, fr):
        if isinstance(t[0], str):
            if t[0] == 'iter':
                out.append((e if isinstance(e, ast.Name) else t[1].target, t[2]))
            else:
                out.append((t, t[2]))
        else:
            x = root_call(t[0])
            if x is not t[0] and isinstance(x, (ast.Name, ast.IfExp)):
                if (id(x), t[1]) not in seen:
                    seen.add((id(x), t[1]))
                    out += flat(p, x, t[1], t[2], seen)
            else:
                out.append((x, t[1]))
    return out


def loc_call(x):
    """x is a call locations.m(...): 'm'"""
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, (ast.Attribute, ast.Name)):
        return x.func.attr
    return None


# ------------------------------------------------------------------------------------------------ W01
class LockedTS(Typestate):
    """state (lock, exists): lock U free, L granted, F refused; exists ? Y N"""
    max_depth = 6

    def __init__(self, w, cls):
        super().__init__(w.p)
        self.w = w
        self.wcls = cls
        self.viol = []
        self.sites = 0
        self.mf = w.marker_funcs()

    def relevant(self, t):
        return t.cls in self.w.family or t.cls is not None and t.cls.module is self.w.mod and t.cls.name == 'Marker'

    def inline_ok(self, t, call, fr):
        return self.relevant(t) and t not in self.mf

    def may_raise(self, call, targets, fr):
        return not (targets and all(isinstance(t, FuncInfo) and (t in self.mf or t.name in ('is_default', 'default')) for t in targets))

    def on_call(self, call, targets, st, fr):
        w = self.w
        lock, ex = st
        fs = [t for t in targets if isinstance(t, FuncInfo)]
        onself = isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id == fr.func.self_name()
        if any(t is w.lock or t.name == w.lock.name and t.cls in w.family for t in fs):
            return [('rv', ('L', ex), 'T'), ('rv', ('F' if lock != 'L' else 'L', ex), 'F')] if lock != 'L' else [('rv', st, 'T')]
        if any(t.name == w.unlock.name and t.cls in w.family for t in fs):
            return [('U', ex)]
        if any(t.name == 'exists' and t.cls in w.family for t in fs) and onself:
            return [('rv', (lock, 'Y'), 'T'), ('rv', (lock, 'N'), 'F')]
        if any(t.name == 'is_default' and t.cls in w.family for t in fs) and onself:
            return [('rv', st, 'F')]
        if any(t in self.mf for t in fs):
            return [st]
        ef = effect(call)
        rd = None
        if ef is None and isinstance(call.func, ast.Name) and call.func.id == 'open' and call.args:
            ef = ('read', [call.args[0]])
        if ef is not None:
            roots = [(x, g) for e in ef[1] for x, g in flat(self.p, e, fr.func, fr)]
            if roots and all(not isinstance(x, tuple) and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == 'default' for y in ast.walk(x))
                             for x, g in roots):
                return None         # a file of the default workspace
            self.sites += 1
            if not (lock == 'L' or ex == 'N'):
                what = 'read' if ef[0] == 'read' else 'changed'
                why = 'after its lock was refused' if lock == 'F' else 'without its lock'
                self.viol.append((f'{what}:{lock}', call, fr, f'files of a named workspace are {what} {why}'))
        return None

    def on_assign(self, target, value, st, fr):
        return [st]


def env_workspace(p, e, f):
    """e is the workspace of an environment"""
    for x, g in flat(p, e, f):
        if not (isinstance(x, ast.Attribute) and x.attr == 'workspace'):
            return False
    return True


def check_W01(ctx):
    p = ctx.p
    w = WS(p)
    ctx.rule('locked', 'the files of a named workspace are read or changed only while its lock is held, or before the workspace exists')
    ctx.rule('refused', 'an operation that is refused the lock raises')
    ctx.rule('released', 'a workspace that fails to open, or is closed, is unlocked on every path')
    ctx.rule('granted', 'the lock is granted only by a rename that succeeded, and never while another process has it')
    ctx.rule('alive', 'a process is considered gone only if there is no process with its id')
    ctx.rule('disk', 'who has a workspace is decided by its marker on disk, not by the state of an object in this process')
    ctx.rule('marker', 'markers are only renamed, so that there is always exactly one')
    ctx.rule('attached', 'a process working for a shell neither opens nor locks the workspace')
    ctx.rule('restart', 'the workspace in use is closed before another is opened')
    ctx.rule('damaged', 'a workspace is moved away only if it is not in use')
    # operations called by other modules
    entries = {}
    for m in w.ws.methods.values():
        if m.is_static or m.name.startswith('__'):
            continue
        sites = [(c, g) for c, g in call_sites(p, m) if isinstance(c.func, ast.Attribute) and (g.module is not w.mod or not g.cls in w.family)]
        # receivers that are (or may be) workspaces; the default workspace is not locked
        sites = [(c, g) for c, g in sites if not (isinstance(c.func.value, ast.Call) and isinstance(c.func.value.func, ast.Attribute)
                                                  and c.func.value.func.attr == 'default')]
        ws_sites = []
        for c, g in sites:
            t = p.infer(c.func.value, g, g.cls)
            if any(isinstance(k, ClassInfo) and (k in w.family) for k in t) or not t and any(
                    (isinstance(x, ast.Attribute) and x.attr == 'workspace' or isinstance(x, ast.Name) and 'workspace' in x.id.lower() or
                     isinstance(x, tuple) and 'workspace' in str(x[1]).lower() or
                     isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] == 'Workspace') for x, _ in flat(p, c.func.value, g)):
                ws_sites.append((c, g))
        if ws_sites:
            entries[m] = ws_sites
    mf = w.marker_funcs()
    for m, sites in sorted(entries.items(), key=lambda x: x[0].name):
        if m in mf:
            continue
        inuse = all(env_workspace(p, c.func.value, g) for c, g in sites) and m.name not in ('open', 'close', 'delete')
        broken = _moves_away(m)
        if broken:
            continue
        ts = LockedTS(w, w.ws)
        o = ts.run_function(m, w.ws, ('L' if inuse else 'U', '?'))
        if not ts.sites and not any(k[0][0] != 'U' for k in o['ret']):
            continue
        ctx.count('operations on workspaces')
        bad = False
        seen = set()
        for rule, node, fr, msg in ts.viol:
            key = f'{m.qualname}:{rule}:{fr.func.name}'
            if key in seen:
                continue
            seen.add(key)
            bad = True
            ctx.bad('locked', key, fr.func, f'{m.name}: {msg}', node)
        if not bad:
            ctx.ok('locked', m.qualname, 'the workspace of the environment is locked' if inuse else '')
        ref = [l for (st, fa, rv), l in o['ret'].items() if st[0] == 'F']
        if ref:
            ctx.bad('refused', m.qualname, m, f'{m.name} returns normally although the lock was refused', ref[0])
        else:
            ctx.ok('refused', m.qualname)
        if inuse:
            ctx.count('operations on the workspace in use')
            un = [l for (st, fa, rv), l in o['ret'].items() if st[0] == 'U']
            if un:
                ctx.bad('released', m.qualname + ':early', m, f'{m.name} gives up the lock of a workspace that remains in use', un[0])
            else:
                ctx.ok('released', m.qualname + ':early')
        if m.name in ('open', 'close'):
            ctx.count('operations that end the use of a workspace')
            kept = [l for (st, fa, k), l in o['exc'].items() if st[0] == 'L']
            if m.name == 'close':
                kept += [l for (st, fa, rv), l in o['ret'].items() if st[0] == 'L']
            else:
                un = [l for (st, fa, rv), l in o['ret'].items() if st[0] != 'L']
                if un:
                    ctx.bad('released', m.qualname + ':unlocked', m, f'{m.name} returns normally without holding the lock', un[0])
            if kept:
                ctx.bad('released', m.qualname, m, f'a path of {m.name} ends with the workspace still locked', kept[0])
            else:
                ctx.ok('released', m.qualname)
    ctx.need('operations on workspaces', 3)
    ctx.need('operations that end the use of a workspace', 2)
    _granted(ctx, w)
    _alive(ctx, w)
    _disk(ctx, w)
    _leaks(ctx, w)
    _markers(ctx, w, mf)
    _attached(ctx, w)
    _restart(ctx, w)
    _damaged(ctx, w)


def _moves_away(m):
    return any(isinstance(n, ast.Call) and effect(n) and effect(n)[0] in ('move', 'rename', 'replace') and
               any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr.endswith('bws') for y in own_nodes(m.node) for x in ast.walk(y))
               for n in own_nodes(m.node))


def _disk(ctx, w):
    """who has a workspace is decided by what is on disk, not by the attributes of one object"""
    p = ctx.p
    n = 0
    for c in w.family:
        for m in c.methods.values():
            if m.is_static or m.self_name() is None:
                continue
            me = m.self_name()
            calls = {x.func.attr for x in own_nodes(m.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
                     isinstance(x.func.value, ast.Name) and x.func.value.id == me}
            if m.name != 'owner' and 'owner' not in calls:
                continue
            n += 1
            bad = []
            for x in own_nodes(m.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
                    asg = w.ws.all_attr_assigns(x.attr)
                    if any(g.name != '__init__' for g, v in asg):
                        bad.append(x)
            if bad:
                ctx.bad('disk', f'{m.qualname}:{bad[0].attr}', m, f'{m.name} decides who has the workspace by self.{bad[0].attr}, which says nothing about other processes', bad[0])
            else:
                ctx.ok('disk', m.qualname)
    ctx.count('decisions about the owner of a workspace', n)
    ctx.need('decisions about the owner of a workspace', 2)


class LeakTS(Typestate):
    """state: free / locked (here) / open"""
    max_depth = 4
    track_exc = False

    def __init__(self, w):
        super().__init__(w.p)
        self.w = w

    def relevant(self, t):
        return t.cls in self.w.family and t not in (self.w.lock, self.w.unlock) and t.name not in ('owner', 'exists', 'is_default')

    def may_raise(self, call, targets, fr):
        return False

    def on_call(self, call, targets, st, fr):
        nm = getattr(call.func, 'attr', None)
        if nm == self.w.lock.name:
            return [('rv', 'locked' if st == 'free' else st, 'T'), ('rv', st, 'F')]
        if nm == self.w.unlock.name:
            return ['free']
        ef = effect(call)
        if ef and ef[0] in ('unlink', 'remove', 'rename', 'replace', 'rmtree') and self.w.is_marker(call, fr.func, fr):
            return ['free']
        return None

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute) and target.attr == 'namespace' and st == 'locked' and value is not None and \
                not (isinstance(value, ast.Constant) and value.value is None):
            return ['open']
        return [st]


def _leaks(ctx, w):
    p = ctx.p
    n = 0
    for f in p.functions:
        if f is w.lock or f in [c.methods.get(w.lock.name) for c in w.family]:
            continue
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == w.lock.name for x in own_nodes(f.node)):
            continue
        n += 1
        ts = LeakTS(w)
        o = ts.run_function(f, f.cls, 'free')
        left = [l for (st, fa, rv), l in o['ret'].items() if st == 'locked']
        if left:
            ctx.bad('released', f.qualname + ':kept', f, f'{f.name} locks a workspace, and returns without opening it or unlocking it: no process can use it', left[0])
        else:
            ctx.ok('released', f.qualname + ':kept')
    ctx.count('functions that lock a workspace', n)
    ctx.need('functions that lock a workspace', 1)


class GrantTS(Typestate):
    """state (unowned, mine, dead, acquired)"""
    max_depth = 4
    raise_kinds = ('E', 'B')

    def __init__(self, w):
        super().__init__(w.p)
        self.w = w
        self.viol = []
        self.renames = 0

    def relevant(self, t):
        return t.cls in self.w.family and t.name not in ('owner', 'release_abandoned_markers', 'is_default') and t is not self.w.lock

    def may_raise(self, call, targets, fr):
        return False

    def on_call(self, call, targets, st, fr):
        un, mine, dead, acq = st
        nm = (dotted(call.func) or getattr(call.func, 'attr', '')).split('.')[-1]
        if nm in ('process_exists', 'pid_exists'):
            return [('rv', st, 'T'), ('rv', (un, mine, True, acq), 'F')]
        ef = effect(call)
        if ef:
            if ef[0] in ('rename', 'replace') or ef[0] == 'renames':
                self.renames += 1
                if not (un or mine or dead):
                    self.viol.append(('steal', call, fr, 'a marker is taken on a path on which its owner was not found to be absent'))
                return [(un, mine, dead, True), ('exc', st, 'FileNotFoundError')]
            self.viol.append(('marker', call, fr, f'the lock {EFFECTS.get(ef[0], "writes")} a marker instead of renaming it: two processes can have the lock'))
            return [st]
        return None

    def on_test(self, test, truth, st, fr):
        un, mine, dead, acq = st
        k, pol = test_key(test)
        yes = truth == pol
        if k[0] == 'none' and yes and self.is_owner(test, fr):
            return (True, mine, dead, acq)
        if k[0] == 'eq' and isinstance(test, ast.Compare):
            sides = [test.left] + test.comparators
            if any(isinstance(x, ast.Attribute) and x.attr == 'pid' for s in sides for x in ast.walk(s)) or \
                    any(isinstance(x, ast.Attribute) and x.attr == 'getpid' for s in sides for x in ast.walk(s)) or \
                    any(isinstance(t[0], ast.Attribute) and t[0].attr == 'pid' for s in sides for t in trace(self.p, s, fr.func) if not isinstance(t[0], str)):
                if yes:
                    return (un, True, dead, acq)
        return st

    def is_owner(self, test, fr):
        e = test
        while isinstance(e, ast.UnaryOp):
            e = e.operand
        l = e.left if isinstance(e, ast.Compare) else e
        for t in trace(self.p, l, fr.func):
            if isinstance(t[0], ast.Call) and isinstance(t[0].func, ast.Attribute) and t[0].func.attr == 'owner':
                return True
        return False


def _granted(ctx, w):
    p = ctx.p
    f = w.lock
    ts = GrantTS(w)
    o = ts.run_function(f, w.ws, (False, False, False, False))
    bad = set()
    for rule, node, fr, msg in ts.viol:
        if rule not in bad:
            bad.add(rule)
            ctx.bad('granted', f'{f.qualname}:{rule}', fr.func, msg, node)
    for (st, fa, rv), line in o['ret'].items():
        if rv in ('T', '?') and not (st[1] or st[3]):
            bad.add('unearned')
            ctx.bad('granted', f'{f.qualname}:unearned', f, f'the lock is granted (line {line}) on a path on which no marker was renamed', line)
            break
    esc = [l for (st, fa, k), l in o['exc'].items() if k == 'FileNotFoundError']
    if esc:
        bad.add('lost race')
        ctx.bad('granted', f'{f.qualname}:race', f, 'losing the race for a marker is not reported as a refusal', esc[0])
    if not bad:
        ctx.ok('granted', f.qualname, f'{ts.renames} renames')
    ctx.count('ways to get the lock', ts.renames)
    ctx.need('ways to get the lock', 1)
    # unlock: own marker only
    ts = GrantTS(w)
    o = ts.run_function(w.unlock, w.ws, (False, False, False, False))
    viol = [v for v in ts.viol]
    if viol:
        ctx.bad('granted', f'{w.unlock.qualname}:{viol[0][0]}', viol[0][2].func, 'unlocking affects the marker of another process' if viol[0][0] == 'steal' else viol[0][3], viol[0][1])
    elif not any(st[3] for (st, fa, rv) in o['ret']):
        ctx.bad('granted', f'{w.unlock.qualname}:never', w.unlock, 'unlocking does not release the marker')
    else:
        mine = [l for (st, fa, rv), l in o['ret'].items() if st[1] and not st[3]]
        if mine:
            ctx.bad('granted', f'{w.unlock.qualname}:kept', w.unlock, 'a path of unlocking keeps the lock of this process', mine[0])
        else:
            ctx.ok('granted', w.unlock.qualname)


class MarkerTS(Typestate):
    """state (dead, missing)"""
    max_depth = 4

    def __init__(self, w, mf):
        super().__init__(w.p)
        self.w = w
        self.mf = mf
        self.viol = []
        self.sites = 0

    def relevant(self, t):
        return t.cls is not None and (t.cls.name == 'Marker' or t.cls in self.w.family) and t.module is self.w.mod

    def inline_ok(self, t, call, fr):
        return self.relevant(t) and t.name != 'exists'

    def may_raise(self, call, targets, fr):
        return False

    def on_iter(self, s, st, fr):
        return [(False, st[1])]

    def on_call(self, call, targets, st, fr):
        nm = (dotted(call.func) or getattr(call.func, 'attr', '')).split('.')[-1]
        if nm in ('process_exists', 'pid_exists'):
            return [('rv', st, 'T'), ('rv', (True, st[1]), 'F')]
        if nm == 'exists' and any(isinstance(t, FuncInfo) and t.cls is not None and t.cls.name == 'Marker' for t in targets):
            return [('rv', st, 'T'), ('rv', (st[0], True), 'F')]
        ef = effect(call)
        if ef and self.w.is_marker(call, fr.func, fr):
            self.sites += 1
            if ef[0] in ('rename', 'replace', 'renames'):
                if not st[0]:
                    self.viol.append(('alive', call, fr, 'the marker of a process is released without establishing that the process does not exist'))
            elif ef[0] in ('touch', 'open', 'write_text', 'chmod') and st[1]:
                pass
            else:
                self.viol.append((ef[0], call, fr, f'{EFFECTS.get(ef[0], "writes")} a marker, instead of renaming it, while the workspace may be in use'))
        return None


def _markers(ctx, w, mf):
    p = ctx.p
    val = [c for c in p.classes if c.module is w.mod and 'validate' in c.methods and c not in w.family]
    roots = [(m, w.ws) for m in mf if m not in (w.lock, w.unlock)]
    roots += [(c.methods['validate'], c) for c in val]
    n = 0
    for m, c in sorted(roots, key=lambda x: x[0].qualname):
        ts = MarkerTS(w, mf)
        ts.run_function(m, c, (False, False))
        n += ts.sites
        if ts.viol:
            rule, node, fr, msg = ts.viol[0]
            ctx.bad('marker', f'{fr.func.qualname}:{rule}', fr.func, msg, node)
        elif ts.sites:
            ctx.ok('marker', m.qualname, f'{ts.sites} effects on markers')
    ctx.count('effects on markers outside locking', n)
    ctx.need('effects on markers outside locking', 1)


class AttachTS(Typestate):
    max_depth = 6
    track_exc = False

    def __init__(self, w):
        super().__init__(w.p)
        self.w = w
        self.viol = []
        self.attached = 0
        self.cache = {}

    def relevant(self, t):
        return reach_names(self.p, t, lambda c, f: isinstance(c.func, ast.Attribute) and c.func.attr in ('open', 'lock_workspace', 'attach') and
                           any(isinstance(x, FuncInfo) and x.cls in self.w.family or isinstance(x, str) and x.startswith('?') for x in self.p.callees(c, f, f.cls)), self.cache)

    def on_call(self, call, targets, st, fr):
        if any(isinstance(t, FuncInfo) and t.cls in self.w.family and t.name in ('open', self.w.lock.name) for t in targets) or \
                isinstance(call.func, ast.Attribute) and call.func.attr in ('open', self.w.lock.name) and 'workspace' in (dotted(call.func.value) or ''):
            self.viol.append((call, fr))
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'attach':
            self.attached += 1
        return None

    def on_test(self, test, truth, st, fr):
        k, pol = test_key(test)
        e = test
        while isinstance(e, ast.UnaryOp):
            e = e.operand
        if k[0] == 't' and isinstance(e, ast.Name) and e.id in fr.func.params and fr.site is not None:
            a = arg_for(fr.func, fr.site, e.id)
            if isinstance(a, ast.Constant):
                if bool(a.value) != (truth == pol):
                    return None
        return st


def _attached(ctx, w):
    p = ctx.p
    env = p.cls('Environment', 'marcel.env')
    n = 0
    for c in [env] + [k for k in p.subclasses(env) if k is not env]:
        m = c.methods.get('__setstate__')
        if m is None:
            continue
        n += 1
        ts = AttachTS(w)
        ts.run_function(m, c, 0)
        if ts.viol:
            call, fr = ts.viol[0]
            ctx.bad('attached', f'{m.qualname}:{fr.func.name}', fr.func, 'an environment received by another process opens the workspace, which its sender has locked', call)
        else:
            ctx.ok('attached', m.qualname)
    if not n:
        raise AnalysisBroken('Environment.__setstate__ not found')
    ctx.count('environments received', n)
    for t in _process_targets(p):
        ts = AttachTS(w)
        ts.run_function(t, t.cls, 0)
        ctx.count('functions run by child processes')
        if ts.viol:
            call, fr = ts.viol[0]
            ctx.bad('attached', f'{t.qualname}:{fr.func.name}', fr.func, 'a child process opens or locks the workspace, which the shell has locked', call)
        else:
            ctx.ok('attached', t.qualname)


def _process_targets(p):
    out = []
    for f in p.functions:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or getattr(n.func, 'attr', '')).split('.')[-1] == 'Process':
                for k in n.keywords:
                    if k.arg == 'target':
                        for t, _ in flat(p, k.value, f):
                            e = t[0] if isinstance(t, tuple) else t
                            r = [x for x in p.callable_targets(e, f, f.cls) if isinstance(x, FuncInfo)] if isinstance(e, ast.AST) else []
                            out += [x for x in r if x not in out]
    return out


def _reaches(p, n, f, pred, cache, depth=0):
    """does call n lead to a call satisfying pred?"""
    if pred(n, f):
        return True
    for t in p.callees(n, f, f.cls):
        if isinstance(t, ClassInfo):
            t = t.find('__init__')
        if isinstance(t, FuncInfo) and reach_names(p, t, pred, cache):
            return True
    return False


class RestartTS(Typestate):
    """state: in use / closed"""
    max_depth = 3
    track_exc = False

    def __init__(self, w):
        super().__init__(w.p)
        self.w = w
        self.viol = []
        self.c1 = {}
        self.c2 = {}

    def is_create(self, n, f):
        return isinstance(n.func, ast.Attribute) and n.func.attr == 'create' and 'nviron' in (dotted(n.func.value) or '')

    def is_close(self, n, f):
        return isinstance(n.func, ast.Attribute) and n.func.attr == 'close' and 'workspace' in (dotted(n.func.value) or '')

    def relevant(self, t):
        return False

    def on_call(self, call, targets, st, fr):
        if _reaches(self.p, call, fr.func, self.is_close, self.c2):
            return ['closed']
        if _reaches(self.p, call, fr.func, self.is_create, self.c1):
            if st == 'used':
                self.viol.append((call, fr))
            return ['used']
        return None


def _restart(ctx, w):
    p = ctx.p
    n = 0
    for f in p.functions:
        if f.module.name != 'marcel.main':
            continue
        hs = [h for t in own_nodes(f.node) if isinstance(t, ast.Try) for h in t.handlers if h.type is not None and
              any((dotted(x) or '').endswith('ReconfigureException') for x in ([h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts))]
        if not hs:
            continue
        n += len(hs)
        for h in hs:
            ts = RestartTS(w)
            o = ts.block(h.body, {('used', frozenset()): None}, Frame(f, f.cls))
            left = [k for d in ('n', 'cont') for k in o[d] if k[0] == 'used' and not ts.viol]
            created = any(_reaches(p, c, f, ts.is_create, {}) for s in h.body for c in ast.walk(s) if isinstance(c, ast.Call))
            if ts.viol or left and not created:
                ctx.bad('restart', f.qualname, f, 'another workspace is opened while the one in use has not been closed', ts.viol[0][0] if ts.viol else h)
            else:
                ctx.ok('restart', f.qualname)
    ctx.count('changes of workspace', n)
    ctx.need('changes of workspace', 1)


class DamagedTS(Typestate):
    max_depth = 2
    track_exc = False

    def __init__(self, w, targets):
        super().__init__(w.p)
        self.w = w
        self.tg = targets
        self.viol = []
        self.sites = 0

    def relevant(self, t):
        return False

    def on_iter(self, s, st, fr):
        return [False]

    def on_assign(self, target, value, st, fr):
        return [st]

    def on_call(self, call, targets, st, fr):
        if any(t in self.tg for t in targets) or isinstance(call.func, ast.Attribute) and call.func.attr in {t.name for t in self.tg}:
            self.sites += 1
            if not st:
                self.viol.append((call, fr))
            return [False]
        if self.tests_use(call, targets, fr):
            return [('rv', st, 'T'), ('rv', True, 'F')]
        return None

    def tests_use(self, call, targets, fr):
        return any(isinstance(t, FuncInfo) and t.cls in self.w.family and t.name != 'owner' and
                   any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'owner' for n in own_nodes(t.node)) for t in targets) or \
            isinstance(call.func, ast.Attribute) and any(
                any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'owner' for n in own_nodes(m.node))
                for m in [self.w.ws.methods.get(call.func.attr)] if m is not None and m not in (self.w.lock, self.w.unlock))


def _damaged(ctx, w):
    p = ctx.p
    tg = {m for m in w.ws.methods.values() if not m.is_static and _moves_away(m)}
    if not tg:
        ctx.notes.append('no operation moves a workspace away')
        return
    n = 0
    for f in p.functions:
        if f.cls in w.family:
            continue
        if not any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in {t.name for t in tg} for c in own_nodes(f.node)):
            continue
        ts = DamagedTS(w, tg)
        ts.run_function(f, f.cls, False)
        n += ts.sites
        if ts.viol:
            ctx.bad('damaged', f.qualname, f, 'a workspace is moved away on a path on which it was not found to be unused', ts.viol[0][0])
        else:
            ctx.ok('damaged', f.qualname)
    ctx.count('places that move a damaged workspace', n)
    ctx.need('places that move a damaged workspace', 1)


class AliveTS(Typestate):
    max_depth = 2
    probes = 0

    def relevant(self, t):
        return t.cls is None and t.module.name == 'marcel.util' and any(
            isinstance(n, ast.Call) and dotted(n.func) == 'os.kill' for n in own_nodes(t.node))

    def may_raise(self, call, targets, fr):
        return False

    def on_call(self, call, targets, st, fr):
        if dotted(call.func) == 'os.kill':
            self.probes += 1
            return ['there', ('exc', 'gone', 'ProcessLookupError'), ('exc', 'there', 'PermissionError')]
        if not any(isinstance(t, FuncInfo) for t in targets) and (dotted(call.func) or '').split('.')[0] not in ('int', 'isinstance', 'str', 'type'):
            return ['asked' if st == '?' else st]
        return None


def _alive(ctx, w):
    p = ctx.p
    fs = {f for f in p.functions if f.name in ('process_exists', 'pid_exists') and f.cls is None}
    for f in fs:
        ts = AliveTS(p)
        o = ts.run_function(f, None, '?')
        blind = [l for (st, fa, rv), l in o['ret'].items() if st == '?' and rv in ('F', 'N', 'T')]
        if blind:
            ctx.bad('alive', f'{f.qualname}:blind', f, f'{f.name} answers without looking for the process', blind[0])
            continue
        if not ts.probes:
            continue
        bad = [(st, rv, l) for (st, fa, rv), l in o['ret'].items() if st == 'there' and rv in ('F', 'N') or st == 'gone' and rv == 'T']
        esc = [(st, k, l) for (st, fa, k), l in o['exc'].items() if k in ('ProcessLookupError', 'PermissionError')]
        if bad or esc:
            st, rv, l = (bad or esc)[0]
            ctx.bad('alive', f.qualname, f, f'{f.name} {"does not find" if st == "there" else "finds"} a process that {"exists" if st == "there" else "does not exist"}'
                    if bad else f'{f.name} fails instead of answering', l)
        else:
            ctx.ok('alive', f.qualname)


# ------------------------------------------------------------------------------------------------ W02
STATE = ('data_ws_env', 'data_ws_prop')


def exact(p, e, f, fr=None, seen=None):
    """the location method if e is exactly a state file (not something derived from its name)"""
    seen = seen if seen is not None else set()
    if (id(e), f) in seen:
        return None
    seen.add((id(e), f))
    for t in trace(p, e, f, fr):
        if isinstance(t[0], str):
            continue
        x = t[0]
        while isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id in ('str', 'Path') or isinstance(x.func, ast.Attribute) and x.func.attr in (
                'Path', 'fspath', 'absolute', 'resolve', 'as_posix')):
            x = x.args[0] if x.args else x.func.value
            if isinstance(x, ast.Name):
                r = exact(p, x, t[1], t[2], seen)
                if r:
                    return r
                break
        m = loc_call(x)
        if m in STATE:
            return m
    return None


def outside(p, e, f, fr=None, depth=0):
    """a path that does not come from the directory tree of a workspace"""
    if depth > 12:
        return False
    for t in trace(p, e, f, fr):
        if isinstance(t[0], str):
            continue
        x, g, fr2 = t
        if isinstance(x, ast.Constant):
            if isinstance(x.value, str) and x.value.startswith('/'):
                return True
            continue
        if isinstance(x, ast.BinOp):
            x2 = x.left
        elif isinstance(x, ast.Attribute):
            x2 = x.value if x.attr in ('parent', 'name') else None
        elif isinstance(x, ast.Call):
            nm = (dotted(x.func) or '').split('.')
            kw = [k.value for k in x.keywords if k.arg == 'dir']
            if nm[0] == 'tempfile' or nm[-1] in ('mkstemp', 'mkdtemp', 'NamedTemporaryFile', 'gettempdir', 'TemporaryDirectory'):
                if not kw:
                    return True
                x2 = kw[0]
            elif nm[-1] in ('Path', 'PurePath', 'join', 'str', 'fspath', 'PosixPath') and x.args:
                x2 = x.args[0]
            elif isinstance(x.func, ast.Attribute) and x.func.attr in ('with_name', 'with_suffix', 'with_stem', 'absolute', 'resolve', 'joinpath', 'expanduser'):
                x2 = x.func.value
            else:
                x2 = None
        else:
            x2 = None
        if x2 is not None and outside(p, x2, g, fr2, depth + 1):
            return True
    return False


class SaveTS(Typestate):
    """state (open, written, closed, failed, frozenset of replaced state files)"""
    max_depth = 6
    raise_kinds = ('E', 'B')

    def __init__(self, w, cls):
        super().__init__(w.p)
        self.w = w
        self.viol = []
        self.temps = []
        self.touched = []
        self.sites = 0

    def relevant(self, t):
        return t.cls in self.w.family and t not in (self.w.lock, self.w.unlock) or t.cls is None and t.module.name in ('marcel.util', self.w.mod.name) and any(
            effect(n) for n in own_nodes(t.node))

    def on_call(self, call, targets, st, fr):
        op, wr, cl, failed, rep = st
        ef = effect(call)
        if ef is None:
            if isinstance(call.func, ast.Attribute) and call.func.attr in ('dump', 'write') and op:
                return [(op, True, cl, failed, rep), ('exc', st, 'E'), ('exc', st, 'B')]
            if isinstance(call.func, ast.Attribute) and call.func.attr == 'close' and op and not (isinstance(call.func.value, ast.Name) and 'reservoir' in call.func.value.id):
                return [(False, wr, True, failed, rep)]
            return None
        kind, ps = ef
        ex = [exact(self.p, e, fr.func, fr) for e in ps]
        if kind in ('rename', 'replace', 'move', 'renames', 'copy', 'copy2', 'copyfile', 'copytree'):
            src, dst = (ex + [None, None])[:2]
            if dst:
                self.sites += 1
                if kind not in ('rename', 'replace', 'renames'):
                    self.viol.append(('copied', call, fr, f'a state file is overwritten by {kind}, which can be interrupted halfway'))
                elif failed or not wr or not (cl or not op):
                    what = 'after an exception' if failed else 'before what replaces it has been written' if not wr else 'while what replaces it is still open'
                    self.viol.append(('early', call, fr, f'a state file is replaced {what}'))
                elif outside(self.p, ps[0], fr.func, fr):
                    self.viol.append(('elsewhere', call, fr, 'a state file is replaced by a file of another directory tree: renaming it fails between file systems'))
                return [(False, False, False, failed, rep | {dst}), ('exc', st, 'E')]
            if src:
                self.sites += 1
                self.viol.append(('moved', call, fr, 'a state file is moved away before its replacement is in place'))
            return [st, ('exc', st, 'E')]
        hit = [x for x in ex if x]
        if kind in ('unlink', 'remove', 'rmtree', 'rmdir'):
            if hit:
                self.sites += 1
                self.viol.append(('removed', call, fr, 'a state file is removed before its replacement is in place'))
            return [st]
        if kind in ('open', 'write_text', 'write_bytes', 'touch', 'truncate'):
            self.sites += 1
            if hit and kind == 'touch':
                self.touched.append((call, fr, hit))
            if hit and kind != 'touch':
                self.viol.append(('in place', call, fr, 'a state file is written in place: interrupting the save loses what was saved before'))
            self.temps.append((ps[0], call, fr.func, fr))
            if kind == 'open':
                return [(True, False, False, failed, rep), ('exc', st, 'E')]
            return [(False, True, True, failed, rep), ('exc', st, 'E')]
        return [st]

    def on_with(self, expr, phase, st, fr, targets):
        if effect(expr) and effect(expr)[0] == 'open':
            if phase == 'enter':
                self.on_call(expr, targets, st, fr)
                return [(True, False, False) + st[3:]]
            return [(False, st[1], True) + st[3:]]
        if isinstance(expr, ast.Name):
            if phase == 'enter':
                return [st]
            return [(False, st[1], True) + st[3:]]
        return None

    def on_catch(self, handler, kind, st, fr):
        return [st[:3] + (True,) + st[4:]]


class CloseTS(SaveTS):
    """also: what was saved when the use of the workspace ends; restart is the second parameter of close"""

    def __init__(self, w, cls, restart):
        super().__init__(w, cls)
        self.restart = restart

    def on_call(self, call, targets, st, fr):
        if any(t is self.w.lock or isinstance(t, FuncInfo) and t.name == self.w.lock.name for t in targets):
            return [('rv', st, 'T')]
        if any(isinstance(t, FuncInfo) and t.name == self.w.unlock.name for t in targets):
            return [st]
        ef = effect(call)
        if ef and ef[0] in ('unlink', 'remove') and not self.restart:
            return [st]
        return super().on_call(call, targets, st, fr)

    def on_test(self, test, truth, st, fr):
        k, pol = test_key(test)
        e = test
        while isinstance(e, ast.UnaryOp):
            e = e.operand
        if k[0] == 't' and isinstance(e, ast.Name):
            g, f2 = e, fr
            while f2.caller is not None and isinstance(f2.site, ast.Call) and isinstance(g, ast.Name) and g.id in f2.func.params:
                g = arg_for(f2.func, f2.site, g.id)
                f2 = f2.caller
            if isinstance(g, ast.Name) and g.id == 'restart' and (truth == pol) != self.restart:
                return None
        return st


def check_W02(ctx):
    p = ctx.p
    w = WS(p)
    ctx.rule('atomic', 'a state file is only ever replaced, by a temporary file that was written and closed before, in the same directory tree')
    ctx.rule('replaced', 'saving replaces the state file on every path that returns')
    ctx.rule('leftover', 'what an interrupted save leaves behind does not make the workspace invalid')
    ctx.rule('saved', 'the use of a workspace ends with its state saved')
    ctx.rule('reported', 'a failure to save is reported')
    ctx.rule('restart', 'the workspace in use is saved and closed before another is opened')
    ctx.rule('created', 'a new workspace is created with complete state files')
    savers = {}
    for m in [m for c in w.family for m in c.methods.values()]:
        for n in own_nodes(m.node):
            if isinstance(n, ast.Call):
                for a in list(n.args) + [k.value for k in n.keywords] + ([n.func.value] if isinstance(n.func, ast.Attribute) else []):
                    if exact(p, a, m) and (effect(n) and (effect(n)[0] not in ('unlink', 'remove')) or
                                           any(isinstance(t, FuncInfo) and reach_names(p, t, lambda c, g: effect(c) is not None and effect(c)[0] not in ('unlink', 'remove'), {})
                                               for t in p.callees(n, m, m.cls))):
                        savers.setdefault(m, set()).add(exact(p, a, m))
    tops = {}
    for m, names in savers.items():
        # the function that names the file, not the one it hands the path to
        if all(not any(loc_call(x) == nm for x in own_nodes(m.node)) for nm in names):
            continue
        tops[m] = names
    temps = []
    for m, names in sorted(tops.items(), key=lambda x: x[0].qualname):
        if m.name in ('close', 'delete', 'create_on_disk', 'validate'):
            continue
        ctx.count('functions that save')
        ts = SaveTS(w, m.cls)
        o = ts.run_function(m, m.cls, (False, False, False, False, frozenset()))
        seen = set()
        for rule, node, fr, msg in ts.viol:
            if rule not in seen:
                seen.add(rule)
                ctx.bad('atomic', f'{m.qualname}:{rule}', fr.func, msg, node)
        if not ts.viol:
            ctx.ok('atomic', m.qualname, f'{ts.sites} effects')
        miss = [l for (st, fa, rv), l in o['ret'].items() if not names <= st[4]]
        if miss and not ts.viol:
            ctx.bad('replaced', m.qualname, m, f'{m.name} can return without having replaced {", ".join(sorted(names))}', miss[0])
        elif not miss:
            ctx.ok('replaced', m.qualname)
        temps += ts.temps
    ctx.need('functions that save', 2)
    # leftovers
    ends = set()
    for c in p.classes:
        if c.module is w.mod and 'validate' in c.methods and c not in w.family:
            for n in own_nodes(c.methods['validate'].node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'endswith' and n.args and isinstance(n.args[0], ast.Constant):
                    ends.add(n.args[0].value)
    done = set()
    for e, call, g, fr in temps:
        for t in trace(p, e, g, fr):
            if isinstance(t[0], str) or id(t[0]) in done:
                continue
            done.add(id(t[0]))
            x = root_call(t[0])
            if isinstance(x, ast.Name):
                x = ([y for y, _ in flat(p, x, t[1], t[2]) if not isinstance(y, tuple)] or [x])[0]
            m = loc_call(x)
            lits = [n.value for n in ast.walk(t[0]) if isinstance(n, ast.Constant) and isinstance(n.value, str)]
            if m in STATE and not any(l.endswith(tuple(ends)) for l in lits if ends):
                ctx.bad('leftover', g.qualname, g, 'an interrupted save leaves a file in the directory of the workspace which makes validation reject the workspace', call)
            else:
                ctx.ok('leftover', g.qualname, m or '')
    # end of use
    n = 0
    for c in w.family:
        m = c.methods.get('close')
        if m is None:
            continue
        for restart in (True, False):
            if c is not w.ws and not restart:
                continue
            n += 1
            ts = CloseTS(w, c, restart)
            o = ts.run_function(m, c, (False, False, False, False, frozenset()))
            need = {x for t, names in tops.items() for x in names if c is w.ws or x == 'data_ws_env'}
            miss = [l for (st, fa, rv), l in o['ret'].items() if not need <= st[4]]
            if ts.viol:
                rule, node, fr, msg = ts.viol[0]
                ctx.bad('saved', f'{m.qualname}:{rule}', fr.func, msg, node)
            elif miss:
                ctx.bad('saved', m.qualname, m, f'{m.name} can return without saving', miss[0])
            else:
                ctx.ok('saved', m.qualname)
    ctx.count('ways the use of a workspace ends', n)
    ctx.need('ways the use of a workspace ends', 2)
    _ended(ctx, w)
    _restart(ctx, w)
    # creation
    k = 0
    for c in w.family:
        m = c.find('create_on_disk')
        if m is None:
            continue
        ts = SaveTS(w, c)
        o = ts.run_function(m, c, (False, False, False, False, frozenset()))
        need = {x for t, names in tops.items() for x in names if c is w.ws or x == 'data_ws_env'}
        k += 1
        key = f'{m.qualname}:{c.name}'
        touched = [(call, f2) for call, f2, hit in ts.touched]
        miss = [l for (st, fa, rv), l in o['ret'].items() if not need <= st[4]]
        if touched:
            ctx.bad('created', key + ':empty', touched[0][1].func, 'a state file of a new workspace is created empty: it cannot be read', touched[0][0])
        elif miss:
            ctx.bad('created', key, m, 'a workspace can be created without its state files', miss[0])
        else:
            ctx.ok('created', key)
    ctx.count('ways to create a workspace', k)
    # reported
    k = 0
    for f in p.functions:
        if f.cls in w.family or f.module.name.startswith('test'):
            continue
        for t in own_nodes(f.node):
            if isinstance(t, ast.Try):
                for s in t.body:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'close' and any(
                                isinstance(x, ast.Attribute) and x.attr == 'workspace' or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'default'
                                for x, _ in flat(p, n.func.value, f) if not isinstance(x, tuple)):
                            k += 1
                            silent = [h for h in t.handlers if not any(isinstance(y, (ast.Call, ast.Raise)) for b in h.body for y in ast.walk(b))]
                            if silent:
                                ctx.bad('reported', f'{f.qualname}', f, 'a failure to save the workspace is ignored', silent[0])
                            else:
                                ctx.ok('reported', f.qualname)
    ctx.count('handlers of a failing save', k)


class EndTS(Typestate):
    """state: the workspace in use has been closed (or closing it was attempted)"""
    max_depth = 3

    def __init__(self, p):
        super().__init__(p)
        self.sites = 0

    def relevant(self, t):
        return t.module.name == 'marcel.main' and reach_names(self.p, t, closes_workspace, self.__dict__.setdefault('rc', {}))

    def may_raise(self, call, targets, fr):
        return False

    def on_call(self, call, targets, st, fr):
        if closes_workspace(call, fr.func):
            self.sites += 1
            return [True, ('exc', True, 'E')]
        return None


class RegTS(Typestate):
    """state: the function has been registered to be run when the process ends"""
    max_depth = 1
    track_exc = False

    def __init__(self, p, g):
        super().__init__(p)
        self.g = g

    def relevant(self, t):
        return False

    def on_call(self, call, targets, st, fr):
        if dotted(call.func) == 'atexit.register' and any(
                isinstance(a, (ast.Name, ast.Attribute)) and self.g in self.p.callable_targets(a, fr.func, fr.cls) for a in call.args):
            return [True]
        return None


def closes_workspace(c, f):
    if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'close'):
        return False
    e = c.func.value
    if isinstance(e, ast.Name):
        vs = [v for v in f.local_assigns().get(e.id, []) if isinstance(v, ast.AST)]
        e = vs[0] if len(vs) == 1 else e
    return isinstance(e, ast.Attribute) and e.attr == 'workspace'


def _ended(ctx, w):
    p = ctx.p
    main = p.module('marcel.main')
    n = 0
    for f in main.all_functions:
        if isinstance(f.node, ast.Lambda) or not any(closes_workspace(c, f) for c in own_nodes(f.node)):
            continue
        # a helper is judged with its callers
        callers = [g for g in main.all_functions if g is not f and any(isinstance(c, ast.Call) and f in p.callees(c, g, g.cls) for c in own_nodes(g.node))]
        tops = [f] if f.name == 'shutdown' or not callers else callers
        for g in tops:
            n += 1
            ts = EndTS(p)
            o = ts.run_function(g, g.cls, False)
            miss = [l for (st, fa, rv), l in o['ret'].items() if not st]
            if miss and g is f:
                ctx.bad('saved', f'{g.qualname}:closed', g, f'{g.name} can return without having closed the workspace in use', miss[0])
            elif not miss:
                ctx.ok('saved', g.qualname + ':closed')
            if g is not f:
                continue
            used = False
            for h in p.functions:
                for c in own_nodes(h.node):
                    if isinstance(c, ast.Call) and dotted(c.func) == 'atexit.register' and any(
                            isinstance(a, (ast.Name, ast.Attribute)) and g in p.callable_targets(a, h, h.cls) for a in c.args):
                        rt = RegTS(p, g)
                        ro = rt.run_function(h, h.cls, False)
                        never = [l for (st, fa, rv), l in ro['ret'].items() if not st]
                        if not never:
                            used = True
                    if isinstance(c, ast.Try) and any(isinstance(x, ast.Call) and g in p.callees(x, h, h.cls) for b in c.finalbody for x in ast.walk(b)):
                        used = True
            if used:
                ctx.ok('saved', g.qualname + ':exit')
            else:
                ctx.bad('saved', g.qualname + ':exit', g, 'nothing ensures that the workspace in use is closed when marcel ends')
    ctx.count('functions that end the use of a workspace', n)
    ctx.need('functions that end the use of a workspace', 1)


# ------------------------------------------------------------------------------------------------ W03
def canon(p, e, f, depth=0):
    """names of where a name comes from: 'op.new' (self.op.new, and what a constructor was given)"""
    out = set()
    for t in trace(p, e, f):
        if isinstance(t[0], str):
            out.add(f'{t[0]}:{t[1] if isinstance(t[1], str) else "loop"}:{t[2].qualname}')
            continue
        x, g = t[0], t[1]
        if isinstance(x, ast.Constant):
            out.add(f'={x.value!r}')
            continue
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'str' and x.args:
            out |= canon(p, x.args[0], g, depth + 1)
            continue
        d = dotted(x)
        if d is None:
            out.add(ast.unparse(x))
            continue
        parts = d.split('.')
        if parts[0] in ('self', g.self_name()):
            parts = parts[1:]
            cls = g.cls
            k = g
            while cls is None and k.parent is not None:
                k = k.parent
                cls = k.cls
            # an attribute that holds what the constructor was given
            if len(parts) == 1 and cls is not None and depth < 4:
                got = set()
                for c in [cls] + list(p.subclasses(cls)):
                    if not c.derives(cls) and c is not cls:
                        continue
                    for h, v in c.all_attr_assigns(parts[0]):
                        if v is None or isinstance(v, ast.Constant):
                            continue
                        if isinstance(v, ast.Name) and h.name == '__init__' and v.id in h.params:
                            for call, caller in call_sites(p, h):
                                if caller.cls is not None and (caller.cls is cls or cls.derives(caller.cls)) and caller.name == '__init__':
                                    a = arg_for(h, call, v.id)
                                    if a is not None and not isinstance(a, ast.Constant):
                                        got |= canon(p, a, caller, depth + 1)
                        elif isinstance(v, ast.AST) and c is cls:
                            got |= canon(p, v, h, depth + 1)
                if got:
                    out |= got
                    continue
        if parts and parts[0] == 'op' and len(parts) > 1:
            parts = parts[1:]
        out.add('.'.join(parts))
    return out


class NameTS(Typestate):
    """state: frozenset of checked names"""
    max_depth = 6

    def __init__(self, w, top):
        super().__init__(w.p)
        self.w = w
        self.top = top
        self.uses = []
        self.viol = []
        self.track_exc = False

    def relevant(self, t):
        return t.module is self.top.module

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'check_name' or any(isinstance(t, FuncInfo) and t.name == 'check_name' for t in targets):
            names = set()
            for a in list(call.args) + [k.value for k in call.keywords]:
                names |= self.names(a, fr)
            return [st | names]
        a = self.makes(call, targets, fr)
        if a is not None:
            names = {n for n in self.names(a, fr) if not n.startswith('=')}
            self.uses.append((call, fr))
            names -= {n for n in names if n.startswith('iter:') or n.endswith('.name') and ('dir' in n or 'workspace' in n)}
            if not names <= st and not (names and names & st):
                self.viol.append((call, fr, names - st))
        return None

    def names(self, e, fr):
        out = set()
        x, f = e, fr
        if isinstance(x, ast.Name) and fr.caller is not None and x.id in fr.func.params and isinstance(fr.site, ast.Call):
            a = arg_for(fr.func, fr.site, x.id)
            if a is not None:
                return self.names(a, fr.caller)
        # the receiver's class decides what its constructor was given
        func = f.func
        if f.cls is not None and func.cls is not None and f.cls is not func.cls:
            for t in trace(self.p, x, func):
                if not isinstance(t[0], str):
                    d = dotted(t[0])
                    if d and d.split('.')[0] == func.self_name():
                        init = f.cls.find('__init__')
                        g = f.cls.methods.get('setup') or f.cls.methods.get('run') or (init if init and init.cls is f.cls else func)
                        out |= canon(self.p, ast.parse(d.replace(func.self_name(), g.self_name() or 'self', 1), mode='eval').body, g)
                        continue
                    out |= canon(self.p, t[0], func)
                else:
                    out |= canon(self.p, x, func)
            return out
        return canon(self.p, x, func)

    def makes(self, call, targets, fr):
        if any(t is self.w.ws for t in targets) or (dotted(call.func) or '').split('.')[-1] == 'Workspace':
            return call.args[0] if call.args else (call.keywords[0].value if call.keywords else None)
        if any(isinstance(t, FuncInfo) and t.name == 'named' and t.cls in self.w.family for t in targets) or (dotted(call.func) or '').endswith('Workspace.named'):
            return call.args[0] if call.args else (call.keywords[0].value if call.keywords else None)
        return None


def check_W03(ctx):
    p = ctx.p
    w = WS(p)
    ctx.rule('checked', 'a name given by the user is checked before it designates a workspace')
    ctx.rule('check', 'the check of a name rejects every name that is not a single path component, and the reserved ones')
    ctx.rule('paths', 'every path of a workspace contains its name')
    ctx.rule('own', 'an operation on a workspace removes, moves or overwrites only paths of that workspace')
    ctx.rule('in use', 'the workspace in use is not deleted')
    ctx.rule('shared', 'files in the default workspace are removed by the process they belong to, or when it has ended')
    _checked(ctx, w)
    _check_name(ctx, w)
    _paths(ctx, w)
    _own(ctx, w)
    _in_use(ctx, w)
    _shared(ctx, w)


def _checked(ctx, w):
    p = ctx.p
    om_mods = [m for m in p.modules.values() if m.name.startswith('marcel.op.')] if isinstance(p.modules, dict) else [m for m in p.modules if m.name.startswith('marcel.op.')]
    mods = {m.name for m in om_mods}
    classes = {}
    for f in p.functions:
        if f.module.name in mods and f.cls is not None:
            ts = NameTS(w, f)
            fr = Frame(f, f.cls)
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call) and ts.makes(n, p.callees(n, f, f.cls), fr) is not None:
                    for c in [f.cls] + [k for k in p.subclasses(f.cls) if k is not f.cls]:
                        classes[c] = f
    for c, f in sorted(classes.items(), key=lambda x: x[0].qualname):
        ts = NameTS(w, f)
        states = {frozenset()}
        for nm in ('setup', 'run'):
            m = c.find(nm)
            if m is None or m.cls.module is not f.module:
                continue
            o = ts.run_function(m, c, None) if False else None
            nxt = set()
            for st in states:
                o = ts.run_function(m, c, st)
                nxt |= {k[0] for k in o['ret']}
            states = nxt or states
        ctx.count('operators given the name of a workspace')
        if ts.viol:
            call, fr, names = ts.viol[0]
            ctx.bad('checked', f'{c.qualname}', fr.func, f'{", ".join(sorted(names))} designates a workspace without having been checked', call)
        elif ts.uses:
            ctx.ok('checked', c.qualname)
    ctx.need('operators given the name of a workspace', 2)


def _check_name(ctx, w):
    p = ctx.p
    m = w.ws.find('check_name')
    if m is None:
        ctx.bad('check', w.ws.qualname, w.ws.methods['__init__'], 'names of workspaces are not checked')
        return
    ctx.count('checks of names')
    par = [x for x in m.params if x != m.self_name()][-1]
    # conditions whose truth leads to a raise
    lits, sep, attrs = set(), False, set()

    def isname(e):
        return isinstance(e, ast.Name) and (e.id == par or any(isinstance(v, ast.Name) and v.id == par for v in m.local_assigns().get(e.id, []) if isinstance(v, ast.AST)))

    def visit(cond, sense):
        nonlocal sep
        if isinstance(cond, ast.UnaryOp) and isinstance(cond.op, ast.Not):
            return visit(cond.operand, not sense)
        if isinstance(cond, ast.BoolOp):
            if isinstance(cond.op, ast.Or) == sense:
                for v in cond.values:
                    visit(v, sense)
            return
        if isinstance(cond, ast.Name) and not isname(cond):
            for v in m.local_assigns().get(cond.id, []):
                if isinstance(v, ast.AST):
                    visit(v, sense)
            return
        if isname(cond) and not sense:
            lits.add('')
        if isinstance(cond, ast.Compare) and len(cond.ops) == 1:
            op, l, r = cond.ops[0], cond.left, cond.comparators[0]
            yes = isinstance(op, (ast.In, ast.Eq)) == sense
            if isinstance(op, (ast.In, ast.NotIn)) and yes:
                if isname(l):
                    col = [t[0] for t in trace(p, r, m) if not isinstance(t[0], str)]
                    for cc in col:
                        for e in getattr(cc, 'elts', []):
                            if isinstance(e, ast.Constant):
                                lits.add(e.value)
                            else:
                                attrs.add((dotted(e) or '').split('.')[-1])
                elif isname(r):
                    if isinstance(l, ast.Constant) and l.value == '/' or (dotted(l) or '') == 'os.sep':
                        sep = True
            if isinstance(op, (ast.Eq, ast.NotEq)):
                if yes and (isname(l) or isname(r)):
                    e = r if isname(l) else l
                    if isinstance(e, ast.Constant):
                        lits.add(e.value)
                    else:
                        attrs.add((dotted(e) or '').split('.')[-1])
                if not yes and (isname(l) or isname(r)):
                    e = l if isname(r) else r
                    t = ast.unparse(e)
                    for v in [e] + [y for x in ast.walk(e) if isinstance(x, ast.Name) for y in m.local_assigns().get(x.id, []) if isinstance(y, ast.AST)]:
                        if isinstance(e, ast.Attribute) and e.attr == 'name' or 'basename' in t:
                            sep = True
                            lits.add('.') if False else None
        if isinstance(cond, ast.Call) and not sense and isinstance(cond.func, ast.Attribute) and isname(cond.func.value) and cond.func.attr in ('isidentifier', 'isalnum', 'isalpha'):
            sep = True
            lits.update(('', '.', '..'))

    for n in own_nodes(m.node):
        if isinstance(n, ast.If):
            if _raises(n.body):
                visit(n.test, True)
            if _raises(n.orelse):
                visit(n.test, False)
            elif not n.orelse and _tail_raises(m, n):
                visit(n.test, False)
    missing = [repr(x) for x in ('', '.', '..') if x not in lits]
    if not sep:
        missing.append("names containing '/'")
    if not any('DEFAULT' in a for a in attrs) and '__DEFAULT__' not in lits:
        missing.append('the directory of the default workspace')
    if missing:
        ctx.bad('check', m.qualname, m, f'{m.name} accepts {", ".join(missing)}')
    else:
        ctx.ok('check', m.qualname)


def _raises(body):
    return any(isinstance(n, ast.Raise) for s in body for n in ast.walk(s))


def _tail_raises(m, node):
    """if ok: return / raise ..."""
    return bool(node.body) and isinstance(node.body[-1], ast.Return) and isinstance(m.node.body[-1], ast.Raise) and node in m.node.body


class PathTS(Typestate):
    max_depth = 1
    track_exc = False

    def __init__(self, p, f, par, bases):
        super().__init__(p)
        self.f = f
        self.par = par
        self.bases = bases
        self.bad = []

    def relevant(self, t):
        return False

    def on_test(self, test, truth, st, fr):
        k, pol = test_key(test)
        e = test
        while isinstance(e, ast.UnaryOp):
            e = e.operand
        l = e.left if isinstance(e, ast.Compare) else e
        names = {n.id for n in ast.walk(test) if isinstance(n, ast.Name)}
        if self.par in names and not any(isinstance(n, ast.Call) for n in ast.walk(test)) and not isinstance(test, ast.Compare):
            return st if truth == pol else None
        # a path of a workspace: every optional parameter is given
        if k[0] == 'none' and isinstance(l, ast.Name) and l.id in self.f.params:
            return None if truth == pol else st
        return st

    def named(self, e, st):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
                args = {x.id for a in list(n.args) + [k.value for k in n.keywords] for x in ast.walk(a) if isinstance(x, ast.Name)}
                if self.par in args and nm in self.bases:
                    return True
            if isinstance(n, ast.Name) and n.id in st:
                return True
            if isinstance(n, ast.Attribute) and n.attr == 'name' and isinstance(n.value, ast.Name) and n.value.id == self.par:
                return True
        return False

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Name) and value is not None:
            return [st | {target.id} if self.named(value, st) else st - {target.id}]
        return [st]

    def on_return(self, node, st, fr):
        if node.value is not None and not self.named(node.value, st):
            self.bad.append(node)
        return [st]


class PidTS(PathTS):
    """as PathTS, for the default workspace: does the path contain the pid?"""

    def isdef(self, e):
        neg = False
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, neg = e.operand, not neg
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'is_default':
            return not neg
        return None

    def optional(self):
        a = self.f.node.args
        ps = a.posonlyargs + a.args
        return {x.arg for x in ps[len(ps) - len(a.defaults):]} | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}

    def on_test(self, test, truth, st, fr):
        # a file, not the directory of the files: every optional parameter is given
        e, neg = test, False
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, neg = e.operand, not neg
        if isinstance(e, ast.Name) and e.id in self.optional():
            return st if truth != neg else None
        d = self.isdef(test)
        if d is not None:
            return st if truth == d else None
        return super().on_test(test, truth, st, fr)

    def on_test_call(self, call, targets, truth, st, fr):
        if self.isdef(call) is not None:
            return st if truth else None
        return st

    def named(self, e, st, fr=None):
        if isinstance(e, ast.IfExp):
            d = self.isdef(e.test)
            if d is not None:
                return self.named(e.body if d else e.orelse, st)
            return self.named(e.body, st) and self.named(e.orelse, st)
        if isinstance(e, ast.Attribute):
            return e.attr == 'pid' or self.named(e.value, st)
        if isinstance(e, ast.Name):
            return e.id in st
        if isinstance(e, ast.Call):
            if (dotted(e.func) or '').split('.')[-1] == 'getpid':
                return True
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == self.f.self_name():
                g = self.f.cls.find(e.func.attr)
                if g is not None and any(isinstance(n, ast.Attribute) and n.attr == 'pid' for n in own_nodes(g.node)):
                    return True
        return any(self.named(c, st) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr))


def _paths(ctx, w):
    p = ctx.p
    loc = p.cls('Locations', 'marcel.locations')
    ms = [m for m in loc.methods.values() if 'workspace' in m.params]
    names = {m.name for m in ms}
    for m in sorted(ms, key=lambda m: m.name):
        if m.name == 'workspace_dir_name' or m.is_static:
            # the name of the directory: of the workspace's own
            ok = _distinct(m, 'workspace')
            (ctx.ok if ok else lambda r, k, *a: ctx.bad(r, k, m, 'two workspaces with different names can have the same directory'))('paths', m.qualname)
            continue
        ctx.count('paths of a workspace')
        ts = PathTS(p, m, 'workspace', names)
        ts.run_function(m, loc, frozenset())
        if ts.bad:
            ctx.bad('paths', m.qualname, m, f'a path returned by {m.name} does not contain the name of the workspace', ts.bad[0])
        else:
            ctx.ok('paths', m.qualname)
        if m.name in ('data_ws_env', 'data_ws_res'):
            pt = PidTS(p, m, 'workspace', names)
            pt.run_function(m, loc, frozenset())
            if pt.bad:
                ctx.bad('shared', m.qualname, m, f'processes using the default workspace share the file returned by {m.name}: they overwrite each other\'s state', pt.bad[0])
            else:
                ctx.ok('shared', m.qualname, 'the name contains the pid')
    ctx.need('paths of a workspace', 4)
    ctx.notes.append(f'{len(ms)} location methods')


def _distinct(m, par):
    """what m returns is the name of the workspace, or a constant for the default workspace"""
    def same(e, depth=0):
        if depth > 6:
            return False
        if isinstance(e, ast.IfExp):
            return same(e.body, depth + 1) and same(e.orelse, depth + 1)
        if isinstance(e, ast.Attribute):
            return e.attr == 'name' and isinstance(e.value, ast.Name) and e.value.id == par or e.attr.isupper()
        if isinstance(e, ast.Constant):
            return isinstance(e.value, str)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'str' and len(e.args) == 1:
            return same(e.args[0], depth + 1)
        if isinstance(e, ast.JoinedStr):
            fv = [v for v in e.values if isinstance(v, ast.FormattedValue)]
            return len(fv) == 1 and fv[0].format_spec is None and same(fv[0].value, depth + 1)
        if isinstance(e, ast.Name):
            vs = [v for v in m.local_assigns().get(e.id, []) if isinstance(v, ast.AST)]
            return bool(vs) and all(same(v, depth + 1) for v in vs)
        return False
    rets = [n.value for n in own_nodes(m.node) if isinstance(n, ast.Return)]
    return any(isinstance(n, ast.Attribute) and n.attr == 'name' for n in own_nodes(m.node)) and bool(rets) and all(r is not None and same(r) for r in rets)


def climbs(p, e, f, depth=0, seen=None):
    """does path e leave the directory it is derived from?"""
    seen = seen if seen is not None else set()
    if depth > 12 or (id(e), f) in seen:
        return False
    seen.add((id(e), f))
    up = lambda x: climbs(p, x, f, depth + 1, seen)
    if isinstance(e, ast.Attribute):
        return e.attr in ('parent', 'parents') or up(e.value) if not isinstance(e.value, ast.Name) or e.attr in ('parent', 'parents') else False
    if isinstance(e, ast.Subscript):
        return up(e.value)
    if isinstance(e, ast.IfExp):
        return up(e.body) or up(e.orelse)
    if isinstance(e, ast.BinOp):
        return any(isinstance(n, ast.Constant) and isinstance(n.value, str) and '..' in n.value.split('/') for n in ast.walk(e.right)) or up(e.left)
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute) and e.func.attr in (
                'with_name', 'with_suffix', 'with_stem', 'absolute', 'resolve', 'as_posix', 'joinpath', 'expanduser', 'iterdir', 'glob', 'rglob'):
            return up(e.func.value)
        if (dotted(e.func) or '').split('.')[-1] == 'dirname':
            return True
        if (dotted(e.func) or '').split('.')[-1] in ('str', 'Path', 'PurePath', 'open', 'join', 'list', 'sorted', 'listdir', 'scandir', 'fspath', 'set', 'tuple') and e.args:
            return up(e.args[0])
        return False
    if isinstance(e, ast.Name):
        g = f
        while g is not None:
            vs = [v for v in g.local_assigns().get(e.id, []) if isinstance(v, ast.AST)]
            its = [n.iter for n in own_nodes(g.node) if isinstance(n, (ast.For, ast.comprehension)) and
                   any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.target))]
            if any(climbs(p, v, g, depth + 1, seen) for v in vs + its):
                return True
            if e.id in g.params and e.id != g.self_name():
                return any(climbs(p, a, h, depth + 1, seen) for c, h in call_sites(p, g) for a in [arg_for(g, c, e.id)] if a is not None)
            if vs or its:
                return False
            g = g.parent
    return False


class InUseTS(Typestate):
    """state: the name is not that of the workspace in use"""
    max_depth = 3
    track_exc = False

    def __init__(self, w):
        super().__init__(w.p)
        self.w = w
        self.viol = []
        self.sites = 0

    def relevant(self, t):
        return t.module.name.startswith('marcel.op.')

    def on_test(self, test, truth, st, fr):
        k, pol = test_key(test)
        if k[0] == 'eq' and isinstance(test, ast.Compare) and truth != pol:
            sides = [test.left, test.comparators[0]]
            cur = [s for s in sides if any(self.current(x, fr) for x in ast.walk(s))]
            if len(cur) == 1:
                return True
        return st

    def current(self, x, fr):
        if isinstance(x, ast.Attribute) and x.attr == 'workspace' and isinstance(x.value, ast.Name) and x.value.id in ('env', fr.func.self_name()) or \
                isinstance(x, ast.Attribute) and (dotted(x) or '').endswith('env.workspace'):
            return True
        if isinstance(x, ast.Name):
            return any(self.current(y, fr) for v in fr.func.local_assigns().get(x.id, []) if isinstance(v, ast.Attribute) for y in ast.walk(v))
        return False

    def on_call(self, call, targets, st, fr):
        if any(isinstance(t, FuncInfo) and t.name == 'delete' and t.cls in self.w.family for t in targets):
            self.sites += 1
            if not st:
                self.viol.append((call, fr))
        return None


def _in_use(ctx, w):
    p = ctx.p
    n = 0
    for f in p.functions:
        if f.cls in w.family or not any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'delete' and
                                        any(isinstance(t, FuncInfo) and t.name == 'delete' and t.cls in w.family for t in p.callees(c, f, f.cls))
                                        for c in own_nodes(f.node)):
            continue
        ts = InUseTS(w)
        ts.run_function(f, f.cls, False)
        n += ts.sites
        if ts.viol:
            ctx.bad('in use', f.qualname, f, 'a workspace is deleted on a path on which its name was not found to differ (==) from that of the workspace in use', ts.viol[0][0])
        elif ts.sites:
            ctx.ok('in use', f.qualname)
    ctx.count('deletions of a workspace', n)
    ctx.need('deletions of a workspace', 1)


def _own(ctx, w):
    p = ctx.p
    n = 0
    for f in sorted(p.functions, key=lambda f: f.qualname):
        if f.module is not w.mod:
            continue
        c = f.cls
        g = f
        while c is None and g.parent is not None:
            g = g.parent
            c = g.cls
        if c is None or (c not in w.family and not c.name.endswith('Validater') and c.name != 'Marker'):
            continue
        for call in own_nodes(f.node):
            ef = effect(call)
            if ef is None or ef[0] in ('mkdir', 'chmod', 'touch'):
                continue
            n += 1
            ok = True
            why = ''
            for e in ef[1]:
                for x, h in flat(p, e, f):
                    r = _owned(p, w, x, h)
                    if r:
                        ok = False
                        why = r
                if climbs(p, e, f):
                    ok = False
                    why = 'a path outside the directory it is derived from'
            if ok:
                ctx.ok('own', f.qualname)
            else:
                ctx.bad('own', f'{f.qualname}:{ef[0]}', f, f'{EFFECTS.get(ef[0], "writes")} {why}', call)
    ctx.count('effects on files', n)
    ctx.need('effects on files', 5)


def _owned(p, w, x, f, depth=0):
    """None if x is a path of the workspace at hand (or a broken one), otherwise what it is"""
    if depth > 6:
        return None
    if isinstance(x, tuple):
        return f'a path given by {x[1]}' if x[0] == 'param' and x[1] not in ('self',) and not call_sites(p, x[2]) == [] else None
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
        m = x.func.attr
        if m in ('owned', 'unowned'):
            return None
        if m in ('config_bws', 'data_bws'):
            return None
        t = p.callees(x, f, f.cls)
        isloc = any(isinstance(y, FuncInfo) and y.cls is not None and y.cls.name == 'Locations' for y in t) or 'location' in (dotted(x.func.value) or '')
        if isloc:
            args = list(x.args) + [k.value for k in x.keywords]
            if not args or isinstance(args[0], ast.Constant):
                return f'the directory of all workspaces ({m})'
            c = f.cls
            g = f
            while c is None and g.parent is not None:
                g = g.parent
                c = g.cls
            if isinstance(args[0], ast.Call) and isinstance(args[0].func, ast.Attribute) and args[0].func.attr == 'default' and c is not None and \
                    'Default' not in c.name and c not in w.default:
                return 'a path of the default workspace'
            return None
        if m in ('iterdir', 'glob', 'rglob'):
            for y, h in flat(p, x.func.value, f):
                r = _owned(p, w, y, h, depth + 1)
                if r:
                    return r
            return None
        return None
    if isinstance(x, ast.Name):
        for lp in own_nodes(f.node):
            if isinstance(lp, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == x.id for y in ast.walk(lp.target)):
                its = [lp.iter.body, lp.iter.orelse] if isinstance(lp.iter, ast.IfExp) else [lp.iter]
                for it in its:
                    if isinstance(it, ast.Call):
                        r = _owned(p, w, it, f, depth + 1)
                        if r:
                            return r
    return None


class SharedTS(Typestate):
    """state: belongs to this process / owner gone"""
    max_depth = 1
    track_exc = False

    def __init__(self, p):
        super().__init__(p)
        self.viol = []
        self.sites = 0

    def relevant(self, t):
        return False

    def on_iter(self, s, st, fr):
        return [False]

    def pidish(self, e, fr):
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and n.attr in ('pid', 'getpid') or isinstance(n, ast.Name) and 'pid' in n.id:
                return True
        return False

    def on_test(self, test, truth, st, fr):
        k, pol = test_key(test)
        yes = truth == pol
        if k[0] == 'eq' and yes and isinstance(test, ast.Compare) and self.pidish(test.left, fr) and self.pidish(test.comparators[0], fr):
            return True
        if k[0] == 'in' and not yes and self.pidish(test, fr):
            return True
        return st

    def on_call(self, call, targets, st, fr):
        nm = (dotted(call.func) or getattr(call.func, 'attr', '')).split('.')[-1]
        if nm in ('process_exists', 'pid_exists'):
            return [('rv', st, 'T'), ('rv', True, 'F')]
        ef = effect(call)
        if ef and ef[0] in ('unlink', 'remove', 'rmtree') and not any(
                isinstance(x, ast.Call) and loc_call(x) in STATE for e in ef[1] for x, _ in flat(self.p, e, fr.func, fr)) or nm == 'ensure_deleted':
            self.sites += 1
            if not st:
                self.viol.append((call, fr))
        return None


def _shared(ctx, w):
    p = ctx.p
    n = 0
    for c in p.classes:
        if c.module is not w.mod or not (c in w.default or c.name.endswith('DefaultValidater')):
            continue
        fs = []
        for m in c.methods.values():
            fs.append(m)
            fs += [g for g in p.functions if g.parent is m]
        for m in fs:
            ts = SharedTS(p)
            ts.run_function(m, c, False)
            n += ts.sites
            if ts.viol:
                ctx.bad('shared', m.qualname, m, 'a file of the default workspace, which may belong to another process, is removed', ts.viol[0][0])
            elif ts.sites:
                ctx.ok('shared', m.qualname)
    ctx.count('removals in the default workspace', n)
    ctx.need('removals in the default workspace', 1)


CHECKS = {'W01': check_W01, 'W02': check_W02, 'W03': check_W03}
MUTANTS = {
    'W01': [
        ('marcel/object/workspace.py', '        if self.marker.unowned().exists():\n            return None\n        if not self.locations',
         '        if self.marker.unowned().exists() or self.properties is None:\n            return None\n        if not self.locations', 'owner decided by the state of an object'),
        ('marcel/object/workspace.py', '        return not self.is_default() and self.owner() not in (None, self.locations.pid)',
         '        return not self.is_default() and self.properties is not None and self.owner() not in (None, self.locations.pid)', 'use decided by the state of an object'),
        ('marcel/object/workspace.py', '        self.properties.set_home(home)\n        self.write_properties()',
         '        self.properties.set_home(home)\n        self.write_properties()\n        self.unlock_workspace()', 'unlocked while in use'),
        ('marcel/object/workspace.py', '                    if workspace.marker.exists():\n                        workspace.read_properties()',
         '                    if workspace.exists() and workspace.lock_workspace():\n                        workspace.read_properties()', 'list locks'),
        ('marcel/util.py', 'def process_exists(pid):',
         'def process_exists(pid):\n    if pid > 99999:\n        return False\n    return _process_exists(pid)\n\n\ndef _process_exists(pid):', 'processes with large ids ignored'),
        ('marcel/job.py', '    env.locations.pid = mp.parent_process().pid',
         '    env.locations.pid = env.workspace.locations.pid = mp.parent_process().pid\n    env.workspace.open(env)', 'a job opens the workspace'),
        ('marcel/object/workspace.py', '                    self.unlock_workspace()\n                    raise', '                    raise', 'not unlocked when opening fails'),
        ('marcel/object/workspace.py', "                return False\n            return owned_marker_path.exists()\n        elif", "                pass\n            return True\n        elif", 'lost race granted'),
        ('marcel/object/workspace.py', "            if marcel.util.process_exists(owner):\n                return False\n            else:", "            if True:", 'lock stolen from a live process'),
        ('marcel/object/workspace.py', "                        file.rename(self.marker.unowned())", "                        file.unlink()\n                        self.marker.ensure_exists()", 'marker deleted and recreated'),
        ('marcel/env.py', 'usage=usage, attach=True)', 'usage=usage)', 'a job opens the workspace'),
        ('marcel/main.py', "                if broken_ws.in_use_by_another_process():\n", "                if broken_ws.is_default():\n", 'moved while in use'),
        ('marcel/object/workspace.py', "            else:\n                self.cannot_lock_workspace()\n        else:\n            self.does_not_exist()\n\n    # Use", "            else:\n                pass\n        else:\n            self.does_not_exist()\n\n    # Use", 'refusal ignored by open'),
    ],
    'W02': [
        ('marcel/object/workspace.py', "        temp_path = self.locations.data_ws_res(self, f'{path.name}.tmp')",
         "        temp_path = pathlib.Path('/tmp') / f'{path.name}.tmp'", 'temporary file elsewhere'),
        ('marcel/object/workspace.py', '        self.write_environment({})\n        if not self.is_default():',
         '        self.locations.data_ws_env(self).touch()\n        if not self.is_default():', 'created with an empty state file'),
        ('marcel/main.py', '        atexit.register(self.shutdown)',
         '        if testing is None and os.isatty(0):\n            atexit.register(self.shutdown)', 'not always closed at exit'),
        ('marcel/main.py', '            trace = main.env.trace\n            main.shutdown(restart=True)\n',
         '            trace = main.env.trace\n            if e.workspace_to_open is not None:\n                main.shutdown(restart=True)\n', 'not closed before restart'),
        ('marcel/object/workspace.py', '            with open(temp_path, \'wb\') as temp_file:\n                pickler = dill.Pickler(temp_file)\n                pickler.dump(state)\n            temp_path.replace(path)',
         '            with open(path, \'wb\') as temp_file:\n                pickler = dill.Pickler(temp_file)\n                pickler.dump(state)', 'written in place'),
        ('marcel/object/workspace.py', '                pickler.dump(state)\n            temp_path.replace(path)', '                pickler.dump(state)\n            path.unlink(missing_ok=True)\n            temp_path.replace(path)', 'removed first'),
        ('marcel/object/workspace.py', '                pickler.dump(state)\n            temp_path.replace(path)', '                pickler.dump(state)\n                temp_path.replace(path)', 'replaced while open'),
        ('marcel/object/workspace.py', '                pickler.dump(state)\n            temp_path.replace(path)\n        except BaseException:\n            temp_path.unlink(missing_ok=True)\n            raise',
         '                pickler.dump(state)\n        finally:\n            temp_path.replace(path)', 'replaced after failure'),
        ('marcel/object/workspace.py', "temp_path = self.locations.data_ws_res(self, f'{path.name}.tmp')", "temp_path = path.with_name(f'{path.name}.tmp')", 'leftover invalidates the workspace'),
        ('marcel/object/workspace.py', "                self.write_properties()\n                # Reservoirs", "                # Reservoirs", 'properties not saved on close'),
    ],
    'W03': [
        ('marcel/locations.py', '        return Locations.DEFAULT_WORKSPACE_DIR_NAME if workspace.is_default() else workspace.name',
         '        return Locations.DEFAULT_WORKSPACE_DIR_NAME if workspace.is_default() else workspace.name.lower()', 'directory name not distinct'),
        ('marcel/object/workspace.py', "        delete_abandoned(locations.data_ws_res(workspace), '.pickle')",
         "        delete_abandoned(locations.data_ws_res(workspace), 'pickle')\n        delete_abandoned(locations.data_ws_res(workspace).parent.parent, '.pickle')", 'files outside the directory'),
        ('marcel/object/workspace.py', '        config_target = locations.config_bws(self, now)\n            shutil.move(config_source, config_target)',
         '        config_target = locations.config_bws(self, now)\n            shutil.move(config_source.parent, config_target)', 'parent directory moved'),
        ('marcel/object/workspace.py', '            for subdir in dir.iterdir():',
         "            for subdir in dir.parent.glob('*/*'):", 'other directories deleted'),
        ('marcel/op/ws.py', '        if name == env.workspace.name:',
         '        if name is env.workspace.name:', 'name compared by identity'),
        ('marcel/op/edit.py', '            marcel.object.workspace.Workspace.check_name(self.ws_name)\n', '', 'edit does not check'),
        ('marcel/op/ws.py', "    def setup(self, env):\n        self.check_anon_arg_present('NAME')\n        Workspace.check_name(self.anon_arg)\n\n    def run(self, env):\n        name = self.op.delete", "    def setup(self, env):\n        self.check_anon_arg_present('NAME')\n\n    def run(self, env):\n        name = self.op.delete", 'delete does not check'),
        ('marcel/object/workspace.py', "name in ('', '.', '..', marcel", "name in ('', '.', marcel", 'dot dot accepted'),
        ('marcel/object/workspace.py', "                or pathlib.PurePath(name).name != name):", "                ):", 'slash accepted'),
        ('marcel/object/workspace.py', "        delete_subdirs(env.locations.config_bws())", "        delete_subdirs(env.locations.config_ws())", 'deletes all workspaces'),
        ('marcel/object/workspace.py', "            if reservoir.pid() == current_pid:\n                reservoir.close()\n                if not restart:\n                    reservoir.ensure_deleted()",
         "            reservoir.close()\n            if not restart:\n                reservoir.ensure_deleted()", "deletes another process's reservoirs"),
        ('marcel/locations.py', "        return self.data_ws(workspace) / 'history'", "        return self.data_ws() / 'history'", 'shared history'),
    ],
}
