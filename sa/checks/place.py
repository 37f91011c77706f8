"""J01: what changes the shell runs in the shell."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate, test_key
from ..ops import OpModel
from ..paths import trace
from .position import declared, FIRST

META = {
    'J01': {
        'explanation': 'For every operator, the effects on the shell that its methods reach through the call graph are computed: requests to exit or '
                       'to change the workspace, use of the job table, changes of the current directory or directory stack, use of what only an '
                       'interactive environment has, switching tracing, and running an editor; also assigning, importing or '
                       'deleting variables on behalf of the user. An operator with such an effect must declare, on every path, that it runs in the '
                       'main process and that it is first. The code that executes a command is executed abstractly: a job is started only '
                       'on paths on which the first operator said it need not run in the shell. A directory changed by a job is marked as changed, and '
                       'the receiver of the changes applies it by changing directory.',
        'assumptions': ['position declarations are enforced (F09)', 'changes marked in a job are returned (N05)'],
    },
}
INMAIN = 'run_in_main_process'
STOP = ('marcel.pipeline', 'marcel.core', 'marcel.nestednamespace', 'marcel.parser', 'marcel.argsparser', 'marcel.function')


class Effects:
    def __init__(self, p):
        self.p = p
        self.env = p.cls('Environment', 'marcel.env')
        try:
            self.ienv = p.cls('EnvironmentInteractive', 'marcel.env')
        except AnalysisBroken:
            raise AnalysisBroken('no interactive environment')
        base = {a for m in ('__init__',) for a in assigned(self.env.methods.get(m))}
        self.interactive = assigned(self.ienv.methods.get('__init__')) - base
        jc = p.cls('JobControl', 'marcel.job')
        self.jc = jc
        self.dirs = p.cls('DirectoryState', 'marcel.directorystate')
        self.dirmut = {m for m in self.dirs.methods.values() if m.name != '__init__' and not m.name.startswith('_') and self.moves(m, set())}
        self.tracecls = next((c for c in p.classes if c.module is self.env.module and c.name == 'Trace'), None)
        self.tracemut = {m for m in self.tracecls.methods.values() if not m.name.startswith('__') and assigned(m)} if self.tracecls else set()
        self.cache = {}

    def moves(self, m, seen):
        """changes the current directory or the stack of directories (dropping directories that are gone doesn't count)"""
        if m in seen:
            return False
        seen.add(m)
        stack = {n for n, vs in m.local_assigns().items() for v in vs if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == '_dir_stack'}
        for n in own_nodes(m.node):
            if isinstance(n, ast.Call):
                if dotted(n.func) == 'os.chdir':
                    return True
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'pop', 'clear', 'insert', 'reverse', 'remove', 'extend') and \
                        isinstance(n.func.value, ast.Name) and n.func.value.id in stack:
                    return True
                for t in self.p.callees(n, m, m.cls):
                    if isinstance(t, FuncInfo) and t.cls is self.dirs and not t.name.startswith('_') and self.moves(t, seen):
                        return True
            if isinstance(n, (ast.Assign, ast.Delete)):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in stack:
                        return True
        return False

    def direct(self, f, user):
        """{effect: node} of the code of f itself; user: variables count too"""
        out = {}
        p = self.p
        envs = {x for x in f.params if x == 'env'} | {n for n, vs in f.local_assigns().items() for v in vs if isinstance(v, ast.Name) and v.id == 'env'}

        def is_env(e):
            if isinstance(e, ast.Name) and e.id in envs or isinstance(e, ast.Attribute) and e.attr == 'env':
                return True
            t = p.infer(e, f, f.cls)
            return bool(t) and all(isinstance(k, ClassInfo) and k.derives(self.env) for k in t)

        for n in own_nodes(f.node):
            if isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                nm = (dotted(e) or '').split('.')[-1]
                if nm in ('ExitException', 'ReconfigureException', 'KillShellException'):
                    if nm != 'KillShellException':
                        out.setdefault('leaves or reconfigures the shell', n)
            elif isinstance(n, ast.Attribute):
                d = dotted(n) or ''
                if d.endswith('JobControl.only') and f.module is not self.jc.module:
                    out.setdefault('uses the jobs of the shell', n)
                if n.attr in self.interactive and is_env(n.value) and f.cls is not self.ienv:
                    out.setdefault('uses what only the interactive shell has', n)
            if isinstance(n, ast.Call):
                t = [x for x in p.callees(n, f, f.cls)]
                fs = [x for x in t if isinstance(x, FuncInfo)]
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
                if any(x in self.dirmut for x in fs) or not fs and nm in {m.name for m in self.dirmut} and 'dir_state' in ast.dump(n.func):
                    out.setdefault('changes directory', n)
                if any(x in self.tracemut for x in fs) or not fs and nm in {m.name for m in self.tracemut} and 'trace' in ast.dump(n.func):
                    out.setdefault('switches tracing', n)
                if any(x.module.name == 'marcel.runeditor' and f.module.name != 'marcel.runeditor' for x in fs):
                    out.setdefault('runs an editor', n)
                if user and isinstance(n.func, ast.Attribute) and nm in ('setvar', 'setvar_with_source', 'setvar_import', 'delvar') and \
                        (is_env(n.func.value) or any(x.cls is not None and x.cls.name in ('VarHandler', 'Workspace') for x in fs)):
                    out.setdefault('changes variables', n)
        return out

    def reached(self, f, cls, user, seen=None, depth=0):
        seen = seen if seen is not None else set()
        if (f, cls) in seen or depth > 8:
            return {}
        seen.add((f, cls))
        out = {k: (n, f) for k, n in self.direct(f, user).items()}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                for t in self.p.callees(n, f, cls):
                    if isinstance(t, ClassInfo):
                        t = t.find('__init__')
                    if isinstance(t, FuncInfo) and t.module.name not in STOP and t.cls is not self.dirs and t.cls is not self.env and t.cls is not self.ienv and \
                            t.module is not self.jc.module:
                        for k, v in self.reached(t, cls if cls and t.cls and cls.derives(t.cls) else t.cls, user, seen, depth + 1).items():
                            out.setdefault(k, v)
        for g in f.nested.values():
            if isinstance(g, FuncInfo):
                for k, v in self.reached(g, cls, user, seen, depth + 1).items():
                    out.setdefault(k, v)
        return out


def assigned(m):
    out = set()
    if m is None:
        return out
    for n in own_nodes(m.node):
        for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []):
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == m.self_name():
                out.add(t.attr)
    return out


class DecideTS(Typestate):
    """state: whether the pipeline said that it runs in the shell"""
    max_depth = 3
    track_exc = False

    def __init__(self, p, decide):
        super().__init__(p)
        self.decide = decide
        self.jobs = []
        self.asked = 0

    def relevant(self, t):
        return t.cls is not None and t.module.name == 'marcel.main'

    def on_call(self, call, targets, st, fr):
        nm = call.func.attr if isinstance(call.func, ast.Attribute) else getattr(call.func, 'id', '')
        if nm in self.decide:
            self.asked += 1
            return [('rv', 'shell', 'T'), ('rv', 'job', 'F')]
        if nm == 'create_job':
            self.jobs.append((call, st))
            return [st]
        return None


def check_J01(ctx):
    p = ctx.p
    om = OpModel(p)
    ef = Effects(p)
    ctx.rule('shell', 'an operator with an effect on the shell declares that it runs in the main process')
    ctx.rule('first', 'an operator with an effect on the shell declares that it is the first of its pipeline')
    ctx.rule('decided', 'a job is started only for a command whose first operator need not run in the shell')
    ctx.rule('asked', 'a pipeline runs in the main process if its first operator does')
    ctx.rule('carried', 'a directory changed by a job is marked as changed, and applied by the shell')
    if len(ef.dirmut) < 2 or not ef.interactive:
        raise AnalysisBroken('directory changes or interactive environment not recognised')
    n = 0
    for c in om.concrete:
        out = {}
        for nm in ('setup', 'run', 'receive', 'flush', 'cleanup'):
            f = c.find(nm)
            if isinstance(f, FuncInfo) and f.cls is not om.Op and f.cls is not om.AbstractOp:
                for k, v in ef.reached(f, c, nm == 'run').items():
                    out.setdefault(k, v)
        # operators whose work is done by helper classes of their module
        for h in c.module.classes.values() if hasattr(c.module, 'classes') and isinstance(c.module.classes, dict) else [k for k in p.classes if k.module is c.module]:
            if h is c or h.derives(om.Op) or h.derives(om.AbstractOp) is False and not any(
                    isinstance(x, ast.Call) and h in [t for t in p.callees(x, g, g.cls)] for g in c.methods.values() for x in own_nodes(g.node)):
                continue
            for nm in ('setup', 'run'):
                f = h.find(nm)
                if isinstance(f, FuncInfo):
                    for k, v in ef.reached(f, h, nm == 'run').items():
                        out.setdefault(k, v)
        if not out:
            continue
        n += 1
        what = ', '.join(sorted(out))
        node, g = sorted(out.items())[0][1]
        for rule, decl, msg in (('shell', INMAIN, 'may run in a process of its own'), ('first', FIRST, 'is accepted in the middle of a pipeline')):
            d = declared(p, c, decl)
            if d != {'T'}:
                ctx.bad(rule, c.qualname, g, f'{c.name} {what}, but {msg}', node)
            else:
                ctx.ok(rule, c.qualname, what)
    ctx.count('operators with an effect on the shell', n)
    ctx.need('operators with an effect on the shell', 8)
    _decided(ctx, p)
    _asked(ctx, p, om)
    _carried(ctx, p, ef)


def _decided(ctx, p):
    k = 0
    for f in p.functions:
        if f.module.name == 'marcel.job' or f.cls is None:
            continue
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'create_job' for n in own_nodes(f.node)):
            continue
        # start where the command comes in
        k += 1
        ts = DecideTS(p, {INMAIN})
        ts.run_function(f, f.cls, '?')
        starts = [f]
        if any(st == '?' for c, st in ts.jobs) and not ts.asked:
            from ..paths import call_sites
            starts = [g for c, g in call_sites(p, f)] or [f]
            bad = []
            for g in starts:
                ts = DecideTS(p, {INMAIN})
                for c in [g.cls] + [d for d in p.subclasses(g.cls) if d is not g.cls] if g.cls else [None]:
                    ts.run_function(g, c, '?')
                bad += [c for c, st in ts.jobs if st != 'job']
        else:
            bad = [c for c, st in ts.jobs if st != 'job']
        if bad:
            ctx.bad('decided', f.qualname, f, 'a job is started for a command that may have to run in the shell', bad[0])
        else:
            ctx.ok('decided', f.qualname)
    ctx.count('places that start jobs', k)
    ctx.need('places that start jobs', 1)


class AskTS(Typestate):
    max_depth = 3
    track_exc = False

    def __init__(self, p):
        super().__init__(p)
        self.seen = []

    def relevant(self, t):
        return t.cls is not None and t.module.name == 'marcel.pipeline' and t.name not in (INMAIN,)


def _asked(ctx, p, om):
    k = 0
    for c in p.classes:
        m = c.methods.get(INMAIN)
        if m is None or c.derives(om.AbstractOp) or c.derives(om.Op) or c.module.name != 'marcel.pipeline':
            continue
        if all(isinstance(s, (ast.Assert, ast.Raise, ast.Pass, ast.Expr)) for s in m.body):
            continue
        k += 1
        why = asks_first(p, m, c)
        if why:
            ctx.bad('asked', m.qualname, m, why)
        else:
            ctx.ok('asked', m.qualname)
    ctx.count('pipelines that say where they run', k)
    ctx.need('pipelines that say where they run', 1)


def is_first(p, e, f, cls, depth=0):
    """does e denote the first operator? True, False, None (unknown)"""
    if depth > 5:
        return None
    if isinstance(e, ast.Name):
        vs = [v for v in f.local_assigns().get(e.id, []) if isinstance(v, ast.AST)]
        r = [is_first(p, v, f, cls, depth + 1) for v in vs]
        return r[0] if r and all(x == r[0] for x in r) else None
    if isinstance(e, ast.Subscript):
        i = e.slice
        if isinstance(i, ast.Constant):
            return i.value == 0
        if isinstance(i, ast.UnaryOp):
            return False
        return None
    if isinstance(e, ast.Call):
        fs = [t for t in p.callees(e, f, cls) if isinstance(t, FuncInfo)]
        if not fs and isinstance(e.func, ast.Attribute):
            fs = [m for k in p.classes if k.module.name == 'marcel.pipeline' for m in [k.methods.get(e.func.attr)] if m is not None]
        rs = set()
        for t in fs:
            for n in own_nodes(t.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    rs.add(is_first(p, n.value, t, t.cls, depth + 1))
        rs.discard(None) if len(rs) > 1 else None
        if len(rs) == 1:
            return rs.pop()
        if False in rs:
            return False
        if isinstance(e.func, ast.Name) and e.func.id == 'next':
            return True
    return None


def asks_first(p, m, cls):
    rets = [n for n in own_nodes(m.node) if isinstance(n, ast.Return)]
    if not rets:
        return 'returns nothing'
    # constants
    for r in rets:
        v = r.value
        if isinstance(v, ast.Constant) and v.value is True:
            continue
        if v is None or isinstance(v, ast.Constant):
            # allowed only under a test of the answer of the first operator
            if any(isinstance(n, ast.If) and any(x is r for b in (n.body, n.orelse) for s in b for x in ast.walk(s)) for n in own_nodes(m.node)) or len(rets) > 1:
                continue
            return 'a pipeline never runs in the shell'
    asked = []
    for n in own_nodes(m.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == INMAIN:
            asked.append((n, is_first(p, n.func.value, m, cls)))
    anyall = [n for n in own_nodes(m.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('all',)]
    if not asked:
        t = [x for r in rets if isinstance(r.value, ast.Call) for x in p.callees(r.value, m, cls) if isinstance(x, FuncInfo)]
        if any(asks_first(p, x, x.cls) is None for x in t):
            return None
        if rets and all(isinstance(r.value, ast.Constant) and r.value.value is True for r in rets):
            return None
        return 'the first operator of the pipeline is not asked where it runs'
    if any(r is False for _, r in asked) and not any(r for _, r in asked):
        return 'another operator than the first is asked where it runs'
    if anyall:
        return 'the pipeline runs in the shell only if all its operators do'
    for r in rets:
        for x in ast.walk(r.value) if r.value is not None else ():
            if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
                return 'the answer of the first operator is reversed'
            if isinstance(x, ast.BoolOp) and isinstance(x.op, ast.And):
                return 'the pipeline may run outside the shell although its first operator must not'
    return None


class MarkTS(Typestate):
    """state: PWD assigned and not marked"""
    max_depth = 3
    track_exc = False

    def relevant(self, t):
        return t.cls is not None and t.cls.name == 'DirectoryState'

    def on_call(self, call, targets, st, fr):
        nm = call.func.attr if isinstance(call.func, ast.Attribute) else ''
        s = {a.value for a in call.args if isinstance(a, ast.Constant)}
        if nm == 'assign_permanent' and 'PWD' in s:
            return [(True, st[1])]
        if 'PWD' in s and any(isinstance(t, FuncInfo) and t.cls is not None and t.cls.name in ('Environment', 'Workspace') and
                              marks(self.p, t) for t in targets) or 'PWD' in s and nm == 'mark_possibly_changed':
            return [(st[0], True)]
        return None


def marks(p, t, depth=0):
    if depth > 4:
        return False
    for n in own_nodes(t.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr == 'add' and 'written' in ast.dump(n.func.value):
                return True
            for x in p.callees(n, t, t.cls):
                if isinstance(x, FuncInfo) and marks(p, x, depth + 1):
                    return True
    return False


class ArriveTS(Typestate):
    """state: the directory was changed, or there was nothing to change"""
    max_depth = 2
    track_exc = False

    def __init__(self, p, ef, cd):
        super().__init__(p)
        self.ef = ef
        self.cd = {id(n) for n in cd}

    def relevant(self, t):
        return False

    def is_pwd(self, e, fr):
        for x in ast.walk(e):
            if isinstance(x, ast.Constant) and x.value == 'PWD':
                return True
            if isinstance(x, ast.Name):
                for t in trace(self.p, x, fr.func):
                    if not isinstance(t[0], str) and not isinstance(t[0], ast.Name) and any(isinstance(y, ast.Constant) and y.value == 'PWD' for y in ast.walk(t[0])):
                        return True
                    if not isinstance(t[0], str) and t[0] is not x and isinstance(t[0], (ast.Call, ast.BinOp, ast.Attribute)) and self.is_pwd(t[0], fr):
                        return True
        return False

    def current(self, e, fr):
        for x in [e] + [t[0] for t in trace(self.p, e, fr.func) if not isinstance(t[0], str)]:
            if any(isinstance(y, ast.Attribute) and y.attr in ('current_dir', 'getcwd', 'cwd') for y in ast.walk(x)):
                return True
        return False

    def on_call(self, call, targets, st, fr):
        return [True] if id(call) in self.cd else None

    def on_test(self, test, truth, st, fr):
        k, pol = test_key(test)
        yes = truth == pol
        e = test
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e = e.operand
        if k[0] == 'none' and yes and isinstance(e, ast.Compare) and self.is_pwd(e.left, fr):
            return True
        if k[0] == 'eq' and yes and isinstance(e, ast.Compare):
            a, b = e.left, e.comparators[0]
            if self.is_pwd(a, fr) and self.current(b, fr) or self.is_pwd(b, fr) and self.current(a, fr):
                return True
        if k[0] == 'in' and not yes and isinstance(e, ast.Compare) and isinstance(e.left, ast.Constant) and e.left.value == 'PWD':
            return True
        if k[0] == 't' and not yes and isinstance(e, ast.Name) and self.is_pwd(e, fr):
            return True
        return st


def _carried(ctx, p, ef):
    k = 0
    for m in ef.dirs.methods.values():
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'assign_permanent' and any(
                isinstance(a, ast.Constant) and a.value == 'PWD' for a in n.args) for n in own_nodes(m.node)):
            continue
        k += 1
        o = MarkTS(p).run_function(m, ef.dirs, (False, False))
        if any(st == (True, False) for (st, fa, rv) in o['ret']):
            ctx.bad('carried', m.qualname, m, 'a change of directory is not marked as a change to be returned by a job')
        else:
            ctx.ok('carried', m.qualname)
    # the receiver
    for c in p.classes:
        m = c.methods.get('update_namespace')
        if m is None:
            continue
        k += 1
        pwd = [n for n in own_nodes(m.node) if isinstance(n, ast.Constant) and n.value == 'PWD']
        cd = [n for n in own_nodes(m.node) if isinstance(n, ast.Call) and (any(t in ef.dirmut for t in p.callees(n, m, c)) or
              isinstance(n.func, ast.Attribute) and n.func.attr in {x.name for x in ef.dirmut}) or isinstance(n, ast.Call) and any(
              isinstance(t, FuncInfo) and ef.reached(t, t.cls, False).get('changes directory') for t in p.callees(n, m, c))]
        if cd:
            ts = ArriveTS(p, ef, cd)
            o = ts.run_function(m, c, False)
            miss = [l for (st, fa, rv), l in o['ret'].items() if not st]
            if miss:
                ctx.bad('carried', m.qualname + ':path', m, 'the directory changed by a job is not changed in the shell, on a path on which it differs from the current one', miss[0])
            else:
                ctx.ok('carried', m.qualname)
        elif not pwd or not cd:
            ctx.bad('carried', m.qualname, m, 'the directory changed by a job is not changed in the shell')
    ctx.count('functions that carry the directory', k)
    ctx.need('functions that carry the directory', 1)


CHECKS = {'J01': check_J01}
MUTANTS = {
    'J01': [
        ('marcel/main.py', '        if pwd is not None and pathlib.Path(pwd) != self.env.dir_state().current_dir():',
         '        if pwd is not None and pathlib.Path(pwd) in self.env.dir_state().current_dir().parents:', 'directory changed only to a parent'),
        ('marcel/main.py', '        if pwd is not None and pathlib.Path(pwd) != self.env.dir_state().current_dir():',
         '        if pwd is not None and pathlib.Path(pwd) == self.env.dir_state().current_dir():', 'directory changed only if it is the same'),
        ('marcel/op/cd.py', '    def run_in_main_process(self):\n        return True\n', '', 'cd in a job'),
        ('marcel/op/run.py', '    def run_in_main_process(self):\n        return True\n', '    def run_in_main_process(self):\n        return self.id is not None\n', 'run sometimes in a job'),
        ('marcel/op/ws.py', '    def must_be_first_in_pipeline(self):\n        return True\n', '', 'ws anywhere'),
        ('marcel/op/jobop.py', '    def run_in_main_process(self):\n        return True\n', '', 'fg in a job'),
        ('marcel/op/trace.py', '    def run_in_main_process(self):\n        return True\n', '', 'trace in a job'),
        ('marcel/op/exit.py', '    def run_in_main_process(self):\n        return True\n', '', 'exit in a job'),
        ('marcel/op/edit.py', '    def run_in_main_process(self):\n        return True\n', '', 'edit in a job'),
        ('marcel/op/assign.py', '    def run_in_main_process(self):\n        return True\n', '', 'assign in a job'),
        ('marcel/pipeline.py', 'return self.executable.first_op().run_in_main_process()', 'return self.executable.last_op().run_in_main_process()', 'last operator asked'),
        ('marcel/main.py', 'if self.testing or pipeline.run_in_main_process():', 'if self.testing:', 'never asked'),
        ('marcel/directorystate.py', "            self.env.mark_possibly_changed('PWD')\n", '', 'directory not marked'),
    ],
}
