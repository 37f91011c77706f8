"""F07: operators are cleaned up however a pipeline ends."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, AnalysisBroken
from ..engine import Typestate
from ..ops import OpModel, origin
from .describe import Facts, ReprTS
from .flush import _pipe_expr

META = {
    'F07': {
        'explanation': 'Three obligations are decided on the source. (1) Typestate of every pipeline that is set up or run: on every path out '
                       'of the function responsible, including exceptional ones, its cleanup has been called, or it is held by an '
                       'operator whose own cleanup cleans it. (2) The cleanup of a pipeline reaches each of its operators: no '
                       'exception of one cleanup, break or slice skips the rest, and a setup that fails cleans up the operators already '
                       'reached, including the one that failed. (3) Because of that, cleanup of each operator is executed abstractly '
                       'from the state left by the constructor: nothing that setup has yet to provide may be used without a test.',
        'assumptions': ['cleanup methods of standard-library objects (files, processes) may be called in any state'],
    },
}

PROTO = ('setup', 'run', 'receive', 'flush')


def attr_of(o):
    """'self.a.b[*].c' -> 'a'"""
    if not o.startswith('self.'):
        return None
    return o[5:].split('.')[0].split('[')[0]


def method_call(n, *names):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names


def pipe_call(p, om, n, f, *names):
    if not method_call(n, *names):
        return False
    if isinstance(n.func.value, ast.Call):      # super().setup(env)
        return False
    if _pipe_expr(p, om, n.func.value, f):
        return True
    e = n.func.value
    if isinstance(e, ast.Name):
        if e.id.lower().endswith(('pipeline', 'executable')):
            return True
        for v in f.local_assigns().get(e.id, []):
            while isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('copy', 'append_immutable'):
                v = v.func.value
            if v is not None and _pipe_expr(p, om, v, f):
                return True
    t = p.infer(e, f, f.cls)
    return bool(t) and all(isinstance(c, ClassInfo) and c in om.pipeline_classes or getattr(c, 'name', '') == 'PipelineExecutable' for c in t)


class OpenTS(Typestate):
    """state: names of pipelines that are set up or running and have not been cleaned up"""
    raise_kinds = ('E', 'B')
    max_depth = 4

    def __init__(self, p, om, f):
        super().__init__(p)
        self.om = om
        self.top = f
        self.sites = set()

    def relevant(self, t):
        if t.name in PROTO + ('cleanup', 'run_pipeline', '__init__') or t.is_contextmanager:
            return t.is_contextmanager
        return t.module is self.top.module and (t.cls is None or self.top.cls is not None and self.top.cls.derives(t.cls)) and \
            any(pipe_call(self.p, self.om, n, t, *PROTO, 'cleanup') for n in own_nodes(t.node))

    def may_raise(self, call, targets, fr):
        f = call.func
        # reports and notes do not fail
        if isinstance(f, ast.Attribute) and f.attr in ('write', 'is_enabled', 'print_stack_of_current_exception', 'pop_scope', 'push_scope', 'vars', 'parameters'):
            return False
        if isinstance(f, ast.Name) and f.id in ('type', 'str', 'set', 'isinstance', 'len', 'print'):
            return False
        return True

    def key(self, e, fr):
        return sorted(x.rsplit('.', 1)[-1] for x in origin(self.p, e, fr.func))[0]

    def on_call(self, call, targets, st, fr):
        if not pipe_call(self.p, self.om, call, fr.func, *PROTO, 'cleanup', 'run_pipeline'):
            return None
        m = call.func.attr
        k = self.key(call.func.value, fr)
        self.sites.add(call)
        if m in ('cleanup', 'run_pipeline'):
            return [st - {k}, ('exc', st - {k}, 'E'), ('exc', st - {k}, 'B')]
        if m == 'setup':
            return [st | {k}, ('exc', st, 'E'), ('exc', st, 'B')]
        return [st | {k}, ('exc', st | {k}, 'E'), ('exc', st | {k}, 'B')]


def check_executors(ctx, p, om):
    for f in sorted(p.functions, key=lambda f: f.qualname):
        if f.module.name.startswith('test'):
            continue
        calls = [n for n in own_nodes(f.node) if pipe_call(p, om, n, f, *PROTO)]
        calls = [n for n in calls if n.func.attr != f.name]             # delegation: whoever calls it is responsible
        c = f.cls
        g = f
        while c is None and g.parent is not None:
            g = g.parent
            c = g.cls
        if c is not None and c.derives(om.AbstractOp):
            # pipelines held by the operator are the concern of its cleanup
            phase = in_setup(p, c, f)
            calls = [n for n in calls if not phase and not any(o.startswith('self.') for o in origin(p, n.func.value, f))]
        if c is not None and any('cleanup' in k.methods for k in c.mro() if isinstance(k, ClassInfo)) and not c.derives(om.AbstractOp) \
                and c not in om.pipeline_classes:
            calls = [n for n in calls if not any(o.startswith('self.') for o in origin(p, n.func.value, f))]
        if not calls or not any(n.func.attr in ('run', 'setup') for n in calls):
            continue
        ctx.count('functions that set up or run a pipeline')
        ts = OpenTS(p, om, f)
        o = ts.run_function(f, f.cls, frozenset())
        bad = None
        for (st, fa, rv), line in o['ret'].items():
            if st:
                bad = bad or f'{", ".join(sorted(st))} is set up or run, but not cleaned up on a path that returns (line {line})'
        for (st, fa, k), line in o['exc'].items():
            if st:
                bad = bad or f'{", ".join(sorted(st))} is set up or run, but not cleaned up on a path left by an exception (line {line})'
        if bad:
            ctx.bad('executor', f.qualname, f, bad, calls[0])
        else:
            ctx.ok('executor', f.qualname)
    ctx.need('functions that set up or run a pipeline', 2)


def in_setup(p, c, f, depth=0, seen=None):
    """f runs (only) as part of the setup of operator class c"""
    seen = seen or set()
    g = f
    while g is not None:
        if g.name in ('setup', 'customize_pipelines'):
            return True
        g = g.parent
    if f in seen or depth > 4:
        return False
    seen.add(f)
    callers = set()
    for k in c.mro():
        if isinstance(k, ClassInfo) and k.derives(om_base(p)):
            for m in k.methods.values():
                for h in [m] + list(all_nested(m)):
                    if any(isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and
                           (n.func.id if isinstance(n.func, ast.Name) else n.func.attr) == f.name for n in own_nodes(h.node)):
                        callers.add(h)
    callers.discard(f)
    return bool(callers) and all(in_setup(p, c, h, depth + 1, seen) for h in callers)


def om_base(p):
    return p.cls('AbstractOp', 'marcel.core')


def all_nested(f):
    for g in (f.nested.values() if isinstance(f.nested, dict) else f.nested):
        yield g
        yield from all_nested(g)


# ---------------------------------------------------------------- nested pipelines

def sinks(p, c, f, node, depth=0):
    """[set of attributes of self that come to hold the value of `node` (an expression in f)], one per chain of calls"""
    out = set()
    ret = False
    if isinstance(node, ast.Name):
        for n in own_nodes(f.node):
            hold = holder(n, node.id)
            if hold:
                out.add(hold)
            if isinstance(n, ast.Return) and n.value is not None and mentions(n.value, node.id):
                ret = True
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id != node.id \
                    and mentions(n.value, node.id) and depth < 4:
                for s in sinks(p, c, f, n.targets[0], depth + 1):
                    out |= s
    else:
        for o in origin(p, node, f):
            if attr_of(o):
                out.add(attr_of(o))
    if not ret or depth >= 4:
        return [out]
    chains = []
    for k in c.mro():
        if not isinstance(k, ClassInfo):
            continue
        for m in k.methods.values():
            for h in [m] + list(all_nested(m)):
                for n in own_nodes(h.node):
                    if isinstance(n, (ast.Assign, ast.Expr, ast.AugAssign, ast.AnnAssign, ast.Return)) and n.value is not None:
                        for x in ast.walk(n.value):
                            if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == f.name or
                                                            isinstance(x.func, ast.Attribute) and x.func.attr == f.name and f.cls is not None) and h is not f:
                                a = set()
                                if isinstance(n, ast.Assign):
                                    for t in n.targets:
                                        if self_attr(t):
                                            a.add(self_attr(t))
                                        elif isinstance(t, ast.Name):
                                            for s in sinks(p, c, h, t, depth + 1):
                                                a |= s
                                elif isinstance(n, ast.Expr) and method_call(n.value, 'append', 'add', 'insert', 'extend', 'setdefault'):
                                    b = self_attr(n.value.func.value)
                                    if b:
                                        a.add(b)
                                chains.append(out | a)
    return chains or [out]


def self_attr(e):
    while isinstance(e, (ast.Subscript, ast.Starred)):
        e = e.value
    while isinstance(e, ast.Attribute) and isinstance(e.value, ast.Attribute):
        e = e.value
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
        return e.attr
    return None


def mentions(e, name):
    return any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(e))


def holder(n, name):
    if isinstance(n, ast.Assign) and mentions(n.value, name):
        # not the result of asking it for something
        for t in n.targets:
            if self_attr(t):
                return self_attr(t)
    if method_call(n, 'append', 'add', 'insert', 'extend', 'setdefault') and any(mentions(a, name) for a in n.args):
        return self_attr(n.func.value)
    return None


class CoverTS(Typestate):
    """which attributes have been cleaned up (or are absent)"""
    track_exc = False
    max_depth = 4

    def __init__(self, p, cls):
        super().__init__(p)
        self.cls = cls

    def relevant(self, t):
        return t.cls is not None and self.cls.derives(t.cls) and t.name != '__init__'

    def attrs(self, e, fr):
        return {attr_of(o) for o in origin(self.p, e, fr.func) if attr_of(o)}

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute) and call.func.attr in ('cleanup', 'close') and not isinstance(call.func.value, ast.Call):
            a = self.attrs(call.func.value, fr)
            if a:
                return [st | a]
        for t in targets:
            if isinstance(t, FuncInfo) and cleaner(self.p, t):
                a = set()
                for x in list(call.args) + [k.value for k in call.keywords]:
                    a |= self.attrs(x, fr)
                if a:
                    return [st | a]
        return None

    def on_test(self, test, truth, st, fr):
        e, absent = test, not truth
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            e, absent = test.left, truth if isinstance(test.ops[0], (ast.Is, ast.Eq)) else not truth
        elif isinstance(test, ast.Compare):
            return st
        if absent and isinstance(e, (ast.Attribute, ast.Name)):
            return st | self.attrs(e, fr)
        return st

    def s_For(self, s, states, fr):
        o = super().s_For(s, states, fr)
        it = s.iter
        if isinstance(it, ast.BoolOp):
            it = it.values[0]
        body_cleans = any(method_call(n, 'cleanup', 'close') for n in ast.walk(ast.Module(body=s.body, type_ignores=[]))) and \
            not any(isinstance(n, (ast.Break, ast.Return)) for b in s.body for n in ast.walk(b))
        a = self.attrs(it, fr) if body_cleans and not isinstance(it, ast.Subscript) else set()
        if a:
            for key in list(o['n']):
                w = o['n'].pop(key)
                o.add('n', (key[0] | a, key[1]), w)
        return o


def cleaner(p, t):
    """cleans up whatever it is given"""
    names = set(t.params)
    for n in own_nodes(t.node):
        if method_call(n, 'cleanup'):
            for o in origin(p, n.func.value, t):
                if o.split('[')[0].split('.')[0] in names and not o.startswith('self'):
                    return True
    return False


def check_nested(ctx, p, om):
    for c in sorted(om.concrete, key=lambda c: c.qualname):
        sites = []
        seen = set()
        for k in c.mro():
            if not isinstance(k, ClassInfo) or not k.derives(om.AbstractOp):
                continue
            for m in k.methods.values():
                if m.name != '__init__' and c.find(m.name) is not m:
                    continue
                for h in [m] + list(all_nested(m)):
                    for n in own_nodes(h.node):
                        if pipe_call(p, om, n, h, *PROTO) and n not in seen:
                            own = any(o.startswith('self.') for o in origin(p, n.func.value, h))
                            if in_setup(p, c, h) and n.func.attr == 'setup' or own:
                                seen.add(n)
                                sites.append((h, n))
        if not sites:
            continue
        f = c.find('cleanup')
        ts = CoverTS(p, c)
        covered = []
        if isinstance(f, FuncInfo):
            covered = [st for (st, fa, rv) in ts.run_function(f, c, frozenset())['ret']]
        for h, n in sites:
            if n.func.attr != 'setup' and any(m.func.attr == 'setup' for _, m in sites):
                continue
            ctx.count('pipelines held by an operator')
            for chain in sinks(p, c, h, n.func.value):
                key = f'{c.name}.{"/".join(sorted(chain)) or ast.unparse(n.func.value)}'
                if covered and all(st & chain for st in covered):
                    ctx.ok('nested', key)
                else:
                    ctx.bad('nested', key, h, f'{c.name} sets up a pipeline (held in {", ".join(sorted(chain)) or "no attribute"}) which its cleanup does not '
                            f'clean up on every path', n)
    ctx.need('pipelines held by an operator', 1)


# ---------------------------------------------------------------- pipelines clean up all their operators

class LoopTS(Typestate):
    """does an exception of x.cleanup() leave the loop over the x's?  state: 0 / 1 (a cleanup has failed)"""
    max_depth = 1
    raise_kinds = ('E', 'B')

    def relevant(self, t):
        return False

    def may_raise(self, call, targets, fr):
        return method_call(call, 'cleanup')

    def on_call(self, call, targets, st, fr):
        if method_call(call, 'cleanup'):
            return [st, ('exc', 1, 'E'), ('exc', 1, 'B')]
        return [st]

    def iter_raises(self, s, fr):
        return False


def check_loops(ctx, p, om):
    """loops that clean up each element"""
    for f in p.functions:
        if f.module.name.startswith('test'):
            continue
        for n in own_nodes(f.node):
            if isinstance(n, ast.For):
                tn = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                cl = [x for b in n.body for x in ast.walk(b) if method_call(x, 'cleanup') and any(isinstance(y, ast.Name) and y.id in tn for y in ast.walk(x.func.value))]
                if not cl:
                    continue
                ctx.count('loops that clean up')
                key = f'{f.qualname}:loop'
                ts = LoopTS(p)
                fr_out = run_block(ts, f, n.body)
                if fr_out['exc']:
                    ctx.bad('all', key, f, 'if cleaning up one element fails, those after it are not cleaned up', n)
                elif any(isinstance(x, (ast.Break, ast.Return)) for b in n.body for x in ast.walk(b)):
                    ctx.bad('all', key, f, 'the loop may end before every element has been cleaned up', n)
                elif isinstance(n.iter, ast.Subscript) and isinstance(n.iter.slice, ast.Slice) and (n.iter.slice.lower is not None or n.iter.slice.upper is not None):
                    ctx.bad('all', key, f, 'only some of the elements are cleaned up', n)
                else:
                    ctx.ok('all', key)


def run_block(ts, f, stmts):
    from ..engine import Frame
    fr = Frame(f, f.cls, None)
    return ts.block(stmts, {(0, frozenset()): None}, fr)


class ReachTS(Typestate):
    """PipelineExecutable.cleanup / Pipeline.cleanup: attributes cleaned"""


def check_reach(ctx, p, om):
    pe = p.cls('PipelineExecutable', 'marcel.pipeline')
    f = pe.find('cleanup')
    if not isinstance(f, FuncInfo):
        raise AnalysisBroken('PipelineExecutable.cleanup')
    ts = CoverTS(p, pe)
    sts = [st for (st, fa, rv) in ts.run_function(f, pe, frozenset())['ret']]
    if sts and all('ops' in st for st in sts):
        ctx.ok('reach', 'PipelineExecutable.cleanup')
    else:
        ctx.bad('reach', 'PipelineExecutable.cleanup', f, 'the cleanup of a pipeline does not clean up all of its operators on every path', f.node)
    for c in sorted(om.pipeline_classes, key=lambda c: c.qualname):
        f = c.find('cleanup')
        if c is pe or not isinstance(f, FuncInfo):
            continue
        ts = CoverTS(p, c)
        sts = [st for (st, fa, rv) in ts.run_function(f, c, frozenset())['ret']]
        if sts and all('executable' in st for st in sts):
            ctx.ok('reach', f'{c.name}.cleanup')
        else:
            ctx.bad('reach', f'{f.cls.name}.cleanup', f, f'the cleanup of a {c.name} does not clean up its executable on every path', f.node)


class SetupTS(Typestate):
    """PipelineExecutable.setup: state (operator setups started?, registered before?, cleaned?)"""
    raise_kinds = ('E', 'B')
    max_depth = 3

    def __init__(self, p, om, cls):
        super().__init__(p)
        self.om, self.cls = om, cls
        self.setups = 0
        self.late = None

    def relevant(self, t):
        return t.cls is self.cls and t.name not in ('setup',) and not self.cleans(t)

    def cleans(self, t):
        return isinstance(t, FuncInfo) and any(method_call(n, 'cleanup') for n in own_nodes(t.node))

    def may_raise(self, call, targets, fr):
        return method_call(call, 'setup', 'customize_pipelines')

    def on_stmt(self, node, st, fr):
        return [st]

    def on_call(self, call, targets, st, fr):
        if method_call(call, 'cleanup') or any(self.cleans(t) for t in targets):
            args = {ast.unparse(a) for a in call.args}
            over = set(args)
            if any(o == 'self.ops' or o == 'self' for a in list(call.args) + [call.func.value] for o in origin(self.p, a, fr.func)) or not args and ast.unparse(call.func).startswith('self.'):
                over.add('self.ops')
            reg = {x[4:] for x in st if x.startswith('reg:')}
            if 'unregistered' in st and 'self.ops' not in over:
                self.late = call
            return [frozenset(x for x in st if x not in ('started',)) | {'cleaned'}]
        if method_call(call, 'append', 'add') and self.opish(call.args[:1], fr):
            return [st | {'reg:' + ast.unparse(call.func.value)}]
        if method_call(call, 'setup') and self.opish([call.func.value], fr):
            self.setups += 1
            s2 = st | {'started'} if any(x.startswith('reg:') for x in st) else st | {'started', 'unregistered'}
            return [st | {'started'}, ('exc', s2, 'E'), ('exc', s2, 'B')]
        if method_call(call, 'customize_pipelines'):
            return [st, ('exc', st, 'E'), ('exc', st, 'B')]
        return None

    def opish(self, es, fr):
        return any(o.startswith('self.ops') for e in es for o in origin(self.p, e, fr.func))

    def s_For(self, s, states, fr):
        # a loop that cleans up the operators set up so far: it may be empty only if there are none
        if any(method_call(x, 'cleanup') for b in s.body for x in ast.walk(b)):
            from ..engine import Out
            o = Out()
            over_all = any(x == 'self.ops' for x in origin(self.p, s.iter, fr.func))
            for (st, fa), w in states.items():
                if 'unregistered' in st and not over_all:
                    self.late = s
                o.add('n', (frozenset(x for x in st if x != 'started') | {'cleaned'}, fa), w)
            return o
        return super().s_For(s, states, fr)

    def iter_raises(self, s, fr):
        return False


def check_setup(ctx, p, om):
    pe = p.cls('PipelineExecutable', 'marcel.pipeline')
    f = pe.find('setup')
    if not isinstance(f, FuncInfo):
        raise AnalysisBroken('PipelineExecutable.setup')
    ts = SetupTS(p, om, pe)
    o = ts.run_function(f, pe, frozenset())
    if not ts.setups:
        raise AnalysisBroken('setup of the operators in PipelineExecutable.setup')
    bad = [line for (st, fa, k), line in o['exc'].items() if 'started' in st]
    if bad:
        ctx.bad('setup', 'PipelineExecutable.setup', f, f'if setup fails (line {bad[0]}), the operators that have been set up are not cleaned up', f.node)
    else:
        ctx.ok('setup', 'PipelineExecutable.setup')
    if ts.late is not None:
        ctx.bad('setup', 'PipelineExecutable.setup:failed', f, 'the operator whose setup failed is not cleaned up: what it has opened stays open', ts.late)
    else:
        ctx.ok('setup', 'PipelineExecutable.setup:failed')


# ---------------------------------------------------------------- cleanup works in every state

CLEANING = ('cleanup', 'close', 'shutdown', 'release', 'terminate', 'close_file')


class CleanupTS(ReprTS):
    def relevant(self, t):
        return t.cls is not None and t.name != '__init__' and not t.name.startswith('__') and self.cls.derives(t.cls)


def check_partial(ctx, p, om):
    facts = Facts(p, om)
    todo = []
    done = set()
    for c in sorted(om.concrete, key=lambda c: c.qualname):
        f = c.find('cleanup')
        if isinstance(f, FuncInfo) and f.cls is not om.AbstractOp and f.cls is not om.Op:
            todo.append((c, f))
    seen = set()
    while todo:
        c, f = todo.pop(0)
        if (c, f) in done:
            continue
        done.add((c, f))
        ctx.count('cleanup methods')
        ts = CleanupTS(p, facts, c)
        ts.run_function(f, c, frozenset())
        viol = [v for v in ts.viol if v[0] in ('absent', 'unbound')]
        for rule, what, node, msg, g in viol:
            k = f'{g.cls.name if g.cls else g.qualname}.{f.name}:{what}'
            if (rule, k) not in seen:
                seen.add((rule, k))
                ctx.bad('partial', k, g, f'{c.name}.{f.name}, called when setup failed or has not happened: {msg}', node)
        if not viol:
            ctx.ok('partial', f'{c.name}.{f.name}')
        # helper objects
        fs = [f] + [t for t in ts.funcs_called(c, f)]
        for g in fs:
            for n in own_nodes(g.node):
                if method_call(n, *CLEANING):
                    for t in p.callees(n, g, c):
                        if isinstance(t, FuncInfo) and t.cls is not None and not t.cls.derives(om.AbstractOp) and t.cls not in om.pipeline_classes and \
                                t.cls.name != 'PipelineExecutable':
                            for k in [t.cls] + [x for x in p.subclasses(t.cls) if x is not t.cls]:
                                h = k.find(t.name)
                                if isinstance(h, FuncInfo):
                                    todo.append((k, h))
    ctx.need('cleanup methods', 4)


def funcs_called(self, c, f):
    out = set()
    work = [f]
    while work:
        g = work.pop()
        for n in own_nodes(g.node):
            if isinstance(n, ast.Call):
                for t in self.p.callees(n, g, c):
                    if isinstance(t, FuncInfo) and t not in out and t is not f and t.cls is not None and c.derives(t.cls) and t.name != '__init__':
                        out.add(t)
                        work.append(t)
    return out


CleanupTS.funcs_called = funcs_called


def check_override(ctx, p, om):
    for c in sorted(om.concrete, key=lambda c: c.qualname):
        f = c.methods.get('cleanup')
        if f is None:
            continue
        base = next((k.methods['cleanup'] for k in c.mro()[1:] if isinstance(k, ClassInfo) and 'cleanup' in k.methods), None)
        if base is None or base.cls is om.AbstractOp or base.cls is om.Op:
            continue
        ctx.count('overridden cleanups')
        if any(method_call(n, 'cleanup') and isinstance(n.func.value, ast.Call) for n in own_nodes(f.node)):
            ctx.ok('override', c.name)
        else:
            ctx.bad('override', c.name, f, f'{c.name}.cleanup replaces that of {base.cls.name}, and does not call it', f.node)


def check_F07(ctx):
    p = ctx.p
    om = OpModel(p)
    ctx.rule('executor', 'whoever sets up or runs a pipeline cleans it up on every path')
    ctx.rule('nested', 'an operator that sets up a pipeline cleans it up in its own cleanup')
    ctx.rule('all', 'cleaning up each element of a collection does not stop at one that fails')
    ctx.rule('reach', 'the cleanup of a pipeline reaches every operator')
    ctx.rule('setup', 'a failing setup cleans up the operators it has reached')
    ctx.rule('partial', 'cleanup works whatever part of setup has been done')
    ctx.rule('override', 'a cleanup that overrides another calls it')
    check_executors(ctx, p, om)
    check_nested(ctx, p, om)
    check_loops(ctx, p, om)
    check_reach(ctx, p, om)
    check_setup(ctx, p, om)
    check_partial(ctx, p, om)
    check_override(ctx, p, om)


CHECKS = {'F07': check_F07}

MUTANTS = {
    'F07': [
        ('marcel/pipeline.py', "                try:\n                    self.state = PipelineMarcel.State.RUNNING\n                    self.executable.run(env)\n                    self.executable.flush(env)\n                finally:\n                    self.executable.cleanup()\n",
         "                self.state = PipelineMarcel.State.RUNNING\n                self.executable.run(env)\n                self.executable.flush(env)\n                self.executable.cleanup()\n", 'not cleaned up on failure'),
        ('marcel/pipeline.py', "            try:\n                op.cleanup()\n            except BaseException as e:\n                failure = e\n", "            op.cleanup()\n", 'one failing cleanup skips the rest'),
        ('marcel/pipeline.py', '            PipelineExecutable.cleanup_ops(setup_started)\n            raise', '            raise', 'failed setup'),
        ('marcel/pipeline.py', '                setup_started.append(op)\n                op.setup(env)\n', '                op.setup(env)\n                setup_started.append(op)\n', 'failing op'),
        ('marcel/op/case.py', "        if self.pipelines:\n            marcel.pipeline.PipelineExecutable.cleanup_ops(self.pipelines)\n", "        for branch in self.branches or []:\n            branch.pipeline.cleanup()\n", 'default pipeline'),
        ('marcel/op/runpipeline.py', "        if self.pipeline:\n            self.pipeline.cleanup()\n", '        pass\n', 'nested'),
        ('marcel/op/sql.py', "        if self.connection is not None:\n            self.connection.close()\n            self.connection = None\n", '        self.connection.close()\n', 'partial'),
        ('bin/farcel.py', "            if setup:\n                self.pipeline.cleanup()\n", '            pass\n', 'farcel'),
        ('marcel/op/bash.py', "        if self.output_handler is None:\n            # There was no input, so the command was never started.\n            return\n", '', 'never started'),
    ],
}
