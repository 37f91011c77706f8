"""F01: the flush protocol."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate, names_in
from ..ops import OpModel, origin, reach_names

META = {
    'F01': {
        'explanation': 'Interprocedural path-sensitive typestate analysis of every operator class. The flush method (with the '
                       'helper objects and nested-pipeline calls it reaches) is executed abstractly along every structural '
                       'path; each normal path must pass the flush downstream exactly once and send nothing afterwards; '
                       'run/receive must not pass it; nested pipelines that received input must be flushed once; every '
                       'pipeline executor must run its operators and then flush them exactly once. No marcel code is run.',
        'assumptions': ['a test on an attribute that setup() certainly binds to a non-None value is taken to succeed',
                        'the methods of operators are called by the framework in the order setup, run/receive*, flush, cleanup'],
    },
}


class FlushTS(Typestate):
    """state: (count of downstream flush propagations (0,1,2), frozenset of (nested origin, n))"""
    max_depth = 7

    def __init__(self, p, om, cls, routed, mode):
        super().__init__(p)
        self.om = om
        self.opcls = cls
        self.routed = routed
        self.mode = mode              # 'flush' or 'other'
        self.viol = []                # (rule, node, func, message)
        self.nonnull = om.nonnull_after_setup(cls)
        self.cache = {}
        self.const = {}

    # relevance: only inline what can touch the protocol
    def relevant(self, t):
        if t.cls in self.om.pipeline_classes:
            return False
        return reach_names(self.p, t, self._protocol_call, self.cache)

    def _protocol_call(self, call, f):
        fe = call.func
        if isinstance(fe, ast.Attribute):
            if fe.attr in ('propagate_flush', 'send', 'send_error', 'flush', 'run_pipeline'):
                return True
        return False

    def may_raise(self, call, targets, fr):
        return True

    def ontrue(self, e, fr):
        a = self.om.self_attr(e, fr)
        return a is not None and a in self.nonnull and fr.cls is not None and self.opcls.derives(fr.func.cls or fr.cls)

    def on_test(self, test, truth, st, fr):
        e, neg = test, False
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, neg = e.operand, not neg
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and \
                e.comparators[0].value is None and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            isnot = isinstance(e.ops[0], (ast.IsNot, ast.NotEq))
            if self.ontrue(e.left, fr):
                val = isnot != neg
                return st if truth == val else None
            return st
        a = self.om.self_attr(e, fr)
        if a is not None and a in self.const:
            return st if truth == (self.const[a] != neg) else None
        return st

    def is_receiver(self, e, fr):
        if isinstance(e, ast.Attribute) and e.attr == 'receiver':
            return True
        if isinstance(e, ast.Name):
            for o in origin(self.p, e, fr.func):
                if o.endswith('.receiver'):
                    return True
        return False

    def bump(self, st, fr, call):
        n = min(2, st[0] + 1)
        return (n, st[1])

    def nested(self, st, key):
        d = dict(st[1])
        d[key] = min(2, d.get(key, 0) + 1)
        return (st[0], frozenset(d.items()))

    def on_call(self, call, targets, st, fr):
        fe = call.func
        if not isinstance(fe, ast.Attribute):
            return None
        name = fe.attr
        tf = [t for t in targets if isinstance(t, FuncInfo)]
        if name == 'propagate_flush':
            s2 = self.bump(st, fr, call)
            if s2[0] == 2 and self.mode == 'flush':
                self.viol.append(('flush-once', call, fr, 'the flush is passed downstream a second time'))
            if self.mode != 'flush':
                self.viol.append(('flush-only-in-flush', call, fr, 'the flush is passed downstream outside of flush()'))
            return [s2]
        if name == 'flush':
            if self.is_receiver(fe.value, fr):
                s2 = self.bump(st, fr, call)
                if s2[0] == 2 and self.mode == 'flush':
                    self.viol.append(('flush-once', call, fr, 'the flush is passed downstream a second time'))
                if self.mode != 'flush':
                    self.viol.append(('flush-only-in-flush', call, fr, 'the receiver is flushed outside of flush()'))
                return [s2]
            if self.om.is_pipeline_expr(fe.value, fr) or self._pipelineish(fe.value, fr):
                self.late(st, call, fr)
                key = '|'.join(sorted(origin(self.p, fe.value, fr.func)))
                s2 = self.nested(st, key)
                if self.routed:
                    s2 = (min(2, s2[0] + 1), s2[1])
                    self._routed_check(s2, call, fr)
                return [s2]
            if not tf and self._looks_env(call):
                # an untyped helper: resolve by name within the operator's module
                cands = [c.methods['flush'] for c in fr.func.module.all_classes
                         if 'flush' in c.methods and not c.derives(self.om.Op)]
                if cands:
                    return None
            return None
        if name == 'run_pipeline' and (self.om.is_pipeline_expr(fe.value, fr) or not tf or
                                       any(t.cls in self.om.pipeline_classes for t in tf)):
            self.late(st, call, fr)
            s2 = self.nested(st, 'run:' + '|'.join(sorted(origin(self.p, fe.value, fr.func))))
            if self.routed:
                s2 = (min(2, s2[0] + 1), s2[1])
                self._routed_check(s2, call, fr)
            return [s2]
        if name == 'send' and (any(t.cls is not None and (t.cls is self.om.Op or t.cls.derives(self.om.Op)) for t in tf) or
                               not tf and len(call.args) == 2 and isinstance(call.args[0], ast.Name)
                               and call.args[0].id in self.p.ENV_NAMES):
            if st[0] >= 1 and self.mode == 'flush':
                self.viol.append(('nothing-after-flush', call, fr, 'output is sent after the flush was passed downstream'))
            return [st]
        if name == 'send_error' and tf:
            return [st]
        if tf and all(t.cls in self.om.pipeline_classes for t in tf):
            return [st]
        return None

    def late(self, st, call, fr):
        if st[0] >= 1 and self.mode == 'flush':
            self.viol.append(('nothing-after-flush', call, fr, 'a nested pipeline, which sends output or errors, is run or flushed after the flush was passed downstream'))

    def _looks_env(self, call):
        return len(call.args) == 1 and isinstance(call.args[0], ast.Name) and call.args[0].id == 'env'

    def _pipelineish(self, e, fr):
        return any('pipeline' in o.rsplit('.', 1)[-1] for o in origin(self.p, e, fr.func))

    def _routed_check(self, s2, call, fr):
        if self.mode == 'flush' and s2[0] == 2:
            self.viol.append(('flush-once', call, fr, 'a nested pipeline whose flush goes downstream is flushed as well as '
                                                      'this operator: the receiver is flushed a second time'))
        if self.mode != 'flush':
            self.viol.append(('flush-only-in-flush', call, fr, 'running the nested pipeline flushes the receiver (its output is '
                                                               'routed directly to the receiver)'))


def terminal_leaks(p, om, cls):
    """Calls in cls that connect a nested pipeline's last operator directly to this operator's receiver, so that the nested
    pipeline's flush reaches the receiver."""
    out = []
    seen = set()
    for c in cls.repo_mro():
        for f in c.methods.values():
            if f in seen:
                continue
            seen.add(f)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'route_output' and n.args:
                    a = n.args[0]
                    o = origin(p, a, f)
                    if any(x.endswith('.receiver') for x in o):
                        out.append((f, n))
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr == 'receiver' and any(
                                x.endswith('.receiver') for x in origin(p, n.value, f)):
                            out.append((f, n))
    return out


def const_unless_run(p, cls):
    """attributes whose only non-run assignments are one boolean constant (their value until run() is called)"""
    out = {}
    attrs = set()
    for c in cls.repo_mro():
        attrs |= set(c.attr_assigns())
    for a in attrs:
        vals = set()
        inrun = False
        for f, v in cls.all_attr_assigns(a):
            if f.name == 'run':
                inrun = True
                continue
            vals.add(v.value if isinstance(v, ast.Constant) and isinstance(v.value, bool) else '?')
        if inrun and len(vals) == 1 and '?' not in vals:
            out[a] = vals.pop()
    return out


def check_F01(ctx):
    p = ctx.p
    om = OpModel(p)
    ctx.rule('flush-once', 'every normal path through an operator\'s flush passes the flush to its receiver exactly once')
    ctx.rule('nothing-after-flush', 'no output is sent downstream after the flush was passed on')
    ctx.rule('flush-only-in-flush', 'run, receive, setup and cleanup never flush the receiver')
    ctx.rule('nested-flushed', 'a nested pipeline that is given input item by item is flushed exactly once by the flush of its owner')
    ctx.rule('executor', 'every pipeline executor runs its operators and then flushes them, exactly once each')
    ctx.rule('core', 'the framework methods pass the flush to the receiver / first operator exactly once')

    ctx.share('F11', ['ended'])
    # ---- core
    core_propagate(ctx, p, om)
    # ---- operators
    for cls in om.concrete:
        f = cls.find('flush')
        if f is None:
            continue
        ctx.count('operator classes')
        routed = bool(terminal_leaks(p, om, cls))
        if f.cls is om.Op:
            # inherits Op.flush: verified by core; still must not flush elsewhere
            ctx.ok('flush-once', cls.qualname, 'inherits Op.flush')
        else:
            ts = FlushTS(p, om, cls, routed, 'flush')
            o = ts.run_function(f, cls, (0, frozenset()))
            ctx.count('flush paths', len(o['ret']) + len(o['exc']))
            bad = False
            for rule, node, fr, msg in ts.viol:
                ctx.bad(rule, f'{cls.qualname}.flush', fr.func, f'{cls.name}: {msg}', node,
                        [x.func.qualname for x in fr.chain()])
                bad = True
            for (st, fa, rv), line in o['ret'].items():
                if st[0] == 0:
                    ctx.bad('flush-once', f'{cls.qualname}.flush', f,
                            f'{cls.name}: a normal path through flush() (ending at line {line}) never passes the flush downstream',
                            f.node)
                    bad = True
            if not bad:
                ctx.ok('flush-once', cls.qualname, f'{len(o["ret"])} normal path states, all pass the flush exactly once')
        # nested pipelines fed by receive
        nested_obligation(ctx, p, om, cls, f)
        for mname in ('run', 'receive', 'receive_error', 'setup', 'cleanup', 'receive_input', 'customize_pipelines'):
            g = cls.find(mname)
            if g is None or g.cls is om.Op or g.cls is om.AbstractOp:
                continue
            ctx.count('non-flush methods')
            ts = FlushTS(p, om, cls, routed, 'other')
            ts.run_function(g, cls, (0, frozenset()))
            if ts.viol:
                rule, node, fr, msg = ts.viol[0]
                ctx.bad(rule, f'{cls.qualname}.{mname}', fr.func, f'{cls.name}.{mname}: {msg}', node,
                        [x.func.qualname for x in fr.chain()])
            else:
                ctx.ok('flush-only-in-flush', f'{cls.qualname}.{mname}')
    ctx.need('operator classes', 40)
    executors(ctx, p, om)


class EventTS(Typestate):
    """generic: record the sequence of matched calls (bounded) as the state, a tuple"""
    max_depth = 5

    def __init__(self, p, classify, inline=None):
        super().__init__(p)
        self.classify = classify
        self._inl = inline

    def relevant(self, t):
        return self._inl(t) if self._inl else False

    def on_call(self, call, targets, st, fr):
        ev = self.classify(call, targets, fr)
        if ev is None:
            return None
        s2 = (st + (ev,))[:6]
        return [s2, ('exc', s2, 'E'), ('exc', s2, 'B')]


def core_propagate(ctx, p, om):
    Op = om.Op
    pf = Op.find('propagate_flush')
    if pf is None:
        raise AnalysisBroken('Op.propagate_flush not found')

    def cl(call, targets, fr):
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'flush':
            if any(o.endswith('.receiver') for o in origin(p, call.func.value, fr.func)):
                return 'flush'
        return None
    ts = EventTS(p, cl)
    ts.track_exc = False
    seen_recv = [None]

    def on_test(test, truth, st, fr):
        e, neg = test, False
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, neg = e.operand, not neg
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and \
                e.comparators[0].value is None:
            isnot = isinstance(e.ops[0], (ast.IsNot, ast.NotEq))
            e2 = e.left
        else:
            isnot, e2 = True, e
        if any(o.endswith('.receiver') for o in origin(p, e2, fr.func)):
            val = isnot != neg
            return st if truth == val else None
        return st
    ts.on_test = on_test
    o = ts.run_function(pf, Op, ())
    sts = {k[0] for k in o['ret']}
    if sts != {('flush',)}:
        ctx.bad('core', 'Op.propagate_flush', pf, f'with a receiver, propagate_flush must flush it exactly once on every path; event '
                f'sequences found: {sorted(sts)}', pf.node)
    else:
        ctx.ok('core', 'Op.propagate_flush')
    for c in om.all:
        if 'propagate_flush' in c.methods:
            ctx.bad('core', f'{c.qualname}.propagate_flush', c.methods['propagate_flush'],
                    'an operator overrides propagate_flush', c.methods['propagate_flush'].node)
    fl = Op.find('flush')

    def cl2(call, targets, fr):
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'propagate_flush':
            return 'propagate'
        return cl(call, targets, fr)
    ts = EventTS(p, cl2)
    ts.track_exc = False
    o = ts.run_function(fl, Op, ())
    sts = {k[0] for k in o['ret']}
    if any(len(s) != 1 for s in sts):
        ctx.bad('core', 'Op.flush', fl, f'the inherited flush must pass the flush on exactly once; found {sorted(sts)}', fl.node)
    else:
        ctx.ok('core', 'Op.flush')
    # nothing else in the framework passes the end of input on
    for c in [Op, om.AbstractOp] + sorted(om.pipeline_classes, key=lambda c: c.qualname):
        for nm in ('setup', 'run', 'receive', 'receive_input', 'receive_error', 'send', 'send_error', 'call', 'cleanup', 'fatal_error', 'non_fatal_error',
                   'copy', 'append', 'append_immutable', 'route_output', 'ensure_functions_compiled', 'customize_pipelines'):
            f = c.methods.get(nm)
            if f is None:
                continue
            bad = [n for n in own_nodes(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (
                n.func.attr == 'propagate_flush' or n.func.attr == 'flush' and len(n.args) == 1)]
            if bad:
                ctx.bad('core', f'{c.qualname}.{nm}', f, f'{c.name}.{nm} signals the end of input, which is up to whoever executes the pipeline', bad[0])
            else:
                ctx.ok('core', f'{c.qualname}.{nm}')
    # PipelineExecutable.flush / Pipeline.flush
    for c in sorted(om.pipeline_classes, key=lambda c: c.qualname):
        f = c.methods.get('flush')
        if f is None:
            continue
        if len(f.node.body) == 1 and isinstance(f.node.body[0], ast.Assert):
            continue

        def cl3(call, targets, fr):
            if isinstance(call.func, ast.Attribute) and call.func.attr == 'flush':
                org = origin(p, call.func.value, fr.func)
                if any(x.endswith('executable') for x in org):
                    return 'flush:executable'
                if any('first_op' in x for x in org) or _first_op(p, call.func.value, fr.func):
                    return 'flush:first'
                return 'flush:other'
            return None
        ts = EventTS(p, cl3)
        ts.track_exc = False
        o = ts.run_function(f, c, ())
        sts = {k[0] for k in o['ret']}
        want = {('flush:first',)} if c.name == 'PipelineExecutable' else {('flush:executable',)}
        if sts != want:
            ctx.bad('core', f'{c.qualname}.flush', f, f'{c.name}.flush must flush exactly once '
                    f'{"its first operator" if c.name == "PipelineExecutable" else "its executable"}; found {sorted(sts)}', f.node)
        else:
            ctx.ok('core', f'{c.qualname}.flush')


def _first_op(p, e, func):
    """is e the first element of self.ops?"""
    if isinstance(e, ast.Subscript):
        return isinstance(e.slice, ast.Constant) and e.slice.value == 0
    if isinstance(e, ast.Name):
        for v in func.local_assigns().get(e.id, []):
            if v is not None and _first_op(p, v, func):
                return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'first_op':
        return True
    return False


def nested_obligation(ctx, p, om, cls, flushf):
    """pipelines given input by <pipeline>.receive(env, x) in methods other than run/flush"""
    fed = {}
    seen = set()
    for c in cls.repo_mro():
        if c is om.Op or c is om.AbstractOp:
            continue
        for f in c.methods.values():
            if f.name in seen or cls.find(f.name) is not f:
                continue
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'receive' and len(n.args) == 2:
                    org = origin(p, n.func.value, f)
                    if any('pipeline' in o.rsplit('.', 1)[-1] for o in org):
                        for o in org:
                            fed.setdefault(o, (f, n))
    if not fed:
        return
    ts = FlushTS(p, om, cls, False, 'flush')
    ts.const = const_unless_run(p, cls)

    base_on_test = ts.on_test

    def on_test(test, truth, st, fr):
        # a nested pipeline that was fed exists
        e = test
        neg = False
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, neg = e.operand, not neg
        isnot = True
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and \
                e.comparators[0].value is None:
            isnot = isinstance(e.ops[0], (ast.IsNot, ast.NotEq))
            e = e.left
        if isinstance(e, (ast.Name, ast.Attribute)) and origin(p, e, fr.func) & set(fed):
            return st if truth == (isnot != neg) else None
        return base_on_test(test, truth, st, fr)
    ts.on_test = on_test

    # a loop over the owners of fed pipelines runs at least once
    o = _run_nonempty(ts, flushf, cls, (0, frozenset()))
    for org in sorted(fed):
        f, n = fed[org]
        ctx.count('nested pipelines fed item by item')
        key = f'{cls.qualname}:{org}'
        bad = None
        for (st, fa, rv), line in o['ret'].items():
            cnt = sum(v for k, v in st[1] if org in k.split('|'))
            loops = org.count('[*]')
            if cnt == 0:
                bad = f'a normal path through flush() (ending at line {line}) does not flush {org}, which receives input: output retained there is lost'
            elif cnt > 1 and not loops:
                bad = f'{org} is flushed more than once'
        if bad:
            ctx.bad('nested-flushed', key, flushf, f'{cls.name}: {bad}', flushf.node)
        else:
            ctx.ok('nested-flushed', key)


def _run_nonempty(ts, f, cls, st):
    """run with every `for` loop taken at least once"""
    orig = ts.s_For

    def s_For(s, states, fr):
        o = orig(s, states, fr)
        drop = set()
        # states equal to entry states that never entered the body: remove if another state with more nested flushes exists
        for key in list(o['n']):
            if key in states and len(o['n']) > 1:
                drop.add(key)
        for k in drop:
            del o['n'][k]
        return o
    ts.s_For = s_For
    return ts.run_function(f, cls, st)


def executors(ctx, p, om):
    """run_pipeline of every Pipeline class, and any other place that runs an executable pipeline itself"""
    found = 0
    for c in sorted(om.pipeline_classes, key=lambda c: c.qualname):
        f = c.methods.get('run_pipeline')
        if f is None or (len(f.node.body) == 1 and isinstance(f.node.body[0], ast.Assert)):
            continue
        found += 1
        _executor(ctx, p, om, f, c)
    ctx.count('pipeline executors', found)
    # other executors: functions (outside the pipeline classes) calling .run(env) and .flush(env) on the same pipeline object
    for f in p.functions:
        if f.cls in om.pipeline_classes or (f.cls is not None and f.cls.derives(om.Op)):
            continue
        runs = [n for n in own_nodes(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'run'
                and _pipe_expr(p, om, n.func.value, f)]
        if runs:
            ctx.count('pipeline executors')
            _executor(ctx, p, om, f, f.cls)
    ctx.need('pipeline executors', 3)


def _pipe_expr(p, om, e, f):
    o = origin(p, e, f)
    return any(x.rsplit('.', 1)[-1].lower().endswith(('pipeline', 'executable')) for x in o)


def _executor(ctx, p, om, f, c):
    def cl(call, targets, fr):
        if isinstance(call.func, ast.Attribute) and call.func.attr in ('run', 'flush') and _pipe_expr(p, om, call.func.value, fr.func):
            return call.func.attr
        return None

    def inl(t):
        return t.cls is not None and c is not None and c.derives(t.cls) and t.cls not in (om.Op,) and \
            t.name not in ('run', 'flush', 'setup', 'cleanup', 'receive') and reach_names(
                p, t, lambda call, g: isinstance(call.func, ast.Attribute) and call.func.attr in ('run', 'flush')
                and _pipe_expr(p, om, call.func.value, g), {})
    ts = EventTS(p, cl, inl)
    o = ts.run_function(f, c, ())
    key = f.qualname
    bad = None
    catches_all = False
    for (st, fa, rv), line in o['ret'].items():
        if st == ('run', 'flush'):
            continue
        # an exception handler that reports and returns: the failing prefix is legal
        if st in ((), ('run',)) and _has_handler(f):
            catches_all = True
            continue
        bad = f'a normal path (ending at line {line}) has the sequence {list(st)} instead of run, flush'
    if not any(k[0] == ('run', 'flush') for k in o['ret']):
        bad = bad or 'no normal path runs and then flushes the pipeline'
    for (st, fa, k), line in o['exc'].items():
        if st not in ((), ('run',), ('run', 'flush')):
            bad = bad or f'an exceptional path (line {line}) has the sequence {list(st)}'
    if bad:
        ctx.bad('executor', key, f, bad, f.node)
    else:
        ctx.ok('executor', key)


def _has_handler(f):
    return any(isinstance(n, ast.Try) and any(
        h.type is None or dotted(h.type) in ('BaseException', 'Exception') for h in n.handlers) for n in own_nodes(f.node))


CHECKS = {'F01': check_F01}

MUTANTS = {'F01': [
    ('marcel/op/window.py', '            self.flush_window(env)\n        self.op.propagate_flush(env)\n',
     '            self.flush_window(env)\n            self.op.propagate_flush(env)\n', 'window: flush only if a window is pending'),
    ('marcel/op/red.py', '                self.accumulators = None\n        op.propagate_flush(env)\n',
     '                self.accumulators = None\n            op.propagate_flush(env)\n', 'red: grouped flush conditional'),
    ('marcel/op/case.py', '        if self.default_pipeline:\n            self.default_pipeline.flush(env)\n        self.propagate_flush(env)\n',
     '        self.propagate_flush(env)\n', 'case: default branch not flushed'),
    ('marcel/op/tail.py', '        self.impl.flush(env)\n        super().flush(env)\n', '        super().flush(env)\n        self.impl.flush(env)\n',
     'tail: output after flush'),
    ('marcel/op/sort.py', '            except TypeError as e:\n                raise marcel.exception.KillCommandException(e)\n        self.propagate_flush(env)\n',
     '            except TypeError as e:\n                return\n        self.propagate_flush(env)\n', 'sort: incomparable values end the flush'),
    ('marcel/core.py', '        if self.receiver:\n            self.receiver.flush(env)\n',
     '        if self.receiver and self._count >= 0:\n            self.receiver.flush(env)\n', 'core: flush only after input'),
]}
