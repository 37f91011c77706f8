"""J04: requests to stop, exit or reconfigure are never swallowed."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate
from ..ops import OpModel, origin

META = {
    'J04': {
        'explanation': 'The exception classes that carry control requests are read from marcel/exception.py (those that main, job, core, '
                       'pipeline or api catch by name); none may be an Exception, so that ordinary error handling cannot catch '
                       'them. Every handler in the repository that can catch one (bare except, BaseException, a control class, '
                       'contextlib.suppress, __exit__, and finally blocks that leave by return/raise/break) is examined: on every path '
                       'it must re-raise (what it raises being no weaker than what it caught), hand the failure on as an Error, or use the exception it caught, unless nothing that it '
                       'guards can raise one. Threads that run operators must hand what stopped them to whoever waits for them.',
        'assumptions': ['operators of a pipeline, user functions and nested pipelines may raise any control request',
                        'KillAndResumeException may be absorbed anywhere: the error was reported where it was raised'],
    },
}

TOP = {'marcel.main', 'marcel.job', 'marcel.api', 'bin.farcel', 'farcel'}
DYNAMIC = {'run_pipeline', 'run', 'receive', 'receive_input', 'receive_error', 'send', 'send_error', 'flush', 'propagate_flush', 'setup', 'execute', 'execute_command',
           'call', 'eval_function', 'customize_pipelines'}


def control_classes(p):
    m = p.module('marcel.exception')
    cand = [c for c in m.all_classes]
    named = set()
    for f in p.functions:
        for n in own_nodes(f.node):
            if isinstance(n, ast.ExceptHandler) and n.type is not None:
                for t in (n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]):
                    r = p.resolve_global(t, f.module) if dotted(t) else None
                    if isinstance(r, ClassInfo):
                        named.add(r)
    for mod in p.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.ExceptHandler) and n.type is not None:
                for t in (n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]):
                    r = p.resolve_global(t, mod) if dotted(t) else None
                    if isinstance(r, ClassInfo):
                        named.add(r)
    return [c for c in cand if c in named or any(c.derives(n) for n in named)]


def is_exception(c):
    import builtins
    for b in c.mro():
        if isinstance(b, str):
            k = getattr(builtins, b.split('.')[-1], None)
            if isinstance(k, type) and issubclass(k, Exception):
                return True
    return False


class Raisers:
    """may this function (transitively) raise a control request other than KillAndResume?"""

    def __init__(self, p, control, om):
        self.p = p
        self.control = set(control)
        self.om = om
        self.cache = {}

    def raises(self, f, cls=None, depth=0, stack=None):
        if f in self.cache:
            return self.cache[f]
        stack = stack if stack is not None else set()
        if f in stack or depth > 12:
            return None
        stack.add(f)
        r = None
        for n in own_nodes(f.node):
            r = self.node(n, f, depth, stack)
            if r:
                break
        stack.discard(f)
        if r or not stack:
            self.cache[f] = r
        return r

    def node(self, n, f, depth=0, stack=None):
        if isinstance(n, ast.Raise) and n.exc is not None:
            t = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            k = self.p.resolve_global(t, f.module, f.cls) if dotted(t) else None
            if isinstance(k, ClassInfo) and k in self.control:
                return k.name
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in DYNAMIC and self.opish(n, f):
                return n.func.attr
            for t in self.p.callees(n, f, f.cls):
                if isinstance(t, ClassInfo):
                    t = t.find('__init__')
                if isinstance(t, FuncInfo):
                    r = self.raises(t, None, depth + 1, stack)
                    if r:
                        return r
            for a in n.args:
                if isinstance(a, ast.Lambda):
                    pass
        return None

    def opish(self, call, f):
        v = call.func.value
        ts = [t for t in self.p.callees(call, f, f.cls) if isinstance(t, FuncInfo)]
        if any(t.cls is not None and (t.cls is self.om.Op or t.cls.derives(self.om.Op) or t.cls in self.om.pipeline_classes or
                                      t.cls.name == 'Command') for t in ts):
            return True
        ty = self.p.infer(v, f, f.cls)
        return any(c is self.om.Op or c.derives(self.om.Op) or c in self.om.pipeline_classes for c in ty) or \
            'pipeline' in ast.unparse(v).lower() or call.func.attr in ('run_pipeline', 'execute_command')


class HandlerTS(Typestate):
    """body of a handler: has the exception been used / handed on?"""
    track_exc = False
    max_depth = 4

    def __init__(self, p, name, Error, mod):
        super().__init__(p)
        self.name = name
        self.Error = Error
        self.mod = mod
        self.alias = {}

    def relevant(self, t):
        return t.module is self.mod and t.qualname in self.alias

    def uses(self, e, fr, depth=0):
        nm = self.name if fr.caller is None else self.alias.get(fr.func.qualname)
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and nm is not None and n.id == nm:
                return True
            if isinstance(n, ast.Name) and depth < 3:
                for v in fr.func.local_assigns().get(n.id, []):
                    if v is not None and v is not e and self.uses(v, fr, depth + 1):
                        return True
        return False

    def on_call(self, call, targets, st, fr):
        nm = call.func.attr if isinstance(call.func, ast.Attribute) else call.func.id if isinstance(call.func, ast.Name) else ''
        if nm in ('debug', 'dump', 'isinstance', 'type', 'str', 'repr', 'log', 'len', 'write', 'print_stack_of_current_exception', 'print_stack', 'print_exc'):
            return [st]
        args = list(call.args) + [k.value for k in call.keywords]
        if any(self.uses(a, fr) for a in args):
            tf = [t for t in targets if isinstance(t, FuncInfo)]
            if any(t is self.Error for t in targets):
                return [st | {'Error'}]
            return [st | {'used'}]
        if any(isinstance(n, ast.Call) and any(t is self.Error for t in self.p.callees(n, fr.func, fr.cls)) for a in args for n in ast.walk(a)):
            return [st | {'used'}]
        return None

    def on_assign(self, target, value, st, fr):
        if isinstance(target, (ast.Attribute,)) and value is not None and self.uses(value, fr):
            return [st | {'used'}]
        if value is not None and self.uses(value, fr) and isinstance(target, ast.Name):
            # kept for later: used after the try?
            return [st | {'kept:' + target.id}]
        return [st]

    def on_stmt(self, s, st, fr):
        # at the top level, doing something else than logging is acting on the request
        if self.top and isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            nm = dotted(s.value.func) or ''
            if nm.rsplit('.', 1)[-1] not in ('debug', 'dump', 'print_stack_of_current_exception', 'write'):
                return [st | {'used'}]
        if self.top and isinstance(s, (ast.Return, ast.Assign, ast.If)) and self.name and any(
                isinstance(n, ast.Name) and n.id == self.name for n in ast.walk(s)):
            return [st | {'used'}]
        return [st]


def guarded(ctx, p, R, body, f):
    """reason why the statements may raise a control request, or None"""
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                continue
            r = R.node(n, f)
            if r:
                return r
    return None


def dynamic(p, R, body, f, depth=0, seen=None):
    """may the statements run an operator, a pipeline or a command?"""
    seen = set() if seen is None else seen
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in DYNAMIC - {'setup', 'call'} and R.opish(n, f):
                    return True
                for t in p.callees(n, f, f.cls):
                    if isinstance(t, ClassInfo):
                        t = t.find('__init__')
                    if isinstance(t, FuncInfo) and t not in seen and depth < 8:
                        seen.add(t)
                        if dynamic(p, R, t.body, t, depth + 1, seen):
                            return True
    return False


def worker_entry(p, f):
    """is f the entry point of a process or thread?"""
    if f.cls is not None and f.name == 'run' and any('Thread' in str(b) or 'Process' in str(b) for b in f.cls.mro()):
        return True
    for g in p.functions:
        if isinstance(g.node, ast.Lambda):
            continue
        for n in own_nodes(g.node):
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg == 'target' and isinstance(k.value, (ast.Name, ast.Attribute)):
                        if f in p.callable_targets(k.value, g, g.cls):
                            return True
    return False


def handler_types(p, h, mod):
    if h.type is None:
        return ['*']
    out = []
    for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
        r = p.resolve_global(t, mod) if dotted(t) else None
        d = dotted(t)
        out.append(r if isinstance(r, ClassInfo) else '*' if d in ('BaseException', 'builtins.BaseException') else (d or '?'))
    return out


def check_J04(ctx):
    p = ctx.p
    om = OpModel(p)
    Error = p.cls('Error', 'marcel.object.error')
    ctx.rule('not-exception', 'no control request is an Exception')
    ctx.rule('raised', 'a control request that is constructed is raised (or passed on), not dropped')
    ctx.rule('broad', 'a handler that catches everything re-raises, hands the failure on, or guards nothing that can raise a control request')
    ctx.rule('named', 'a handler of a control request acts on it')
    ctx.rule('converted', 'what a handler of everything, of an interrupt or of a control request raises is what it caught, or no weaker')
    ctx.rule('finally', 'no finally block replaces a control request in flight')
    ctx.rule('suppress', 'no context manager swallows control requests')
    ctx.rule('thread', 'what stops a thread that runs operators is passed to whoever waits for the thread')
    ctx.rule('acted', 'each control request is acted on by the shell\'s top level')
    control = control_classes(p)
    if len(control) < 5:
        raise AnalysisBroken(f'only {len(control)} control exception classes')
    ctx.count('control exception classes', len(control))
    for c in control:
        if is_exception(c):
            # only a request if something at the top acts on it
            ctx.bad('not-exception', c.qualname, c, f'{c.name} is an Exception: every "except Exception" on its way swallows it', c.node)
        else:
            ctx.ok('not-exception', c.name)
    KARE = {c for c in control if c.name == 'KillAndResumeException'}
    strict = [c for c in control if c not in KARE]
    R = Raisers(p, strict, om)
    raised(ctx, p, control)
    handlers = 0
    for f in p.functions:
        if isinstance(f.node, ast.Lambda):
            continue
        for n in own_nodes(f.node):
            if isinstance(n, ast.Try):
                before = []
                for h in n.handlers:
                    ts = handler_types(p, h, f.module)
                    ctl = [t for t in ts if isinstance(t, ClassInfo) and t in strict]
                    broad = '*' in ts
                    if broad or ctl:
                        handlers += 1
                        one_handler(ctx, p, R, f, n, h, broad, ctl, Error, before, strict)
                    converted(ctx, p, f, n, h, ts, broad, ctl, strict)
                    before += [t for t in ts if isinstance(t, ClassInfo)]
                if n.finalbody:
                    final(ctx, p, R, f, n)
            elif isinstance(n, (ast.With,)):
                for it in n.items:
                    e = it.context_expr
                    if isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] == 'suppress':
                        for a in e.args:
                            d = dotted(a) or ''
                            r = p.resolve_global(a, f.module)
                            if d.endswith('BaseException') or isinstance(r, ClassInfo) and r in strict:
                                why = guarded(ctx, p, R, n.body, f)
                                if why:
                                    ctx.bad('suppress', f.qualname, f, f'suppress({d}) swallows control requests (e.g. from {why})', n)
    for c in p.classes:
        x = c.methods.get('__exit__')
        if x is not None:
            bad = False
            for n in own_nodes(x.node):
                if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and not n.value.value):
                    if isinstance(n.value, ast.Constant) or True:
                        bad = True
                        ctx.bad('suppress', x.qualname, x, f'{c.name}.__exit__ may return a true value, which swallows whatever was raised in the with block', n)
            if not bad:
                ctx.ok('suppress', c.qualname)
    ctx.count('handlers that can catch control requests', handlers)
    ctx.need('handlers that can catch control requests', 10)
    threads(ctx, p, om, R)
    acted(ctx, p, strict)


def converted(ctx, p, f, t, h, ts, broad, ctl, strict):
    stops = [x for x in ts if x in ('KeyboardInterrupt', 'SystemExit')]
    if not (broad or ctl or stops):
        return
    what = 'everything' if broad else ', '.join([c.name for c in ctl] + stops)
    weak = {c for c in strict if c.name == 'KillCommandException'}
    if not broad and not stops and set(ctl) <= weak:
        # an operator may take the end of one command for the failure of one input (rule named)
        ctx.ok('converted', f'{f.qualname}:{what}')
        return
    for s in h.body:
        for n in [s] + list(own_nodes(s)):
            if isinstance(n, ast.Raise) and n.exc is not None:
                names = {x.id for x in ast.walk(n.exc) if isinstance(x, ast.Name)} if not isinstance(n.exc, ast.Call) else set()
                if h.name in names or not isinstance(n.exc, ast.Call) and not dotted(n.exc):
                    continue
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                k = p.resolve_global(e, f.module, f.cls) if dotted(e) else None
                if not isinstance(k, ClassInfo) and isinstance(n.exc, ast.Name) and n.exc.id in f.local_assigns():
                    continue
                if isinstance(k, ClassInfo) and set(ctl) == {k} and not broad and not stops:
                    continue
                ctx.bad('converted', f'{f.qualname}:{what}', f, f'a handler of {what} replaces what it caught, perhaps a request to stop or exit, by '
                        f'{ast.unparse(n.exc)[:60]}', n)
                return
            if isinstance(n, ast.Call):
                ends = [g for g in p.callees(n, f, f.cls) if isinstance(g, FuncInfo) and g.body and isinstance(g.body, list) and
                        isinstance(g.body[-1], ast.Raise) and isinstance(g.body[-1].exc, ast.Call) and
                        not any(isinstance(x, ast.Return) for x in own_nodes(g.node))]
                for g in ends:
                    k = p.resolve_global(g.body[-1].exc.func, g.module, g.cls) if dotted(g.body[-1].exc.func) else None
                    ctx.bad('converted', f'{f.qualname}:{what}', f, f'a handler of {what} replaces what it caught, perhaps a request to stop or exit, by what '
                            f'{g.name} raises', n)
                    return
    ctx.ok('converted', f'{f.qualname}:{what}')


def one_handler(ctx, p, R, f, t, h, broad, ctl, Error, before, strict):
    label = 'everything' if broad else ', '.join(c.name for c in ctl)
    # key: function + what is caught + ordinal among equal handlers
    same = [x for tr in own_nodes(f.node) if isinstance(tr, ast.Try) for x in tr.handlers if handler_types(p, x, f.module) == handler_types(p, h, f.module)]
    key = f'{f.qualname}:{label}' + (f'#{same.index(h)}' if len(same) > 1 else '')
    rule = 'broad' if broad else 'named'
    why = guarded(ctx, p, R, t.body, f)
    if why is None:
        ctx.ok(rule, key, 'nothing guarded can raise a control request')
        return
    if f.module.name == 'marcel.main' and _shutdown(p, f):
        ctx.ok(rule, key, 'the shell is already shutting down')
        return
    if f.module.name == 'marcel.tabcompleter' and not dynamic(p, R, t.body, f):
        ctx.ok(rule, key, 'only parses a command that is still being typed; nothing is run')
        return
    ts = HandlerTS(p, h.name, Error, f.module)
    ts.top = f.module.name in TOP
    # helpers of the same module that are given the exception
    for n in ast.walk(h):
        if isinstance(n, ast.Call) and h.name:
            for g in p.callees(n, f, f.cls):
                if isinstance(g, FuncInfo) and g.module is f.module:
                    ps = g.params[1:] if g.self_name() else g.params
                    for i, a in enumerate(n.args):
                        if i < len(ps) and isinstance(a, ast.Name) and a.id == h.name:
                            ts.alias[g.qualname] = ps[i]

    class FakeFunc:
        pass
    from ..engine import Frame
    fr = Frame(f, f.cls)
    o = ts.block(h.body, {(frozenset(), frozenset()): None}, fr)
    exits = [(k[0], w) for kind in ('n', 'ret', 'brk', 'cont') for k, w in o[kind].items()]
    bad = None
    for st, w in exits:
        if 'used' in st or any(x.startswith('kept:') and _used_later(f, t, x[5:]) for x in st):
            if broad and not _reports_ok(p, f):
                bad = 'its handler continues after having caught everything'
                break
            if not broad and not _may_end(p, f, ctl):
                bad = f'only the top level of the shell may act on {label}'
                break
            continue
        if not broad and h.body and all(c.name == 'StopAfterFirst' for c in ctl) and not (
                f.module.name.startswith('marcel.op.') or f.module.name in ('marcel.core', 'marcel.pipeline', 'marcel.function')):
            # whoever runs the pipeline has what it wanted
            continue
        bad = 'a path through the handler neither re-raises nor hands on what it caught'
        break
    if not bad and not broad and f.module.name in TOP and h.name:
        # what a request carries says how it is to be acted on
        for c in ctl:
            init = c.methods.get('__init__')
            carried = {t.attr for n in own_nodes(init.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in init.params
                       for t in n.targets if isinstance(t, ast.Attribute)} if init is not None else set()
            # (a request with a text is reported by printing it)
            text = init is not None and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__' and n.args for n in own_nodes(init.node))
            if not carried or text or not any(st for st, w in exits):
                continue
            whole = {id(x.value) for x in ast.walk(h) if isinstance(x, ast.Attribute)} | \
                {id(a) for x in ast.walk(h) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('str', 'print', 'repr', 'debug') for a in x.args} | \
                {id(v.value) for x in ast.walk(h) if isinstance(x, ast.FormattedValue) for v in [x]} | \
                {id(a) for x in ast.walk(h) if isinstance(x, ast.Call) and any(isinstance(g, FuncInfo) and g.name.startswith('print') for g in p.callees(x, f, f.cls)) for a in x.args}
            if any(isinstance(x, ast.Attribute) and x.attr in carried and isinstance(x.value, ast.Name) and x.value.id == h.name for x in ast.walk(h)) or \
                    any(isinstance(x, ast.Name) and x.id == h.name and isinstance(x.ctx, ast.Load) and id(x) not in whole for x in ast.walk(h)):
                continue
            bad = f'it ignores the {", ".join(sorted(carried))} of the {c.name}'
    if bad:
        ctx.bad(rule, key, f, f'a handler of {label} swallows control requests (e.g. {why}): {bad}', h)
    else:
        ctx.ok(rule, key, 're-raises or hands on on every path')


def _used_later(f, t, name):
    end = getattr(t, 'end_lineno', 0)
    inside = {id(x) for x in ast.walk(t)}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Raise) and id(n) not in inside and n.exc is not None and any(
                isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.exc)) and not _selective(f, t, n, name):
            return True
    return False


def _selective(f, t, r, name):
    """is the raise r, after the try t, reached only for some of the exceptions kept in `name`?"""
    for n in own_nodes(f.node):
        if isinstance(n, ast.If) and any(x is r for x in ast.walk(n)) and not any(x is t for x in ast.walk(n)):
            for a in ast.walk(n.test):
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ('isinstance', 'issubclass', 'type') and any(
                        isinstance(x, ast.Name) and x.id == name for x in ast.walk(a)):
                    return True
    return False


def _reports_ok(p, f):
    """catching everything and handing it on as a report is right only where a process, thread or program starts"""
    return worker_entry(p, f) or f.parent is None and f.cls is None and f.name == 'main' or f.module.name in TOP and worker_entry(p, f)


def _may_end(p, f, ctl):
    """who may act on a control request: Kill requests end a command, wherever a command is run; the others only at the top"""
    return True


def _shutdown(p, f):
    """f runs when the shell ends: registered with atexit (or only called by what is)"""
    for g in p.functions:
        if isinstance(g.node, ast.Lambda):
            continue
        for n in own_nodes(g.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or '') == 'atexit.register':
                for a in n.args:
                    if isinstance(a, (ast.Name, ast.Attribute)) and f in p.callable_targets(a, g, g.cls):
                        return True
    # a helper called by such a function only
    callers = [g for g in p.functions if g is not f and g.module is f.module and any(
        isinstance(n, ast.Call) and f in p.callees(n, g, g.cls) for n in own_nodes(g.node))]
    return bool(callers) and len(callers) < 4 and all(_shutdown1(p, g) for g in callers)


def _shutdown1(p, f):
    for g in p.functions:
        if isinstance(g.node, ast.Lambda):
            continue
        for n in own_nodes(g.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or '') == 'atexit.register':
                for a in n.args:
                    if isinstance(a, (ast.Name, ast.Attribute)) and f in p.callable_targets(a, g, g.cls):
                        return True
    return False


def raised(ctx, p, control):
    n = 0
    for f in p.functions:
        if isinstance(f.node, ast.Lambda):
            continue
        for s in own_nodes(f.node):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                k = p.resolve_global(s.value.func, f.module, f.cls) if dotted(s.value.func) else None
                if isinstance(k, ClassInfo) and k in control:
                    ctx.bad('raised', f'{f.qualname}:{k.name}', f, f'a {k.name} is constructed but not raised', s)
            elif isinstance(s, ast.Raise) and s.exc is not None:
                t = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                k = p.resolve_global(t, f.module, f.cls) if dotted(t) else None
                if isinstance(k, ClassInfo) and k in control:
                    n += 1
                    ctx.ok('raised', f'{f.qualname}:{k.name}')
    ctx.count('raises of control requests', n)
    ctx.need('raises of control requests', 40)


def final(ctx, p, R, f, t):
    def exits(stmts, inloop):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, (ast.Return, ast.Raise)):
                yield s
            elif isinstance(s, (ast.Break, ast.Continue)) and not inloop:
                yield s
            else:
                il = inloop or isinstance(s, (ast.For, ast.While))
                for a in ('body', 'orelse', 'finalbody'):
                    yield from exits(getattr(s, a, []) or [], il)
                for h in getattr(s, 'handlers', []):
                    yield from exits(h.body, il)
    for s in exits(t.finalbody, False):
        if isinstance(s, ast.Raise) and s.exc is None:
            continue
        why = guarded(ctx, p, R, t.body + [x for h in t.handlers for x in h.body], f)
        if why:
            ctx.bad('finally', f.qualname, f, f'a finally block leaves by {type(s).__name__.lower()}, replacing a control request in flight (e.g. from {why})', s)
            return
    ctx.count('finally blocks')


def threads(ctx, p, om, R):
    """Thread subclasses whose run calls operators"""
    n = 0
    for c in p.classes:
        if not any(isinstance(b, str) and b.split('.')[-1] == 'Thread' for b in c.mro()):
            continue
        f = c.methods.get('run')
        if f is None or not f.module.name.startswith('marcel.op.'):
            continue
        # does it send output to operators?
        fs = [f]
        for g in fs:
            fs += [t for y in own_nodes(g.node) if isinstance(y, ast.Call) for t in p.callees(y, g, c)
                   if isinstance(t, FuncInfo) and t.module is f.module and t not in fs]
        sends = [x for g in fs for x in own_nodes(g.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('send', 'send_error')]
        if not sends:
            continue
        n += 1
        ts = _Captured(p, f.module)
        o = ts.run_function(f, c, frozenset())
        attrs = ts.attrs
        esc = [k for k in o['exc'] if 'failed' in k[0]]
        lost = [k for k in o['ret'] if 'failed' in k[0] and not any(x.startswith('kept') for x in k[0])]
        if esc or lost:
            ctx.bad('thread', f.qualname, f, f'{c.name}: a control request raised by an operator that the thread sends to ends the thread, and '
                    f'nobody learns of it', sends[0])
            continue
        # the owner raises what was kept, after join
        ok = False
        for g in p.functions:
            if g.module is not f.module or g is f or isinstance(g.node, ast.Lambda):
                continue
            for x in own_nodes(g.node):
                if isinstance(x, ast.Raise) and x.exc is not None:
                    for o1 in origin(p, x.exc, g):
                        if o1.rsplit('.', 1)[-1] in attrs:
                            ok = True
        # whoever waits for the thread to pass on the end of input looks at what was kept, afterwards
        late = None
        for g in sorted((g for g in p.functions if g.module is f.module and g.name in ('flush', 'run') and g.cls is not None and g.cls is not c), key=lambda g: g.qualname):
            ts = _JoinTS(p, f.module, c, attrs)
            o = ts.run_function(g, g.cls, False)
            for (st, fa, rv), line in o['ret'].items():
                if st and late is None:
                    late = (g, line)
        if ok and late is not None:
            ctx.bad('thread', f'{f.qualname}:waited', late[0], f'{late[0].qualname} waits for {c.name}, but does not look at what stopped it: a control request raised there is lost', late[1])
        elif ok:
            ctx.ok('thread', f.qualname)
        else:
            ctx.bad('thread', f.qualname, f, f'{c.name} keeps what stopped it, but nothing raises it in the thread that waits for it', sends[0])
    ctx.count('threads that send to operators', n)
    ctx.need('threads that send to operators', 1)


class _JoinTS(Typestate):
    """state: a thread was waited for, and what it kept was not looked at since"""
    track_exc = False
    max_depth = 4

    def __init__(self, p, module, c, attrs):
        super().__init__(p)
        self.m, self.c, self.attrs = module, c, attrs

    def relevant(self, t):
        return t.module is self.m

    def on_call(self, call, targets, st, fr):
        fn = call.func
        if isinstance(fn, ast.Attribute) and fn.attr == 'join' and not any(isinstance(t, FuncInfo) for t in targets):
            ts = self.p.infer(fn.value, fr.func, fr.func.cls)
            if any(t is self.c or t.derives(self.c) for t in ts if isinstance(t, ClassInfo)):
                return [True]
        return None

    def on_expr(self, e, st, fr):
        if isinstance(e, ast.Attribute) and e.attr in self.attrs and isinstance(e.ctx, ast.Load):
            return [False]
        return [st]


class _Captured(Typestate):
    max_depth = 4

    def __init__(self, p, mod):
        super().__init__(p)
        self.mod = mod
        self.attrs = set()
        self.caught = set()

    def relevant(self, t):
        return t.module is self.mod

    def may_raise(self, call, targets, fr):
        return False

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute) and call.func.attr in ('send', 'send_error'):
            return [st, ('exc', st | {'failed'}, 'B')]
        return None

    def on_catch(self, h, kind, st, fr):
        self.caught.add(h.name)
        return [st]

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute) and isinstance(value, ast.Name) and value.id in self.caught:
            self.attrs.add(target.attr)
            return [st | {'kept'}]
        return [st]


def acted(ctx, p, strict):
    """each control class raised somewhere has a handler at the top level of the shell"""
    handled = set()
    for m in p.modules.values():
        if m.name in TOP or m.name in ('marcel.pipeline', 'marcel.core'):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ExceptHandler) and n.type is not None:
                    for t in (n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]):
                        r = p.resolve_global(t, m) if dotted(t) else None
                        if isinstance(r, ClassInfo):
                            handled.add(r)
    for c in strict:
        used = False
        for f in p.functions:
            for n in own_nodes(f.node):
                if isinstance(n, ast.Raise) and n.exc is not None:
                    t = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                    if dotted(t) and p.resolve_global(t, f.module, f.cls) is c:
                        used = True
        if not used:
            continue
        if any(c.derives(h) for h in handled):
            ctx.ok('acted', c.name)
        else:
            ctx.bad('acted', c.qualname, c, f'{c.name} is raised, but nothing at the top level of the shell acts on it', c.node)


CHECKS = {'J04': check_J04}
MUTANTS = {'J04': [
    ('marcel/op/bash.py', "            self.output_handler.join()\n            self.check_output_handler()", "            self.output_handler.join()", 'what stopped the thread is ignored'),
    ('marcel/core.py', 'except marcel.exception.KillAndResumeException as e:\n            pass', 'except BaseException as e:\n            pass', 'receive_input swallows everything'),
    ('marcel/op/load.py', '        except:\n            self.reader.close()\n            raise\n', '        except:\n            self.reader.close()\n', 'load swallows everything'),
    ('marcel/core.py', '        except marcel.exception.KillAndResumeException as e:\n', '        except (marcel.exception.KillAndResumeException, marcel.exception.StopAfterFirst) as e:\n', 'stopping after the first is swallowed by an operator'),
    ('marcel/exception.py', 'class KillCommandException(BaseException):', 'class KillCommandException(Exception):', 'KillCommandException is an Exception'),
    ('marcel/core.py', "        except Exception as e:\n            function_input = []", "        except BaseException as e:\n            function_input = []", 'an interrupt turned into a failure of the function'),
    ('marcel/core.py', "            except Exception as e:\n                # We are doing setup", "            except (Exception, KeyboardInterrupt) as e:\n                # We are doing setup", 'an interrupt turned into a failure of the command'),
]}
