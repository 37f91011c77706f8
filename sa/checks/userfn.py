"""F05: a failing user function costs only the item it failed on."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate
from ..ops import OpModel
from ..taint import Taint, parser_args, function_converters, parser_of, scope_lookup
from .rerun import _attr_origins, MUTATORS

META = {
    'F05': {
        'explanation': 'The places where user functions live (attributes filled by converters of the argument parsers that yield '
                       'functions, values evaluated with eval_function, everything they are copied to) are computed by a field-based '
                       'fixpoint over the operator modules. Every invocation of such a value, and every hand-over to something '
                       'that invokes it, must be protected by Op.call (or an equivalent handler). Op.call, Op.fatal_error and '
                       'Op.receive_input are decided path-sensitively (any Exception becomes the per-item signal, which '
                       'receive_input absorbs); input must be delivered through receive_input; and a user function that fails must '
                       'neither abort a flush or a producing loop nor leave a partly accumulated input behind; input collected for a '
                       'nested pipeline is given up also when that pipeline fails on it.',
        'assumptions': ['user functions enter operators through their argument parsers or eval_function',
                        'the text of the exception a user function raises can be formatted'],
    },
}

INERT = {'isinstance', 'type', 'callable', 'len', 'str', 'repr', 'id', 'hasattr', 'getattr', 'print', 'bool', 'list', 'tuple',
         'enumerate', 'zip', 'reversed', 'iter', 'set', 'dict', 'hash', 'ifnone', 'format', 'any', 'all', 'range', 'next', 'issubclass'}
INERT_METHODS = {'append', 'extend', 'insert', 'add', 'set_function_globals', 'ensure_function_compiled', 'snippet', 'index', 'copy',
                 'dump', 'write', 'join', 'is_grouping', 'is_count', 'one_of', 'check_arg', 'get', 'pop', 'items', 'values', 'keys',
                 'getsource', 'format', 'remove', 'ensure_compiled'}
INVOKERS = {'reduce', 'map', 'filter', 'sorted', 'sort', 'max', 'min', 'Thread', 'Process', 'submit', 'apply', 'starmap', 'accumulate',
            'groupby', 'partial', 'takewhile', 'dropwhile', 'submit', 'Timer', 'heapify', 'nlargest', 'nsmallest', 'defaultdict'}


def scope_functions(p):
    return [f for f in p.functions if f.module.name.startswith('marcel.op.') or f.module.name == 'marcel.core']


def seeds(p, om):
    conv = function_converters(p)
    out = {}
    for c in om.all:
        pc = parser_of(p, om, c)
        if pc is not None:
            for name, attr, cv, how, node, f in parser_args(p, pc):
                if isinstance(cv, ast.Attribute) and cv.attr in conv:
                    out.setdefault((c, attr), f'converter {cv.attr}')
    for f in scope_functions(p):
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                continue
            if n.func.attr == 'eval_function' and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
                for c in _owner(p, om, n.func.value, f):
                    out.setdefault((c, n.args[1].value), 'eval_function')
            i = 1 if n.func.attr == 'call' else 0 if n.func.attr in ('ensure_function_compiled', 'set_function_globals') else None
            if i is not None and len(n.args) > i and isinstance(n.args[i], ast.Attribute):
                for c in _owner(p, om, n.args[i].value, f) or []:
                    if c is not om.Op:
                        out.setdefault((c, n.args[i].attr), n.func.attr)
    return out


def _owner(p, om, v, f):
    if isinstance(v, ast.Name):
        g = f
        while g is not None:
            if g.self_name() and v.id == g.self_name() and g.cls is not None:
                return [g.cls]
            g = g.parent
    return [c for c in p.infer(v, f, f.cls)]


def protected(p, f, node):
    """is node inside the body of a try that catches Exception and does not simply re-raise?"""
    hit = []

    def walk(n, tries):
        if n is node:
            hit.extend(tries)
            return True
        for ch in ast.iter_child_nodes(n):
            t = tries
            if isinstance(n, ast.Try) and ch in n.body:
                t = tries + [n]
            if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and ch is not f.node and False:
                continue
            if walk(ch, t):
                return True
        return False
    walk(f.node, [])
    for t in hit:
        for h in t.handlers:
            names = [dotted(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else [None]
            if any(x in (None, 'Exception', 'BaseException', 'builtins.Exception') for x in names):
                if not any(isinstance(s, ast.Raise) and s.exc is None for s in h.body):
                    return t
    return None


def check_F05(ctx):
    p = ctx.p
    om = OpModel(p)
    ctx.rule('guarded-call', 'a user function is invoked only by Op.call, or inside a try that turns any Exception into a marcel signal')
    ctx.rule('no-handoff', 'a user function is not handed, unprotected, to something that invokes it')
    ctx.rule('wrapper', 'Op.call turns every Exception of the function into KillAndResumeException, after reporting it')
    ctx.rule('isolation', 'Op.receive_input absorbs KillAndResumeException and nothing escapes but control requests and internal errors')
    ctx.rule('delivery', 'input reaches an operator through receive_input')
    ctx.rule('flush-call', 'a user function that fails during flush does not abort the flush')
    ctx.rule('loop-call', 'a user function that fails in a loop of run does not end the loop')
    ctx.rule('discarded', 'input collected for a nested pipeline is given up also if that pipeline fails on it')
    ctx.rule('commit-after-call', 'receive does not change accumulated state with part of an input before a user function that may still '
                                  'fail on that input')
    fns = scope_functions(p)
    sd = seeds(p, om)
    if len(sd) < 10:
        raise AnalysisBroken(f'only {len(sd)} function-valued operator attributes found')
    ctx.count('function-valued attributes', len(sd))
    t = Taint(p, fns, set(sd))
    base = {om.Op}
    call_f = om.Op.methods.get('call')
    if call_f is None:
        raise AnalysisBroken('Op.call not found')
    # Op.call's and eval_function's own parameter
    t.params.discard((call_f, 'function'))
    lambdas = []
    n_sites = 0
    for f in fns:
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Call):
                continue
            for g, call in [(f, n)]:
                n_sites += _site(ctx, p, om, t, g, call, call_f)
            # lambdas inside are analysed in place (own_nodes does not descend into them)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Lambda):
                li = p.lambda_info(n, f)
                for m in ast.walk(n.body):
                    if isinstance(m, ast.Call):
                        n_sites += _site(ctx, p, om, t, li, m, call_f)
    ctx.count('user function uses', n_sites)
    ctx.need('user function uses', 12)
    _wrapper(ctx, p, om)
    _delivery(ctx, p, om)
    _phases(ctx, p, om, t)
    _commit(ctx, p, om, t)
    _discard(ctx, p, om)


def _site(ctx, p, om, t, f, call, call_f):
    if f is call_f:
        return 0
    n = 0
    fe = call.func
    key = f'{f.qualname}:{ast.unparse(fe)}'
    if t.tainted(fe, f) and not _is_nested_func(fe, f):
        n = 1
        tr = protected(p, _outer(f), call)
        if tr is not None and _converts(p, om, tr):
            ctx.ok('guarded-call', key, f'{f.qualname}: inside a converting try')
        else:
            ctx.bad('guarded-call', key, f, f'{ast.unparse(fe)} is a user function and is invoked directly: if it raises, the exception '
                    f'escapes instead of costing the one item', call)
        return n
    nm = fe.id if isinstance(fe, ast.Name) else fe.attr if isinstance(fe, ast.Attribute) else None
    args = list(call.args) + [k.value for k in call.keywords]
    for a in args:
        av = a.value if isinstance(a, ast.Starred) else a
        if not t.tainted(av, f):
            continue
        n = 1
        if nm == 'call' and call.args and isinstance(fe, ast.Attribute) and _is_op(p, om, fe.value, f):
            ctx.ok('guarded-call', key + ':' + ast.unparse(av), f'{f.qualname}: {ast.unparse(call)[:70]}')
            continue
        if isinstance(av, (ast.Tuple, ast.List, ast.Dict)):
            continue        # data that contains it
        if nm in INVOKERS and not (nm in ('max', 'min', 'map', 'filter') and isinstance(fe, ast.Attribute) and not dotted(fe)):
            tr = protected(p, _outer(f), call)
            if tr is not None and _converts(p, om, tr):
                ctx.ok('no-handoff', key)
                continue
            if nm == 'partial':
                continue
            ctx.bad('no-handoff', key, f, f'the user function {ast.unparse(av)} is handed to {nm}, which invokes it without protection', call)
            continue
        if nm in INERT or nm in INERT_METHODS:
            continue
        ctx.ok('no-handoff', key)
    return n


def _outer(f):
    while isinstance(f.node, ast.Lambda) and f.parent is not None:
        f = f.parent
    return f


def _is_nested_func(fe, f):
    if isinstance(fe, ast.Name):
        g = scope_lookup(f, fe.id)
        return g is not None and fe.id in getattr(g, 'nested', {})
    return False


def _is_op(p, om, v, f):
    if isinstance(v, ast.Name):
        g = f
        while g is not None:
            if g.self_name() and v.id == g.self_name() and g.cls is not None:
                return g.cls.derives(om.Op) or g.cls is om.Op
            g = g.parent
    ty = p.infer(v, f, f.cls)
    return not ty or any(x.derives(om.Op) for x in ty) or isinstance(v, ast.Call)


def _converts(p, om, tr):
    """every handler that catches Exception turns it into an error or a marcel control exception"""
    for h in tr.handlers:
        ok = False
        for n in ast.walk(h):
            if isinstance(n, ast.Raise) and n.exc is not None:
                d = dotted(n.exc.func if isinstance(n.exc, ast.Call) else n.exc) or ''
                if d.split('.')[-1] in ('KillCommandException', 'KillAndResumeException'):
                    ok = True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('fatal_error', 'non_fatal_error', 'send_error'):
                ok = True
        if ok:
            return True
    return False


class _WrapTS(Typestate):
    """Op.call: the function parameter may raise 'E'; state: error reported?"""
    max_depth = 4

    def __init__(self, p, om, fparam):
        super().__init__(p)
        self.om, self.fparam = om, fparam
        self.called = 0

    def relevant(self, t):
        return t.cls is self.om.Op and t.name not in ('send', 'send_error')

    def may_raise(self, call, targets, fr):
        return False

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Name) and call.func.id == self.fparam:
            self.called += 1
            return [('n', st), ('exc', 'failed', 'E')]
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'send_error':
            return ['reported' if st == 'failed' else st]
        return None


class _RecvTS(Typestate):
    max_depth = 4

    def __init__(self, p, om, kind):
        super().__init__(p)
        self.om, self.kind = om, kind
        self.called = 0

    def relevant(self, t):
        return t.cls is self.om.Op and t.name != 'receive'

    def may_raise(self, call, targets, fr):
        return False

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'receive':
            self.called += 1
            return [('n', st), ('exc', st, self.kind)]
        return None


def _wrapper(ctx, p, om):
    f = om.Op.methods['call']
    kare = p.cls('KillAndResumeException', 'marcel.exception')
    fparam = f.params[2] if len(f.params) > 2 else None
    ts = _WrapTS(p, om, fparam)
    o = ts.run_function(f, om.Op, 'start')
    if not ts.called:
        ctx.bad('wrapper', f.qualname, f, 'Op.call does not invoke the function it is given', f.node)
        return
    bad = None
    for key, line in o['ret'].items():
        if key[0] in ('failed', 'reported'):
            bad = (line, 'returns normally after the function failed: the caller carries on with a missing result')
    for key, line in o['exc'].items():
        st, k = key[0], key[2]
        if st in ('failed', 'reported') and k is not kare:
            bad = (line, f'lets {k if isinstance(k, str) else k.name} out when the function fails'.replace('lets E ', 'lets the exception '))
        elif st == 'failed':
            bad = (line, 'does not report the failure as an error')
    if bad:
        ctx.bad('wrapper', f.qualname, f, f'Op.call {bad[1]} (line {bad[0]})', f.node)
    else:
        ctx.ok('wrapper', f.qualname, 'Exception -> error sent, KillAndResumeException')
    ctx.count('wrapper paths', len(o['ret']) + len(o['exc']))
    for c in om.all:
        for m in ('call', 'fatal_error', 'receive_input'):
            if m in c.methods:
                ctx.bad('wrapper', f'{c.qualname}.{m}', c.methods[m], f'{c.name} overrides Op.{m}, on which the isolation of user function '
                        f'failures rests', c.methods[m].node)
    g = om.Op.methods.get('receive_input')
    if g is None:
        raise AnalysisBroken('Op.receive_input not found')
    ts = _RecvTS(p, om, kare)
    o = ts.run_function(g, om.Op, 's')
    if not ts.called:
        ctx.bad('isolation', g.qualname, g, 'Op.receive_input does not hand the input to receive', g.node)
    elif o['exc']:
        ctx.bad('isolation', g.qualname, g, 'Op.receive_input lets KillAndResumeException out: a failure on one item ends the operator that '
                'sent it as well', g.node)
    else:
        ctx.ok('isolation', g.qualname)


def _delivery(ctx, p, om):
    n = 0
    for f in p.functions:
        if not (f.module.name.startswith('marcel.') or f.module.name == 'bin.farcel'):
            continue
        for x in own_nodes(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('receive', 'receive_input') and len(x.args) == 2:
                v = x.func.value
                if isinstance(v, ast.Name) and v.id == f.self_name() or isinstance(v, ast.Call) and dotted(v.func) == 'super':
                    continue
                ty = p.infer(v, f, f.cls)
                is_op = any(c.derives(om.Op) for c in ty) or (isinstance(v, (ast.Name, ast.Attribute)) and 'receiver' in ast.unparse(v))
                if not is_op:
                    from ..ops import origin
                    is_op = any(o.endswith(('.receiver', 'ops[*]')) for o in origin(p, v, f))
                if not is_op:
                    continue
                n += 1
                if x.func.attr == 'receive_input':
                    ctx.ok('delivery', f'{f.qualname}:{ast.unparse(v)}')
                else:
                    ctx.bad('delivery', f'{f.qualname}:{ast.unparse(v)}', f, f'{f.name} hands input to another operator\'s receive directly: a '
                            f'failure on one item is then not confined to it', x)
    ctx.count('delivery sites', n)
    ctx.need('delivery sites', 2)


class _PhaseTS(Typestate):
    """does a failure of a user function escape from flush (or leave a loop of run)?"""
    max_depth = 6

    def __init__(self, p, om, cls):
        super().__init__(p)
        self.om, self.cls = om, cls
        self.kare = p.cls('KillAndResumeException', 'marcel.exception')
        self.sites = []

    def relevant(self, t):
        if t.name in ('send', 'send_error', 'propagate_flush', 'receive_input', 'call', 'eval_function', 'fatal_error', 'run_pipeline'):
            return False
        if t.cls is None or t.cls in self.om.pipeline_classes:
            return False
        if t.cls.derives(self.om.Op) or t.cls is self.om.Op:
            return self.cls.derives(t.cls)
        return t.module is self.cls.module or t.module.name.startswith('marcel.op.')

    def may_raise(self, call, targets, fr):
        return False

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'call' and _is_op(self.p, self.om, call.func.value, fr.func) and call.args:
            self.sites.append((fr.func, call))
            return [('n', st), ('exc', ('failed', fr.func.qualname, call.lineno), self.kare)]
        if isinstance(call.func, ast.Attribute) and call.func.attr in ('send', 'send_error', 'propagate_flush', 'receive_input'):
            return [st]
        return None

    def on_expr(self, e, st, fr):
        return [st]


def _phases(ctx, p, om, t):
    for cls in om.concrete:
        f = cls.find('flush')
        if f is not None and f.cls is not om.Op:
            ts = _PhaseTS(p, om, cls)
            o = ts.run_function(f, cls, 's')
            # functions handed over inside flush (key= of sort, reduce, ...) run during flush as well
            extra = []
            for g in _flow(p, om, cls, f):
                for n in own_nodes(g.node):
                    if isinstance(n, ast.Lambda):
                        for m in ast.walk(n.body):
                            if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr == 'call' and _is_op(p, om, m.func.value, g):
                                extra.append((g, m))
            bad = [k for k in o['exc'] if isinstance(k[0], tuple) and k[0][0] == 'failed' and k[2] is ts.kare]
            bad += [k for k in o['exc'] if False]
            ctx.count('flush methods')
            if bad or extra:
                g, node = extra[0] if extra else (f, f.node)
                ctx.bad('flush-call', cls.qualname, g, f'{cls.name} applies a user function during flush: if it fails on one item, the rest of '
                        f'the output and the end-of-input signal are lost', node)
            else:
                ctx.ok('flush-call', cls.qualname)
        f = cls.find('run')
        if f is not None and f.cls is not om.Op:
            ctx.count('run methods')
            hit = None
            for g in _flow(p, om, cls, f):
                for loop in own_nodes(g.node):
                    if isinstance(loop, (ast.For, ast.While)):
                        for m in ast.walk(loop):
                            if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr == 'call' and \
                                    _is_op(p, om, m.func.value, g) and protected_kare(p, g, loop, m) is False:
                                hit = (g, m)
            if hit:
                ctx.bad('loop-call', cls.qualname, hit[0], f'{cls.name} applies a user function in the loop that produces its output: if it '
                        f'fails on one item, the remaining items are never produced', hit[1])
            else:
                ctx.ok('loop-call', cls.qualname)


def protected_kare(p, g, loop, node):
    for t in ast.walk(loop):
        if isinstance(t, ast.Try) and any(x is node for s in t.body for x in ast.walk(s)):
            for h in t.handlers:
                if h.type is None or (dotted(h.type) or '').split('.')[-1] in ('KillAndResumeException', 'BaseException'):
                    return True
    return False


def _flow(p, om, cls, f):
    """functions of the operator (and its helpers) reached from f, not crossing into other operators or receive"""
    seen, work = [], [f]
    while work:
        g = work.pop()
        if g in seen:
            continue
        seen.append(g)
        for n in own_nodes(g.node):
            if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'send', 'send_error', 'propagate_flush', 'receive_input', 'receive', 'call', 'eval_function', 'run_pipeline')):
                for t in p.callees(n, g, cls if g.cls is not None and cls.derives(g.cls) else g.cls):
                    if isinstance(t, FuncInfo) and t.cls is not None and (cls.derives(t.cls) or t.module is cls.module) and \
                            t.name not in ('receive', 'run'):
                        work.append(t)
    return seen


class _CommitTS(Typestate):
    """state: frozenset of accumulated attributes changed, with something derived from the input, by the current receive"""
    track_exc = False
    max_depth = 5

    def __init__(self, p, om, cls):
        super().__init__(p)
        self.om, self.cls = om, cls
        self.hits = {}
        self._der = {}
        self.calls = 0

    relevant = _PhaseTS.relevant

    def derived(self, f):
        """names in f (and enclosing functions) that hold something derived from the input"""
        if f in self._der:
            return self._der[f]
        names = {q for q in f.params if q not in (f.self_name(), 'env', 'self')}
        if f.name == '__init__':
            names = set()
        if f.parent is not None:
            names |= self.derived(f.parent)
        for _ in range(4):
            k = len(names)
            for nm, vs in f.local_assigns().items():
                for v in vs:
                    if v is not None and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(v)):
                        names.add(nm)
            for n in own_nodes(f.node):
                if isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.iter)):
                    names |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            if len(names) == k:
                break
        self._der[f] = names
        return names

    def uses_input(self, nodes, fr):
        d = self.derived(fr.func)
        return any(isinstance(x, ast.Name) and x.id in d for n in nodes if n is not None for x in ast.walk(n))

    def attrs(self, e, fr):
        """attributes of the operator or of a helper that the expression e is (part of)"""
        out = set()
        for b, a in _attr_origins2(self.p, e, fr.func):
            if isinstance(b, ast.Name) and b.id in ('env',):
                continue
            root = b
            while isinstance(root, (ast.Attribute, ast.Subscript)):
                root = root.value
            if isinstance(root, ast.Name) and (root.id == fr.func.self_name() or root.id in ('op', 'self')):
                out.add(a)
        return out

    def on_call(self, call, targets, st, fr):
        fe = call.func
        if isinstance(fe, ast.Attribute):
            if fe.attr == 'call' and call.args and _is_op(self.p, self.om, fe.value, fr.func):
                self.calls += 1
                for a in st:
                    self.hits.setdefault(a, (fr.func, call))
                return [st]
            if fe.attr in MUTATORS and self.uses_input(call.args, fr):
                a = self.attrs(fe.value, fr)
                if a:
                    return [st | a]
        return None

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute):
            if value is None or self.uses_input([value], fr):
                if isinstance(target.value, ast.Name) and target.value.id in (fr.func.self_name(), 'op', 'self'):
                    if not _is_transient(self.p, self.cls, target.attr):
                        return [st | {target.attr}]
        elif isinstance(target, ast.Subscript):
            if value is None or self.uses_input([value, target.slice], fr):
                a = self.attrs(target.value, fr)
                if a:
                    return [st | a]
        return [st]


class _DiscardTS(_CommitTS):
    """state: (attributes that hold something of the input, those of them that a nested pipeline has been run on)"""
    track_exc = True

    def __init__(self, p, om, cls, kind):
        super().__init__(p, om, cls)
        self.kind = kind
        self.emptied = {}
        self.runs = None

    def may_raise(self, call, targets, fr):
        return False

    def empty(self, attrs, st):
        for a in attrs & st[1]:
            self.emptied.setdefault(a, True)
        return (st[0] - attrs, st[1] - attrs)

    def on_call(self, call, targets, st, fr):
        fe = call.func
        if isinstance(fe, ast.Attribute):
            if fe.attr == 'run_pipeline':
                self.runs = (fr.func, call)
                new = (st[0], st[1] | st[0])
                return [new, ('exc', new, self.kind)]
            if fe.attr == 'clear' and not call.args:
                a = self.attrs(fe.value, fr)
                if a:
                    return [self.empty(a, st)]
            if fe.attr in MUTATORS and self.uses_input(call.args, fr):
                a = self.attrs(fe.value, fr)
                if a:
                    return [(st[0] | a, st[1])]
        return None

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and target.value.id in (fr.func.self_name(), 'op', 'self'):
            if value is not None and not self.uses_input([value], fr) and not any(
                    isinstance(x, ast.Attribute) and x.attr == target.attr for x in ast.walk(value)):
                return [self.empty(frozenset({target.attr}), st)]
        return [st]

    def on_del(self, target, st, fr):
        a = self.attrs(target.value, fr) if isinstance(target, ast.Subscript) else set()
        return [self.empty(frozenset(a), st)] if a else [st]


def _discard(ctx, p, om):
    kare = p.cls('KillAndResumeException', 'marcel.exception')
    for cls in om.concrete:
        f = cls.find('receive')
        if f is None or f.cls is om.Op:
            continue
        ts = _DiscardTS(p, om, cls, kare)
        o = ts.run_function(f, cls, (frozenset(), frozenset()))
        if ts.runs is None:
            continue
        ctx.count('receive methods that run a nested pipeline')
        left = set()
        for (st, fa, kind), line in o['exc'].items():
            if kind is kare:
                left |= st[1]
        bad = sorted(left & set(ts.emptied))
        for a in bad:
            g, n = ts.runs
            ctx.bad('discarded', f'{cls.qualname}.{a}', g, f'if the pipeline run on the input collected in {a} fails, {a} is not emptied as it is otherwise: '
                    f'the failure affects the input that follows', n)
        if not bad:
            ctx.ok('discarded', cls.qualname)


def _attr_origins2(p, e, f, depth=0):
    out = list(_attr_origins(p, e, f))
    if isinstance(e, ast.Name) and depth < 3:
        for v in f.local_assigns().get(e.id, []):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('get', 'setdefault', '__getitem__'):
                out += _attr_origins2(p, v.func.value, f, depth + 1)
    return out


def _is_transient(p, cls, a):
    return False


def _commit(ctx, p, om, t):
    for cls in om.concrete:
        f = cls.find('receive')
        if f is None or f.cls is om.Op:
            continue
        ts = _CommitTS(p, om, cls)
        ts.run_function(f, cls, frozenset())
        ctx.count('receive methods')
        if not ts.calls:
            continue
        ctx.count('receive methods that apply user functions')
        if ts.hits:
            for a, (g, n) in sorted(ts.hits.items()):
                ctx.bad('commit-after-call', f'{cls.qualname}.{a}', g, f'{a} is changed using an input before a user function is applied that '
                        f'may still fail on this input: the failing item leaves a trace in the result', n)
        else:
            ctx.ok('commit-after-call', cls.qualname)
    ctx.need('receive methods that apply user functions', 5)


CHECKS = {'F05': check_F05}

MUTANTS = {'F05': [
    ('marcel/op/args.py', "            finally:\n                self.args.clear()\n\n    def flush", "            finally:\n                pass\n            self.args.clear()\n\n    def flush", 'arguments of a failed pipeline are kept'),
    ('marcel/op/map.py', 'self.call(env, self.function, *x)', 'self.function(*x)', 'map: direct call'),
    ('marcel/op/select.py', 'fx = self.call(env, self.function, *x)', 'f = self.function\n        fx = f(*x)', 'select: via a local'),
    ('marcel/op/case.py', 'self.call(env, branch.predicate, *x)', 'branch.predicate(*x)', 'case: direct call'),
    ('marcel/core.py', '        except marcel.exception.KillAndResumeException as e:\n            pass\n',
     '        except marcel.exception.KillAndResumeException as e:\n            raise\n', 'receive_input lets failures out'),
    ('marcel/core.py', "            self.fatal_error(env, args_description, f'{type(e)}: {e}')",
     "            raise marcel.exception.KillCommandException(e)", 'call kills the command'),
    ('marcel/core.py', "        try:\n            return function(*args, **kwargs)\n        except Exception as e:",
     "        try:\n            return function(*args, **kwargs)\n        except ValueError as e:", 'call catches too little'),
    ('marcel/op/squish.py', 'functools.reduce(lambda *args, **kwargs: self.call(env, self.function, *args, **kwargs),',
     'functools.reduce(self.function,', 'squish: handed to reduce'),
]}
