"""F04: errors travel through a pipeline as errors."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate
from ..ops import OpModel, origin
from ..valflow import ValueFlow

META = {
    'F04': {
        'explanation': 'Every receive_error in the repository is executed abstractly and must hand the error on along every normal '
                       'path. Values that may be errors - whatever is unpickled or received from workers, remote and superuser '
                       'processes, and Error objects themselves - are followed through assignments, helpers and returns: they '
                       'may be sent as data only where a test has established that they are not errors, and what a test '
                       'established to be an error must be delivered. Every nested pipeline that an operator runs must end in an '
                       'operator that hands errors to the owner, and whatever runs a pipeline elsewhere must report its failure.',
        'assumptions': ['files written by marcel\'s own pickle writer contain no errors (its receive_error is checked not to write them)'],
    },
}


def op_send(om, call, targets, names=('send',)):
    if not isinstance(call.func, ast.Attribute) or call.func.attr not in names:
        return False
    tf = [t for t in targets if isinstance(t, FuncInfo)]
    if tf:
        return any(t.cls is not None and (t.cls is om.Op or t.cls.derives(om.Op)) for t in tf)
    return len(call.args) == 2 and 'env' in (dotted(call.args[0]) or '')


def mentions(e, name):
    return any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(e))


INERT_CALL = {'isinstance', 'type', 'print_stack', 'set_label', 'str', 'repr', 'dump', 'dumps', 'is_enabled', 'hasattr', 'format', 'len',
              'Error', 'debug', 'log', 'id'}
STORE = {'append', 'add', 'put', 'put_nowait', 'appendleft', 'extend', 'insert'}


class DeliverTS(Typestate):
    """receive_error: state False until the error was handed on"""
    track_exc = False
    max_depth = 5

    def __init__(self, p, om):
        super().__init__(p)
        self.om = om
        self.alias = {}

    def param(self, fr):
        f = fr.func
        if f.name == 'receive_error':
            ps = [x for x in f.params if x != f.self_name()]
            return ps[-1] if ps else None
        return self.alias.get(f.qualname)

    def carries(self, e, fr, depth=0):
        nm = self.param(fr)
        if nm is None or depth > 4:
            return False
        if mentions(e, nm):
            return True
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id != nm:
                for v in fr.func.local_assigns().get(n.id, []):
                    if v is not None and mentions(v, nm):
                        return True
        return False

    def wrapped(self, e, fr, depth=0):
        if depth > 5 or not self.carries(e, fr):
            return False
        if isinstance(e, (ast.Tuple, ast.List, ast.Set, ast.Dict, ast.JoinedStr, ast.BinOp)):
            return True
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('str', 'repr', 'tuple', 'list'):
                return True
            return any(self.wrapped(a, fr, depth + 1) for a in e.args)
        if isinstance(e, ast.Name) and e.id != self.param(fr):
            return any(self.wrapped(v, fr, depth + 1) for v in fr.func.local_assigns().get(e.id, []) if isinstance(v, ast.AST))
        return False

    def relevant(self, t):
        return t.module.name.startswith('marcel.op.') or t.module.name == 'marcel.core' or t.module is self.home

    def on_call(self, call, targets, st, fr):
        args = list(call.args) + [k.value for k in call.keywords]
        if not any(self.carries(a, fr) for a in args):
            return None
        nm = call.func.attr if isinstance(call.func, ast.Attribute) else call.func.id if isinstance(call.func, ast.Name) else None
        tf = [t for t in targets if isinstance(t, FuncInfo)]
        if nm == 'send_error' or nm == 'receive_error' and (self.helper or not tf or any(
                t.cls is self.om.Op or t.cls is not None and t.cls.derives(self.om.Op) for t in tf)):
            return [True]
        if op_send(self.om, call, targets):
            self.viol.append((call, fr, 'an error is sent downstream as data'))
            return [st]
        if nm in INERT_CALL or isinstance(call.func, ast.Attribute) and 'trace' in (dotted(call.func.value) or ''):
            return [st]
        if nm in STORE:
            return [True]
        tf = [t for t in targets if isinstance(t, FuncInfo)]
        if tf and all(self.relevant(t) for t in tf):
            for t in tf:
                # follow: which parameter carries the error
                ps = list(t.params)
                if t.self_name():
                    ps = ps[1:]
                for i, a in enumerate(call.args):
                    if i < len(ps) and self.carries(a, fr):
                        self.alias[t.qualname] = ps[i]
                for k in call.keywords:
                    if k.arg in ps and self.carries(k.value, fr):
                        self.alias[t.qualname] = k.arg
            return None
        if nm in ('send', 'dump', 'sendall', 'put'):
            if any(self.wrapped(a, fr) for a in args):
                self.viol.append((call, fr, 'an error is sent as part of something else, which does not look like an error'))
            return [True]
        if self.helper and nm in ('write', 'print_to_stderr', 'print', 'write_line', 'writerow'):
            return [True]
        return None

    def on_assign(self, target, value, st, fr):
        if value is not None and isinstance(target, (ast.Attribute, ast.Subscript)) and self.carries(value, fr):
            return [True]
        return [st]

    def on_test(self, test, truth, st, fr):
        # without a receiver there is nobody to forward to
        e, neg = test, False
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, neg = e.operand, not neg
        isnot = True
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            isnot = isinstance(e.ops[0], (ast.IsNot, ast.NotEq))
            e = e.left
        if isinstance(e, (ast.Attribute, ast.Name)) and any(o.endswith('.receiver') for o in origin(self.p, e, fr.func)):
            present = truth == (isnot != neg)
            if self.helper:
                # the helper's obligation is to report the error when nothing follows its operator
                return None if present else st
            return st if present else None
        return st


class ErrorFlow(ValueFlow):
    """marks: 'may' (unpickled, not yet tested), 'err' (certainly an error, to be delivered), 'E' (a constructed Error)"""

    def __init__(self, p, om, Error, scope):
        super().__init__(p)
        self.om = om
        self.Error = Error
        self.scope = scope
        self.viol = []
        self.sources = set()

    def relevant(self, t):
        return t.module in self.scope and t.cls is not self.om.Op

    def source(self, e, st, fr):
        if not isinstance(e, ast.Call):
            return None
        f = e.func
        if isinstance(f, ast.Attribute):
            if f.attr == 'load' and not e.args and self._unpickler(f.value, fr):
                self.sources.add((fr.func.qualname, ast.unparse(e)))
                return 'may'
            if f.attr == 'loads' and e.args and self.mark(e.args[0], st, fr) == 'raw':
                self.sources.add((fr.func.qualname, ast.unparse(e)))
                return 'may'
            if f.attr in ('recv', 'recv_bytes') and not (set(fr.func.params) & set()):
                return 'raw'
            if f.attr == 'error' and any(isinstance(t, FuncInfo) and t.cls is self.om.Op for t in self.p.callees(e, fr.func, fr.cls)):
                return 'E'
        if any(t is self.Error for t in self.p.callees(e, fr.func, fr.cls, binds=fr.binds)):
            return 'E'
        return None

    def _unpickler(self, v, fr):
        es = [v]
        if isinstance(v, ast.Name):
            es = [x for x in fr.func.local_assigns().get(v.id, []) if x is not None]
        elif isinstance(v, ast.Attribute) and fr.func.cls is not None:
            es = [x for _, x in fr.func.cls.all_attr_assigns(v.attr) if x is not None]
        return any(isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name)) and
                   (x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id) == 'Unpickler' for x in es)

    def is_error_test(self, e, fr):
        """expression tested by isinstance(e, Error) / type(e) is Error / a helper that is such a test"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and len(e.args) == 2:
            cs = e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]]
            if any(self.p.resolve_global(c, fr.func.module) is self.Error for c in cs):
                return e.args[0]
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.Eq)) and isinstance(e.left, ast.Call) \
                and isinstance(e.left.func, ast.Name) and e.left.func.id == 'type' and \
                self.p.resolve_global(e.comparators[0], fr.func.module) is self.Error:
            return e.left.args[0]
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.Eq)) and \
                self.p.resolve_global(e.comparators[0], fr.func.module) is self.Error and isinstance(e.left, ast.Name):
            for v in fr.func.local_assigns().get(e.left.id, []):
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'type' and v.args:
                    return v.args[0]
        if isinstance(e, ast.Call) and e.args:
            for t in self.p.callees(e, fr.func, fr.cls):
                if isinstance(t, FuncInfo):
                    b = [s for s in t.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                    if len(b) == 1 and isinstance(b[0], ast.Return) and b[0].value is not None:
                        class F:
                            func, cls, binds = t, t.cls, {}
                        a = self.is_error_test(b[0].value, F)
                        if isinstance(a, ast.Name) and a.id in t.params:
                            i = t.params.index(a.id) - (1 if t.self_name() else 0)
                            if 0 <= i < len(e.args):
                                return e.args[i]
        return None

    def refine(self, test, truth, st, fr):
        a = self.is_error_test(test, fr)
        if a is None and isinstance(test, ast.Name):
            vs = fr.func.local_assigns().get(test.id, [])
            if len(vs) == 1 and vs[0] is not None:
                a = self.is_error_test(vs[0], fr)
        if a is not None:
            k = self.key(a, fr)
            m = dict(st).get(k)
            if m == 'may':
                return self.set(st, k, 'err' if truth else None)
            if m in ('err', 'E') and not truth:
                return None
        return st

    def on_test(self, test, truth, st, fr):
        return self.refine(test, truth, st, fr)

    def on_test_call(self, call, targets, truth, st, fr):
        return self.refine(call, truth, st, fr)

    def inline_ok(self, t, call, fr):
        return self.relevant(t) and self.is_error_test(call, fr) is None

    def on_call(self, call, targets, st, fr):
        args = list(call.args) + [k.value for k in call.keywords]
        if op_send(self.om, call, targets, ('send', 'receive', 'receive_input')):
            m = self.mark(call.args[-1], st, fr) if call.args else None
            if m == 'may':
                self.viol.append(('split', call, fr, 'a value that may be an Error is sent downstream as data without a test'))
            elif m in ('err', 'E'):
                self.viol.append(('split', call, fr, 'an Error is sent downstream as data'))
            return [st]
        if op_send(self.om, call, targets, ('send_error', 'receive_error')):
            a = call.args[-1] if call.args else None
            m = self.mark(a, st, fr)
            if m == 'may':
                self.viol.append(('split', call, fr, 'a value that may be data is reported as an error without a test'))
            k = self.key(a, fr) if a is not None else None
            if k is not None and m == 'err':
                st = self.set(st, k, None)
            return [st]
        nm = call.func.attr if isinstance(call.func, ast.Attribute) else None
        if nm in STORE and call.args:
            m = self.mark(call.args[-1], st, fr)
            k = self.key(call.func.value, fr)
            if m and k:
                st = self.set(st, k, m)
                ka = self.key(call.args[-1], fr)
                if ka and m == 'err':
                    st = self.set(st, ka, None)
                return [st]
        if nm in ('print_to_stderr',):
            for a in args:
                k = self.key(a, fr)
                if k and dict(st).get(k) == 'err':
                    st = self.set(st, k, None)
            return [st]
        return None

    def on_raise(self, node, st, fr):
        return [frozenset(x for x in st if x[1] != 'err')]

    def overwritten(self, key, mark, target, fr):
        if mark == 'err':
            self.viol.append(('delivered', target, fr, f'{key[1]} was established to be an Error, and is overwritten without being delivered'))

    def on_exit_frame(self, st, fr):
        # a callee given the error may have delivered it; what it still holds undelivered is its caller's
        return super().on_exit_frame(st, fr)


def forwarders(ctx, p, om):
    """every receive_error override; -> set of classes whose receive_error hands the error on"""
    good = set()
    n = 0
    for c in p.classes:
        f = c.methods.get('receive_error')
        if f is None:
            continue
        n += 1
        isop = c is om.Op or c.derives(om.Op) or c is om.AbstractOp
        ts = DeliverTS(p, om)
        ts.viol = []
        ts.home = f.module
        ts.helper = not isop
        o = ts.run_function(f, c, False)
        for node, fr, msg in ts.viol:
            ctx.bad('forward', f'{c.qualname}.receive_error', fr.func, f'{c.name}: {msg}', node)
        lost = [line for (st, fa, rv), line in o['ret'].items() if not st]
        if lost:
            ctx.bad('forward', f'{c.qualname}.receive_error', f,
                    f'{c.name}.receive_error: a normal path (ending at line {lost[0]}) does not hand the error on', f.node)
        elif not ts.viol:
            good.add(c)
            ctx.ok('forward', f'{c.qualname}.receive_error')
    # the framework
    f = om.Op.methods.get('send_error')
    if f is None:
        raise AnalysisBroken('Op.send_error not found')
    ts = DeliverTS(p, om)
    ts.viol, ts.home, ts.helper = [], f.module, False
    ps = [x for x in f.params if x != f.self_name()]
    ts.alias[f.qualname] = ps[-1]
    o = ts.run_function(f, om.Op, False)
    if any(not k[0] for k in o['ret']) or not o['ret']:
        ctx.bad('forward', 'Op.send_error', f, 'with a receiver, send_error must pass the error to it on every path', f.node)
    else:
        ctx.ok('forward', 'Op.send_error')
    ctx.count('receive_error methods', n)
    ctx.need('receive_error methods', 5)
    for c in om.all:
        if 'send_error' in c.methods:
            ctx.bad('forward', f'{c.qualname}.send_error', c.methods['send_error'], 'an operator overrides send_error', c.methods['send_error'].node)
    return good


def error_flow(ctx, p, om):
    Error = p.cls('Error', 'marcel.object.error')
    mods = [m for m in p.modules.values() if m.name.startswith('marcel.op.')]
    scope = set(mods)
    srcs = set()
    n = 0
    seen = set()
    for f in p.functions:
        if f.module not in scope or isinstance(f.node, ast.Lambda):
            continue
        n += 1
        ts = ErrorFlow(p, om, Error, scope)
        o = ts.run_function(f, f.cls, frozenset())
        srcs |= ts.sources
        for rule, node, fr, msg in ts.viol:
            k = (rule, fr.func.qualname, node.lineno)
            if k in seen:
                continue
            seen.add(k)
            ctx.bad(rule, f'{fr.func.qualname}:{msg.split(",")[0][:40]}', fr.func, msg, node)
        for (st, fa, rv), line in o['ret'].items():
            for key, m in st:
                if m == 'err' and key[0] == f.qualname:
                    ctx.bad('delivered', f'{f.qualname}:{key[1]}', f, f'{key[1]} was established to be an Error and is dropped', line or f.node)
    ctx.count('functions searched for error sources', n)
    ctx.count('sources of values that may be errors', len(srcs))
    ctx.need('sources of values that may be errors', 3)
    for s in sorted(srcs):
        ctx.ok('split', f'{s[0]}: {s[1]}')


def last_appended(p, e, f, depth=0):
    """argument expressions of the outermost append of every pipeline that expression e may denote: [(arg, func)]; None = not built here"""
    out = []
    if depth > 6:
        return out
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        if e.func.attr == 'append_immutable' and e.args:
            return [(e.args[0], f)]
        for t in p.callees(e, f, f.cls):
            if isinstance(t, FuncInfo):
                for n in own_nodes(t.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        out += last_appended(p, n.value, t, depth + 1)
        return out
    if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
        return last_appended(p, e.elt, f, depth + 1)
    if isinstance(e, ast.IfExp):
        return last_appended(p, e.body, f, depth + 1) + last_appended(p, e.orelse, f, depth + 1)
    if isinstance(e, ast.Name):
        g = f
        while g is not None:
            # appended in place?
            for n in own_nodes(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and n.args and \
                        isinstance(n.func.value, ast.Name) and n.func.value.id == e.id:
                    a = n.args[0]
                    out += [(a, g)] if _op_classes(p, a, g) else last_appended(p, a, g, depth + 1)
                if isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.target)):
                    out += last_appended(p, n.iter, g, depth + 1)
            vs = [v for v in g.local_assigns().get(e.id, []) if v is not None]
            for v in vs:
                out += last_appended(p, v, g, depth + 1)
            if out or vs:
                return out
            g = g.parent
        return out
    if isinstance(e, ast.Attribute) and f.cls is not None:
        owners = [f.cls] if isinstance(e.value, ast.Name) and e.value.id == f.self_name() else list(p.infer(e.value, f, f.cls))
        for c in owners:
            for g, v in c.all_attr_assigns(e.attr):
                if v is not None:
                    out += last_appended(p, v, g, depth + 1)
            for g in {m for k in c.repo_mro() for m in k.methods.values()}:
                for n in own_nodes(g.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and n.args and \
                            isinstance(n.func.value, ast.Attribute) and n.func.value.attr == e.attr:
                        a = n.args[0]
                        out += [(a, g)] if _op_classes(p, a, g) else last_appended(p, a, g, depth + 1)
        return out
    if isinstance(e, ast.Subscript):
        return last_appended(p, e.value, f, depth + 1)
    return out


def _op_classes(p, a, f, depth=0):
    """operator classes that expression a may denote"""
    Op = p.cls('Op', 'marcel.core')
    cs = {c for c in p.infer(a, f, f.cls) if c.derives(Op)}
    if cs or depth > 3:
        return cs
    if isinstance(a, ast.Name):
        g = f
        while g is not None and not cs:
            for v in g.local_assigns().get(a.id, []):
                if v is not None:
                    cs |= _op_classes(p, v, g, depth + 1)
            g = g.parent
        return cs
    if isinstance(a, ast.Call) and not (isinstance(a.func, ast.Attribute) and a.func.attr == 'append_immutable'):
        for t in p.callees(a, f, f.cls):
            if isinstance(t, ClassInfo) and t.derives(Op):
                cs.add(t)
            elif isinstance(t, FuncInfo):
                for r in own_nodes(t.node):
                    if isinstance(r, ast.Return) and r.value is not None:
                        cs |= _op_classes(p, r.value, t, depth + 1)
        if not cs:
            # created by name: create_op(env, 'map', ...), env.op_modules['gather'].api_function()(...)
            names = [n.value for n in ast.walk(a) if isinstance(n, ast.Constant) and isinstance(n.value, str)]
            for nm in names[:1]:
                cs |= {c for c in p.subclasses(Op) if c.name.lower() == nm and c.module.name == 'marcel.op.' + nm}
    return cs


def nested_ends(ctx, p, om, good):
    """each nested pipeline that is run ends in an operator that hands errors on"""
    n = 0
    for f in p.functions:
        if isinstance(f.node, ast.Lambda) or not (f.module.name.startswith('marcel.op.') or f.module.name == 'marcel.pipeline'):
            continue
        if f.cls in om.pipeline_classes and f.cls.name != 'PipelineIterator':
            continue
        for c in own_nodes(f.node):
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('run_pipeline', 'receive')):
                continue
            v = c.func.value
            if isinstance(v, ast.Call):     # super().receive(..)
                continue
            ty = p.infer(v, f, f.cls)
            if c.func.attr == 'receive' and not (ty & om.pipeline_classes) and not (
                    isinstance(v, ast.Attribute) and 'pipeline' in v.attr):
                continue
            n += 1
            key = f'{f.qualname}:{ast.unparse(v)}'
            ends = last_appended(p, v, f)
            if not ends:
                ctx.bad('nested-end', key, f, f'the pipeline {ast.unparse(v)} is run, but nothing appended to it hands its errors to the '
                        f'operator that runs it', c)
                continue
            ok = True
            for a, g in ends:
                cs = _op_classes(p, a, g)
                for k in cs:
                    h = k.find('receive_error')
                    own = h is not None and h.cls is not om.Op and h.cls in good
                    # an operator that itself forwards downstream forwards to nobody at the end of a pipeline
                    if not own:
                        ok = False
                        ctx.bad('nested-end', key, g, f'the pipeline {ast.unparse(v)} ends in {k.name}, which does not hand errors to the '
                                f'operator that runs the pipeline', a)
                if not cs:
                    ok = False
                    ctx.bad('nested-end', key, g, f'the pipeline {ast.unparse(v)} ends in {ast.unparse(a)[:60]}, which is not known to hand errors '
                            f'to the operator that runs the pipeline', a)
            if ok:
                ctx.ok('nested-end', key)
    ctx.count('nested pipeline runs', n)
    ctx.need('nested pipeline runs', 7)


class ReportTS(Typestate):
    """(failed, reported)"""
    max_depth = 4

    def __init__(self, p, om, Error, relmods):
        super().__init__(p)
        self.om, self.Error = om, Error
        self.mods = relmods

    def relevant(self, t):
        return t.module in self.mods and t.name not in ('dump', 'write')

    def may_raise(self, call, targets, fr):
        return False

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute):
            nm = call.func.attr
            if nm in ('run_pipeline', 'run', 'flush', 'setup', 'ensure_functions_compiled') and self._pipe(call.func.value, fr):
                f2 = (True, st[1])
                return [st, ('exc', f2, 'E'), ('exc', f2, 'B')]
            if nm in ('send', 'receive_error', 'send_error', 'dump', 'write'):
                if any(self.has_error(a, fr) for a in call.args):
                    return [(st[0], True)]
                if nm in ('send', 'receive_error'):
                    return [st]
        return None

    def on_catch(self, handler, kind, st, fr):
        # Raised only after the Error has been sent (decided by rule wrapper of F05).
        ts = handler.type.elts if isinstance(handler.type, ast.Tuple) else [handler.type] if handler.type is not None else []
        if ts and all((dotted(t) or '').split('.')[-1] == 'KillAndResumeException' for t in ts):
            return [(st[0], True)]
        return [st]

    def _pipe(self, e, fr):
        t = self.p.infer(e, fr.func, fr.cls, binds=fr.binds)
        if t & self.om.pipeline_classes:
            return True
        return any('pipeline' in o.rsplit('.', 1)[-1].lower() for o in origin(self.p, e, fr.func)) or \
            any('pipeline' in ast.unparse(x).lower() for x in ([e] if isinstance(e, (ast.Name, ast.Attribute)) else []))

    def has_error(self, a, fr, depth=0):
        for n in ast.walk(a):
            if isinstance(n, ast.Call) and any(t is self.Error for t in self.p.callees(n, fr.func, fr.cls)):
                return True
            if isinstance(n, ast.Name) and depth < 3:
                for v in fr.func.local_assigns().get(n.id, []):
                    if v is not None and v is not a and self.has_error(v, fr, depth + 1):
                        return True
        return False


def runners(ctx, p, om):
    """code that runs a pipeline in another process or thread reports its failure as an Error"""
    Error = p.cls('Error', 'marcel.object.error')
    n = 0
    for f in p.functions:
        if isinstance(f.node, ast.Lambda) or f.module.name not in ('marcel.op.forkmanager', 'bin.farcel', 'farcel'):
            continue
        entry = None
        for c in own_nodes(f.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('run_pipeline', 'run') and \
                    'pipeline' in ast.unparse(c.func.value).lower():
                entry = c
        if entry is None:
            continue
        # a helper of a runner is analysed from its caller
        called = any(isinstance(x, ast.Call) and f in p.callees(x, g, g.cls) for g in f.module.functions_all() if g is not f
                     for x in own_nodes(g.node)) if hasattr(f.module, 'functions_all') else _called(p, f)
        if called:
            f = called
        n += 1
        ts = ReportTS(p, om, Error, {f.module})
        o = ts.run_function(f, f.cls, (False, False))
        bad = [k for k in list(o['ret']) + list(o['exc']) if k[0][0] and not k[0][1]]
        if bad:
            ctx.bad('reported', f.qualname, f, 'a failure to run the pipeline is not reported as an Error to whoever started it', entry)
        else:
            ctx.ok('reported', f.qualname)
    ctx.count('remote runners', n)
    ctx.need('remote runners', 2)


def _called(p, f):
    for g in p.functions:
        if g is f or g.module is not f.module or isinstance(g.node, ast.Lambda):
            continue
        for x in own_nodes(g.node):
            if isinstance(x, ast.Call) and f in p.callees(x, g, g.cls):
                return g
    return None


class StreamTS(Typestate):
    """which of a subprocess's streams a line came from"""
    track_exc = False
    max_depth = 4

    def __init__(self, p, om, mod):
        super().__init__(p)
        self.om = om
        self.mod = mod
        self.viol = []
        self.sent = {'send': set(), 'send_error': set()}

    def relevant(self, t):
        return t.module is self.mod

    def on_test(self, test, truth, st, fr):
        e, neg = test, False
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, neg = e.operand, not neg
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            pos = isinstance(e.ops[0], (ast.Is, ast.Eq))
            for side in (e.left, e.comparators[0]):
                for x in origin(self.p, side, fr.func):
                    for which, other in (('stdout', 'stderr'), ('stderr', 'stdout')):
                        if x.endswith('.' + which):
                            holds = truth == (pos != neg)
                            w = which if holds else other
                            if st == '?':
                                return w
                            return st if st == w else ('none' if st != 'none' else st)
        return st

    def on_call(self, call, targets, st, fr):
        for nm in ('send', 'send_error'):
            if op_send(self.om, call, targets, (nm,)):
                self.sent[nm].add((st, call, fr))
                return [st]
        if isinstance(call.func, ast.Attribute) and call.func.attr in ('readline', 'read', 'select', 'readlines'):
            return ['?']
        return None


def streams(ctx, p, om):
    """a subprocess's error output becomes errors"""
    n = 0
    for m in p.modules.values():
        if not m.name.startswith('marcel.op.'):
            continue
        for f in p.functions:
            if f.module is not m or isinstance(f.node, ast.Lambda):
                continue
            regs = set()
            for c in own_nodes(f.node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'register':
                    for a in c.args:
                        for o in origin(p, a, f):
                            regs.add(o.rsplit('.', 1)[-1])
            if 'stderr' not in regs:
                continue
            n += 1
            ts = StreamTS(p, om, m)
            ts.run_function(f, f.cls, '?')
            bad = False
            for (st, call, fr) in ts.sent['send']:
                if st == 'stderr':
                    bad = True
                    ctx.bad('stderr', f.qualname, fr.func, 'a line of the subprocess\'s error output is sent downstream as data', call)
            for (st, call, fr) in ts.sent['send_error']:
                if st == 'stdout':
                    bad = True
                    ctx.bad('stderr', f.qualname, fr.func, 'a line of the subprocess\'s normal output is reported as an error', call)
            if not ts.sent['send_error']:
                bad = True
                ctx.bad('stderr', f.qualname, f, 'the error output of the subprocess is read but never reported as an error', f.node)
            if not bad:
                ctx.ok('stderr', f.qualname)
    ctx.count('readers of subprocess error output', n)
    ctx.need('readers of subprocess error output', 1)


def data_only(ctx, p, om):
    """what formats or processes data is not given errors"""
    n = 0
    for c in p.classes:
        f = c.methods.get('receive_error')
        if f is None:
            continue
        n += 1
        bad = False
        ps = [x for x in f.params if x != f.self_name()]
        for x in own_nodes(f.node):
            if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('receive', 'receive_input') and ps and
                    any(mentions(a, ps[-1]) for a in x.args)):
                continue
            if 'trace' in (dotted(x.func.value) or ''):
                continue
            if isinstance(x.func.value, ast.Name) and x.func.value.id == f.self_name():
                hs = {c.find(x.func.attr)} | {d.find(x.func.attr) for d in p.subclasses(c) if d.find('receive_error') is f}
            else:
                hs = set()
                for k in p.infer(x.func.value, f, c):
                    hs |= {d.find(x.func.attr) for d in [k] + list(p.subclasses(k))}
                hs |= {t for t in p.callees(x, f, c) if isinstance(t, FuncInfo)}
            for h in sorted((h for h in hs if h is not None), key=lambda h: h.qualname):
                if not _tests_error(p, h):
                    bad = True
                    ctx.bad('not-data', f'{c.qualname}.receive_error', f, f'{c.name}: an error is passed as data to {h.qualname}, which '
                            f'does not distinguish errors', x)
        if not bad:
            ctx.ok('not-data', f'{c.qualname}')


def _tests_error(p, f):
    Error = p.cls('Error', 'marcel.object.error')
    for n in own_nodes(f.node):
        if isinstance(n, ast.Compare) and any(p.resolve_global(x, f.module) is Error for x in n.comparators if dotted(x)):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2 and \
                dotted(n.args[1]) and p.resolve_global(n.args[1], f.module) is Error:
            return True
        if isinstance(n, ast.Call) and n is not None:
            for t in p.callees(n, f, f.cls):
                if isinstance(t, FuncInfo) and t is not f and t.cls is f.cls and t.name != f.name and _tests_error1(p, t, Error):
                    return True
    return False


def _tests_error1(p, f, Error):
    return any(dotted(n) and isinstance(n, (ast.Attribute, ast.Name)) and p.resolve_global(n, f.module) is Error for n in own_nodes(f.node))


def check_F04(ctx):
    p = ctx.p
    om = OpModel(p)
    ctx.rule('forward', 'every receive_error hands the error on along every normal path, never as data')
    ctx.rule('split', 'what was unpickled or received from another process is sent as data only where it was tested not to be an Error')
    ctx.rule('delivered', 'what was tested to be an Error is delivered as an error')
    ctx.rule('nested-end', 'every pipeline that an operator runs ends in an operator that hands errors to its owner')
    ctx.rule('reported', 'whatever runs a pipeline in another process reports a failure to run it as an Error')
    ctx.rule('stderr', 'a subprocess\'s error output is delivered as errors and its normal output as data')
    ctx.rule('not-data', 'writers do not format errors as data')
    good = forwarders(ctx, p, om)
    error_flow(ctx, p, om)
    nested_ends(ctx, p, om, good)
    runners(ctx, p, om)
    streams(ctx, p, om)
    data_only(ctx, p, om)


CHECKS = {'F04': check_F04}

MUTANTS = {'F04': [
    ('marcel/op/forkmanager.py', "        self.writer.send(dill.dumps(error))", "        self.writer.send(dill.dumps((error,)))", 'wrapped in a tuple'),
    ('marcel/op/redirect.py', 'self.parent.send_error(env, error)', 'pass', 'redirect drops errors'),
    ('marcel/op/sudo.py', 'if isinstance(x, marcel.object.error.Error):', 'if False:', 'sudo sends errors as data'),
    ('marcel/op/forkmanager.py', 'writer.send(dill.dumps(marcel.object.error.Error(e)))', 'pass', 'worker failure not reported'),
    ('marcel/op/join.py', 'marcel.op.redirect.RedirectErrors(self)', "marcel.opmodule.create_op(env, 'map', load_inner)",
     'join drops the errors of its pipeline'),
    ('marcel/op/bash.py', 'op.send_error(self.env, marcel.object.error.Error(output))', 'op.send(self.env, output)', 'stderr as data'),
]}
