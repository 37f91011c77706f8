"""F09: an operator that cannot produce or cannot accept input is rejected up front."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate
from ..ops import OpModel

META = {
    'F09': {
        'explanation': 'For every operator, the entry points it implements (run: produce without input, receive: accept an item) are compared with '
                       'the positions it declares: an operator that ignores its input must be declared first in a pipeline; one declared '
                       'not to be first must refuse to be run, on every path and with a message; one that may be run without input must '
                       'not index into the empty input it is then given. The code that sets up a pipeline is executed abstractly to show '
                       'that the position of every operator but the first is checked, that a misplaced one is rejected, and that this '
                       'happens before any operator of the pipeline is set up or run.',
        'assumptions': [],
    },
}

FIRST, NOTFIRST = 'must_be_first_in_pipeline', 'must_not_be_first_in_pipeline'


# operators documented to work on their input only: without any, there is nothing they could do
NEEDS_INPUT = {'args', 'join', 'sort', 'unique', 'window'}


class ConstTS(Typestate):
    track_exc = False
    max_depth = 3

    def relevant(self, t):
        return t.cls is not None


def declared(p, c, name):
    """{'T'}, {'F'}, or both: what the declaration of the position returns"""
    f = c.find(name)
    if not isinstance(f, FuncInfo):
        raise AnalysisBroken(f'{c.qualname}.{name} not found')
    o = ConstTS(p).run_function(f, c, 0)
    out = set()
    for (st, fa, rv) in o['ret']:
        out |= {'T'} if rv == 'T' else {'F'} if rv in ('F', 'N') else {'T', 'F'}
    return out


class RunTS(Typestate):
    """run() of an operator that must not be first: does it raise on every path?"""
    track_exc = False
    max_depth = 3

    def __init__(self, p, om, cls):
        super().__init__(p)
        self.om, self.cls = om, cls

    def relevant(self, t):
        return t.cls is not None and self.cls.derives(t.cls) and t.name not in ('send', 'send_error', 'propagate_flush', 'receive', 'flush')

    def on_test_call(self, call, targets, truth, st, fr):
        return st


class SetupTS(Typestate):
    """pipeline setup: state = whether the position check has been made (the loop over the operators that makes it has run)"""
    track_exc = False
    max_depth = 4

    def __init__(self, p, om, cls):
        super().__init__(p)
        self.om, self.cls = om, cls
        self.checked = []
        self.early = []
        self.rejects = []

    def relevant(self, t):
        return t.cls is not None and self.cls.derives(t.cls) or any(
            isinstance(n, ast.Attribute) and n.attr in (FIRST, NOTFIRST) for n in own_nodes(t.node)) and not t.cls

    def op_method(self, call, targets, names):
        if not isinstance(call.func, ast.Attribute) or call.func.attr not in names:
            return False
        fs = [t for t in targets if isinstance(t, FuncInfo) and t.cls is not None]
        if fs:
            return any(t.cls.derives(self.om.AbstractOp) for t in fs)
        return not (isinstance(call.func.value, ast.Call) or ast.unparse(call.func.value) == 'self')

    def on_call(self, call, targets, st, fr):
        if self.op_method(call, targets, {FIRST}):
            self.checked.append((call, fr))
            return [('rv', st - {'rejected'} | {'checked', 'bad'}, 'T'), ('rv', st | {'checked'}, 'F')]
        if self.op_method(call, targets, {'setup', 'run', 'receive', 'receive_input'}):
            if 'looped' not in st or 'bad' in st:
                self.early.append((call, fr))
            return [st]
        if isinstance(call.func, ast.Name) and call.func.id in ('any', 'next', 'list', 'tuple', 'filter') and self.mentions(call, fr):
            return [st | {'looped'}]
        return None

    def mentions(self, e, fr, depth=0):
        if any(isinstance(n, ast.Attribute) and n.attr == FIRST for n in ast.walk(e)):
            return True
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and depth < 3 and n.id not in fr.func.params:
                for v in fr.func.local_assigns().get(n.id, []):
                    if v is not None and v is not e and self.mentions(v, fr, depth + 1):
                        return True
            if isinstance(n, ast.Call):
                for t in self.p.callees(n, fr.func, fr.cls):
                    if isinstance(t, FuncInfo) and any(isinstance(x, ast.Attribute) and x.attr == FIRST for x in own_nodes(t.node)):
                        return True
        return False

    def decide(self, e, truth, st, fr):
        if self.mentions(e, fr):
            if truth != ('bad' in st):
                return None
            return st | {'looped'}
        return st

    def on_test(self, test, truth, st, fr):
        if isinstance(test, ast.Name):
            return self.decide(test, truth, st, fr)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            return self.decide(test.left, truth if isinstance(test.ops[0], ast.IsNot) else not truth, st, fr)
        return st

    def on_test_call(self, call, targets, truth, st, fr):
        if isinstance(call.func, ast.Name) and call.func.id in ('any', 'len', 'next'):
            return self.decide(call, truth, st, fr)
        return st

    def s_For(self, s, states, fr):
        out = super().s_For(s, states, fr)
        if self.calls_check(s, fr) or any(isinstance(n, ast.Attribute) and n.attr == FIRST for n in ast.walk(s)):
            n = dict(out['n'])
            out['n'].clear()
            for (st, fa), w in n.items():
                out['n'].setdefault((st | {'looped'}, fa), w)
        return out

    def calls_check(self, s, fr):
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                for t in self.p.callees(n, fr.func, fr.cls):
                    if isinstance(t, FuncInfo) and any(isinstance(x, ast.Attribute) and x.attr == FIRST for x in own_nodes(t.node)):
                        return True
        return False


def check_F09(ctx):
    p = ctx.p
    om = OpModel(p)
    Op = om.Op
    ctx.rule('noinput', 'an operator that ignores its input is declared first in a pipeline')
    ctx.rule('entry', 'every operator can be run or can receive input')
    ctx.rule('refuse', 'an operator that must not be first refuses, with a message, to be run without input')
    ctx.rule('needs-input', 'an operator that is of no use without input (' + ', '.join(sorted(NEEDS_INPUT)) + ') must not be first')
    ctx.rule('consistent', 'an operator is not declared both first and not first')
    ctx.rule('checked', 'the position of every operator but the first is checked before any operator is set up')
    ctx.rule('empty', 'an operator that may be first does not index into its (then empty) input')
    op_run, op_receive = Op.find('run'), Op.find('receive')
    if not isinstance(op_run, FuncInfo) or not isinstance(op_receive, FuncInfo):
        raise AnalysisBroken('Op.run / Op.receive not found')
    for c in sorted(om.concrete, key=lambda c: c.qualname):
        if not any(isinstance(x, ClassInfo) and x.name.lower() == c.name.lower() + 'argsparser' for x in c.module.classes.values()) and \
                not c.module.name.startswith('marcel.op.'):
            continue
        ctx.count('operators', 1)
        run, rec = c.find('run'), c.find('receive')
        first, notfirst = declared(p, c, FIRST), declared(p, c, NOTFIRST)
        if run is op_run and rec is op_receive:
            ctx.bad('entry', c.name, c.methods.get('__init__') or op_run, f'{c.name} implements neither run nor receive: running it never ends', c.node)
        else:
            ctx.ok('entry', c.name)
        if 'T' in first and 'T' in notfirst:
            ctx.bad('consistent', c.name, c.find(FIRST), f'{c.name} is declared both to be first and not to be first', c.node)
        else:
            ctx.ok('consistent', c.name)
        if c.module.name == f'marcel.op.{c.name.lower()}' and c.name.lower() in NEEDS_INPUT:
            if 'F' in notfirst:
                ctx.bad('needs-input', c.name, c.find(NOTFIRST), f'{c.name} has nothing to work on without input, but is accepted as the first '
                        f'operator of a pipeline', c.node)
            else:
                ctx.ok('needs-input', c.name)
        if delegates_to_run(p, c, rec, op_receive):
            if 'F' in first:
                ctx.bad('noinput', c.name, run, f'{c.name} has no use for input, but is accepted after another operator: '
                        f'it is then run once for each item received, which is dropped', c.node)
            else:
                ctx.ok('noinput', c.name)
        if 'T' in notfirst:
            ts = RunTS(p, om, c)
            o = ts.run_function(run, c, 0)
            # Op.run asks must_not_be_first_in_pipeline(), which is inlined
            if o['ret']:
                ctx.bad('refuse', c.name, run, f'{c.name} must not be first in a pipeline, but can be run without input', run.node)
            else:
                kinds = {k[2] for k in o['exc']}
                names = {k.name if isinstance(k, ClassInfo) else str(k) for k in kinds}
                if names - {'KillCommandException'}:
                    ctx.bad('refuse', c.name, run, f'{c.name} is run without input: fails with {", ".join(sorted(names))} instead of a message', run.node)
                else:
                    ctx.ok('refuse', c.name)
        elif rec is not op_receive and run is op_run:
            bad = unguarded_index(p, rec, c)
            for g, n in bad:
                ctx.bad('empty', c.name, g, f'{c.name} may be first in a pipeline, and is then given an empty input: {ast.unparse(n)} fails', n)
                break
            if not bad:
                ctx.ok('empty', c.name)
    ctx.need('operators', 40)
    # ---- the check itself
    px = p.cls('PipelineExecutable', 'marcel.pipeline')
    f = px.find('setup')
    ts = SetupTS(p, om, px)
    o = ts.run_function(f, px, frozenset())
    ctx.count('position checks', len({id(c) for c, _ in ts.checked}))
    if not ts.checked:
        ctx.bad('checked', f.qualname, f, 'the position of operators is not checked when a pipeline is set up', f.node)
    elif ts.early:
        call, fr = ts.early[0]
        ctx.bad('checked', f.qualname, fr.func, f'{ast.unparse(call)} is reached before the positions of all operators have been checked, or '
                f'although an operator is misplaced', call)
    elif any('bad' in k[0] for k in o['ret']):
        ctx.bad('checked', f.qualname, f, 'a pipeline with a misplaced operator is accepted', f.node)
    else:
        kinds = {k[2].name if isinstance(k[2], ClassInfo) else str(k[2]) for k in o['exc'] if 'bad' in k[0]}
        if kinds - {'KillCommandException'} or not kinds:
            ctx.bad('checked', f.qualname, f, f'a misplaced operator is rejected with {", ".join(sorted(kinds)) or "nothing"} instead of a message', f.node)
        else:
            ctx.ok('checked', f.qualname, 'PipelineExecutable.setup: must_be_first_in_pipeline() -> KillCommandException, before op.setup()')
    _coverage(ctx, p, om, px, f, ts)


def delegates_to_run(p, c, rec, op_receive):
    if rec is op_receive:
        return True
    return False


def _coverage(ctx, p, om, px, f, ts):
    """the loop that checks skips only the first operator"""
    done = set()
    for call, fr in ts.checked:
        if id(call) in done:
            continue
        done.add(id(call))
        # conditions conjoined with the check
        for n in ast.walk(fr.func.node):
            if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And) and any(x is call for v in n.values for x in ast.walk(v)):
                for v in n.values:
                    if any(x is call for x in ast.walk(v)):
                        continue
                    if not skips_first_only(v, fr.func):
                        ctx.bad('checked', fr.func.qualname + ':condition', fr.func, f'operators are checked only if {ast.unparse(v)}', v)
        loop = enclosing_loop(fr.func, call)
        if loop is not None:
            it = ast.unparse(loop.iter)
            lf = fr.func
            ok = covers_ops(loop.iter, lf)
            if not ok:
                ctx.bad('checked', fr.func.qualname + ':loop', fr.func, f'only the operators in {it} are checked', loop)
            for n in ast.walk(loop):
                if isinstance(n, (ast.Break,)) or isinstance(n, ast.Return):
                    ctx.bad('checked', fr.func.qualname + ':loop', fr.func, 'the check of positions stops early', n)


def covers_ops(e, f, depth=0):
    if depth > 3:
        return False
    if isinstance(e, ast.Attribute):
        return e.attr == 'ops'
    if isinstance(e, ast.Name):
        if e.id in f.params:
            return True
        return any(v is not None and covers_ops(v, f, depth + 1) for v in f.local_assigns().get(e.id, []))
    if isinstance(e, ast.Call):
        n = e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, 'attr', None)
        if n in ('list', 'tuple', 'enumerate', 'zip', 'iter', 'range', 'len', 'islice', 'pairwise', 'reversed'):
            if n == 'islice' and len(e.args) == 3 and not (isinstance(e.args[1], ast.Constant) and e.args[1].value in (0, 1)):
                return False
            if n == 'range' and len(e.args) > 1 and isinstance(e.args[0], ast.Constant) and e.args[0].value not in (0, 1):
                return False
            return any(covers_ops(a, f, depth + 1) for a in e.args)
        return False
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
        s = e.slice
        lo = s.lower is None or isinstance(s.lower, ast.Constant) and s.lower.value in (0, 1)
        return lo and s.upper is None and s.step is None and covers_ops(e.value, f, depth + 1)
    return False


def enclosing_loop(f, call):
    best = None
    for n in own_nodes(f.node):
        if isinstance(n, ast.For) and any(x is call for x in ast.walk(n)):
            best = n if best is None or any(x is n for x in ast.walk(best)) else best
    return best


def skips_first_only(v, f):
    t = ast.unparse(v)
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'isinstance':
        return 'Op' in t
    if isinstance(v, ast.Compare) and len(v.ops) == 1:
        l, r = ast.unparse(v.left), ast.unparse(v.comparators[0])
        if isinstance(v.ops[0], (ast.IsNot, ast.NotEq)):
            if 'ops[0]' in l or 'ops[0]' in r or r in ('None', '0'):
                return True
            for x in (l, r):
                if any(y is not None and 'ops[0]' in ast.unparse(y) for y in f.local_assigns().get(x, [])):
                    return True
            return False
        if isinstance(v.ops[0], ast.Gt) and r == '0':
            return True
        if isinstance(v.ops[0], ast.GtE) and r == '1':
            return True
        return False
    if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
        return isinstance(v.operand, ast.Compare) and isinstance(v.operand.ops[0], (ast.Is, ast.Eq)) and 'ops[0]' in ast.unparse(v.operand)
    if isinstance(v, (ast.Name,)):
        return True         # previous operator, position: truthy after the first
    return False


def unguarded_index(p, f, cls, depth=0, param=None):
    """[(function, node)]: input indexed by a constant with no test of its length above it"""
    ps = [x for x in f.params if x != f.self_name()]
    if param is None:
        if len(ps) < 2:
            return []
        param = ps[1]
    out = []

    def guarded(node):
        for n in ast.walk(f.node):
            if isinstance(n, (ast.If, ast.IfExp, ast.While)) and any(x is node for x in ast.walk(n)):
                for t in ast.walk(n.test):
                    if isinstance(t, ast.Name) and t.id == param and not any(x is node for x in ast.walk(n.test)):
                        return True
                    if isinstance(t, ast.Name) and t.id != param:
                        for v in f.local_assigns().get(t.id, []):
                            if v is not None and any(isinstance(y, ast.Name) and y.id == param for y in ast.walk(v)):
                                return True
            if isinstance(n, ast.Try) and any(x is node for s in n.body for x in ast.walk(s)):
                for h in n.handlers:
                    if h.type is None or 'IndexError' in ast.unparse(h.type) or ast.unparse(h.type) in ('Exception', 'BaseException', 'LookupError'):
                        return True
            if isinstance(n, ast.BoolOp) and any(x is node for x in ast.walk(n)):
                first = n.values[0]
                if any(isinstance(t, ast.Name) and t.id == param for t in ast.walk(first)) and not any(x is node for x in ast.walk(first)):
                    return True
        # an earlier statement that leaves unless the length is right
        for n in ast.walk(f.node):
            if isinstance(n, ast.If) and n.lineno < node.lineno and any(isinstance(t, ast.Name) and t.id == param for t in ast.walk(n.test)) and \
                    any(isinstance(s, (ast.Return, ast.Raise)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and
                        getattr(s.value.func, 'attr', '') in ('fatal_error', 'check_arg') for s in n.body):
                return True
            if isinstance(n, ast.Assert) and n.lineno < node.lineno and any(isinstance(t, ast.Name) and t.id == param for t in ast.walk(n.test)):
                return False
        return False
    rebound = [v for v in f.local_assigns().get(param, []) if v is not None]
    for n in own_nodes(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == param and isinstance(n.ctx, ast.Load):
            idx = n.slice.operand if isinstance(n.slice, ast.UnaryOp) else n.slice
            if isinstance(idx, ast.Constant) and isinstance(idx.value, int) and not guarded(n):
                out.append((f, n))
        if isinstance(n, ast.Call) and depth < 2:
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Name) and a.id == param:
                    for t in p.callees(n, f, cls):
                        if isinstance(t, FuncInfo) and t.cls is not None and t.name not in ('send', 'receive_input', 'call', 'fatal_error', 'non_fatal_error', 'send_error') \
                                and t.module is f.module:
                            tp = [x for x in t.params if x != t.self_name() or t.is_static]
                            if i < len(tp) and not guarded(n):
                                out += unguarded_index(p, t, t.cls, depth + 1, tp[i])
    return out


CHECKS = {'F09': check_F09}

MUTANTS = {
    'F09': [
        ('marcel/op/gen.py', '    def must_be_first_in_pipeline(self):\n        return True', '    def must_be_first_in_pipeline(self):\n        return False', 'gen accepted anywhere'),
        ('marcel/op/sort.py', '    def must_not_be_first_in_pipeline(self):\n        return True', '    def must_not_be_first_in_pipeline(self):\n        return True\n\n    def must_be_first_in_pipeline(self):\n        return True', 'both'),
        ('marcel/core.py', 'if self.must_not_be_first_in_pipeline():\n            raise', 'if self.must_be_first_in_pipeline():\n            raise', 'wrong test'),
        ('marcel/pipeline.py', 'op is not self.ops[0] and op.must_be', 'op is self.ops[-1] and op.must_be', 'only the last is checked'),
        ('marcel/pipeline.py', "                raise marcel.exception.KillCommandException(\n                    f'{op.op_name()} cannot receive input from a pipe')", "                print(\n                    f'{op.op_name()} cannot receive input from a pipe')", 'not rejected'),
    ],
}
