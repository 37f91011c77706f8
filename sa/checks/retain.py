"""F02: what an operator retains of its input is used when the input ends."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes
from ..engine import Typestate
from ..ops import OpModel

META = {
    'F02': {
        'explanation': 'For every class that receives an operator\'s input (operators and the helper objects they delegate to), all paths of '
                       'receive are executed abstractly, recording into which attributes the input is put on paths on which it is not also '
                       'passed on. For each such store, every path on which flush finishes normally must deliver the store (send it, '
                       'iterate over it sending each item, or run a pipeline with it) before it signals end of input, unless the '
                       'path is one on which the store is known to be empty, or on which (by the same option) nothing is retained. '
                       'The store must not be emptied first, and receive must not empty it without having delivered it.',
        'assumptions': ['what is computed from the retained items (their number, order, or padding) is not decided',
                        'a class that passes on the retained items one by one as they are displaced, and has no drain at all, is meant to drop the rest (tail +n)'],
    },
}

STORES = {'append', 'add', 'appendleft', 'insert', 'extend', 'push', 'put', 'setdefault', 'update', 'extendleft'}
SENDS = {'send', 'run_pipeline', 'print', 'write', 'receive', 'receive_input'}


def self_attr(e, func):
    """A for self.A"""
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == func.self_name() and func.cls is not None:
        return e.attr
    return None


def number(e):
    return isinstance(e, ast.BinOp) and (isinstance(e.right, ast.Constant) and isinstance(e.right.value, int) or
                                         isinstance(e.left, ast.Constant) and isinstance(e.left.value, int)) and isinstance(e.op, (ast.Add, ast.Sub))


class Taint:
    """which local names of a function hold (parts of) the input; flow-insensitive"""

    def __init__(self, p, func, names):
        self.p, self.func = p, func
        self.names = set(names)
        again = True
        while again:
            again = False
            for n in own_nodes(func.node):
                pairs = []
                if isinstance(n, ast.Assign):
                    pairs = [(t, n.value) for t in n.targets]
                elif isinstance(n, (ast.For, ast.comprehension)):
                    pairs = [(n.target, n.iter)]
                elif isinstance(n, ast.NamedExpr):
                    pairs = [(n.target, n.value)]
                for t, v in pairs:
                    if self.has(v):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in self.names:
                                self.names.add(x.id)
                                again = True

    def has(self, e):
        if isinstance(e, ast.Name):
            return e.id in self.names
        if isinstance(e, (ast.Compare, ast.Constant)) or number(e):
            return False
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('len', 'isinstance', 'type', 'id', 'bool', 'hash'):
                return False
            parts = list(e.args) + [k.value for k in e.keywords]
            if isinstance(e.func, ast.Attribute):
                if e.func.attr in ('get', 'setdefault') and e.args and not self.has(e.func.value):
                    return any(self.has(a) for a in e.args[1:])     # a key is not what is found under it
                parts.append(e.func.value)
            return any(self.has(a) for a in parts)
        if isinstance(e, ast.Subscript):
            return self.has(e.value)
        return any(self.has(c) for c in ast.iter_child_nodes(e) if not isinstance(c, (ast.expr_context, ast.operator)))


def aliases(func):
    """local name -> attributes of self of which it is (a part of) the value"""
    out = {}
    for n in own_nodes(func.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    v = n.value
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('get', 'setdefault'):
                        v = v.func.value
                    while isinstance(v, ast.Subscript):
                        v = v.value
                    a = self_attr(v, func)
                    if a:
                        out.setdefault(t.id, set()).add(a)
    return out


def holder_attr(e, func):
    """attribute of self that holds the container denoted by e"""
    while True:
        a = self_attr(e, func)
        if a:
            return {a}
        if isinstance(e, ast.Subscript):
            e = e.value
            continue
        if isinstance(e, ast.Attribute):
            e = e.value
            continue
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'setdefault'):
            e = e.func.value
            continue
        if isinstance(e, ast.Name):
            return aliases(func).get(e.id, set())
        return set()


def empties(value):
    return isinstance(value, ast.Constant) and value.value is None or \
        isinstance(value, (ast.List, ast.Tuple, ast.Set)) and not value.elts or isinstance(value, ast.Dict) and not value.keys or \
        isinstance(value, ast.Call) and not value.args and not value.keywords and isinstance(value.func, (ast.Name, ast.Attribute)) and \
        (value.func.id if isinstance(value.func, ast.Name) else value.func.attr) in ('list', 'dict', 'set', 'deque', 'defaultdict', 'OrderedDict', 'Counter')


def mode(test, func):
    """last attribute name of an option test: self.x, self.op.x, op.x"""
    if isinstance(test, ast.Attribute) and isinstance(test.ctx, ast.Load):
        b = test.value
        while isinstance(b, ast.Attribute):
            b = b.value
        if isinstance(b, ast.Name):
            return test.attr
    return None


class Base(Typestate):
    max_depth = 5

    def __init__(self, p, K):
        super().__init__(p)
        self.K = K
        self.taints = {}

    def relevant(self, t):
        return t.cls is not None and self.K.derives(t.cls) and t.name not in ('send', 'send_error', 'fatal_error', 'non_fatal_error', 'call', 'propagate_flush') and \
            not t.is_static

    def taint(self, fr):
        raise NotImplementedError


class ReceiveTS(Base):
    """State: (attributes into which the input was put, delivered, mode facts, problems)"""
    track_exc = False

    def __init__(self, p, K, arg):
        super().__init__(p, K)
        self.arg = arg
        self.problems = {}
        self.helpers = {}
        self.element_sent = set()

    def taint(self, fr):
        if fr.func not in self.taints:
            if fr.caller is None:
                names = {self.arg}
            else:
                names = set()
                ct = self.taint(fr.caller)
                ps = list(fr.func.params)
                off = 1 if fr.func.self_name() else 0
                c = fr.site
                if isinstance(c, ast.Call):
                    for i, a in enumerate(c.args):
                        if ct.has(a) and i + off < len(ps):
                            names.add(ps[i + off])
                    for k in c.keywords:
                        if k.arg and ct.has(k.value):
                            names.add(k.arg)
            self.taints[fr.func] = Taint(self.p, fr.func, names)
        return self.taints[fr.func]

    def put(self, attrs, st):
        return (st[0] | frozenset(attrs), st[1], st[2])

    def own(self, fr):
        return fr.func.cls is not None and self.K.derives(fr.func.cls)

    def on_assign(self, target, value, st, fr):
        if not self.own(fr):
            return [st]
        t = self.taint(fr)
        if isinstance(target, ast.Subscript) and value is not None:
            h = holder_attr(target.value, fr.func)
            if h and t.has(value):
                return [self.put(h, st)]
        a = self_attr(target, fr.func)
        if a and value is not None:
            if t.has(value):
                return [self.put({a}, st)]
            if empties(value):
                self.clear(a, target, st, fr)
                return [(st[0] - {a}, st[1], st[2])]
        return [st]

    def clear(self, a, node, st, fr):
        if a in self.sends_of and (a, 'd') not in st[2]:
            self.problems.setdefault(('discarded', a), (node, fr.func))

    sends_of = frozenset()

    def on_call(self, call, targets, st, fr):
        f = call.func
        if not self.own(fr) or not isinstance(f, ast.Attribute):
            return None
        t = self.taint(fr)
        args = list(call.args) + [k.value for k in call.keywords]
        tainted = any(t.has(x) for x in args)
        if f.attr == 'send':
            inside = set()
            for x in args:
                for y in ast.walk(x):
                    inside |= holder_attr(y, fr.func) if isinstance(y, (ast.Attribute, ast.Name)) else set()
                    if isinstance(y, ast.Subscript):
                        self.element_sent |= holder_attr(y.value, fr.func)
                    elif isinstance(y, ast.Name):
                        for v in fr.func.local_assigns().get(y.id, []):
                            if isinstance(v, ast.Subscript):
                                self.element_sent |= holder_attr(v.value, fr.func)
                            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('pop', 'popleft'):
                                self.element_sent |= holder_attr(v.func.value, fr.func)
                            if v is not None:
                                for z in ast.walk(v):
                                    if isinstance(z, ast.Attribute):
                                        inside |= holder_attr(z, fr.func)
            st = (st[0] - inside, st[1] or tainted, st[2] | frozenset((i, 'd') for i in inside))
            return [st]
        if f.attr in ('call', 'fatal_error', 'non_fatal_error', 'send_error'):
            return [st]
        if f.attr == 'run_pipeline':
            inside = mentioned(self.p, args, fr.func, self.K)
            return [(st[0] - inside, st[1], st[2] | frozenset((i, 'd') for i in inside))]
        if f.attr == 'clear' and not args:
            for a in holder_attr(f.value, fr.func):
                self.clear(a, call, st, fr)
            return [st]
        if tainted:
            h = holder_attr(f.value, fr.func)
            if h and f.attr in STORES:
                return [self.put(h, st)]
            if h and isinstance(f.value, ast.Attribute):
                for g in targets:
                    if isinstance(g, FuncInfo) and g.cls is not None and not self.K.derives(g.cls):
                        self.helpers.setdefault(next(iter(h)), set()).add(g)
                if targets and f.attr not in ('receive', 'receive_input') and any(
                        isinstance(g, FuncInfo) and g.cls is not None and not self.K.derives(g.cls) and stores_param(g) for g in targets):
                    return [self.put(h, st)]
        return None

    def on_test(self, test, truth, st, fr):
        m = mode(test, fr.func)
        return (st[0], st[1], st[2] | {(m, truth)}) if m else st


def stores_param(g):
    """does the method put one of its parameters into its object?"""
    t = Taint(None, g, [x for x in g.params if x != g.self_name() and x != 'env'])
    for n in own_nodes(g.node):
        if isinstance(n, ast.Assign) and t.has(n.value):
            for x in n.targets:
                b = x.value if isinstance(x, ast.Subscript) else x
                if holder_attr(b, g):
                    return True
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in STORES and holder_attr(n.func.value, g) and any(t.has(a) for a in n.args):
            return True
    return False


def mentioned(p, exprs, func, K, depth=0):
    """attributes of self from which the expressions are computed"""
    out = set()
    seen = set()

    def walk(e, d):
        for y in ast.walk(e):
            a = self_attr(y, func)
            if a:
                m = K.find(a)
                if isinstance(m, FuncInfo):
                    if depth < 2:
                        for z in own_nodes(m.node):
                            if isinstance(z, ast.expr):
                                b = self_attr(z, m)
                                if b and not isinstance(K.find(b), FuncInfo):
                                    out.add(b)
                else:
                    out.add(a)
            elif isinstance(y, ast.Name) and y.id not in seen and d < 5:
                seen.add(y.id)
                for v in func.local_assigns().get(y.id, []):
                    if v is not None:
                        walk(v, d + 1)
                for z in own_nodes(func.node):
                    if isinstance(z, (ast.For, ast.comprehension)) and any(isinstance(t, ast.Name) and t.id == y.id for t in ast.walk(z.target)):
                        walk(z.iter, d + 1)
    for e in exprs:
        walk(e, 0)
    return out


class FlushTS(Base):
    """State: (status, mode facts); status: kept, taken (held only by a local name), done, void (known to be empty), lost, early"""

    def __init__(self, p, K, attr):
        super().__init__(p, K)
        self.attr = attr
        self.bad = {}
        self.done_seen = False

    def mentions(self, e, fr):
        if fr.func.cls is None or not self.K.derives(fr.func.cls):
            return False
        return self.attr in mentioned(self.p, [e], fr.func, self.K)

    def note(self, kind, node, fr):
        self.bad.setdefault(kind, (node, fr.func))

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Name) and value is not None and st[0] == 'kept' and fr.func.cls is not None and self.K.derives(fr.func.cls):
            if self_attr(value, fr.func) == self.attr:
                return [('taken', st[1])]
        if self_attr(target, fr.func) == self.attr and value is not None:
            if empties(value) or not self.mentions(value, fr):
                if st[0] == 'kept':
                    return [('lost', st[1])]
        return [st]

    def on_del(self, target, st, fr):
        if self_attr(target, fr.func) == self.attr and st[0] == 'kept':
            return [('lost', st[1])]
        return [st]

    def on_call(self, call, targets, st, fr):
        f = call.func
        if not isinstance(f, ast.Attribute):
            return None
        args = list(call.args) + [k.value for k in call.keywords]
        if f.attr == 'propagate_flush' or f.attr == 'flush' and isinstance(f.value, ast.Attribute) and f.value.attr == 'receiver':
            return [('early', st[1]) if st[0] in ('kept', 'taken') else st]
        if f.attr in ('send', 'run_pipeline', 'receive', 'receive_input') and any(self.mentions(a, fr) for a in args):
            self.done_seen = True
            return [('done', st[1])] if st[0] in ('kept', 'taken') else [st]
        if f.attr == 'clear' and holder_attr(f.value, fr.func) == {self.attr} and not args:
            if st[0] in ('kept', 'taken') and fr.func.cls is not None and self.K.derives(fr.func.cls):
                return [('lost', st[1])]
        if self_attr(f.value, fr.func) == self.attr and fr.func.cls is not None and self.K.derives(fr.func.cls) and f.attr == 'flush':
            self.done_seen = True
            return [('done', st[1])] if st[0] in ('kept', 'taken') else [st]
        if f.attr in ('call', 'fatal_error', 'non_fatal_error', 'send_error', 'send'):
            return [st]
        return None

    def on_test(self, test, truth, st, fr):
        if st[0] in ('kept', 'taken'):
            v = self.empty(test, truth, fr)
            if v:
                return ('void', st[1])
        m = mode(test, fr.func)
        if m and m != self.attr:
            return (st[0], st[1] | {(m, truth)})
        return st

    def empty(self, test, truth, fr):
        """does this outcome of the test say that there is nothing in the store (or, of one item, that it is nothing)?"""
        if isinstance(test, (ast.Attribute, ast.Name)):
            return not truth and self.mentions(test, fr) and not is_item(test, fr.func)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, op, r = test.left, test.ops[0], test.comparators[0]
            if isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
                l, r = r, l
                op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(op), type(op))()
            if not self.mentions(l, fr) and not self.mentions(r, fr):
                return False
            if isinstance(l, ast.Attribute) and self_attr(l, fr.func) is None and self.attr in holder_attr(l, fr.func):
                return False        # a detail of what is stored there
            if isinstance(r, ast.Constant):
                if r.value is None:
                    return isinstance(op, (ast.Is, ast.Eq)) == truth
                zero = {(ast.Gt, 0): False, (ast.GtE, 1): False, (ast.Eq, 0): True, (ast.NotEq, 0): False, (ast.Lt, 1): True, (ast.LtE, 0): True}
                return zero.get((type(op), r.value)) is truth
            if isinstance(r, (ast.List, ast.Dict, ast.Tuple)) and not getattr(r, 'elts', getattr(r, 'keys', None)):
                return isinstance(op, ast.Eq) == truth
            # compared with a number that is not known here: a store that is full was delivered when it became full
            full = {ast.Eq: True, ast.GtE: True, ast.Gt: True, ast.NotEq: False, ast.Lt: False, ast.LtE: False}.get(type(op))
            if not self.mentions(l, fr) and full is not None and not isinstance(op, (ast.Eq, ast.NotEq)):
                full = not full
            if full is truth:
                return True
            # not decided if it ends a loop
            return any(isinstance(n, ast.While) and any(x is test for x in ast.walk(n.test)) for n in own_nodes(fr.func.node))
        return False

    def on_test_call(self, call, targets, truth, st, fr):
        if st[0] in ('kept', 'taken') and isinstance(call.func, ast.Name) and call.func.id in ('len', 'any', 'bool') and call.args and \
                self.mentions(call.args[0], fr) and not truth:
            return ('void', st[1])
        return st

    def s_For(self, s, states, fr):
        own = fr.func.cls is not None and self.K.derives(fr.func.cls)
        if not own or not self.mentions(s.iter, fr) or not self.sends_in(s):
            return super().s_For(s, states, fr)
        live = {k: w for k, w in states.items() if k[0][0] in ('kept', 'taken')}
        rest = {k: w for k, w in states.items() if k not in live}
        out = super().s_For(s, rest, fr) if rest else None
        from ..engine import Out
        res = Out()
        if out is not None:
            res.merge(out)
        if live:
            self.done_seen = True
            o = self.block(s.body, live, fr)
            for kind in ('n', 'cont'):
                for (st, fa), w in o[kind].items():
                    if st[0] in ('kept', 'taken', 'lost'):
                        self.note('skipped', s, fr)
            for (st, fa), w in o['brk'].items():
                self.note('stopped', s, fr)
                res.add('n', (st, fa), w)
            for key, w in o['ret'].items():
                self.note('stopped', s, fr)
                res.add('ret', key, w)
            res.merge(o, ('exc',))
            for (st, fa), w in live.items():
                res.add('n', (('done', st[1]), fa), w)
        return res

    def sends_in(self, s):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SENDS for b in s.body for n in ast.walk(b))


def is_item(e, func):
    """is it one of the items of a container?"""
    if isinstance(e, ast.Name):
        for n in own_nodes(func.node):
            if isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(t, ast.Name) and t.id == e.id for t in ast.walk(n.target)):
                return True
        return any(isinstance(v, ast.Subscript) for v in func.local_assigns().get(e.id, []))
    return False


def own_receive(c, om):
    f = c.find('receive')
    if not isinstance(f, FuncInfo) or f.cls is om.AbstractOp or f.cls.name in ('Op', 'AbstractOp'):
        return None
    b = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(b) == 1 and isinstance(b[0], ast.Assert):
        return None
    return f


def external(c, attr):
    """the store was handed in by whoever created the object, who will look at it"""
    vals = c.all_attr_assigns(attr)
    if not vals:
        return False
    for f, v in vals:
        if f.name == '__init__' and isinstance(v, ast.Name) and v.id in f.params:
            return True
    return False


def check_F02(ctx):
    p = ctx.p
    om = OpModel(p)
    ctx.rule('drained', 'every path on which flush finishes delivers what was retained, unless there is nothing, before signalling end of input')
    ctx.rule('kept', 'what was retained is not discarded before it has been delivered')
    ctx.rule('complete', 'while what was retained is delivered, nothing is skipped')
    ctx.rule('delegated', 'an operator whose helper object retains input asks it for what it retained at end of input')
    # classes that receive the input of an operator
    work = [(c, None) for c in om.concrete]
    seen = set()
    delegators = {}
    while work:
        K, via = work.pop()
        if K in seen:
            continue
        seen.add(K)
        f = own_receive(K, om)
        if f is None:
            continue
        ps = [x for x in f.params if x != f.self_name()]
        if not ps:
            continue
        ts = ReceiveTS(p, K, ps[-1])
        ts.run_function(f, K, (frozenset(), False, frozenset()))
        for attr, gs in ts.helpers.items():
            for g in gs:
                if g.name in ('receive', 'receive_input', 'put', 'add', 'write', 'append', 'send'):
                    for h in [g.cls] + list(p.subclasses(g.cls)):
                        if not h.derives(om.AbstractOp):
                            delegators.setdefault(h, set()).add((K, attr))
                            work.append((h, K))
    retaining = {}
    for K in sorted(seen, key=lambda c: c.qualname):
        f = own_receive(K, om)
        if f is None:
            continue
        ps = [x for x in f.params if x != f.self_name()]
        if not ps:
            continue
        ctx.count('receivers of input', 1)
        ts = ReceiveTS(p, K, ps[-1])
        o = ts.run_function(f, K, (frozenset(), False, frozenset()))
        held = {}
        for (st, fa, rv) in o['ret']:
            if not st[1]:
                for a in st[0]:
                    held.setdefault(a, []).append(st[2])
        for a, modes in list(held.items()):
            if external(K, a):
                del held[a]
        if held:
            retaining[K] = (held, f)
            t2 = ReceiveTS(p, K, ps[-1])
            t2.sends_of = frozenset(held)
            t2.run_function(f, K, (frozenset(), False, frozenset()))
            for (kind, a), (node, g) in t2.problems.items():
                ctx.bad('kept', f'{K.name}.{a}:receive', g, f'{K.name} discards what it retained in {a} while receiving input', node)
    holders = {}
    for K, (held, f) in retaining.items():
        if not K.derives(om.AbstractOp):
            for c, attr in delegators.get(K, ()):
                holders.setdefault((c, attr), set()).add(K)
    for K, (held, f) in sorted(retaining.items(), key=lambda x: x[0].qualname):
        for a, modes in sorted(held.items()):
            ctx.count('stores of retained input', 1)
            delay = a in _elements(p, K, f) and not drains(p, K, a)
            if delay:
                ctx.ok('drained', f'{K.name}.{a}', 'sends items as they are displaced; drops the rest')
                continue
            _flush(ctx, p, K, a, modes, f, 'drained')
    for (c, attr), ks in sorted(holders.items(), key=lambda x: (x[0][0].qualname, x[0][1])):
        if all(_no_flush(k) for k in ks):
            continue
        ctx.count('stores of retained input', 1)
        _flush(ctx, p, c, attr, [frozenset()], own_receive(c, om), 'delegated')
    ctx.need('receivers of input', 25)
    ctx.need('stores of retained input', 6)


def _no_flush(k):
    return not isinstance(k.find('flush'), FuncInfo)


def _elements(p, K, f):
    ts = ReceiveTS(p, K, [x for x in f.params if x != f.self_name()][-1])
    ts.run_function(f, K, (frozenset(), False, frozenset()))
    return ts.element_sent


def drains(p, K, a):
    f = K.find('flush')
    if not isinstance(f, FuncInfo):
        return False
    ts = FlushTS(p, K, a)
    ts.run_function(f, K, ('kept', frozenset()))
    return ts.done_seen or any(self_attr(n, f) == a for n in own_nodes(f.node) if isinstance(n, ast.expr))


def _helpers(p, K, f, depth=0):
    """f and the methods of K it calls on self"""
    out = [f]
    if depth < 3:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == f.self_name():
                m = K.find(n.func.attr)
                if isinstance(m, FuncInfo) and m.module is f.module and m is not f:
                    out += [g for g in _helpers(p, K, m, depth + 1) if g not in out]
    return out


def partial_loop(p, K, a, g):
    """a loop that delivers what is retained in a, whose bounds leave out part of it whatever its length"""
    def length(e):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and n.args and a in mentioned(p, n.args, g, K) for n in ast.walk(e))

    def tests_of(stmt):
        out = []

        def walk(body, ts):
            for s in body:
                if s is stmt:
                    out.extend(ts)
                for nm in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, nm, None)
                    if isinstance(b, list):
                        walk(b, ts + ([s.test] if isinstance(s, ast.If) else []))
        walk(g.node.body, [])
        return out

    def bounded(e, stmt, depth=0):
        """is the number e tied to the length of the store?"""
        if isinstance(e, ast.IfExp):
            return length(e.test) or bounded(e.body, stmt, depth) and bounded(e.orelse, stmt, depth)
        if length(e) or any(length(t) for t in tests_of(stmt)):
            return True
        if isinstance(e, ast.Name) and depth < 4:
            return counts(e.id, None, depth + 1)
        return False

    def counts(name, loop, depth=0):
        defs = [n for n in own_nodes(g.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets) and
                not (loop is not None and any(n is x for x in ast.walk(loop)))]
        return not defs or all(bounded(n.value, n, depth) for n in defs)

    def delivers(s):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SENDS and any(
            a in mentioned(p, [x], g, K) for x in n.args) for b in s.body for n in ast.walk(b))

    def offset(e):
        return isinstance(e, ast.Constant) and isinstance(e.value, int) and e.value != 0 or \
            isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant)
    for s in own_nodes(g.node):
        if isinstance(s, ast.For) and delivers(s):
            it = s.iter
            while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('list', 'tuple', 'iter', 'reversed', 'enumerate') and it.args:
                it = it.args[0]
            if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) and self_attr(it.value, g) == a and (offset(it.slice.lower) or offset(it.slice.upper)):
                return s
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and it.args:
                n = it.args[1] if len(it.args) > 1 else it.args[0]
                if len(it.args) == 2 and offset(it.args[0]):
                    return s
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) and length(n.left) and offset(n.right):
                    return s
                if isinstance(n, ast.Name) and not counts(n.id, s):
                    return s
        if isinstance(s, ast.While) and delivers(s) and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and not length(s.test):
            for e in (s.test.left, s.test.comparators[0]):
                if isinstance(e, ast.Name) and any(isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Sub) and isinstance(n.target, ast.Name) and n.target.id == e.id or
                                                   isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id and isinstance(n.value, ast.BinOp) and
                                                   isinstance(n.value.op, ast.Sub) for n in ast.walk(s)):
                    if not counts(e.id, s):
                        return s
    return None


def _flush(ctx, p, K, a, modes, rf, rule):
    key = f'{K.name}.{a}'
    f = K.find('flush')
    if not isinstance(f, FuncInfo):
        ctx.bad(rule, key, rf, f'{K.name} retains input in {a}, but does nothing with it at end of input', rf.node)
        return
    ts = FlushTS(p, K, a)
    o = ts.run_function(f, K, ('kept', frozenset()))
    msgs = {}
    for (st, fa, rv), w in o['ret'].items():
        s, m = st
        if s in ('done', 'void'):
            continue
        if all(any((q, not t) in md for q, t in m if not isinstance(t, str)) for md in modes):
            continue            # an option under which nothing is retained
        msgs.setdefault(s, w)
    if 'early' in msgs:
        ctx.bad(rule, key, f, f'{K.name} signals end of input on a path on which what it retained in {a} has not been delivered', f.node)
    elif 'kept' in msgs or 'taken' in msgs:
        ctx.bad(rule, key, f, f'flush of {K.name} finishes on a path (line {msgs.get("kept", msgs.get("taken"))}) on which what was retained in {a} has not been delivered', f.node)
    elif 'lost' in msgs:
        ctx.bad('kept', key, f, f'{K.name} discards what it retained in {a} before it has been delivered', f.node)
    else:
        ctx.ok(rule, key)
        ctx.ok('kept', key)
    for g in _helpers(p, K, f):
        x = partial_loop(p, K, a, g)
        if x is not None:
            ts.bad.setdefault('skipped', (x, g))
    for kind, (node, g) in ts.bad.items():
        ctx.bad('complete', f'{key}:{kind}', g, f'{K.name} {"does not deliver every item" if kind == "skipped" else "stops before all of what is"} retained in {a}', node)
    if not ts.bad:
        ctx.ok('complete', key)


CHECKS = {'F02': check_F02}

MUTANTS = {
    'F02': [
        ('marcel/op/reverse.py', '            for x in self.contents:\n                self.send(env, x)\n            self.contents = None', '            self.contents = None', 'nothing sent'),
        ('marcel/op/sort.py', '            for _, x in self.contents:\n                self.send(env, x)', '            for _, x in self.contents:\n                if x:\n                    self.send(env, x)', 'some skipped'),
        ('marcel/op/tail.py', '        self.impl.flush(env)\n', '', 'helper not asked'),
        ('marcel/op/red.py', 'if not op.incremental and self.accumulators is not None', 'if op.incremental and self.accumulators is not None', 'inverted option'),
        ('marcel/op/args.py', '                if self.all:\n                    self.args = [self.args]', '                if self.all:\n                    self.args = []', 'discarded'),
        ('marcel/op/args.py', 'if len(self.args) > 0:', 'if self.all:', 'remainder not run'),
        ('marcel/op/window.py', '        if len(self.window) > 0:\n            self.send_window(env)', '        if len(self.window) > 1:\n            self.send_window(env)', 'last window dropped'),
        ('marcel/op/window.py', '        if self.window_generator is not None:\n            self.window_generator.flush(env)', '        if self.overlap:\n            self.window_generator.flush(env)\n        else:\n            self.propagate_flush(env)', 'only for one kind'),
        ('marcel/op/window.py', '    def flush(self, env):\n        self.flush_window(env)\n        self.op.propagate_flush(env)', '    def flush(self, env):\n        self.op.propagate_flush(env)', 'predicate window'),
    ],
}
