"""N01-N03, N05: pipeline parameters, views of a variable, marcel's own variables, changes returned to the shell."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate, test_key
from ..ops import OpModel, origin, reach_names
from ..paths import trace, arg_for

META = {
    'N01': {
        'explanation': 'The scope stack is found from the namespace class (the list that holds Scope objects, the methods that append to '
                       'and pop from it). Every function that pushes or pops a scope is executed abstractly on all paths, including those on '
                       'which anything called meanwhile raises: the depth on leaving must be the depth on entering. push_scope must '
                       'save what it hides before hiding it, pop_scope must remove the parameters and put back what was saved. '
                       'Whatever executes a parameterised pipeline does so while its parameters are bound, and the namespace sent to other '
                       'processes includes every scope.',
        'assumptions': ['trivial accessors do not raise'],
    },
    'N02': {
        'explanation': 'Every method of the namespace that changes the dictionary seen by functions must, on the same path and for the same '
                       'variable, change the scope that commands and saving see, and the reverse; every method through which variables are '
                       'assigned, imported or deleted must record the change in one of the sets that changes() reports and '
                       'clear_changes() clears; nothing else in marcel may mutate the namespace through inherited dictionary '
                       'methods. Scope lookup and scope deletion must agree about where a variable lives.',
        'assumptions': [],
    },
    'N03': {
        'explanation': 'The set of variables owned by marcel is collected from the source. Every method that changes a variable on request of a '
                       'user must have called the mutability check, for that variable, on every path before the change; the check must '
                       'raise whenever enforcement is on and the variable is owned; enforcement must be on whenever a user '
                       'command is executed (decided for each entry point on all paths, including restarts in another workspace and '
                       'child processes); and marcel\'s own unchecked updates name constant, owned variables.',
        'assumptions': ['scripts run at startup are trusted configuration'],
    },
    'N05': {
        'explanation': 'The function run in a job\'s process is executed abstractly on every path, including each kind of failure of the '
                       'command: once the command has started, the changes of its environment are sent exactly once before the '
                       'channel is closed. The receiving side must survive every failure to apply one message, and must apply each variable '
                       'of a message on every path; each kind of change must be recorded in what is sent.',
        'assumptions': ['a process killed by a signal returns nothing'],
    },
}


# ------------------------------------------------------------------------------------------------ the model
class NS:
    """names of the parts of the namespace implementation"""

    def __init__(self, p):
        self.p = p
        self.ns = p.cls('NestedNamespace')
        self.scope = p.cls('Scope', self.ns.module.name)
        self.stack = None
        for a, assigns in self.ns.attr_assigns().items():
            for f, v in assigns:
                if isinstance(v, (ast.List, ast.Call)) and any(
                        isinstance(c, ast.Call) and self.scope in p.callees(c, f, self.ns) for c in ast.walk(v)):
                    self.stack = a
        if self.stack is None:
            raise AnalysisBroken('the scope stack of NestedNamespace was not found')
        self.push, self.pop = set(), set()
        for f in self.ns.methods.values():
            for c in own_nodes(f.node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and self.is_stack(c.func.value, f):
                    if c.func.attr in ('append', 'insert'):
                        self.push.add(f)
                    elif c.func.attr == 'pop':
                        self.pop.add(f)
                if isinstance(c, ast.Delete) and any(isinstance(t, ast.Subscript) and self.is_stack(t.value, f) for t in c.targets):
                    self.pop.add(f)
                if isinstance(c, ast.AugAssign) and self.is_stack(c.target, f):
                    self.push.add(f)
        if not self.push or not self.pop:
            raise AnalysisBroken('the methods that push and pop scopes were not found')
        self.vh = p.cls('VarHandler')

    def is_stack(self, e, f):
        return isinstance(e, ast.Attribute) and e.attr == self.stack and isinstance(e.value, ast.Name) and e.value.id == f.self_name()

    def is_namespace(self, e, func, cls=None):
        """is expression e the namespace (not through super())?"""
        t = self.p.infer(e, func, cls or func.cls)
        if t:
            return self.ns in t
        if isinstance(e, ast.Attribute):
            return e.attr == 'namespace'
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'vars' and not e.args:
            tt = self.p.callees(e, func, cls or func.cls)
            return any(isinstance(x, FuncInfo) and x.cls is not None and x.cls.name in ('Environment', 'VarHandler', 'Workspace') for x in tt) or not tt
        return False


def trivial(p, f, cache, stack=()):
    if f in cache:
        return cache[f]
    if f in stack or len(stack) > 4:
        return False
    ok = True
    for n in own_nodes(f.node):
        if isinstance(n, (ast.Raise, ast.Subscript, ast.For, ast.While, ast.With)):
            ok = False
        elif isinstance(n, ast.Call):
            t = p.callees(n, f, f.cls)
            if isinstance(n.func, ast.Name) and n.func.id in ('len', 'isinstance', 'type', 'list', 'dict', 'set', 'tuple', 'id'):
                continue
            if not t or not all(isinstance(x, FuncInfo) and trivial(p, x, cache, stack + (f,)) for x in t):
                ok = False
    cache[f] = ok
    return ok


class Base(Typestate):
    def __init__(self, p):
        super().__init__(p)
        self.tcache = {}
        self.rcache = {}

    def may_raise(self, call, targets, fr):
        if targets and all(isinstance(t, FuncInfo) and trivial(self.p, t, self.tcache) for t in targets):
            return False
        return True


# ------------------------------------------------------------------------------------------------ N01
class ScopeTS(Base):
    max_depth = 6

    def __init__(self, p, ns):
        super().__init__(p)
        self.ns = ns
        self.at = []

    def kind(self, call, targets):
        for t in targets:
            if t in self.ns.push:
                return 1
            if t in self.ns.pop:
                return -1
        return 0

    def relevant(self, t):
        return reach_names(self.p, t, lambda c, f: self.kind(c, self.p.callees(c, f, f.cls)) != 0, self.rcache) or t.is_contextmanager

    def inline_ok(self, target, call, fr):
        # a nested pipeline's own run is balanced (it is an obligation of its own)
        return self.relevant(target) and target not in self.balanced

    balanced = frozenset()

    def on_call(self, call, targets, st, fr):
        k = self.kind(call, targets)
        if k:
            return [max(-3, min(3, st + k))]
        self.note(call, targets, st, fr)
        return None

    def note(self, call, targets, st, fr):
        pass


def check_N01(ctx):
    p = ctx.p
    ns = NS(p)
    ctx.rule('balanced', 'a function that pushes a scope pops it on every path out of it, including paths that raise, and nothing else')
    ctx.rule('saves', 'pushing a scope saves the values it hides before hiding them')
    ctx.rule('precedence', 'where the variables of several scopes are combined, those of an inner scope replace those of an outer one')
    ctx.rule('restores', 'popping a scope removes the parameters from view and then puts back the saved values, on every path')
    ctx.rule('bound', 'a pipeline runs while its parameters, all of them, are bound')
    ctx.rule('nested', 'a new scope is inside the current one, and a variable is looked for level by level')
    ctx.rule('transmitted', 'the variables sent to another process include those of every scope')
    ctx.rule('downstream', 'output leaves the scope of the pipeline that produced it before it is passed on')
    kcache = {}
    probe = ScopeTS(p, ns)
    work = []
    sites = 0
    for f in p.functions:
        if isinstance(f.node, ast.Lambda) or f in ns.push or f in ns.pop:
            continue
        n = sum(1 for c in own_nodes(f.node) if isinstance(c, ast.Call) and probe.kind(c, p.callees(c, f, f.cls)) == 1)
        m = sum(1 for c in own_nodes(f.node) if isinstance(c, ast.Call) and probe.kind(c, p.callees(c, f, f.cls)) == -1)
        sites += n
        if n or m:
            work.append(f)
    ctx.count('places where parameters are bound', sites)
    ctx.need('places where parameters are bound', 1)
    done = set()
    pushers = set(work)
    while work:
        f = work.pop()
        if f in done:
            continue
        done.add(f)
        callers = [g for g in p.functions if g is not f and not isinstance(g.node, ast.Lambda) and any(
            isinstance(c, ast.Call) and f in p.callees(c, g, g.cls) for c in own_nodes(g.node))] \
            if f.name.startswith('__') or f.is_contextmanager or f.module is not None else []
        if f.name in ('__enter__', '__exit__') or f.is_contextmanager:
            # judged where the with statement is
            users = [g for g in p.functions if not isinstance(g.node, ast.Lambda) and any(
                isinstance(w, ast.With) and any(f in p.callees(i.context_expr, g, g.cls) if isinstance(i.context_expr, ast.Call) and f.is_contextmanager
                                                else f.cls in p.infer(i.context_expr, g, g.cls) for i in w.items) for w in own_nodes(g.node))]
            work.extend(users)
            pushers |= set(users)
            continue
        ts = ScopeTS(p, ns)
        o = ts.run_function(f, f.cls, 0)
        outs = {k[0] for k in o['ret']} | {k[0] for k in o['exc']}
        if callers and len({k[0] for k in o['ret']}) == 1 and outs == {k[0] for k in o['ret']} and 0 not in outs:
            work.extend(callers)
            ctx.ok('balanced', f.qualname, 'helper, judged with its callers')
            continue
        bad = False
        for kind, key in [('returns', k) for k in o['ret']] + [('raises', k) for k in o['exc']]:
            if key[0] != 0:
                bad = True
                line = o['ret' if kind == 'returns' else 'exc'][key]
                ctx.bad('balanced', f.qualname, f,
                        f'{f.name} {kind} (line {line}) with {"parameters still bound" if key[0] > 0 else "the scope of its caller removed"}', line)
        ctx.count('exits checked', len(o['ret']) + len(o['exc']))
        if not bad:
            ctx.ok('balanced', f.qualname, f'{len(o["ret"])} normal, {len(o["exc"])} exceptional exits')
    _n01_push(ctx, ns)
    _n01_pop(ctx, ns)
    _n01_levels(ctx, ns)
    _n01_precedence(ctx, ns)
    _n01_bound(ctx, ns, pushers)
    _n01_transmitted(ctx, ns)
    _n01_downstream(ctx, ns)


def _own_write(n, f):
    """does node n (statement/expr) write the namespace dict itself (through self or super())? returns 'set'/'del'/None"""
    sn = f.self_name()

    def isself(e):
        return (isinstance(e, ast.Name) and e.id == sn) or (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'super')
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
        recv = n.func.value
        args = n.args
        if isinstance(recv, ast.Name) and recv.id == 'dict' and args and isself(args[0]):
            recv = args[0]
        if isself(recv):
            if n.func.attr in ('__setitem__', 'update', 'setdefault'):
                return 'set'
            if n.func.attr in ('pop', '__delitem__', 'popitem', 'clear'):
                return 'del'
    if isinstance(n, ast.Subscript) and isself(n.value):
        if isinstance(n.ctx, ast.Store):
            return 'set'
        if isinstance(n.ctx, ast.Del):
            return 'del'
    return None


def _reads_values(e, f, p=None, depth=0):
    """does expression e read values of the namespace (self[...], self.get, dict(self), self.items(), **self)?"""
    sn = f.self_name()
    for n in ast.walk(e):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == sn:
            return True
        if isinstance(n, ast.Call):
            fn = n.func
            if isinstance(fn, ast.Attribute) and fn.attr in ('get', 'items', 'copy', '__getitem__') and (
                    isinstance(fn.value, ast.Name) and fn.value.id == sn or isinstance(fn.value, ast.Call) and dotted(fn.value.func) == 'super'):
                return True
            if any(isinstance(a, ast.Name) and a.id == sn for a in n.args) and isinstance(fn, ast.Name) and fn.id in ('dict', 'list'):
                return True
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == sn and depth < 3:
                m = f.cls.find(fn.attr)
                if m is not None and any(isinstance(r, ast.Return) and r.value is not None and (_reads_values(r.value, m, p, depth + 1) or _fills_from(m, r.value, p, depth + 1))
                                         for r in own_nodes(m.node)):
                    return True
    return False


def _fills_from(f, e, p, depth=0):
    """local name e is filled (assigned, or item by item) from values of the namespace"""
    if not isinstance(e, ast.Name):
        return False
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == e.id and _reads_values(n.value, f, p, depth):
                    return True
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id and _reads_values(n.value, f, p, depth):
                    return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id and \
                n.func.attr in ('append', 'update', 'setdefault', '__setitem__') and any(_reads_values(a, f, p, depth) for a in n.args):
            return True
    return False


class PushTS(Base):
    """state: (saved, hidden, pushed, order violated)"""

    def __init__(self, p, ns, attrs):
        super().__init__(p)
        self.ns = ns
        self.attrs = attrs
        self.bad = []

    def relevant(self, t):
        return t.cls is self.ns.ns and t.name not in ('__setitem__', '__delitem__', 'update', 'assign')

    def _ev(self, st, kind, node):
        saved, pushed = st
        if kind == 'hide' and not saved:
            self.bad.append(node)
        if kind == 'save':
            saved = True
        if kind == 'push':
            pushed = min(2, pushed + 1)
        return (saved, pushed)

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute) and target.attr in self.attrs:
            return [self._ev(st, 'save', target)]
        if isinstance(target, ast.Subscript):
            if isinstance(target.value, ast.Attribute) and target.value.attr in self.attrs:
                return [self._ev(st, 'save', target)]
            if _own_write(target, fr.func) == 'set':
                return [self._ev(st, 'hide', target)]
        return [st]

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute) and self.ns.is_stack(call.func.value, fr.func) and call.func.attr in ('append', 'insert'):
            return [self._ev(st, 'push', call)]
        if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Attribute) and call.func.value.attr in self.attrs:
            return [self._ev(st, 'save', call)]
        if _own_write(call, fr.func) == 'set':
            return [self._ev(st, 'hide', call)]
        if any(isinstance(a, ast.AST) for a in call.args) and any(isinstance(t, ClassInfo) and t is self.ns.scope for t in targets):
            for a in list(call.args) + [k.value for k in call.keywords]:
                if _reads_values(a, fr.func) or _fills_from(fr.func, a, self.p):
                    return [self._ev(st, 'save', call)]
        return None


def _saved_attrs(p, ns, f, depth=0):
    """attributes into which push stores values of the namespace; returns attr -> node"""
    out = {}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                v = n.value
                src = _reads_values(v, f, p) or _fills_from(f, v, p)
                if isinstance(t, ast.Attribute) and src:
                    out[t.attr] = n
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and src:
                    out[t.value.attr] = n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and \
                n.func.attr in ('append', 'update', '__setitem__', 'setdefault') and not ns.is_stack(n.func.value, f) and \
                any(_reads_values(a, f, p) or _fills_from(f, a, p) for a in n.args):
            out[n.func.value.attr] = n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == f.self_name() and depth < 3:
            m = f.cls.find(n.func.attr) if f.cls else None
            if m is not None and m is not f and m.cls is ns.ns:
                out.update(_saved_attrs(p, ns, m, depth + 1))
        if isinstance(n, ast.Call) and ns.scope in p.callees(n, f, f.cls):
            # passed to the Scope constructor
            init = ns.scope.find('__init__')
            for i, a in list(enumerate(n.args)) + [(k.arg, k.value) for k in n.keywords]:
                if _reads_values(a, f, p) or _fills_from(f, a, p):
                    pn = init.params[i + 1] if isinstance(i, int) and i + 1 < len(init.params) else i
                    for at, assigns in ns.scope.attr_assigns().items():
                        if any(isinstance(v, ast.Name) and v.id == pn for _, v in assigns):
                            out[at] = n
    return out


def _n01_push(ctx, ns):
    p = ctx.p
    for f in sorted(ns.push, key=lambda f: f.qualname):
        if f.name == '__init__':
            continue
        attrs = _saved_attrs(p, ns, f)
        if not attrs:
            ctx.bad('saves', f.qualname, f, f'{f.name} does not save the values of the variables that the parameters hide')
            continue
        ts = PushTS(p, ns, set(attrs))
        o = ts.run_function(f, ns.ns, (False, 0))
        bad = False
        for n in ts.bad:
            bad = True
            ctx.bad('saves', f.qualname, f, f'{f.name} hides a variable before its value was saved', n)
        for (st, fa, rv), line in o['ret'].items():
            if not st[0] or st[1] != 1:
                bad = True
                ctx.bad('saves', f.qualname, f, f'{f.name} returns (line {line}) having {"not saved what it hides" if not st[0] else f"pushed {st[1]} scopes"}', line)
        for n in _value_filters(p, ns, f):
            bad = True
            ctx.bad('saves', f.qualname + ':filter', f, f'whether {f.name} saves a hidden variable depends on its value ({ast.unparse(n)[:60]}), so some are not restored', n)
        for (st, fa, rv), line in ViewTS(p, ns).run_function(f, ns.ns, frozenset())['ret'].items():
            d = {k for v, e, k in st if v == 'dict' and e == 'set'}
            sc = {k for v, e, k in st if v == 'scope' and e == 'set'}
            if d != sc and not _scope_stores_values(ns):
                bad = True
                ctx.bad('bound', f'{f.qualname}:views', f, f'{f.name} gives the parameters their values only in '
                        f'{"the dictionary that functions see" if d - sc else "the scope"}', line)
                break
        if not bad:
            ctx.ok('saves', f.qualname, f'saved in {sorted(attrs)}')
    ns.saved = {a for f in ns.push for a in _saved_attrs(p, ns, f)}


def value_atoms(test):
    if isinstance(test, ast.BoolOp):
        for v in test.values:
            yield from value_atoms(v)
    elif isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        yield from value_atoms(test.operand)
    else:
        yield test


def all_tests(node):
    for n in own_nodes(node):
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            yield n.test
            if isinstance(n.test, ast.Name):
                yield from (x.value for x in own_nodes(node) if isinstance(x, ast.Assign) and
                            any(isinstance(t, ast.Name) and t.id == n.test.id for t in x.targets))
        elif isinstance(n, ast.comprehension):
            yield from n.ifs


def sentinel_test(t):
    """membership, or identity with something that is not a constant"""
    return isinstance(t, ast.Compare) and len(t.ops) == 1 and (
        isinstance(t.ops[0], (ast.In, ast.NotIn)) or
        isinstance(t.ops[0], (ast.Is, ast.IsNot)) and not isinstance(t.comparators[0], ast.Constant) and not isinstance(t.left, ast.Constant))


def _value_filters(p, ns, f):
    """tests in f that read the value of a variable of the namespace other than to see whether there is one"""
    for t in all_tests(f.node):
        for a in value_atoms(t):
            if sentinel_test(a):
                if isinstance(a.ops[0], (ast.Is, ast.IsNot)) or not _reads_values(a.left, f, p):
                    continue
            if _reads_values(a, f, p) or any(isinstance(n, ast.Name) and any(isinstance(v, ast.AST) and _reads_values(v, f, p) for v in f.local_assigns().get(n.id, []))
                                             for n in ast.walk(a)):
                yield a


def _scope_stores_values(ns):
    """does the constructor of a scope give the parameters their values?"""
    init = ns.scope.find('__init__')
    return init is not None and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'items' for n in own_nodes(init.node))


def always(stmts, pred, skip=lambda test: False):
    """does every path through a block reach a node satisfying pred? (a test accepted by skip may lead around it)"""
    for s in stmts:
        if isinstance(s, ast.If):
            if always(s.body, pred, skip) and (always(s.orelse, pred, skip) or skip(s.test)) or always(s.orelse, pred, skip) and skip(s.test):
                return True
            if any(isinstance(x, (ast.Continue, ast.Break, ast.Return)) for x in ast.walk(s)) and not skip(s.test):
                return False
        elif isinstance(s, ast.With):
            if always(s.body, pred, skip):
                return True
        elif isinstance(s, ast.Try):
            if always(s.body, pred, skip) or always(s.finalbody, pred, skip):
                return True
        elif isinstance(s, (ast.For, ast.While)):
            continue
        elif isinstance(s, (ast.Continue, ast.Break, ast.Return)):
            return False
        elif any(pred(x) for x in ast.walk(s)):
            return True
    return False


def _n01_levels(ctx, ns):
    p = ctx.p
    n = 0
    for f in sorted(ns.push, key=lambda f: f.qualname):
        if f.name == '__init__':
            continue
        # every parameter gets its value
        def about_absence(t):
            return all(isinstance(c, ast.Compare) and isinstance(c.ops[0], (ast.In, ast.NotIn)) for c in value_atoms(t))
        for lp in own_nodes(f.node):
            if isinstance(lp, ast.For):
                w = lambda x: _own_write(x, f) == 'set'
                if any(w(x) for x in ast.walk(lp)):
                    n += 1
                    if always(lp.body, w):
                        ctx.ok('bound', f.qualname + ':each')
                    else:
                        ctx.bad('bound', f.qualname + ':each', f, f'{f.name} does not give every parameter its value: a variable of the same name shows through', lp)
            if isinstance(lp, ast.Call) and _own_write(lp, f) == 'set':
                for a in lp.args:
                    if any(isinstance(x, ast.comprehension) and x.ifs for x in ast.walk(a)):
                        ctx.bad('bound', f.qualname + ':each', f, f'{f.name} does not give every parameter its value: a variable of the same name shows through', lp)
        # the new scope is inside the current one
        init = ns.scope.find('__init__')
        par = next((x for x in init.params if x in ('parent', 'outer', 'enclosing')), None) if init else None
        for c in own_nodes(f.node):
            if isinstance(c, ast.Call) and ns.scope in p.callees(c, f, f.cls):
                a = arg_for(init, c, par) if par else None
                if a is None:
                    continue
                n += 1
                roots = [t for t in trace(p, a, f) if not isinstance(t[0], str)]
                outer = [x for x, g, _ in roots if isinstance(x, ast.Subscript) and ns.is_stack(x.value, g) and
                         isinstance(x.slice, ast.Constant) and x.slice.value != -1]
                if outer:
                    ctx.bad('nested', f.qualname, f, f'{f.name} creates a scope that is not inside the current one: parameters of enclosing pipelines are bypassed', c)
                else:
                    ctx.ok('nested', f.qualname)
    cur = ns.ns.find('current_scope')
    if cur is not None:
        for r in own_nodes(cur.node):
            if isinstance(r, ast.Return) and isinstance(r.value, ast.Subscript) and isinstance(r.value.slice, (ast.Constant, ast.UnaryOp)):
                try:
                    i = ast.literal_eval(r.value.slice)
                except ValueError:
                    continue
                if i == -1:
                    ctx.ok('nested', cur.qualname)
                else:
                    ctx.bad('nested', cur.qualname, cur, 'the current scope is not the innermost one', r)
    # popping: what was saved is not dropped, and each parameter is removed or restored
    for f in sorted(ns.pop, key=lambda f: f.qualname):
        for d in own_nodes(f.node):
            hit = None
            if isinstance(d, ast.Delete):
                hit = next((t for t in d.targets if any(isinstance(x, ast.Attribute) and x.attr in ns.saved for x in ast.walk(t))), None)
            elif isinstance(d, ast.Expr) and isinstance(d.value, ast.Call) and isinstance(d.value.func, ast.Attribute) and d.value.func.attr in ('pop', 'clear', 'popitem') and \
                    isinstance(d.value.func.value, ast.Attribute) and d.value.func.value.attr in ns.saved:
                hit = d
            if hit is not None:
                ctx.bad('restores', f.qualname + ':dropped', f, f'{f.name} drops a saved value instead of putting it back', d)
        for lp in own_nodes(f.node):
            if isinstance(lp, ast.For):
                w = lambda x: _own_write(x, f) is not None
                if any(_own_write(x, f) == 'del' for x in ast.walk(lp)):
                    n += 1

                    def skip(t):
                        return all(isinstance(c, ast.Compare) and isinstance(c.ops[0], (ast.In, ast.NotIn)) for c in value_atoms(t))
                    if always(lp.body, w, skip):
                        ctx.ok('restores', f.qualname + ':each')
                    else:
                        ctx.bad('restores', f.qualname + ':each', f, f'whether {f.name} removes a parameter depends on something else than its presence', lp)
    # a variable is looked for level by level
    for m in ns.scope.methods.values():
        for wl in own_nodes(m.node):
            if isinstance(wl, ast.While) and any(isinstance(x, ast.Attribute) and x.attr == 'parent' for x in ast.walk(wl)):
                n += 1
                if any(isinstance(x, ast.Attribute) and x.attr == 'params' for x in ast.walk(wl)):
                    ctx.ok('nested', m.qualname)
                else:
                    ctx.bad('nested', m.qualname, m, f'{m.name} goes to an outer scope without testing whether the variable is a parameter of the scopes between', wl)
            if isinstance(wl, ast.Attribute) and wl.attr == 'parent' and isinstance(wl.value, ast.Attribute) and wl.value.attr == 'parent':
                ctx.bad('nested', m.qualname, m, f'{m.name} skips a scope', wl)
    ctx.count('constructs that bind or release parameters', n)
    ctx.need('constructs that bind or release parameters', 1)


def _n01_precedence(ctx, ns):
    p = ctx.p
    for f in sorted(ns.ns.methods.values(), key=lambda f: f.qualname):
        if f.name == 'validate':
            continue
        for lp in own_nodes(f.node):
            if not isinstance(lp, (ast.For, ast.DictComp)):
                continue
            it = lp.iter if isinstance(lp, ast.For) else lp.generators[0].iter
            its = [it]
            for n in list(ast.walk(it)):
                if isinstance(n, ast.Name):
                    its += [v for v in f.local_assigns().get(n.id, []) if isinstance(v, ast.AST)]
            uses = [x for e in its for x in ast.walk(e) if isinstance(x, ast.Attribute) and ns.is_stack(x, f)]
            if not uses:
                continue
            flips = sum(1 for e in its for n in ast.walk(e) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'reversed' or
                        isinstance(n, ast.Slice) and n.step is not None and ast.unparse(n.step) == '-1')
            inner_first = flips % 2 == 1
            if isinstance(lp, ast.DictComp):
                keeps = [False]
            else:
                body = [n for b in lp.body for n in ast.walk(b)]
                keeps = []
                for n in body:
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                            n.func.attr in ('__setitem__', 'update', 'setdefault'):
                        k = isinstance(n, ast.Call) and n.func.attr == 'setdefault'
                        if not k:
                            key = n.slice if isinstance(n, ast.Subscript) else n.args[0] if n.args else None
                            if key is not None:
                                k = _absent_guard(f, lp, n, ast.unparse(key))
                        keeps.append(k)
            ctx.count('loops over scopes')
            if any(k != inner_first for k in keeps):
                ctx.bad('precedence', f.qualname, f, f'{f.name} combines the scopes so that a variable of an outer scope replaces a parameter of the same name', lp)
            elif keeps:
                ctx.ok('precedence', f.qualname, 'inner scopes win')


def _absent_guard(f, lp, node, key):
    """is node, in loop lp, reached only where `key` is not in the collection?"""
    class B:
        pass
    b = B()
    b.body = lp.body
    for t, sense in _conds(b, node):
        for a in value_atoms(t):
            if isinstance(a, ast.Compare) and len(a.ops) == 1 and isinstance(a.ops[0], (ast.In, ast.NotIn)) and ast.unparse(a.left) == key:
                if isinstance(a.ops[0], ast.NotIn) == sense:
                    return True
    # if key in x: continue
    for s in lp.body:
        for n in ast.walk(s):
            if isinstance(n, ast.If) and n.body and isinstance(n.body[-1], ast.Continue) and not any(x is node for x in ast.walk(n)) and \
                    isinstance(n.test, ast.Compare) and isinstance(n.test.ops[0], ast.In) and ast.unparse(n.test.left) == key:
                return True
    return False


class PopTS(Base):
    """state: (popped, removed, restored)"""

    def __init__(self, p, ns):
        super().__init__(p)
        self.ns = ns
        self.bad = []

    def relevant(self, t):
        return t.cls is self.ns.ns and t.name not in ('__setitem__', '__delitem__', 'update', 'assign')

    def from_saved(self, e, fr):
        """does e come from the saved values?"""
        if any(isinstance(n, ast.Attribute) and n.attr in self.ns.saved for n in ast.walk(e)):
            return True
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                if any(set(o.replace('[*]', '').replace('()', '').split('.')) & self.ns.saved for o in origin(self.p, n, fr.func)):
                    return True
                for lp in own_nodes(fr.func.node):
                    if isinstance(lp, ast.For) and any(isinstance(x, ast.Name) and x.id == n.id for x in ast.walk(lp.target)) and \
                            any(isinstance(x, ast.Attribute) and x.attr in self.ns.saved for x in ast.walk(lp.iter)):
                        return True
        return False

    def write(self, kind, node, st, fr):
        popped, removed, restored = st
        if kind == 'del':
            if restored:
                self.bad.append((node, 'removes variables after the saved values were put back'))
            removed = True
        elif self.from_saved(node, fr):
            restored = True
            removed = True if not self.separate else removed
        return (popped, removed, restored)

    separate = True

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute) and self.ns.is_stack(call.func.value, fr.func) and call.func.attr == 'pop':
            return [(min(2, st[0] + 1),) + st[1:]]
        k = _own_write(call, fr.func)
        if k:
            return [self.write(k, call, st, fr)]
        return None

    def on_assign(self, target, value, st, fr):
        k = _own_write(target, fr.func) if isinstance(target, ast.Subscript) else None
        if k:
            n = ast.Tuple(elts=[target, value] if value is not None else [target], ctx=ast.Load())
            return [self.write(k, ast.copy_location(n, target), st, fr)]
        return [st]

    def on_del(self, target, st, fr):
        if isinstance(target, ast.Subscript):
            if self.ns.is_stack(target.value, fr.func):
                return [(min(2, st[0] + 1),) + st[1:]]
            if _own_write(target, fr.func):
                return [self.write('del', target, st, fr)]
        return [st]


def _n01_pop(ctx, ns):
    p = ctx.p
    for f in sorted(ns.pop, key=lambda f: f.qualname):
        ts = PopTS(p, ns)
        o = ts.run_function(f, ns.ns, (0, False, False))
        bad = False
        for n, why in ts.bad:
            bad = True
            ctx.bad('restores', f.qualname, f, f'{f.name} {why}', n)
        finals = {k[0] for k in o['ret']}
        for popped, removed, restored in finals:
            if popped != 1:
                bad = True
                ctx.bad('restores', f.qualname, f, f'{f.name} removes {popped} scopes on a path')
        if not any(x[1] for x in finals):
            bad = True
            ctx.bad('restores', f.qualname, f, f'{f.name} leaves the parameters visible')
        # restoring may be item by item (a loop with nothing to restore), so some path must do it, and with a bulk update all
        if not any(x[2] for x in finals):
            bad = True
            ctx.bad('restores', f.qualname, f, f'{f.name} does not put back the values hidden by the parameters')
        elif not all(x[2] for x in finals) and not _restore_in_loop(f, ns):
            bad = True
            ctx.bad('restores', f.qualname, f, f'{f.name} does not put back the values hidden by the parameters on some path')
        if not bad:
            ctx.ok('restores', f.qualname)


def _restore_in_loop(f, ns):
    return any(isinstance(n, ast.For) and any(isinstance(x, ast.Attribute) and x.attr in ns.saved for x in ast.walk(n.iter)) for n in own_nodes(f.node)) or \
        any(isinstance(n, ast.For) and any(isinstance(x, ast.Attribute) and x.attr in ns.saved for x in ast.walk(n)) for n in own_nodes(f.node))


class BoundTS(ScopeTS):
    def note(self, call, targets, st, fr):
        if st == 0 and fr.depth == 0 and isinstance(call.func, ast.Attribute) and call.func.attr in ('run', 'receive', 'flush', 'run_pipeline', 'setup'):
            ty = self.p.infer(call.func.value, fr.func, fr.cls)
            names = {c.name for c in ty}
            om = self.om
            if any(c in om.pipeline_classes or c.name == 'PipelineExecutable' for c in ty) or any(
                    a in o.split('.')[-1] for o in origin(self.p, call.func.value, fr.func) for a in ('pipeline', 'executable')):
                self.at.append(call)

    def inline_ok(self, target, call, fr):
        return super().inline_ok(target, call, fr) and target.name not in ('run_pipeline',)


def _n01_bound(ctx, ns, pushers):
    p = ctx.p
    om = OpModel(p)
    # (a) within the functions that bind parameters, the pipeline is used only while they are bound
    for f in sorted(pushers, key=lambda f: f.qualname):
        ts = BoundTS(p, ns)
        ts.om = om
        ts.run_function(f, f.cls, 0)
        for c in ts.at:
            ctx.bad('bound', f'{f.qualname}:{ast.unparse(c.func)}', f, f'{ast.unparse(c)} is called without the parameters of the pipeline being bound', c)
        if not ts.at:
            ctx.ok('bound', f.qualname)
    # (b) the class whose pipelines have parameters binds them when run
    pm = p.cls('PipelineMarcel')
    rp = pm.find('run_pipeline')
    if rp is None:
        raise AnalysisBroken('PipelineMarcel.run_pipeline not found')
    ctx.count('pipeline runners')
    probe = ScopeTS(p, ns)
    if not reach_names(p, rp, lambda c, f: probe.kind(c, p.callees(c, f, f.cls)) == 1, {}):
        ctx.bad('bound', rp.qualname, rp, 'a pipeline is run without its parameters being bound')
    # (c) the arguments are what is bound
    else:
        ok = False
        for g in [rp] + [x for x in p.functions if x.cls is rp.cls]:
            for c in own_nodes(g.node):
                if isinstance(c, ast.Call) and probe.kind(c, p.callees(c, g, g.cls)) == 1 and c.args and any(
                        o in g.params for o in origin(p, c.args[0], g)):
                    ok = True
        if ok:
            ctx.ok('bound', 'arguments')
        else:
            ctx.bad('bound', rp.qualname + ':arguments', rp, 'the scope bound when a pipeline is run is not that of its arguments')


def _n01_transmitted(ctx, ns):
    p = ctx.p
    env = p.cls('Environment', 'marcel.env')
    gs = env.find('__getstate__')
    if gs is None:
        ctx.bad('transmitted', env.qualname, env, 'the environment does not define what is transmitted')
        return
    n = 0
    for c in own_nodes(gs.node):
        if isinstance(c, ast.Call):
            for t in p.callees(c, gs, env):
                if isinstance(t, FuncInfo) and t.cls is ns.ns:
                    n += 1
                    uses = [x for x in own_nodes(t.node) if isinstance(x, ast.Attribute) and x.attr == ns.stack]
                    whole = [x for x in uses if not _indexed(t.node, x)]
                    chain = any(isinstance(x, ast.Attribute) and x.attr == 'parent' for x in own_nodes(t.node))
                    if whole or chain:
                        ctx.ok('transmitted', t.qualname)
                    else:
                        ctx.bad('transmitted', t.qualname, t, f'{t.name} captures only one scope: parameters of enclosing pipelines are not visible in other processes', c)
    ctx.count('captures of variables', n)


def _indexed(root, attr):
    for n in ast.walk(root):
        if isinstance(n, ast.Subscript) and n.value is attr:
            sl = n.slice
            if not isinstance(sl, ast.Slice) or sl.upper is not None or sl.lower is not None and not (isinstance(sl.lower, ast.Constant) and sl.lower.value in (0, None)):
                return True
        if isinstance(n, ast.Assert) and any(x is attr for x in ast.walk(n)):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and any(a is attr for a in n.args):
            return True
    return False


def _n01_downstream(ctx, ns):
    """The operator that leads the output of a pipeline back to the operator owning it passes it on with the scope still pushed."""
    p = ctx.p
    om = OpModel(p)
    for c in om.all:
        f = c.find('receive')
        if f is None or f.cls is not c:
            continue
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'send' and isinstance(n.func.value, ast.Attribute) \
                    and isinstance(n.func.value.value, ast.Name) and n.func.value.value.id == f.self_name() and len(n.args) == 2:
                # an operator sending on behalf of another operator held in an attribute
                at = n.func.value.attr
                if any(isinstance(v, ast.Name) and v.id in g.params for g, v in c.all_attr_assigns(at)) and at not in ('writer', 'connection'):
                    ctx.count('redirecting operators')
                    probe = ScopeTS(p, ns)
                    if reach_names(p, f, lambda c2, g: probe.kind(c2, p.callees(c2, g, g.cls)) == -1, {}):
                        ctx.ok('downstream', f.qualname)
                    else:
                        ctx.bad('downstream', f.qualname, f, 'output of a pipeline with parameters is passed on to the operators after it '
                                'while its parameters still hide the variables of the same name', n)


# ------------------------------------------------------------------------------------------------ N02
class ViewTS(Base):
    """state: frozenset of (view, effect, key)"""
    max_depth = 4

    def __init__(self, p, ns):
        super().__init__(p)
        self.ns = ns

    def relevant(self, t):
        return t.cls in (self.ns.ns,)

    def may_raise(self, call, targets, fr):
        return False

    def key(self, e, fr):
        if e is None:
            return '?'
        e2 = e
        f = fr
        while isinstance(e2, ast.Name) and f is not None and e2.id in f.func.params and f.caller is not None and f.site is not None:
            i = f.func.params.index(e2.id) - (1 if f.func.self_name() else 0)
            args = f.site.args
            nxt = args[i] if 0 <= i < len(args) else next((k.value for k in f.site.keywords if k.arg == e2.id), None)
            if nxt is None:
                break
            e2 = nxt
            f = f.caller
        return '|'.join(sorted(o.split('[')[0].split('.')[0] for o in origin(self.p, e2, f.func))) or ast.unparse(e2)

    def is_scope(self, e, fr):
        ty = self.p.infer(e, fr.func, fr.cls)
        if ty:
            return self.ns.scope in ty
        if isinstance(e, ast.Subscript) and self.ns.is_stack(e.value, fr.func):
            return True
        if isinstance(e, ast.Name):
            for v in fr.func.local_assigns().get(e.id, []):
                if v is not None and not isinstance(v, ast.Name) and self.is_scope(v, fr):
                    return True
        if isinstance(e, ast.Call):
            return any(isinstance(t, FuncInfo) and any(isinstance(r, ast.Return) and r.value is not None and isinstance(r.value, ast.Subscript) and
                                                       self.ns.is_stack(r.value.value, t) for r in own_nodes(t.node)) for t in self.p.callees(e, fr.func, fr.cls))
        return False

    def scope_effect(self, name):
        m = self.ns.scope.find(name)
        if m is None:
            return 'del' if name in ('pop', '__delitem__') else 'set' if name in ('__setitem__', 'update') else None
        for _ in range(3):
            for n in own_nodes(m.node):
                if isinstance(n, ast.Delete) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', '__delitem__', 'delete')):
                    return 'del'
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('__setitem__', 'store_item', 'update'):
                    return 'set'
            break
        return None

    def on_call(self, call, targets, st, fr):
        f = call.func
        if not isinstance(f, ast.Attribute):
            return None
        sn = fr.func.self_name()
        issuper = isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'
        isdict = isinstance(f.value, ast.Name) and f.value.id == 'dict' and call.args and isinstance(call.args[0], ast.Name) and call.args[0].id == sn
        own = isinstance(f.value, ast.Name) and f.value.id == sn and self.ns.ns.find(f.attr) is None
        if issuper or isdict or own:
            args = call.args[1:] if isdict else call.args
            eff = 'set' if f.attr in ('__setitem__', 'update', 'setdefault') else 'del' if f.attr in ('pop', '__delitem__', 'popitem', 'clear') else None
            if eff:
                return [st | {('dict', eff, self.key(args[0] if args else None, fr))}]
            return [st]
        if self.is_scope(f.value, fr):
            eff = self.scope_effect(f.attr)
            if eff:
                return [st | {('scope', eff, self.key(call.args[0] if call.args else next((k.value for k in call.keywords), None), fr))}]
            return [st]
        return None

    def on_iter(self, s, st, fr):
        return [st]

    def s_For(self, s, states, fr):
        # item by item over the whole of another collection: an empty one has nothing to agree about
        if any(isinstance(n, (ast.Call, ast.Subscript)) for b in s.body for n in ast.walk(b)):
            s2 = ast.For(target=s.target, iter=ast.Tuple(elts=[s.iter], ctx=ast.Load()), body=s.body, orelse=s.orelse)
            ast.copy_location(s2, s)
            return super().s_For(s2, states, fr)
        return super().s_For(s, states, fr)

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Subscript):
            return [self.sub(target, 'set', st, fr)]
        return [st]

    def on_del(self, target, st, fr):
        if isinstance(target, ast.Subscript):
            return [self.sub(target, 'del', st, fr)]
        return [st]

    def sub(self, t, eff, st, fr):
        sn = fr.func.self_name()
        k = self.key(t.slice, fr)
        if isinstance(t.value, ast.Name) and t.value.id == sn:
            m = self.ns.ns.find('__setitem__' if eff == 'set' else '__delitem__')
            return st | {('dict', eff, k)} | ({('scope', eff, k)} if m is not None else set())
        if self.is_scope(t.value, fr):
            return st | {('scope', eff, k)}
        return st


def check_N02(ctx):
    p = ctx.p
    ns = NS(p)
    ctx.rule('paired', 'a method of the namespace that changes one view of a variable changes the other, for the same variable, on the same path')
    ctx.rule('bypass', 'the namespace is changed only through the methods that keep its views in step')
    ctx.rule('effective', 'a method that assigns a variable assigns it on every path on which it returns')
    ctx.rule('recorded', 'a method that changes a variable records the change in what changes() reports')
    ctx.rule('cleared', 'every record of changes that changes() reads is cleared by clear_changes()')
    ctx.rule('same-place', 'a variable is deleted from the scope in which an assignment would have put it')
    ctx.rule('performed', 'the assignment operator assigns on every path')
    ctx.rule('exists', 'whether a variable exists does not depend on its value')
    ctx.rule('saved', 'what is saved with the workspace covers every variable of the top scope, and is taken from the namespace')
    for name, f in sorted(ns.ns.methods.items()):
        if name in ('__init__', 'validate') or f in ns.push or f in ns.pop or 'permanent' in name:
            continue
        ts = ViewTS(p, ns)
        o = ts.run_function(f, ns.ns, frozenset())
        evs = {e for k in o['ret'] for e in k[0]}
        if not evs:
            continue
        ctx.count('namespace mutators')
        bad = False
        for (st, fa, rv), line in o['ret'].items():
            d = {(e, k) for v, e, k in st if v == 'dict'}
            s = {(e, k) for v, e, k in st if v == 'scope'}
            if d != s:
                bad = True
                miss = d - s
                what = miss or (s - d)
                e, k = sorted(what)[0]
                ctx.bad('paired', f.qualname, f, f'{name}: {k} is {"assigned in" if e == "set" else "deleted from"} '
                        f'{"the dictionary functions see, but not in its scope" if miss else "its scope, but not in the dictionary functions see"}', line)
        if any(e == 'set' for v, e, k in evs):
            for (st, fa, rv), line in o['ret'].items():
                if not st and not _empty_argument(f, fa):
                    bad = True
                    ctx.bad('effective', f.qualname, f, f'{name} returns (line {line}) without having assigned the variable', line)
                    break
            else:
                ctx.ok('effective', f.qualname)
        if not bad:
            ctx.ok('paired', f.qualname)
    ctx.need('namespace mutators', 3)
    _n02_inherited(ctx, ns)
    _n02_bypass(ctx, ns)
    _n02_recorded(ctx, ns)
    _n02_same_place(ctx, ns)
    _n02_saved(ctx, ns)
    _n02_performed(ctx, ns)
    _n02_exists(ctx, ns)


def _empty_argument(f, facts):
    """a path on which an argument is known to be empty has nothing to assign"""
    for k, v in facts:
        if any(x in f.params for x in str(k).replace("'", ' ').replace('(', ' ').replace(')', ' ').replace(',', ' ').split()) and 'none' not in str(k) and v is not True:
            return True
    return False


DICT_MUT = ('pop', 'popitem', 'clear', 'setdefault', '__setitem__', '__delitem__', 'update', '__ior__')


class PerfTS(Base):
    """state: a variable has been assigned"""
    track_exc = False
    max_depth = 4

    def __init__(self, p, muts):
        super().__init__(p)
        self.muts = muts
        self.sites = 0

    def relevant(self, t):
        return reach_names(self.p, t, lambda c, f: any(x in self.muts for x in self.p.callees(c, f, f.cls)), self.rcache) and t not in self.muts

    def on_call(self, call, targets, st, fr):
        if any(t in self.muts for t in targets) or isinstance(call.func, ast.Attribute) and call.func.attr.startswith('setvar'):
            self.sites += 1
            return [True]
        return None


def _n02_performed(ctx, ns):
    p = ctx.p
    muts = {f for f in var_mutators(p, ns) if f.name != 'delvar'}
    for c in p.classes:
        if c.module.name != 'marcel.op.assign' or 'run' not in c.methods:
            continue
        m = c.methods['run']
        ts = PerfTS(p, muts)
        o = ts.run_function(m, c, False)
        ctx.count('assignment operators')
        miss = [l for (st, fa, rv), l in o['ret'].items() if not st]
        if miss:
            ctx.bad('performed', m.qualname, m, 'the assignment operator can finish without having assigned the variable', miss[0])
        else:
            ctx.ok('performed', m.qualname)


class ExistsTS(Base):
    """state: frozenset of facts; an answer "there is no such variable" must follow from a membership test"""
    track_exc = False
    max_depth = 3

    def __init__(self, p, getters, deniers):
        super().__init__(p)
        self.getters = getters
        self.deniers = deniers
        self.viol = []
        self.sites = 0

    def relevant(self, t):
        return False

    def is_value(self, e, fr):
        for t in trace(self.p, e, fr.func):
            if not isinstance(t[0], str) and isinstance(t[0], ast.Call) and any(x in self.getters for x in self.p.callees(t[0], t[1], t[1].cls)):
                return True
        return False

    def on_test(self, test, truth, st, fr):
        k, pol = test_key(test)
        e = test
        while isinstance(e, ast.UnaryOp):
            e = e.operand
        if k[0] == 'none' and isinstance(e, ast.Compare) and self.is_value(e.left, fr) and truth == pol:
            return True
        if k[0] == 't' and self.is_value(e, fr) and truth != pol:
            return True
        return st

    def on_call(self, call, targets, st, fr):
        if any(t in self.deniers for t in targets):
            self.sites += 1
            if st:
                self.viol.append((call, fr))
        return None


def _n02_exists(ctx, ns):
    p = ctx.p
    env = p.cls('Environment', 'marcel.env')
    getters = {m for m in [env.find('getvar'), ns.vh.find('getvar')] if m is not None}
    def denies(m):
        return any(isinstance(x, ast.Constant) and isinstance(x.value, str) and ('undefined' in x.value or 'not defined' in x.value or 'no such var' in x.value.lower())
                   for x in own_nodes(m.node)) and any(isinstance(x, ast.Raise) for x in own_nodes(m.node))
    mods = [f for f in p.functions if f.module.name == 'marcel.op.env']
    deniers = {f for f in mods if denies(f)}
    for f in mods:
        if any(isinstance(c, ast.Call) and any(t in getters for t in p.callees(c, f, f.cls)) for c in own_nodes(f.node)):
            ts = ExistsTS(p, getters, deniers)
            o = ts.run_function(f, f.cls, False)
            ctx.count('readers of a variable by name')
            if ts.viol or f in deniers and any(k[0] for k in o['exc']):
                ctx.bad('exists', f.qualname, f, f'{f.name} reports a variable whose value is None as not existing', ts.viol[0][0] if ts.viol else f.node)
            else:
                ctx.ok('exists', f.qualname)


def _n02_inherited(ctx, ns):
    for need in ('__setitem__', '__delitem__'):
        if ns.ns.find(need) is None:
            ctx.bad('paired', f'{ns.ns.qualname}.{need}', ns.ns, f'the namespace inherits {need} of dict, which changes only the view that functions see')
        else:
            ctx.ok('paired', f'{ns.ns.qualname}.{need}', 'overridden')


def _n02_bypass(ctx, ns):
    p = ctx.p
    n = 0
    for f in p.functions:
        if f.cls is ns.ns or (f.parent is not None and f.cls is ns.ns):
            continue
        for c in own_nodes(f.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in DICT_MUT and ns.is_namespace(c.func.value, f):
                n += 1
                if ns.ns.find(c.func.attr) is None:
                    ctx.bad('bypass', f'{f.qualname}:{c.func.attr}', f, f'{ast.unparse(c)[:70]} uses {c.func.attr} of dict: it changes what functions see, '
                            'but not what is saved', c)
                else:
                    ctx.ok('bypass', f.qualname)
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == 'dict' and \
                    c.func.attr in DICT_MUT and c.args and ns.is_namespace(c.args[0], f):
                ctx.bad('bypass', f'{f.qualname}:{c.func.attr}', f, f'{ast.unparse(c)[:70]} changes what functions see, but not what is saved', c)
            if isinstance(c, ast.Attribute) and c.attr == ns.stack and isinstance(c.ctx, ast.Load) and f.module.name.startswith('marcel.op.') and \
                    ns.is_namespace(c.value, f):
                ctx.bad('bypass', f'{f.qualname}:{ns.stack}', f, 'an operator looks at the variables of one scope, not at those in effect', c)
            # direct changes of scopes
            if isinstance(c, ast.Attribute) and c.attr == ns.stack and isinstance(c.ctx, ast.Load) and ns.is_namespace(c.value, f):
                n += 1
    ctx.count('uses of the namespace outside it', n)


class RecTS(Base):
    max_depth = 4

    def __init__(self, p, ns, attrs, cls):
        super().__init__(p)
        self.ns = ns
        self.attrs = attrs
        self.owner = cls
        self.viol = []

    def may_raise(self, call, targets, fr):
        return False

    def relevant(self, t):
        return t.cls is not None and self.owner.derives(t.cls)

    def mutates(self, call, fr):
        f = call.func
        if isinstance(f, ast.Attribute) and self.ns.is_namespace(f.value, fr.func, fr.cls):
            m = self.ns.ns.find(f.attr)
            if f.attr in ('pop', '__delitem__', 'popitem', 'clear'):
                return 'delete'
            if m is not None and (f.attr.startswith('assign') or f.attr in ('__setitem__', 'update')) or f.attr == 'setdefault':
                return 'import' if 'import' in f.attr else 'assign'
        return None

    # state: (checked, changed, recorded)
    def on_call(self, call, targets, st, fr):
        m = self.mutates(call, fr)
        if m:
            return [self.change(m, call, st, fr)]
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Attribute) and f.value.attr in self.attrs and f.attr in ('add', 'update', 'append', '__setitem__', 'setdefault'):
            return [(st[0], st[1], True)]
        if self.is_check(targets):
            return [(True, st[1], st[2])]
        return None

    def is_check(self, targets):
        return any(isinstance(t, FuncInfo) and t is self.check for t in targets)

    check = None

    def change(self, m, node, st, fr):
        if not st[0]:
            self.viol.append((m, node, fr))
        return (st[0], m, st[2])

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Subscript):
            if self.ns.is_namespace(target.value, fr.func, fr.cls):
                return [self.change('assign', target, st, fr)]
            if isinstance(target.value, ast.Attribute) and target.value.attr in self.attrs:
                return [(st[0], st[1], True)]
        if isinstance(target, ast.Attribute) and target.attr in self.attrs and value is None:
            return [(st[0], st[1], True)]
        return [st]

    def on_del(self, target, st, fr):
        if isinstance(target, ast.Subscript) and self.ns.is_namespace(target.value, fr.func, fr.cls):
            return [self.change('delete', target, st, fr)]
        return [st]


def change_attrs(p, ns):
    """attributes of VarHandler that changes() reads and that are collections"""
    ch = ns.vh.find('changes')
    if ch is None:
        raise AnalysisBroken('VarHandler.changes not found')
    out = set()
    todo, seen = [ch], set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == f.self_name():
                for g, v in ns.vh.all_attr_assigns(n.attr):
                    if g.name == '__init__' and (isinstance(v, (ast.Set, ast.List, ast.Dict)) or isinstance(v, ast.Call) and dotted(v.func) in ('set', 'list', 'dict', 'OrderedDict', 'collections.OrderedDict')):
                        out.add(n.attr)
            if isinstance(n, ast.Call):
                for t in p.callees(n, f, ns.vh):
                    if isinstance(t, FuncInfo) and t.cls is ns.vh:
                        todo.append(t)
    return ch, out


def var_mutators(p, ns):
    """methods of VarHandler (and its subclasses) which change one variable of the namespace, named by a parameter"""
    out = []
    for c in p.subclasses(ns.vh):
        for name, f in sorted(c.methods.items()):
            ts = RecTS(p, ns, set(), c)
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    m = ts.mutates(n, _fr(f, c))
                    k = n.args[0] if n.args else next((x.value for x in n.keywords), None)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and ns.is_namespace(n.value, f, c):
                    m, k = 'assign', n.slice
                else:
                    continue
                if m and k is not None and any(o in f.params for o in origin(p, k, f)):
                    if f not in out:
                        out.append(f)
    return out


class _F:
    pass


def _fr(f, c):
    fr = _F()
    fr.func, fr.cls, fr.binds = f, c, {}
    return fr


def _n02_recorded(ctx, ns):
    p = ctx.p
    ch, attrs = change_attrs(p, ns)
    if not attrs:
        raise AnalysisBroken('the records of changed variables were not found')
    muts = var_mutators(p, ns)
    ctx.count('methods changing variables', len(muts))
    ctx.need('methods changing variables', 2)
    for f in muts:
        if 'permanent' in f.name:
            continue
        ts = RecTS(p, ns, attrs, f.cls)
        o = ts.run_function(f, f.cls, (False, None, False))
        bad = False
        for (st, fa, rv), line in o['ret'].items():
            if st[1] and not st[2]:
                bad = True
                ctx.bad('recorded', f.qualname, f, f'{f.name} changes a variable ({st[1]}) on a path that does not record the change, so it is not returned from a job', line)
        kinds = {k[0][1] for k in o['ret'] if k[0][1]}
        if kinds & {'assign', 'import'} and any(not k[0][1] for k in o['ret']):
            bad = True
            ctx.bad('effective', f.qualname, f, f'{f.name} returns on some path without having assigned the variable')
        if not bad:
            ctx.ok('recorded', f.qualname)
    cl = ns.vh.find('clear_changes')
    if cl is None:
        raise AnalysisBroken('VarHandler.clear_changes not found')
    for a in sorted(attrs):
        ok = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'clear' and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == a
                 or isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == a for t in n.targets) for n in own_nodes(cl.node))
        (ctx.ok if ok else lambda r, k: ctx.bad(r, k, cl, f'clear_changes does not clear {a}: changes of an earlier command are reported again'))('cleared', a)


def _conds(f, node, sense=True):
    """conjunction of normalised tests under which `node` is reached in f (structural)"""
    out = []

    def walk(body, conds):
        for s in body:
            if any(x is node for x in ast.walk(s)):
                if isinstance(s, ast.If):
                    if any(x is node for b in s.body for x in ast.walk(b)):
                        walk(s.body, conds + [(s.test, True)])
                    else:
                        walk(s.orelse, conds + [(s.test, False)])
                else:
                    for fld in ('body', 'orelse', 'finalbody'):
                        b = getattr(s, fld, None)
                        if b and any(x is node for y in b for x in ast.walk(y)):
                            walk(b, conds)
                            return
                    for h in getattr(s, 'handlers', []):
                        if any(x is node for x in ast.walk(h)):
                            walk(h.body, conds)
                            return
                    out.extend(conds)
                return
            if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                conds = conds + [(s.test, False)]
    walk(f.body, [])
    return out


def _norm(conds, f, key):
    """set of frozensets (DNF) of normalised literals; parameter `key` renamed"""
    def lit(e, sense):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return lit(e.operand, not sense)
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And) == sense
            parts = [lit(v, sense) for v in e.values]
            if isand:
                res = [frozenset()]
                for q in parts:
                    res = [a | b for a in res for b in q]
                return res
            return [x for q in parts for x in q]
        k, pol = test_key(e)
        txt = ast.unparse(e)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            neg = isinstance(op, (ast.IsNot, ast.NotIn, ast.NotEq))
            if neg:
                e2 = ast.Compare(left=e.left, ops=[{ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.NotEq: ast.Eq}[type(op)]()], comparators=e.comparators)
                txt = ast.unparse(e2)
                sense = not sense
        toks = txt.replace('(', ' ( ').replace(')', ' ) ').split()
        txt = ' '.join('$key' if t == key else t for t in toks)
        if f.self_name() and f.self_name() != 'self':
            txt = txt.replace(f.self_name() + '.', 'self.')
        return [frozenset({(txt, sense)})]
    res = [frozenset()]
    for e, s in conds:
        res = [a | b for a in res for b in lit(e, s)]
    return frozenset(res)


def _n02_same_place(ctx, ns):
    """condition under which Scope stores locally == condition under which it deletes locally"""
    p = ctx.p
    store = dele = None
    for f in ns.scope.methods.values():
        key = f.params[1] if len(f.params) > 1 else None
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__setitem__' and isinstance(n.func.value, ast.Call) and dotted(n.func.value.func) == 'super':
                store = (f, n, _norm(_conds(f, n), f, key))
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Del) and isinstance(n.value, ast.Name) and n.value.id == f.self_name():
                dele = (f, n, _norm(_conds(f, n), f, key))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('__delitem__', 'pop') and isinstance(n.func.value, ast.Call) and dotted(n.func.value.func) == 'super':
                dele = (f, n, _norm(_conds(f, n), f, key))
    if store is None or dele is None:
        ctx.notes.append('same-place: the local store or the local deletion of Scope has an unrecognised form: not decided')
        return
    ctx.count('scope lookups')
    for g in {store[0], dele[0]}:
        ts = PlaceTS(p, ns)
        o = ts.run_function(g, ns.scope, False)
        if any(not k[0] for k in o['ret']):
            ctx.bad('same-place', f'{g.qualname}:neither', g, f'{g.name} neither acts on this scope nor passes the variable on to the enclosing one on some path')
        else:
            ctx.ok('same-place', g.qualname, 'acts here or in the enclosing scope on every path')
    if store[2] == dele[2]:
        ctx.ok('same-place', ns.scope.qualname, 'assignment and deletion agree')
    else:
        ctx.bad('same-place', ns.scope.qualname, dele[0], f'{store[0].name} keeps a variable in this scope under a condition other than the one under which {dele[0].name} deletes it there', dele[1])


class PlaceTS(Base):
    """state: did Scope.store/delete act, here or in the parent?"""

    def __init__(self, p, ns):
        super().__init__(p)
        self.ns = ns

    def may_raise(self, call, targets, fr):
        return False

    def relevant(self, t):
        return t.cls is self.ns.scope

    def on_call(self, call, targets, st, fr):
        f = call.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and dotted(f.value.func) == 'super' and f.attr in ('__setitem__', '__delitem__', 'pop'):
                return [True]
            if isinstance(f.value, ast.Name) and f.value.id == fr.func.self_name() and f.attr == 'pop':
                return [True]
            if any(isinstance(x, ast.Attribute) and x.attr == 'parent' for x in ast.walk(f.value)) or \
                    isinstance(f.value, ast.Name) and any('parent' in o.split('.') for o in origin(self.p, f.value, fr.func)):
                return [True]
        return None

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Subscript) and not isinstance(target.value, ast.Subscript):
            return [True]
        return [st]

    def on_del(self, target, st, fr):
        return [True] if isinstance(target, ast.Subscript) else [st]

    def on_test(self, test, truth, st, fr):
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(test.comparators[0], ast.Name) and test.comparators[0].id == fr.func.self_name():
            if isinstance(test.ops[0], ast.NotIn) == truth:
                return True
        return st


def tests_picklability(p, e, f, cls=None):
    """does the value of e come from an attempt to pickle something? (negations allowed, nothing else)"""
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e = e.operand
    if isinstance(e, ast.Name):
        vs = [v for v in f.local_assigns().get(e.id, []) if isinstance(v, ast.AST)]
        return bool(vs) and all(tests_picklability(p, v, f, cls) for v in vs)
    if isinstance(e, ast.BoolOp):
        return all(tests_picklability(p, v, f, cls) for v in e.values)
    if not isinstance(e, ast.Call):
        return False
    c = {}
    tt = p.callees(e, f, cls or f.cls)
    if isinstance(e.func, ast.Attribute) and not any(isinstance(t, FuncInfo) for t in tt):
        tt = [m for k in p.classes for n, m in k.methods.items() if n == e.func.attr]
    return any(isinstance(t, FuncInfo) and reach_names(p, t, lambda c, g: isinstance(c.func, ast.Attribute) and c.func.attr == 'dumps', c) for t in tt)


def _n02_saved(ctx, ns):
    p = ctx.p
    f = ns.ns.find('to_persistent_state')
    if f is None:
        raise AnalysisBroken('NestedNamespace.to_persistent_state not found')
    # every variable of a scope: the loop that fills the state skips only what cannot be pickled
    for lp in own_nodes(f.node):
        if isinstance(lp, (ast.For, ast.comprehension)):
            if isinstance(lp, ast.For):
                inner = {id(x) for s in lp.body for y in ast.walk(s) if isinstance(y, (ast.For, ast.While)) for x in ast.walk(y) if x is not y}
                tests = [n for s in lp.body for n in ast.walk(s) if isinstance(n, (ast.If, ast.IfExp)) and id(n) not in inner]
                tests = [(n, n.test) for n in tests]
            else:
                tests = [(c, c) for c in lp.ifs]
            bad = [n for n, t in tests if not tests_picklability(p, t, f)]
            if bad:
                ctx.bad('saved', f.qualname, f, 'some variables are left out of what is saved and transmitted', bad[0])
            else:
                ctx.ok('saved', f.qualname)
            ctx.count('save loops')
    ctx.need('save loops', 1)


# ------------------------------------------------------------------------------------------------ N03
def const_strings(e):
    return {n.value for n in ast.walk(e) if isinstance(n, ast.Constant) and isinstance(n.value, str)}


def check_N03(ctx):
    p = ctx.p
    ns = NS(p)
    ctx.rule('guarded', 'a method that changes a variable has called the mutability check, for that variable, on every path before the change')
    ctx.rule('check', 'the mutability check raises whenever enforcement is on and the variable is owned by marcel or its startup script')
    ctx.rule('enforced', 'enforcement is on whenever a user command is executed')
    ctx.rule('kept', 'a variable registered as immutable stays so, unless the startup script that defined it is read again')
    ctx.rule('covered', 'every variable that describes marcel\'s own state is registered as immutable')
    ctx.rule('unchecked', 'changes that bypass the check are made only by marcel\'s startup or concern constant, owned variables')
    ctx.rule('startup', 'the startup script is checked for assignments to the variables that may never be changed')
    chk = _find_check(p, ns)
    flag, owned = _check_body(ctx, p, ns, chk)
    # guarded
    muts = var_mutators(p, ns)
    ctx.count('methods changing variables', len(muts))
    ctx.need('methods changing variables', 2)
    for f in muts:
        ts = RecTS(p, ns, set(), f.cls)
        ts.check = chk
        ts.run_function(f, f.cls, (False, None, False))
        if ts.viol:
            m, node, fr = ts.viol[0]
            ctx.bad('guarded', f.qualname, f, f'{f.name} changes a variable ({m}) on a path on which the mutability check was not made', node)
        else:
            # for that variable
            okv = True
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call) and chk in p.callees(n, f, f.cls):
                    a = n.args[0] if n.args else next((k.value for k in n.keywords), None)
                    if a is None or not (origin(p, a, f) & set(f.params)):
                        okv = False
            if okv:
                ctx.ok('guarded', f.qualname)
            else:
                ctx.bad('guarded', f.qualname, f, f'{f.name} checks something other than the variable it changes')
    _n03_kept(ctx, p, ns)
    _n03_sets(ctx, p, ns)
    _n03_unchecked(ctx, p, ns)
    _n03_enforced(ctx, p, ns, flag)
    _n03_startup(ctx, p)


def _find_check(p, ns):
    """the method of VarHandler that tests membership in the immutable set and raises"""
    for f in ns.vh.methods.values():
        if any(isinstance(n, ast.Raise) for n in own_nodes(f.node)) and any(
                isinstance(n, ast.Attribute) and 'immutab' in n.attr for n in own_nodes(f.node)) and len(f.params) >= 2 and not any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.startswith('assign') for n in own_nodes(f.node)):
            return f
    f = ns.vh.find('check_mutability')
    if f is None:
        raise AnalysisBroken('the mutability check was not found')
    return f


def _registrar(p, ns):
    f = ns.vh.find('add_immutable_vars')
    if f is None:
        env = p.cls('Environment', 'marcel.env')
        for g in env.methods.values():
            for n in own_nodes(g.node):
                if isinstance(n, ast.Call) and {'HOME', 'USER'} <= const_strings(n):
                    for t in p.callees(n, g, env):
                        if isinstance(t, FuncInfo) and t.cls is ns.vh:
                            return t
    return f


def owned_attrs(p, ns):
    """the attributes in which the variables owned by marcel are registered"""
    f = _registrar(p, ns)
    out = set()
    if f is None:
        return out
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('update', 'add', 'union') and isinstance(n.func.value, ast.Attribute):
            out.add(n.func.value.attr)
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Attribute):
                    out.add(t.attr)
    return out


def _n03_kept(ctx, p, ns):
    owned = owned_attrs(p, ns)
    for c in p.subclasses(ns.vh):
        for f in c.methods.values():
            if f.name == '__init__':
                continue
            for n in own_nodes(f.node):
                bad = None
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr in owned:
                            keeps = any(isinstance(x, ast.Attribute) and x.attr == t.attr for x in ast.walk(n.value))
                            if not keeps:
                                bad = f'{f.name} replaces the set of variables that must not be changed'
                            elif isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Sub):
                                bad = _removed(p, f, n.value.right, c)
                            else:
                                ctx.ok('kept', f.qualname)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and n.target.attr in owned:
                    if isinstance(n.op, ast.Sub):
                        bad = _removed(p, f, n.value, c)
                    elif not isinstance(n.op, ast.BitOr):
                        bad = f'{f.name} removes variables from those that must not be changed'
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and n.func.value.attr in owned:
                    if n.func.attr in ('clear', 'pop', 'intersection_update', 'symmetric_difference_update'):
                        bad = f'{f.name} removes variables from those that must not be changed'
                    elif n.func.attr in ('discard', 'remove', 'difference_update') and n.args:
                        bad = _removed(p, f, n.args[0], c)
                else:
                    continue
                if bad:
                    ctx.bad('kept', f.qualname, f, bad, n)
    family = set(p.subclasses(ns.vh)) | {ns.vh}
    for f in p.functions:
        if f.cls in family:
            continue
        for n in own_nodes(f.node):
            hit = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and n.func.value.attr in owned and \
                    n.func.attr in ('clear', 'pop', 'intersection_update', 'symmetric_difference_update', 'discard', 'remove', 'difference_update'):
                hit = n
            elif isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute) and t.attr in owned and not (isinstance(n, ast.AugAssign) and isinstance(n.op, ast.BitOr)):
                        hit = n
            if hit is not None:
                ctx.bad('kept', f.qualname, f, f'{f.name} removes variables from those that must not be changed', hit)
    # what will be removed when the startup script is read again does not include variables of marcel
    sub = set()
    for c in p.subclasses(ns.vh):
        for f in c.methods.values():
            for n in own_nodes(f.node):
                e = None
                if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Sub) and isinstance(n.target, ast.Attribute) and n.target.attr in owned:
                    e = n.value
                elif isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Sub) and any(
                        isinstance(t, ast.Attribute) and t.attr in owned for t in n.targets):
                    e = n.value.right
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'difference_update' and \
                        isinstance(n.func.value, ast.Attribute) and n.func.value.attr in owned and n.args:
                    e = n.args[0]
                if isinstance(e, ast.Attribute):
                    sub.add(e.attr)
    for c in p.subclasses(ns.vh):
        for f in c.methods.values():
            if f.name == '__init__':
                continue
            for n in own_nodes(f.node):
                if not (isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr in sub for t in n.targets)):
                    continue
                if isinstance(n.value, ast.Call) and not n.value.args or isinstance(n.value, (ast.Set, ast.List)) and not n.value.elts:
                    continue
                removing = set()
                for m in own_nodes(f.node):
                    if isinstance(m, (ast.Assign, ast.AugAssign)) and any(
                            isinstance(t, ast.Attribute) and t.attr in owned for t in (m.targets if isinstance(m, ast.Assign) else [m.target])):
                        removing |= {id(x) for x in ast.walk(m)}
                    if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr in ('update', 'difference_update', 'add', 'discard'):
                        removing |= {id(x) for x in ast.walk(m.func)}
                if any(isinstance(x, ast.Attribute) and x.attr in owned and isinstance(x.ctx, ast.Load) and id(x) not in removing for x in own_nodes(f.node)):
                    ctx.ok('kept', f.qualname + ':startup')
                else:
                    ctx.bad('kept', f.qualname + ':startup', f, 'variables owned by marcel that the startup script also assigns can be changed after the script is read again', n)
    ctx.count('registers of immutable variables', len(owned))
    ctx.ok('kept', ','.join(sorted(owned)) or 'none')


def _removed(p, f, e, cls):
    """only what the startup script of the workspace defined may be removed (before it is read again)"""
    os_ = origin(p, e, f)
    if any('config' in part for o in os_ for part in o.split('.')) or any(isinstance(x, ast.Attribute) and 'config' in x.attr for x in ast.walk(e)):
        return None
    for lp in own_nodes(f.node):
        if isinstance(lp, ast.For) and isinstance(e, ast.Name) and any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(lp.target)) and \
                any(isinstance(x, ast.Attribute) and 'config' in x.attr for x in ast.walk(lp.iter)):
            return None
    return f'{f.name} removes variables other than those of the startup script from those that must not be changed'


class CheckTS(Base):
    """state: (flag truth, member truth), None = unknown"""
    owned = frozenset()

    def __init__(self, p, owner):
        super().__init__(p)
        self.owner = owner

    def may_raise(self, call, targets, fr):
        return False

    def relevant(self, t):
        return t.cls is not None and self.owner.derives(t.cls)

    def on_test(self, test, truth, st, fr):
        e = test
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, truth = e.operand, not truth
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
            if isinstance(e.ops[0], ast.NotIn):
                truth = not truth
            c = e.comparators[0]
            if self.owned and not (isinstance(c, ast.Attribute) and c.attr in self.owned or
                                   isinstance(c, ast.Name) and any(set(o.split('.')) & self.owned for o in origin(self.p, c, fr.func))):
                return st              # says nothing about whether the variable is owned
            return (st[0], 'T' if truth else 'F')
        if isinstance(e, ast.Attribute):
            return ('T' if truth else 'F', st[1])
        if isinstance(e, ast.Compare) and isinstance(e.left, ast.Attribute) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and isinstance(e.comparators[0].value, bool):
            v = e.comparators[0].value
            if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
                v = not v
            return ('T' if truth == v else 'F', st[1])
        return st


def _check_body(ctx, p, ns, chk):
    ts = CheckTS(p, ns.vh)
    ts.owned = owned_attrs(p, ns)
    o = ts.run_function(chk, ns.vh, ('?', '?'))
    ctx.count('paths of the check', len(o['ret']) + len(o['exc']))
    bad = False
    if not o['exc']:
        bad = True
        ctx.bad('check', chk.qualname, chk, 'the mutability check never raises')
    for (st, fa, rv), line in o['ret'].items():
        if 'F' not in st:
            bad = True
            ctx.bad('check', chk.qualname, chk, 'the mutability check returns normally on a path on which the variable may be owned by marcel', line)
    attrs = [n.attr for n in own_nodes(chk.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == chk.self_name()]
    todo = [chk]
    for n in own_nodes(chk.node):
        if isinstance(n, ast.Call):
            todo += [t for t in p.callees(n, chk, ns.vh) if isinstance(t, FuncInfo) and t.cls is ns.vh]
    for g in todo[1:]:
        attrs += [n.attr for n in own_nodes(g.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == g.self_name()]
    flag = None
    for a in attrs:
        vals = [v for _, v in ns.vh.all_attr_assigns(a)]
        if any(isinstance(v, ast.Constant) and isinstance(v.value, bool) for v in vals):
            flag = a
    if flag is None:
        raise AnalysisBroken('the enforcement flag was not found')
    if not bad:
        ctx.ok('check', chk.qualname, f'{len(o["exc"])} raising paths')
    return flag, attrs


def _n03_sets(ctx, p, ns):
    env = p.cls('Environment', 'marcel.env')
    imm = set()
    for f in env.methods.values():
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_immutable_vars':
                for a in n.args:
                    imm |= const_strings(a)
                    if isinstance(a, (ast.Name, ast.Attribute)):
                        r = p.resolve_global(a, f.module, env)
                        if isinstance(r, ast.AST):
                            imm |= const_strings(r)
                        for v in f.local_assigns().get(getattr(a, 'id', ''), []):
                            if v is not None:
                                imm |= const_strings(v)
                        if isinstance(a, ast.Attribute) and env.find_attr(a.attr) is not None:
                            imm |= const_strings(env.find_attr(a.attr))
    ctx.count('immutable variables', len(imm))
    ctx.need('immutable variables', 5)
    nm = env.find('never_mutable')
    never = set()
    if nm is not None:
        for n in own_nodes(nm.node):
            if isinstance(n, ast.Return) and n.value is not None:
                never |= const_strings(n.value)
    ctx.count('variables that may never change', len(never))
    perm = set()
    f = env.find('initial_namespace')
    if f is None:
        raise AnalysisBroken('Environment.initial_namespace not found')
    for n in own_nodes(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            perm.add(n.slice.value)
        if isinstance(n, ast.Dict):
            perm |= {k.value for k in n.keys if isinstance(k, ast.Constant) and isinstance(k.value, str)}
    ctx.count('variables created by marcel', len(perm))
    for v in sorted(never | {x for x in perm if x.isupper()} | ns_unchecked_names(p, ns)):
        if v in imm:
            ctx.ok('covered', v)
        else:
            ctx.bad('covered', v, env, f'{v} describes marcel\'s own state, but it is not registered as immutable')
    # the documented set: what only marcel knows must be protected from the startup script too
    for v in ('MARCEL_VERSION', 'HOME', 'USER', 'HOST', 'WORKSPACE'):
        if nm is not None and v not in never and v in perm:
            ctx.bad('covered', 'never:' + v, nm, f'the startup script may change {v}')


def _perm_calls(p, ns):
    """calls that change the namespace without the check: *permanent methods, and direct changes"""
    for f in p.functions:
        if f.cls is ns.ns:
            continue
        for c in own_nodes(f.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute):
                t = p.callees(c, f, f.cls)
                if ns.is_namespace(c.func.value, f) and ns.ns.find(c.func.attr) is not None and (
                        c.func.attr.startswith('assign') or c.func.attr in ('update', 'update_permanent', '__setitem__', '__delitem__')):
                    yield f, c, 'namespace'
                elif c.func.attr == 'assign_permanent' and any(isinstance(x, FuncInfo) and x.cls is not None and x.cls.name.startswith('Environment') for x in t):
                    yield f, c, 'env'
            elif isinstance(c, ast.Subscript) and isinstance(c.ctx, (ast.Store, ast.Del)) and ns.is_namespace(c.value, f):
                yield f, c, 'subscript'


def ns_unchecked_names(p, ns):
    out = set()
    for f, c, kind in _perm_calls(p, ns):
        if kind == 'env' and c.args and isinstance(c.args[0], ast.Constant):
            out.add(c.args[0].value)
    return out


STARTUP = {'open', 'create', 'add_to_namespace', 'from_persistent_state', '__setstate__', 'ensure_initialized', 'initial_namespace'}


def _startup_only(p, f, seen=None):
    """is f reached only from the functions that create environments and open workspaces?"""
    seen = seen or set()
    if f.name in STARTUP:
        return True
    if f in seen:
        return True
    seen.add(f)
    callers = [g for g in p.functions if g is not f and any(isinstance(c, ast.Call) and f in p.callees(c, g, g.cls) for c in own_nodes(g.node))]
    return bool(callers) and all(_startup_only(p, g, seen) for g in callers)


def _n03_unchecked(ctx, p, ns):
    for f, c, kind in _perm_calls(p, ns):
        ctx.count('unchecked changes')
        key = f'{f.qualname}'
        if f.cls is not None and f.cls.derives(ns.vh) and kind in ('namespace', 'subscript') and f in var_mutators(p, ns):
            continue           # judged by 'guarded'
        if kind == 'subscript':
            if _startup_only(p, f):
                ctx.ok('unchecked', key)
            else:
                ctx.bad('unchecked', key, f, f'{ast.unparse(c)} is changed without the mutability check', c)
            continue
        a = c.args[0] if c.args else None
        if isinstance(a, ast.Constant):
            ctx.ok('unchecked', f'{key}:{a.value}', 'constant, owned variable')
        elif _startup_only(p, f):
            ctx.ok('unchecked', key, 'startup')
        elif f.cls is not None and f.cls.name.startswith('Environment') and f.name == c.func.attr:
            ctx.ok('unchecked', key, 'wrapper, its callers are judged')
        else:
            ctx.bad('unchecked', key, f, f'{ast.unparse(c)[:70]} changes a variable named at run time without the mutability check', c)


class EnforceTS(Base):
    """state: 'E' enforced / 'U' not"""
    max_depth = 9

    def __init__(self, p, flag):
        super().__init__(p)
        self.flag = flag
        self.viol = []

    def pred(self, c, f):
        if isinstance(c.func, ast.Attribute) and c.func.attr in ('parse_and_run_command', 'execute_command', 'execute', 'create_job'):
            return True
        return any(isinstance(t, FuncInfo) and t in self.marks for t in self.p.callees(c, f, f.cls))

    def relevant(self, t):
        if t in self.marks:
            return True
        return reach_names(self.p, t, self.pred, self.rcache)

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute) and target.attr == self.flag and isinstance(value, ast.Constant):
            return ['E' if value.value else 'U']
        return [st]

    def on_call(self, call, targets, st, fr):
        for t in targets:
            if isinstance(t, FuncInfo) and t.name == 'parse_and_run_command':
                if st != 'E' and not any(g.func.name == 'run_startup_scripts' for g in fr.chain()):
                    self.viol.append((call, fr))
                return [st, ('exc', st, 'B'), ('exc', st, self.reconf)] if self.reconf else [st, ('exc', st, 'B')]
        return None

    reconf = None


def _n03_enforced(ctx, p, ns, flag):
    setters = {f for c in p.subclasses(ns.vh) for f in c.methods.values() for n in own_nodes(f.node)
               if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == flag for t in n.targets) and f.name != '__init__'}
    if not any(isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is True for f in setters for n in own_nodes(f.node)):
        raise AnalysisBroken('nothing turns enforcement on')
    # nothing but opening a workspace may turn it off
    for f in sorted(setters, key=lambda f: f.qualname):
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == flag for t in n.targets):
                if isinstance(n.value, ast.Constant) and n.value.value is True:
                    ctx.ok('enforced', f.qualname)
                elif _startup_only(p, f):
                    ctx.ok('enforced', f.qualname, 'reset when a workspace is opened')
                else:
                    ctx.bad('enforced', f.qualname + ':off', f, f'{f.name} turns enforcement off', n)
    for f in p.functions:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and f not in setters and f.name != '__init__' and any(isinstance(t, ast.Attribute) and t.attr == flag for t in n.targets):
                ctx.bad('enforced', f.qualname + ':off', f, f'{f.name} changes the enforcement flag directly', n)
    try:
        reconf = p.cls('ReconfigureException')
    except AnalysisBroken:
        reconf = None
    n = 0
    main = p.module('marcel.main')
    entry = [f for f in main.functions.values() if f.name in ('main_interactive_run', 'main_script_run')] or \
            [f for f in main.functions.values() if f.name == 'main']
    if not entry:
        raise AnalysisBroken('no entry point of marcel was found')
    for f in entry:
        n += 1
        ts = EnforceTS(p, flag)
        ts.marks = setters
        ts.reconf = reconf
        ts.run_function(f, None, 'U')
        if ts.viol:
            c, fr = ts.viol[0]
            ctx.bad('enforced', f.qualname, fr.func, f'{f.name}: a command is executed on a path on which variables owned by marcel are not protected', c)
        else:
            ctx.ok('enforced', f.qualname)
    api = p.module('marcel.api')
    for f, what in [(g, 'the API') for g in api.all_functions if g.name == 'ensure_initialized'] + \
            [(p.cls('Environment', 'marcel.env').find('__setstate__'), 'a child process')]:
        if f is None:
            continue
        n += 1
        ts = EnforceTS(p, flag)
        ts.marks = setters
        o = ts.run_function(f, f.cls, 'U')
        created = {k for k in o['ret'] if k[0] == 'U'}
        # a path on which nothing was created needs nothing
        if any(not _guard_skips(f, k) for k in created):
            ctx.bad('enforced', f.qualname, f, f'{what} starts with variables owned by marcel unprotected')
        else:
            ctx.ok('enforced', f.qualname)
    ctx.count('entry points', n)
    ctx.need('entry points', 3)


def _guard_skips(f, key):
    """the path skipped the initialisation (already initialised)"""
    if f.name != 'ensure_initialized':
        return False
    return any(x[1] is not None and 'initialized' in str(x[0]) for x in key[1]) or _all_in_guard(f)


def _all_in_guard(f):
    b = [s for s in f.body if not isinstance(s, ast.Expr)]
    return len(b) == 1 and isinstance(b[0], ast.If) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and 'enforce' in c.func.attr
                                                            for s in b[0].body for c in ast.walk(s) if not isinstance(s, (ast.If, ast.For, ast.While)))


def _n03_startup(ctx, p):
    c = p.cls('ConfigScript')
    ok = False
    for f in c.methods.values():
        names = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr == 'never_mutable' for x in ast.walk(n.value)):
                names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        changed = True
        while changed:
            changed = False
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.value)):
                    new = {t.id for t in n.targets if isinstance(t, ast.Name)} - names
                    if new:
                        names |= new
                        changed = True
                if isinstance(n, ast.For) and (any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.iter)) or
                                               any(isinstance(x, ast.Attribute) and x.attr == 'never_mutable' for x in ast.walk(n.iter))):
                    new = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)} - names
                    if new:
                        names |= new
                        changed = True
        for n in own_nodes(f.node):
            if isinstance(n, ast.If) and (any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.test)) or
                                          any(isinstance(x, ast.Attribute) and x.attr == 'never_mutable' for x in ast.walk(n.test))):
                if any(isinstance(x, ast.Raise) for b in n.body + n.orelse for x in ast.walk(b)):
                    ok = True
                    where = f
    if ok:
        ctx.ok('startup', where.qualname)
    else:
        ctx.bad('startup', c.qualname, c, 'a startup script that assigns a variable that may never change is not rejected')


# ------------------------------------------------------------------------------------------------ N05
class ChildTS(Base):
    """state: (executed, captured 0/1, sent 0/1/2, closed)"""
    max_depth = 5

    def __init__(self, p, writer, root):
        super().__init__(p)
        self.writer = writer
        self.root = root
        self.viol = []

    def relevant(self, t):
        return t.module is self.root.module and reach_names(self.p, t, lambda c, f: isinstance(c.func, ast.Attribute) and c.func.attr in ('send', 'close', 'execute', 'changes', 'run_pipeline'), self.rcache)

    def may_raise(self, call, targets, fr):
        f = call.func
        if isinstance(f, ast.Name) and f.id in ('debug', 'print', 'dump') or isinstance(f, ast.Attribute) and f.attr in ('debug', 'keys', 'print_to_stderr', 'changes', 'dumps', 'print_stack_of_current_exception'):
            return False
        if isinstance(f, ast.Name) and f.id in ('list', 'len', 'set', 'dict', 'sorted', 'tuple') or tests_picklability(self.p, call, fr.func):
            return False
        return super().may_raise(call, targets, fr)

    def is_writer(self, e, fr):
        n = e
        f = fr
        while isinstance(n, ast.Name) and f is not None and f.caller is not None and n.id in f.func.params and f.site is not None:
            i = f.func.params.index(n.id)
            if i >= len(f.site.args):
                break
            n = f.site.args[i]
            f = f.caller
        return isinstance(n, ast.Name) and n.id in self.writer

    def on_call(self, call, targets, st, fr):
        ex, cap, sent, closed = st
        f = call.func
        if isinstance(f, ast.Attribute):
            if f.attr == 'execute' or f.attr == 'run_pipeline':
                s = (True, 0, sent, closed)
                return [s, ('exc', s, 'E'), ('exc', s, 'B')] + [('exc', s, k) for k in self.kinds]
            if f.attr == 'changes':
                return [('rv', (ex, 1, sent, closed), '?')]
            if f.attr == 'send' and self.is_writer(f.value, fr):
                if closed:
                    self.viol.append(('closed', call, fr, 'changes are sent after the channel was closed'))
                if ex and not cap:
                    self.viol.append(('stale', call, fr, 'what is sent was not taken from the environment after the command ended'))
                return [(ex, cap, min(2, sent + 1), closed)]
            if f.attr == 'close' and self.is_writer(f.value, fr):
                return [(ex, cap, sent, True)]
        return None

    kinds = ()

    def on_assign(self, target, value, st, fr):
        return [st]

    def on_test(self, test, truth, st, fr):
        # "is there anything to send" where what is tested is what was captured
        k, pol = test_key(test)
        if k[0] == 'none' and st[1] == 1:
            t = test
            names = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
            if names & self.captured(fr.func):
                # captured: not None
                isnone = (truth == pol)
                if isnone:
                    return None
        if k[0] == 'none' and st[0] is False and st[1] == 0:
            return st
        return st

    def captured(self, f):
        out = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr == 'changes' for x in ast.walk(n.value)):
                out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        return out


def child_function(p):
    """the target of the process started for a job"""
    for f in p.functions:
        if f.module.name != 'marcel.job':
            continue
        for c in own_nodes(f.node):
            if isinstance(c, ast.Call) and (dotted(c.func) or '').split('.')[-1] == 'Process':
                for k in c.keywords:
                    if k.arg == 'target':
                        t = p.callable_targets(k.value, f, f.cls)
                        t = [x for x in t if isinstance(x, FuncInfo)]
                        if t:
                            return t[0], f, c
    raise AnalysisBroken('the function run by the process of a job was not found')


def check_N05(ctx):
    p = ctx.p
    ns = NS(p)
    ctx.rule('sent', 'once the command has started, its changes are sent exactly once, however it ends, before the channel is closed')
    ctx.rule('isolated', 'a changed variable that cannot be sent does not prevent the others from being sent')
    ctx.rule('all-applied', 'each variable of a message is applied on every path')
    ctx.rule('survives', 'a message that cannot be applied does not stop the thread that applies messages')
    ctx.rule('kinds', 'assignment, import and deletion are each recorded in what is sent, and each kind sent is understood by the receiver')
    ctx.rule('listening', 'the channel of every job is registered with the thread that applies messages')
    child, starter, ctor = child_function(p)
    # which parameter is the writer: the one closed
    writer = {n.func.value.id for n in own_nodes(child.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('send', 'close')
              and isinstance(n.func.value, ast.Name) and n.func.value.id in child.params}
    if not writer:
        for n in own_nodes(child.node):
            if isinstance(n, ast.Name) and n.id in child.params and 'writer' in n.id:
                writer.add(n.id)
    if not writer:
        raise AnalysisBroken('the channel to the shell was not found')
    ts = ChildTS(p, writer, child)
    ks = []
    for nm in ('KillCommandException', 'KillAndResumeException'):
        try:
            ks.append(p.cls(nm))
        except AnalysisBroken:
            pass
    ts.kinds = tuple(ks) + ('KeyboardInterrupt',)
    o = ts.run_function(child, None, (False, 0, 0, False))
    bad = False
    for rule, node, fr, msg in ts.viol:
        bad = True
        ctx.bad('sent', f'{child.qualname}:{rule}', fr.func, msg, node)
    for kind in ('ret', 'exc'):
        for key, line in o[kind].items():
            ex, cap, sent, closed = key[0]
            ctx.count('ways a job can end')
            if ex and sent != 1:
                bad = True
                ctx.bad('sent', f'{child.qualname}:{"lost" if sent == 0 else "twice"}', child,
                        f'on a path on which the command was executed, its changes are {"not sent" if sent == 0 else "sent more than once"} before {child.name} '
                        f'{"returns" if kind == "ret" else "raises"}', line)
    if not any(k[0][2] for k in o['ret']):
        bad = True
        ctx.bad('sent', f'{child.qualname}:never', child, 'changes are never sent')
    if not bad:
        ctx.ok('sent', child.qualname, f'{len(o["ret"])} normal and {len(o["exc"])} exceptional ends')
    ctx.need('ways a job can end', 2)
    for f in {child} | {t for n in own_nodes(child.node) if isinstance(n, ast.Call) for t in p.callees(n, child, None)
                        if isinstance(t, FuncInfo) and t.module is child.module and t.cls is None}:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'dumps' and n.args and isinstance(n.args[0], (ast.Name, ast.DictComp)):
                ctx.count('messages pickled')
                tests = list(all_tests(f.node)) + [t for g in p.functions if g is not f and any(
                    isinstance(c, ast.Call) and g in p.callees(c, f, f.cls) for c in own_nodes(f.node)) and g.module is f.module for t in all_tests(g.node)]
                if any(tests_picklability(p, t, f) for t in tests):
                    ctx.ok('isolated', f.qualname)
                else:
                    ctx.bad('isolated', f.qualname, f, 'a changed variable that cannot be pickled prevents all changes from being sent', n)
    _n05_receiver(ctx, p, ns)
    _n05_kinds(ctx, p, ns)
    _n05_channel(ctx, p)
    _n05_polled(ctx, p)
    # listening: in the function that starts the process, add_listener precedes start
    ok = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and 'listener' in n.func.attr for n in own_nodes(starter.node))
    if ok:
        ctx.ok('listening', starter.qualname)
    else:
        ctx.bad('listening', starter.qualname, starter, 'a job is started without anything listening to its channel')


def _receiver(p):
    """(thread run method, handler attr, handlers)"""
    for c in p.classes:
        if c.module.name == 'marcel.job' and any(isinstance(b, str) and b.endswith('Thread') for b in c.mro()):
            return c
    raise AnalysisBroken('the thread that receives changes was not found')


class SurviveTS(Base):
    max_depth = 4

    def __init__(self, p, cls, handler_attrs):
        super().__init__(p)
        self.tcls = cls
        self.handlers = handler_attrs

    def relevant(self, t):
        return t.cls is self.tcls

    def on_call(self, call, targets, st, fr):
        f = call.func
        if isinstance(f, ast.Attribute) and f.attr in self.handlers or isinstance(f, ast.Attribute) and f.attr in ('loads', 'load', 'recv') or \
                isinstance(f, ast.Name) and any(o.split('.')[-1] in self.handlers for o in origin(self.p, f, fr.func)):
            out = [st, ('exc', 'msg', 'E')]
            if not (isinstance(f, ast.Attribute) and f.attr in ('loads', 'load', 'recv')):
                out += [('exc', 'msg', k) for k in self.kinds]
            else:
                out += [('exc', 'eof', 'EOFError')]
            return out
        return None

    def may_raise(self, call, targets, fr):
        return False


def _n05_receiver(ctx, p, ns):
    c = _receiver(p)
    run = c.find('run')
    init = c.find('__init__')
    handlers = {a for a, assigns in c.attr_assigns().items() for f, v in assigns if f.name == '__init__' and isinstance(v, ast.Name) and v.id in init.params}
    kc = p.cls('KillCommandException')
    ts = SurviveTS(p, c, handlers)
    ts.kinds = (kc,)
    o = ts.run_function(run, c, 'run')
    esc = [(k, w) for k, w in o['exc'].items() if k[0] in ('msg', 'eof')]
    if esc:
        k, w = esc[0]
        ctx.bad('survives', run.qualname, run, 'a message that cannot be read or applied ends the thread: the changes of every later job are lost', w)
    else:
        ctx.ok('survives', run.qualname)
    # what happens after an exception must be another iteration: the handlers must be inside the loop
    # the handler given
    got = 0
    for f in p.functions:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'start' or isinstance(n, ast.Call) and any(
                    isinstance(t, ClassInfo) and t.name == 'JobControl' for t in p.callees(n, f, f.cls)):
                for a in n.args:
                    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == f.self_name() and f.cls is not None:
                        h = f.cls.find(a.attr)
                        if h is not None and len(h.params) == 2:
                            got += 1
                            _applied(ctx, p, ns, h)
    ctx.count('handlers of messages', got)
    ctx.need('handlers of messages', 1)


class ApplyTS(Base):
    """state: 0 / 1 applied in this iteration"""

    def __init__(self, p, ns, muts):
        super().__init__(p)
        self.ns = ns
        self.muts = muts

    def relevant(self, t):
        return t.cls is not None and t.cls.module.name == 'marcel.main'

    def may_raise(self, call, targets, fr):
        return False

    def on_call(self, call, targets, st, fr):
        if any(t in self.muts for t in targets):
            return [1]
        return None

    def on_test_call(self, call, targets, truth, st, fr):
        # a variable that is not there needs no deletion
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'hasvar':
            return st if truth else 1
        return st

    def on_test(self, test, truth, st, fr):
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.In, ast.NotIn)):
            isin = isinstance(test.ops[0], ast.In) == truth
            if not isin and self.ns.is_namespace(test.comparators[0], fr.func, fr.cls):
                return 1
        return st


def var_api(p, ns):
    """methods through which a variable is changed (VarHandler mutators and the Environment methods that lead to them)"""
    muts = set(var_mutators(p, ns))
    env = p.cls('Environment', 'marcel.env')
    for f in env.methods.values():
        if any(isinstance(n, ast.Call) and any(t in muts for t in p.callees(n, f, env)) for n in own_nodes(f.node)) and len(f.params) >= 2:
            muts.add(f)
    return muts


def _guarded(f, node, key, par):
    for t, sense in _conds(f, node):
        for a in value_atoms(t):
            if isinstance(a, ast.Compare) and len(a.ops) == 1 and isinstance(a.ops[0], (ast.In, ast.NotIn)) and ast.unparse(a.left) == key:
                if isinstance(a.ops[0], ast.In) == sense:
                    return True
    for n in own_nodes(f.node):
        if isinstance(n, ast.Try) and n.handlers and any(x is node for b in n.body for x in ast.walk(b)):
            return True
        if isinstance(n, ast.IfExp) and any(x is node for x in ast.walk(n.body)) and isinstance(n.test, ast.Compare) and ast.unparse(n.test.left) == key:
            return True
    return False


def _applied(ctx, p, ns, h):
    muts = var_api(p, ns)
    par = h.params[1]
    loops = [n for n in own_nodes(h.node) if isinstance(n, ast.For) and any(isinstance(x, ast.Name) and x.id == par for x in ast.walk(n.iter))]
    loops = [l for l in loops if any(isinstance(c, ast.Call) and any(t in muts for t in p.callees(c, h, h.cls)) for c in ast.walk(l))] or loops
    if not loops:
        ctx.bad('all-applied', h.qualname, h, 'the variables of a message are not applied one by one')
        return
    from ..engine import Frame
    for lp in loops:
        ts = ApplyTS(p, ns, muts)
        o = ts.block(lp.body, {(0, frozenset()): None}, Frame(h, h.cls))
        bad = [w for d in ('n', 'cont') for k, w in o[d].items() if k[0] == 0] + [w for d in ('brk', 'ret') for k, w in o[d].items()]
        if bad or o['brk'] or o['ret']:
            ctx.bad('all-applied', h.qualname, h, f'{h.name} does not apply every variable that a job changed', lp)
        else:
            ctx.ok('all-applied', h.qualname)
        if isinstance(lp.iter, ast.Call) and isinstance(lp.iter.func, ast.Attribute) and lp.iter.func.attr in ('items', 'keys') or isinstance(lp.iter, ast.Name):
            pass
        else:
            ctx.notes.append(f'loop over {ast.unparse(lp.iter)}')
    # nothing before the loop may leave the function
    for n in own_nodes(h.node):
        key = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and isinstance(n.func.value, ast.Name) and n.func.value.id == par and len(n.args) == 1:
            key = n.args[0]
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == par and not isinstance(n.ctx, ast.Store):
            key = n.slice
        if isinstance(key, ast.Constant) and not _guarded(h, n, ast.unparse(key), par):
            ctx.bad('all-applied', f'{h.qualname}:{key.value}', h, f'{h.name} fails, applying nothing, for a message without {key.value}', n)
    ctx.count('application loops', len(loops))


def _var_value(p, ns, e, f):
    """is e the value of a variable of the namespace?"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'getvar', '__getitem__'):
        return e.func.attr == 'getvar' or ns.is_namespace(e.func.value, f)
    if isinstance(e, ast.Subscript):
        return ns.is_namespace(e.value, f)
    if isinstance(e, ast.Name):
        return any(isinstance(v, ast.AST) and not isinstance(v, ast.Name) and _var_value(p, ns, v, f) for v in f.local_assigns().get(e.id, []))
    return False


def _n05_channel(ctx, p):
    c = _receiver(p)
    lists = {a for a, assigns in c.attr_assigns().items() for f, v in assigns if f.name == '__init__' and isinstance(v, (ast.List, ast.Set)) or
             f.name == '__init__' and isinstance(v, ast.Call) and dotted(v.func) in ('list', 'set')}
    for f in c.methods.values():
        if f.name == '__init__':
            continue
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'clear' and isinstance(n.func.value, ast.Attribute) and n.func.value.attr in lists:
                ctx.bad('listening', f'{f.qualname}:dropped', f, f'{f.name} stops listening to jobs that have not ended', n)
            elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr in lists for t in n.targets):
                v = n.value
                comp = v if isinstance(v, (ast.ListComp, ast.SetComp)) else next((x for x in ast.walk(v) if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp))), None)
                same = any(isinstance(x, ast.Attribute) and x.attr in lists for x in ast.walk(v))
                if same and (comp is None or all(isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.NotIn) for g in comp.generators for t in g.ifs)):
                    ctx.ok('listening', f.qualname)
                else:
                    ctx.bad('listening', f'{f.qualname}:dropped', f, f'{f.name} stops listening to jobs that have not ended', n)


class PollTS(Base):
    """state of an iteration of the loop that listens to jobs: what they sent has been asked for"""
    max_depth = 3
    track_exc = False

    def relevant(self, t):
        return False

    def on_call(self, call, targets, st, fr):
        if waits(call):
            return [True]
        return None


def waits(n):
    return isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'wait' and (dotted(n.func) or '').split('.')[0] in ('mpc', 'multiprocessing', 'connection')


def _n05_polled(ctx, p):
    c = _receiver(p)
    for f in c.methods.values():
        for w in own_nodes(f.node):
            if not waits(w) or not w.args:
                continue
            ctx.count('places that wait for jobs')
            part = [t for t in trace(p, w.args[0], f) if not isinstance(t[0], str) and isinstance(t[0], ast.Subscript)]
            if part:
                ctx.bad('listening', f'{f.qualname}:some', f, f'{f.name} waits for some of the jobs only: the changes of the others are not applied', w)
            else:
                ctx.ok('listening', f'{f.qualname}:some')
            # every iteration of the outermost loop gets there
            loops = [lp for lp in own_nodes(f.node) if isinstance(lp, ast.While) and any(x is w for x in ast.walk(lp))]
            outer = next((lp for lp in loops if not any(lp is not o and any(x is lp for x in ast.walk(o)) for o in loops)), None)
            if outer is None:
                continue
            skip = [x for x in ast.walk(outer) if isinstance(x, ast.Continue) and not any(
                isinstance(i, (ast.For, ast.While)) and i is not outer and any(y is x for y in ast.walk(i)) for i in ast.walk(outer))
                and x.lineno < w.lineno and not _nothing_to_wait_for(f, outer, x)]
            if skip:
                ctx.bad('listening', f'{f.qualname}:skipped', f, f'an iteration of {f.name} does not wait for jobs although there are some', skip[0])
            else:
                ctx.ok('listening', f'{f.qualname}:skipped')


def _nothing_to_wait_for(f, outer, node):
    """the continue statement is reached only if the list of channels is empty"""
    for i in ast.walk(outer):
        if isinstance(i, ast.If) and any(x is node for b in i.body for x in ast.walk(b)):
            if any(isinstance(x, (ast.Attribute, ast.Name)) and 'listener' in (getattr(x, 'attr', None) or getattr(x, 'id', '')) for x in ast.walk(i.test)) and \
                    not any(isinstance(x, ast.Attribute) and 'job' in x.attr for x in ast.walk(i.test)):
                return True
    return False


def _n05_kinds(ctx, p, ns):
    ch, attrs = change_attrs(p, ns)
    for f in var_mutators(p, ns):
        if 'permanent' in f.name:
            continue
        ts = RecTS(p, ns, attrs, f.cls)
        o = ts.run_function(f, f.cls, (False, None, False))
        bad = any(st[1] and not st[2] for (st, fa, rv) in o['ret'])
        kinds = {st[1] for (st, fa, rv) in o['ret'] if st[1]}
        for k in kinds:
            ctx.count('kinds of change')
        if bad:
            ctx.bad('kinds', f.qualname, f, f'a change made by {f.name} is not among those returned to the shell')
        else:
            ctx.ok('kinds', f.qualname, ','.join(sorted(kinds)))
    # every marker that changes() puts in the message is understood
    markers = set()
    for n in own_nodes(ch.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) for t in n.targets):
            v = n.value
            if isinstance(v, ast.Attribute) and v.attr in ns.vh.inner or isinstance(v, ast.Name) and v.id in ns.vh.module.classes:
                markers.add(v.attr if isinstance(v, ast.Attribute) else v.id)
    for m in sorted(markers):
        ok = any(isinstance(n, ast.Attribute) and n.attr == m or isinstance(n, ast.Name) and n.id == m for f in p.functions if f.module.name == 'marcel.main' for n in own_nodes(f.node))
        if ok:
            ctx.ok('kinds', m)
        else:
            ctx.bad('kinds', m, ch, f'the shell does not understand {m} in the changes returned by a job')
        # the class itself is sent: an instance, or a test for one, never matches it
        for f in p.functions:
            if f.module.name != 'marcel.main':
                continue
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == m or \
                        isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2 and (dotted(n.args[1]) or '').split('.')[-1] == m:
                    ctx.bad('kinds', m + ':form', f, f'{f.name} compares with an instance of {m}, but {ch.name} sends the class', n)
    # every variable written is sent, whatever its value
    for f in [ch] + [g for g in ns.vh.methods.values() if any(isinstance(c, ast.Call) and g in p.callees(c, ch, ns.vh) for c in own_nodes(ch.node))]:
        for t in all_tests(f.node):
            for a in value_atoms(t):
                if sentinel_test(a) and not (isinstance(a.ops[0], (ast.In, ast.NotIn)) and _var_value(p, ns, a.left, f)):
                    continue
                if any(_var_value(p, ns, n, f) for n in ast.walk(a)):
                    ctx.bad('kinds', f'{f.qualname}:filter', f, f'whether {f.name} reports a variable depends on its value ({ast.unparse(a)[:60]})', a)


CHECKS = {'N01': check_N01, 'N02': check_N02, 'N03': check_N03, 'N05': check_N05}
MUTANTS = {
    'N01': [
        ('marcel/nestednamespace.py', '        if self.parent is None or var in self.params:\n            super().__setitem__(var, value)\n        else:\n            self.parent.store_item(var, value)',
         '        if self.parent is None or var in self.params:\n            super().__setitem__(var, value)\n        else:\n            root = self\n            while root.parent is not None:\n                root = root.parent\n            root.store_item(var, value)', 'assignment goes to the outermost scope'),
        ('marcel/nestednamespace.py', '        scope = Scope(self.env, self.current_scope(), bindings)',
         '        scope = Scope(self.env, self.scopes[0], bindings)', 'scope outside the enclosing one'),
        ('marcel/nestednamespace.py', '            for var, value in bindings.items():\n                self[var] = value',
         '            for var, value in bindings.items():\n                if value is not None:\n                    self[var] = value', 'parameters bound to None not bound'),
        ('marcel/nestednamespace.py', '        for var in popped_scope.keys():\n            super().pop(var, None)',
         '        for var in popped_scope.params:\n            if var not in popped_scope.shadowed:\n                super().pop(var, None)\n            elif self.current_scope().get(var) is None:\n                del popped_scope.shadowed[var]', 'a saved value dropped'),
        ('marcel/op/runpipeline.py', '        env.vars().push_scope(self.bindings())\n        try:\n            self.pipeline.receive(env, x)\n        finally:\n            env.vars().pop_scope()',
         '        env.vars().push_scope(self.bindings())\n        self.pipeline.receive(env, x)\n        env.vars().pop_scope()', 'receive leaks the scope when it fails'),
        ('marcel/nestednamespace.py', '        super().update(popped_scope.shadowed)\n', '', 'pop does not restore'),
        ('marcel/nestednamespace.py', 'for scope in self.scopes:\n            for k, v in scope.items():', 'for scope in [self.scopes[0]]:\n            for k, v in scope.items():', 'only the top scope is transmitted'),
    ],
    'N02': [
        ('marcel/op/assign.py', '        env.setvar_with_source(self.var, self.value, source)',
         '        if env.getvar(self.var) is not self.value:\n            env.setvar_with_source(self.var, self.value, source)', 'assignment skipped'),
        ('marcel/op/env.py', '        for var, value in sorted(env.vars().items()):',
         '        for var, value in sorted(env.vars().scopes[0].items()):', 'env lists one scope'),
        ('marcel/nestednamespace.py', '        super().__setitem__(key, value)\n        self.current_scope().assign(key, value, source)', '        self.current_scope().assign(key, value, source)', 'assign forgets the dictionary'),
        ('marcel/object/workspace.py', '            del self.namespace[var]\n', '            self.namespace.pop(var)\n', 'delete bypasses the scope'),
    ],
    'N03': [
        ('marcel/directorystate.py', "            self.env.assign_permanent('PWD', new_dir)",
         "            self.env.workspace.immutable_vars.discard('PWD')\n            self.env.setvar('PWD', new_dir)", 'immutability lifted elsewhere'),
        ('marcel/object/workspace.py', '        self.config_vars = config_dict.keys() - self.immutable_vars\n',
         '        self.config_vars = set(config_dict.keys())\n', "startup variables include marcel's"),
        ('marcel/object/workspace.py', "        self.check_mutability(var)\n        if var in self.namespace:", "        if var in self.namespace:", 'delete is not checked'),
        ('marcel/main.py', '        self.env.enforce_var_immutability()\n', '', 'never enforced'),
        ('marcel/env.py', "                                           'USER',\n", '', 'USER not registered'),
    ],
    'N05': [
        ('marcel/job.py', '            for listener in mpc.wait(listeners, 0.1):',
         '            for listener in mpc.wait(listeners[:1], 0.1):', 'one job heard'),
        ('marcel/job.py', '            if stop:\n                return\n',
         '            if stop or JobControl.only is None:\n                return\n            if not any(job.state == Job.RUNNING_FOREGROUND for job in JobControl.only._jobs):\n                continue\n', 'changes applied only while a job is in the foreground'),
        ('marcel/job.py', '        finally:\n            # Variables changed before a failure have changed nonetheless.\n            child_namespace_changes = env.changes()',
         '        except ZeroDivisionError:\n            pass\n        child_namespace_changes = env.changes()', 'changes lost on failure'),
        ('marcel/main.py', '                if self.env.hasvar(var):\n                    self.env.delvar(var)\n', '                pass\n', 'deletion ignored'),
    ],
}
