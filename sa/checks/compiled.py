"""F06: functions written as source are compiled in the process that calls them."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate
from ..ops import OpModel, reach_names
from ..taint import Taint, parser_args, function_converters, parser_of, _returns_it
from .userfn import seeds as function_seeds, scope_functions, INVOKERS

META = {
    'F06': {
        'explanation': 'A function written by the user as source loses its compiled form when it is transmitted to the process that runs the '
                       'command. For every operator, every attribute that can hold such a function or a pipeline is collected (from the '
                       'argument parsers and from the code that invokes the attribute), its flow to the places where it is called or run is '
                       'followed, and ensure_functions_compiled of the operator is executed abstractly on all paths: it must reach every '
                       'such attribute, every element of it, and every operator of every nested pipeline. Whatever executes a pipeline that '
                       'has been unpickled must have compiled its functions on every path before.',
        'assumptions': ['functions of the API are Python functions, which are pickled by value'],
    },
}

EXEC = {'setup', 'run', 'receive', 'receive_input', 'flush', 'run_pipeline'}


def pipeline_converters(p):
    """converter methods of ArgsParser that may return a pipeline"""
    ap = p.cls('ArgsParser', 'marcel.argsparser')
    out = set()
    pm = p.modules.get('marcel.pipeline')
    work = True
    while work:
        work = False
        for f in ap.methods.values():
            if f.name in out:
                continue
            for n in own_nodes(f.node):
                if not isinstance(n, ast.Call):
                    continue
                for t in p.callees(n, f, ap):
                    hit = (isinstance(t, FuncInfo) and t.module is pm and t.name.startswith(('convert', 'create'))) or \
                          (isinstance(t, ClassInfo) and t.module is pm) or (isinstance(t, FuncInfo) and t.cls is ap and t.name in out)
                    if hit and _returns_it(f, n):
                        out.add(f.name)
                        work = True
    return out


class PTaint(Taint):
    """also follows a pipeline through the methods that return a (modified) pipeline"""

    def __init__(self, p, functions, seeds, pcls):
        self.pcls = pcls
        self.pnames = {m.name for c in pcls for m in c.methods.values()
                       if any(isinstance(n, ast.Return) and n.value is not None for n in own_nodes(m.node))} - {'parameters'}
        super().__init__(p, functions, seeds)

    def tainted(self, e, f, depth=0):
        if depth > 8:
            return False
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            if e.func.attr in self.pnames:
                ts = self._callees(e, f)
                if (not ts or any(isinstance(t, FuncInfo) and t.cls in self.pcls for t in ts)) and self.tainted(e.func.value, f, depth + 1):
                    return True
        return super().tainted(e, f, depth)


def elems_of(e, f, depth=0):
    """[(attr of self, is it an element of it?)] that expression e may be"""
    if depth > 6 or e is None:
        return set()
    out = set()
    if isinstance(e, ast.Attribute):
        g = f
        while g is not None:
            if isinstance(e.value, ast.Name) and g.self_name() == e.value.id:
                return {(e.attr, False)}
            g = g.parent
        # an attribute of something that comes from an attribute of self
        return {(a, True) for a, _ in elems_of(e.value, f, depth + 1)}
    if isinstance(e, ast.Name):
        g = f
        while g is not None:
            hit = False
            for n in own_nodes(g.node):
                if isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.target)):
                    hit = True
                    # a loop over a display of attributes yields the attributes themselves
                    it = n.iter
                    if isinstance(it, (ast.Tuple, ast.List)):
                        for x in it.elts:
                            out |= elems_of(x, g, depth + 1)
                    else:
                        out |= {(a, True) for a, _ in elems_of(it, g, depth + 1)}
            for v in g.local_assigns().get(e.id, []):
                if v is not None and not (isinstance(v, ast.Name) and v.id == e.id):
                    hit = True
                    out |= elems_of(v, g, depth + 1)
            if hit or e.id in g.params:
                return out
            g = g.parent
        return out
    if isinstance(e, ast.Subscript):
        if isinstance(e.slice, ast.Slice):
            if e.slice.lower is None and e.slice.upper is None and e.slice.step is None:
                return elems_of(e.value, f, depth + 1)
            return set()        # some of the elements
        if isinstance(e.slice, ast.Constant):
            if isinstance(e.slice.value, str) and isinstance(e.value, ast.Attribute) and e.value.attr == '__dict__':
                return {(e.slice.value, False)}
            return set()
        return {(a, True) for a, _ in elems_of(e.value, f, depth + 1)}
    if isinstance(e, ast.IfExp):
        return elems_of(e.body, f, depth + 1) | elems_of(e.orelse, f, depth + 1)
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            out |= elems_of(v, f, depth + 1)
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return elems_of(e.left, f, depth + 1) | elems_of(e.right, f, depth + 1)
    if isinstance(e, (ast.Tuple, ast.List)):
        for v in e.elts:
            out |= elems_of(v, f, depth + 1)
        return out
    if isinstance(e, ast.Starred):
        return elems_of(e.value, f, depth + 1)
    if isinstance(e, ast.Call):
        nm = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else None
        if isinstance(e.func, ast.Name) and nm in ('list', 'tuple', 'reversed', 'iter', 'enumerate', 'zip', 'chain', 'set') and e.args:
            for a in e.args:
                out |= elems_of(a, f, depth + 1)
            return out
        if isinstance(e.func, ast.Name) and nm == 'vars' and len(e.args) == 1:
            return {('*', False)}
        if isinstance(e.func, ast.Name) and nm == 'getattr' and len(e.args) >= 2:
            return {(e.args[1].value, False)} if isinstance(e.args[1], ast.Constant) else {('*', False)}
        if isinstance(e.func, ast.Attribute) and nm in ('values', 'items', 'copy', 'chain'):
            out |= elems_of(e.func.value, f, depth + 1)
            for a in e.args:
                out |= elems_of(a, f, depth + 1)
            if any(a == '__dict__' for a, _ in out):
                out.add(('*', True))
            return out
        return set()
    return out


def own_names(f):
    out = set()
    while f is not None:
        out.add(f.self_name())
        f = f.parent
    return out


def compilers(p):
    """methods of the environment that compile a function passed to them -> position of the argument"""
    out = {}
    for f in p.functions:
        if f.cls is not None and f.module.name == 'marcel.env' and not f.is_static:
            ps = [x for x in f.params if x != f.self_name()]
            for s in f.node.body:
                for n in ast.walk(s) if isinstance(s, ast.Expr) else ():
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'ensure_compiled' and \
                            isinstance(n.func.value, ast.Name) and n.func.value.id in ps:
                        out[f.name] = ps.index(n.func.value.id)
    return out


class CompTS(Typestate):
    """which attributes (and elements of them) has ensure_functions_compiled taken care of? State: set of (kind, attr, 'elem'|'whole')"""
    max_depth = 6
    track_exc = False

    def __init__(self, p, om, cls, list_attrs, fattr, pattr):
        super().__init__(p)
        self.om, self.cls, self.list_attrs = om, cls, list_attrs
        self.one = om.Op.find('ensure_function_compiled')
        self.names = (fattr, pattr)
        self.loops = []
        self.cache = {}
        self.compilers = compilers(p)

    def relevant(self, t):
        if t is self.one or t.name in self.compilers:
            return False
        return t.name == 'ensure_functions_compiled' and t.cls is not None and self.cls.derives(t.cls) or \
            reach_names(self.p, t, lambda c, f: isinstance(c.func, ast.Attribute) and (c.func.attr in self.names or c.func.attr in self.compilers), self.cache, cls=self.cls)

    def mark(self, st, kind, e, fr):
        el = elems_of(self.subst(e, fr), fr.func)
        new = {(kind, a, 'elem' if x else 'whole') for a, x in el}
        return st | frozenset(new)

    def subst(self, e, fr):
        return e

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute):
            if (self.one in targets or call.func.attr == self.names[0] and not targets) and call.args:
                return [self.mark(st, 'F', call.args[0], fr)]
            if call.func.attr == 'ensure_compiled':
                return [self.mark(st, 'F', call.func.value, fr)]
            if call.func.attr in self.compilers and len(call.args) > self.compilers[call.func.attr]:
                return [self.mark(st, 'F', call.args[self.compilers[call.func.attr]], fr)]
            if call.func.attr == self.names[1]:
                v = call.func.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                    return None
                el = elems_of(v, fr.func)
                if el:
                    return [self.mark(st, 'P', v, fr)]
        return None

    def on_test_call(self, call, targets, truth, st, fr):
        return self.on_test(call, truth, st, fr)

    def on_test(self, test, truth, st, fr):
        neg = False
        e = test
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            absent = truth if isinstance(e.ops[0], (ast.Is, ast.Eq)) else not truth
            if absent and self.itself(e.left, fr):
                return st | {(k, a, m) for a, x in elems_of(e.left, fr.func) for k in 'FP' for m in (('elem',) if x else ('elem', 'whole'))}
            return st
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('isinstance', 'callable') and e.args:
            el = elems_of(e.args[0], fr.func)
            if e.func.id == 'callable':
                k = 'F'
            elif len(e.args) < 2:
                return st
            else:
                k = self.kind_of_class(e.args[1], fr)
            if truth:
                k = {'F': 'P', 'P': 'F'}.get(k)     # it is not the other kind
            return st | {(k, a, 'elem' if x else 'whole') for a, x in el} if k else st
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Call) and isinstance(e.left.func, ast.Name) and \
                e.left.func.id == 'type' and e.left.args:
            same = truth if isinstance(e.ops[0], (ast.Is, ast.Eq, ast.In)) else not truth
            if not same:
                k = self.kind_of_class(e.comparators[0], fr)
                return st | {(k, a, 'elem' if x else 'whole') for a, x in elems_of(e.left.args[0], fr.func)} if k == 'F' else st
            return st
        if isinstance(e, (ast.Attribute, ast.Name)) and not truth and self.itself(e, fr):
            el = elems_of(e, fr.func)
            return st | {(k, a, m) for a, x in el for k in 'FP' for m in (('elem',) if x else ('elem', 'whole'))}
        return st

    def itself(self, e, fr):
        """not an attribute of what is held, but that itself"""
        return not isinstance(e, ast.Attribute) or isinstance(e.value, ast.Name) and e.value.id in own_names(fr.func)

    def kind_of_class(self, e, fr):
        ks = set()
        for x in (e.elts if isinstance(e, (ast.Tuple, ast.List)) else [e]):
            c = self.p.resolve_global(x, fr.func.module, fr.cls)
            if isinstance(c, ClassInfo):
                if c.name == 'Pipeline' or c in self.om.pipeline_classes:
                    ks.add('P')
                elif c.name in ('Function', 'SourceFunction'):
                    ks.add('F')
        return ks.pop() if len(ks) == 1 else None

    def on_iter(self, s, st, fr):
        own = {a for a, _ in elems_of(s.iter, fr.func)}
        if isinstance(s.iter, (ast.Tuple, ast.List)):
            return [st | {('it', id(s), '')}]
        return [frozenset(m for m in st if not (m[1] in own and m[2] == 'elem')) | {('it', id(s), '')}]

    def s_For(self, s, states, fr):
        own = {a for a, _ in elems_of(s.iter, fr.func)}
        self.loops.append(own)
        try:
            out = super().s_For(s, states, fr)
        finally:
            self.loops.pop()
        n2 = {}
        for (st, fa), w in out['n'].items():
            if ('it', id(s), '') in st:
                st = frozenset(m for m in st if m != ('it', id(s), ''))
            else:
                st = st | {(k, a, 'elem') for a in own for k in 'FP'}
            n2.setdefault((st, fa), w)
        out.d['n'] = n2
        return out

    def s_Break(self, s, states, fr):
        own = self.loops[-1] if self.loops else set()
        st2 = {(frozenset(m for m in st if not (m[1] in own and m[2] == 'elem')), fa): w for (st, fa), w in states.items()}
        return super().s_Break(s, st2, fr)


def _comp(ctx, p, om, cls, list_attrs):
    """marks on every normal path of cls's ensure_functions_compiled: intersection"""
    f = cls.find('ensure_functions_compiled')
    if f is None or f.cls is om.Op:
        return frozenset(), f
    ts = CompTS(p, om, cls, list_attrs, 'ensure_function_compiled', 'ensure_functions_compiled')
    o = ts.run_function(f, cls, frozenset())
    sts = [k[0] for k in o['ret']]
    return (frozenset.intersection(*sts) if sts else frozenset()), f


def _setup_comp(p, om, cls, list_attrs):
    """functions compiled on every normal path of cls's setup"""
    f = cls.find('setup')
    if f is None or f.cls is om.Op or not compilers(p):
        return frozenset()
    ts = CompTS(p, om, cls, list_attrs, 'ensure_function_compiled', 'ensure_functions_compiled')
    o = ts.run_function(f, cls, frozenset())
    sts = [k[0] for k in o['ret']]
    return frozenset(m for m in (frozenset.intersection(*sts) if sts else ()) if m[0] == 'F')


def covered(marks, kind, attr, is_list, equiv):
    for a in {attr} | equiv:
        whole = (kind, a, 'whole') in marks
        elem = (kind, a, 'elem') in marks
        if is_list and elem:
            return True
        if not is_list and (whole or (a != attr and elem)):
            return True
    return (kind, '*', 'elem') in marks or (kind, '*', 'whole') in marks


class EvalTS(Typestate):
    """eval_function: is what it invokes compiled first? State: names compiled"""
    max_depth = 4
    track_exc = False

    def __init__(self, p, om):
        super().__init__(p)
        self.om = om
        self.one = om.Op.find('ensure_function_compiled')
        self.bad = []
        self.seen = 0

    def relevant(self, t):
        return t.parent is not None

    def name(self, e):
        return e.id if isinstance(e, ast.Name) else None

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute):
            if (self.one in targets or call.func.attr == 'ensure_function_compiled') and call.args:
                return [st | {(fr.func, self.name(call.args[0]))}]
            if call.func.attr == 'ensure_compiled':
                return [st | {(fr.func, self.name(call.func.value))}]
            if call.func.attr == 'call' and len(call.args) >= 2:
                self.seen += 1
                if (fr.func, self.name(call.args[1])) not in st:
                    self.bad.append(call)
                return [st]
        return None

    def on_test_call(self, call, targets, truth, st, fr):
        return self.on_test(call, truth, st, fr)

    def on_test(self, test, truth, st, fr):
        # not a function compiled from source
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and not truth and len(test.args) == 2:
            c = self.p.resolve_global(test.args[1], fr.func.module, fr.cls)
            if isinstance(c, ClassInfo) and c.name in ('Function', 'SourceFunction') and self.name(test.args[0]):
                return st | {(fr.func, self.name(test.args[0]))}
        return st


def eval_compiles(p, om):
    f = om.Op.methods.get('eval_function')
    if f is None:
        return False, None
    ts = EvalTS(p, om)
    work = [f] + [g for g in f.nested.values() if isinstance(g, FuncInfo)]
    for g in work:
        ts.run_function(g, om.Op, frozenset())
    # direct invocations of a name: x() with x a parameter
    return bool(ts.seen) and not ts.bad, f


def list_args(p, om):
    out = set()
    for c in om.all:
        pc = parser_of(p, om, c)
        if pc is None:
            continue
        for name, attr, cv, how, node, f in parser_args(p, pc):
            if how == 'add_anon_list':
                out.add((c, attr))
    return out


def setter_seeds(p, om):
    """attributes of operators set by methods that the parser calls, from values of arguments"""
    out = {}
    parser = p.modules.get('marcel.parser')
    names = set()
    for f in p.functions:
        if f.module is parser:
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.args and isinstance(n.func.value, ast.Name):
                    names.add(n.func.attr)
    for c in om.concrete:
        for m in c.methods.values():
            if m.name in names and m.name not in om.Op.methods and not m.name.startswith('__') and len(m.params) > 1:
                for a, assigns in c.attr_assigns().items():
                    for g, v in assigns:
                        if g is m and isinstance(v, ast.Name) and v.id in m.params[1:]:
                            out[(c, a)] = m
    return out


def invocations(p, om, t, fns, call_f):
    """places where a tainted value is invoked"""
    for f in fns:
        if f is call_f or f.name in ('ensure_functions_compiled', 'ensure_function_compiled', '__repr__', '__init__'):
            continue
        scopes = [(f, n) for n in own_nodes(f.node) if isinstance(n, ast.Call)]
        for n in own_nodes(f.node):
            if isinstance(n, ast.Lambda):
                li = p.lambda_info(n, f)
                scopes += [(li, m) for m in ast.walk(n.body) if isinstance(m, ast.Call)]
        for g, n in scopes:
            fe = n.func
            nm = fe.id if isinstance(fe, ast.Name) else fe.attr if isinstance(fe, ast.Attribute) else None
            if t.tainted(fe, g) and not (isinstance(fe, ast.Name) and _nested(fe, g)):
                yield g, n
                continue
            if nm == 'call' and n.args and isinstance(fe, ast.Attribute):
                if any(t.tainted(a.value if isinstance(a, ast.Starred) else a, g) for a in n.args[:2]):
                    yield g, n
            elif nm in INVOKERS and any(t.tainted(a, g) for a in list(n.args) + [k.value for k in n.keywords]):
                yield g, n


def _nested(fe, f):
    from ..taint import scope_lookup
    g = scope_lookup(f, fe.id)
    return g is not None and fe.id in getattr(g, 'nested', {})


def executions(p, om, t, fns):
    for f in fns:
        if f.name in ('ensure_functions_compiled', '__repr__'):
            continue
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in EXEC and t.tainted(n.func.value, f):
                yield f, n


LATE = ('setup', 'customize_pipelines', 'run', 'receive', 'receive_input', 'flush', 'cleanup')


def early(c, attrs):
    """those of the attributes that can have their value before the operator is set up, which is when functions are compiled"""
    out = set()
    for a in attrs:
        got = [(f, v) for f, v in c.all_attr_assigns(a) if not (isinstance(v, ast.Constant) and v.value is None)]
        if not got or any(f is None or f.name not in LATE for f, v in got):
            out.add(a)
    return out


def check_F06(ctx):
    p = ctx.p
    om = OpModel(p)
    ctx.rule('functions', 'every attribute of an operator that holds a function that is called is compiled by ensure_functions_compiled, or by '
                          'eval_function just before the call')
    ctx.rule('nested', 'every attribute of an operator that holds a pipeline run in the same process has its functions compiled')
    ctx.rule('propagate', 'compiling the functions of a pipeline or command compiles those of every operator in it')
    ctx.rule('before-run', 'a pipeline or command received from another process is compiled, on every path, before it is set up or run')
    ctx.rule('restore', 'whatever a function omits when it is pickled, compiling it restores')
    fns = scope_functions(p)
    fseeds = function_seeds(p, om)
    pconv = pipeline_converters(p)
    fconv = function_converters(p)
    if not pconv:
        raise AnalysisBroken('no argument converter returns a pipeline')
    lists = list_args(p, om)
    eok, ef = eval_compiles(p, om)
    ctx.count('evaluation of function-valued arguments compiles', 1 if eok else 0)
    call_f = om.Op.methods.get('call')
    marks = {}
    smarks = {}

    def get(cls):
        if cls not in marks:
            marks[cls] = _comp(ctx, p, om, cls, lists)
        return marks[cls]

    def own_scope(c):
        mods = {k.module for k in c.repo_mro()}
        return [f for f in fns if f.module in mods]

    # ---- functions
    for (c, a), why in sorted(fseeds.items(), key=lambda k: (k[0][0].qualname, k[0][1])):
        if not c.derives(om.AbstractOp):
            # An object made by an operator, from the arguments of the operator.
            continue
        for k in [d for d in om.concrete if d.derives(c)] or [c]:
            if not _user_op(p, om, k):
                continue
            if _main_process(k) and why == 'call' and k.module.name == 'marcel.op.assign':
                # Not transmitted: the operator runs in the process that parsed the command, which compiled the function.
                continue
            t = Taint(p, own_scope(k), {(c, a)})
            t.params.discard((call_f, 'function'))
            direct = [(f, n) for f, n in invocations(p, om, t, own_scope(k), call_f)]
            evaled = why == 'eval_function'
            m, f = get(k)
            equiv = {x for q, x in t.attrs if k.derives(q)}
            ok = covered(m, 'F', a, (c, a) in lists or (k, a) in lists, early(k, equiv))
            if not ok and why != 'eval_function':
                if k not in smarks:
                    smarks[k] = _setup_comp(p, om, k, lists)
                if covered(smarks[k], 'F', a, (c, a) in lists or (k, a) in lists, equiv):
                    ok, f = True, k.find('setup')
            key = f'{k.name}.{a}'
            ctx.count('function-valued attributes', 1)
            if ok:
                ctx.ok('functions', key, f'{k.qualname}.{a}: compiled by {f.qualname}')
            elif direct:
                g, n = direct[0]
                ctx.bad('functions', key, f or g, f'{k.name}.{a} may hold a function received as source, and is called ({ast.unparse(n)[:60]}) in '
                        f'{g.qualname}, but is not compiled on every path of ensure_functions_compiled', n)
            elif evaled and not eok:
                ctx.bad('functions', key, f or ef, f'{k.name}.{a} may hold a function received as source, which eval_function calls, but neither '
                        f'eval_function nor ensure_functions_compiled compiles it on every path', (f or ef).node)
            else:
                ctx.ok('functions', key, f'{k.qualname}.{a}: evaluated only by eval_function, which compiles')
    ctx.need('function-valued attributes', 20)

    # ---- nested pipelines
    n_p = 0
    for c in om.concrete:
        pc = parser_of(p, om, c)
        attrs = {}
        if pc is not None:
            for name, attr, cv, how, node, f in parser_args(p, pc):
                if isinstance(cv, ast.Attribute) and cv.attr in pconv:
                    attrs[attr] = node
        for a, node in attrs.items():
            t = PTaint(p, own_scope(c), {(c, a)}, om.pipeline_classes)
            ex = [(f, n) for f, n in executions(p, om, t, own_scope(c))]
            n_p += 1
            key = f'{c.name}.{a}'
            if not ex:
                ctx.ok('nested', key, f'{c.qualname}.{a}: run only by other processes')
                continue
            m, f = get(c)
            equiv = {x for q, x in t.attrs if c.derives(q)}
            if covered(m, 'P', a, (c, a) in lists, early(c, equiv)):
                ctx.ok('nested', key, f'{c.qualname}.{a}: {f.qualname}')
            else:
                g, n = ex[0]
                ctx.bad('nested', key, f or g, f'{c.name}.{a} holds a pipeline that is run ({ast.unparse(n)[:60]} in {g.qualname}) in the process '
                        f'running the command, but its functions are not compiled on every path of ensure_functions_compiled', n)
    ctx.count('pipeline-valued arguments', n_p)
    ctx.need('pipeline-valued arguments', 6)
    for (c, a), m0 in setter_seeds(p, om).items():
        if _main_process(c) or _only_string(p, c, a):
            continue
        m, f = get(c)
        key = f'{c.name}.{a}'
        ctx.count('arguments bound to parameters', 1)
        if covered(m, 'P', a, True, set()):
            ctx.ok('nested', key + ':pipelines')
        else:
            ctx.bad('nested', key + ':pipelines', f if f is not None and f.cls is c else m0,
                    f'{c.name}.{a} may contain pipelines, whose functions are not compiled on every path of ensure_functions_compiled', m0.node)
    _propagate(ctx, p, om)
    _before(ctx, p, om)
    _restore(ctx, p, om)


def _only_string(p, c, a):
    return False


def _user_op(p, om, k):
    return True


def _main_process(c):
    f = c.find('run_in_main_process')
    if f is None:
        return False
    rets = [n for n in own_nodes(f.node) if isinstance(n, ast.Return)]
    return bool(rets) and all(isinstance(r.value, ast.Constant) and r.value.value is True for r in rets)


# ------------------------------------------------------------------------------------------------ propagation
class PropTS(CompTS):
    def __init__(self, p, om, cls):
        super().__init__(p, om, cls, set(), 'ensure_function_compiled', 'ensure_functions_compiled')


def _propagate(ctx, p, om):
    classes = sorted((c for c in om.pipeline_classes), key=lambda c: c.qualname)
    cmd = p.cls('Command', 'marcel.core')
    n = 0
    for c in classes + [cmd]:
        f = c.find('ensure_functions_compiled')
        parts = {}
        for k in c.repo_mro():
            for a, assigns in k.attr_assigns().items():
                if a in ('ops', 'executable', 'pipeline'):
                    parts[a] = 'elem' if a == 'ops' else 'whole'
        if any(d is not c and d.derives(c) for d in om.pipeline_classes):
            continue        # abstract
        if not parts:
            continue
        if f is None or _asserts(f):
            if _asserts(f) or not _transmitted(c):
                ctx.ok('propagate', c.name, f'{c.qualname} is not transmitted')
                continue
            ctx.bad('propagate', c.name, c.methods.get('__init__') or f, f'{c.name} does not compile the functions of its operators', c.node)
            continue
        ts = PropTS(p, om, c)
        o = ts.run_function(f, c, frozenset())
        sts = [k[0] for k in o['ret']]
        m = frozenset.intersection(*sts) if sts else frozenset()
        n += 1
        for a, how in parts.items():
            if ('P', a, how) in m or (how == 'elem' and ('P', '*', 'elem') in m):
                ctx.ok('propagate', f'{c.name}.{a}', f'{f.qualname}: every path compiles {a}')
            else:
                ctx.bad('propagate', f'{c.name}.{a}', f, f'a path of {f.qualname} does not compile the functions of {a}'
                        f'{" (each of them)" if how == "elem" else ""}', f.node)
    ctx.count('pipeline classes that compile', n)
    ctx.need('pipeline classes that compile', 3)


def _asserts(f):
    if f is None:
        return False
    return any(isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and s.test.value is False for s in f.node.body)


def _transmitted(c):
    return False


# ------------------------------------------------------------------------------------------------ before running what was received
class RTaint(PTaint):
    """values obtained by unpickling"""

    def tainted(self, e, f, depth=0):
        if depth > 8:
            return False
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('loads', 'load'):
            d = dotted(e.func) or ''
            if d.split('.')[0] in ('dill', 'pickle', 'cloudpickle') or not d or e.func.attr == 'load' and not e.args:
                return True
        return super().tainted(e, f, depth)


class ReadyTS(Typestate):
    max_depth = 5
    track_exc = False

    def __init__(self, p, t, scope):
        super().__init__(p)
        self.t, self.scope = t, set(scope)
        self.bad = []
        self.good = 0
        self.cache = {}

    def relevant(self, g):
        return g in self.scope and reach_names(
            self.p, g, lambda c, f: isinstance(c.func, ast.Attribute) and c.func.attr in EXECT | {'ensure_functions_compiled'}, self.cache)

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute) and self.t.tainted(call.func.value, fr.func):
            if call.func.attr == 'ensure_functions_compiled':
                return [True]
            if call.func.attr in EXECT:
                if not st:
                    self.bad.append((fr.func, call))
                else:
                    self.good += 1
                return [st]
        return None


EXECT = EXEC | {'execute'}


def _before(ctx, p, om):
    scope = [f for f in p.functions if f.module.name in ('marcel.job', 'marcel.op.forkmanager', 'bin.farcel', 'marcel.op.remote',
                                                         'marcel.op.sudo', 'marcel.main')
             or f.module.name.startswith('marcel.op.')]
    targets = set()
    for f in p.functions:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                nm = dotted(n.func) or ''
                if nm.split('.')[-1] == 'Process':
                    for k in n.keywords:
                        if k.arg == 'target':
                            for t in p.callable_targets(k.value, f, f.cls) if hasattr(p, 'callable_targets') else []:
                                if isinstance(t, FuncInfo):
                                    targets.add(t)
    if not targets:
        raise AnalysisBroken('no function is run in another process')
    extra = [t for t in targets if t not in scope]
    scope = scope + extra
    t = RTaint(p, scope, set(), om.pipeline_classes)
    for g in targets:
        for q in g.params:
            t.params.add((g, q))
    t._fix()
    sites = {}
    for f in scope:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in EXECT and t.tainted(n.func.value, f):
                sites.setdefault(f, []).append(n)
    n = 0
    called = set()
    for f in sites:
        for g in scope:
            if g is not f and any(isinstance(c, ast.Call) and f in p.callees(c, g, g.cls) for c in own_nodes(g.node)):
                called.add(f)
    for f in sorted(sites, key=lambda f: f.qualname):
        if f.cls is not None and (f.cls.derives(om.Op)) and f.name in EXEC:
            continue
        n += 1
        ts = ReadyTS(p, t, scope)
        ts.run_function(f, f.cls, False)
        if ts.bad and f in called:
            # compiled by the caller?
            callers = [g for g in scope if g is not f and any(isinstance(c, ast.Call) and f in p.callees(c, g, g.cls) for c in own_nodes(g.node))]
            okc = True
            for g in callers:
                ts2 = ReadyTS(p, t, scope)
                ts2.run_function(g, g.cls, False)
                if ts2.bad or not ts2.good:
                    okc = False
            if okc and callers:
                ctx.ok('before-run', f.qualname)
                continue
        if ts.bad:
            g, c = ts.bad[0]
            ctx.bad('before-run', f.qualname, g, f'{ast.unparse(c)[:70]} can be reached before the functions of what was received from another '
                    f'process are compiled', c)
        else:
            ctx.ok('before-run', f.qualname, f'{f.qualname}: compiled before {ast.unparse(sites[f][0])[:60]}')
    ctx.count('executors of what other processes send', n)
    ctx.need('executors of what other processes send', 3)


# ------------------------------------------------------------------------------------------------ pickling of functions
class _AssignsTS(Typestate):
    """state: attributes (re)assigned, or known not to be missing"""
    max_depth = 3
    track_exc = False

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and target.value.id == fr.func.self_name() and not (
                isinstance(value, ast.Constant) and value.value is None):
            return [st | {target.attr}]
        return [st]

    def on_test(self, test, truth, st, fr):
        if isinstance(test, ast.Compare) and isinstance(test.left, ast.Attribute) and len(test.ops) == 1 and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            absent = truth if isinstance(test.ops[0], (ast.Is, ast.Eq)) else not truth
            return st if absent else st | {test.left.attr}
        if isinstance(test, ast.Attribute) and truth:
            return st | {test.attr}
        return st


class _DispatchTS(Typestate):
    """does Op.ensure_function_compiled call ensure_compiled of an instance of class k on every path?"""
    max_depth = 3
    track_exc = False

    def __init__(self, p, k, param):
        super().__init__(p)
        self.k, self.param = k, param

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'ensure_compiled':
            return [True]
        return None

    def _classes(self, e, fr):
        return [self.p.resolve_global(x, fr.func.module, fr.cls) for x in (e.elts if isinstance(e, (ast.Tuple, ast.List)) else [e])]

    def on_test_call(self, call, targets, truth, st, fr):
        return self.on_test(call, truth, st, fr)

    def on_test(self, test, truth, st, fr):
        e = test
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and len(e.args) == 2:
            cs = self._classes(e.args[1], fr)
            if all(isinstance(c, ClassInfo) for c in cs):
                return st if any(self.k.derives(c) for c in cs) == truth else None
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Call) and isinstance(e.left.func, ast.Name) and \
                e.left.func.id == 'type':
            cs = self._classes(e.comparators[0], fr)
            if all(isinstance(c, ClassInfo) for c in cs):
                same = any(self.k is c for c in cs)
                pos = isinstance(e.ops[0], (ast.Is, ast.Eq, ast.In))
                return st if (same == pos) == truth else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'callable':
            return st if truth else None
        if isinstance(e, ast.Name) and e.id == self.param:
            return st if truth else None
        if isinstance(e, ast.Compare) and isinstance(e.left, ast.Name) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and \
                e.comparators[0].value is None:
            absent = truth if isinstance(e.ops[0], (ast.Is, ast.Eq)) else not truth
            return None if absent else st
        return st


def dropped(f):
    out = set()
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is None:
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant):
                    out.add(t.slice.value)
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant):
                    out.add(t.slice.value)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and n.args and isinstance(n.args[0], ast.Constant):
            out.add(n.args[0].value)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.NotEq,)) and isinstance(n.comparators[0], ast.Constant) and \
                isinstance(n.comparators[0].value, str):
            out.add(n.comparators[0].value)
    return out


def _restore(ctx, p, om):
    F = p.cls('Function', 'marcel.function')
    one = om.Op.find('ensure_function_compiled')
    if one is None:
        raise AnalysisBroken('Op.ensure_function_compiled not found')
    n = 0
    for c in sorted(p.subclasses(F), key=lambda c: c.qualname):
        g = c.find('__getstate__')
        if c is F or g is None:
            continue
        n += 1
        gone = dropped(g)
        f = c.find('ensure_compiled')
        for a in sorted(gone):
            key = f'{c.name}.{a}'
            if f is None:
                ctx.bad('restore', key, g, f'{c.name} is pickled without {a}, which nothing restores', g.node)
                continue
            ts = _AssignsTS(p)
            o = ts.run_function(f, c, frozenset())
            if o['ret'] and all(a in k[0] for k in o['ret']):
                ctx.ok('restore', key, f'{f.qualname} restores {a}')
            else:
                ctx.bad('restore', key, f, f'{c.name} is pickled without {a}, and a path of ensure_compiled leaves it missing', f.node)
            q = [x for x in one.params if x != one.self_name()][0]
            ds = _DispatchTS(p, c, q)
            o = ds.run_function(one, om.Op, False)
            if o['ret'] and all(k[0] for k in o['ret']):
                ctx.ok('restore', key + ':dispatch')
            else:
                ctx.bad('restore', key + ':dispatch', one, f'a path of {one.qualname} does not compile a {c.name}', one.node)
    ctx.count('kinds of functions pickled', n)
    ctx.need('kinds of functions pickled', 2)


CHECKS = {'F06': check_F06}

MUTANTS = {
    'F06': [
        ('marcel/op/filter.py', 'self.ensure_function_compiled(self.compare, env)', 'pass', 'filter does not compile'),
        ('marcel/op/join.py', 'self.pipeline.ensure_functions_compiled(env)', 'pass', 'join does not compile its pipeline'),
        ('marcel/pipeline.py', '        for op in self.ops:\n            op.ensure_functions_compiled(env)', '        for op in self.ops[1:]:\n            op.ensure_functions_compiled(env)', 'first op not compiled'),
        ('marcel/op/forkmanager.py', 'pipeline.ensure_functions_compiled(env)', 'pass', 'worker does not compile'),
        ('marcel/job.py', 'command.ensure_functions_compiled(env)', 'pass', 'job does not compile'),
        ('bin/farcel.py', 'self.pipeline.ensure_functions_compiled(self.env)', 'pass', 'farcel does not compile'),
        ('marcel/function.py', 'if self.function is None:', 'if self.op is not None:', 'function not restored'),
        ('marcel/core.py', 'self.ensure_function_compiled(x, env)\n', 'pass\n', 'eval_function does not compile'),
        ('marcel/op/runpipeline.py', 'arg.ensure_functions_compiled(env)', 'pass', 'pipeline args not compiled'),
        ('marcel/core.py', 'if type(arg) is marcel.function.SourceFunction:', 'if type(arg) is marcel.function.SymbolFunction:', 'wrong kind compiled'),
    ],
}
