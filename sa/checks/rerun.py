"""F03: running a pipeline again starts from fresh operator state."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate
from ..ops import OpModel, origin
from ..paths import given_types

META = {
    'F03': {
        'explanation': 'For every operator class, the attributes changed while it runs (assigned, or changed in place, by run, receive, '
                       'receive_error, flush and everything of the operator they reach, including helper objects) are '
                       'computed, and it is decided path-sensitively that each of them is re-initialised by what '
                       'PipelineExecutable.setup calls on every operator before a run, or written before it is read in the run. '
                       'Also decided: setup does not derive an argument from its own previous value, nested pipelines fed item by '
                       'item are private copies, pipeline executors return to their initial state on every exit, and no instance '
                       'attribute of an operator hides a method of the operator protocol.',
        'assumptions': ['operators are set up by PipelineExecutable.setup before each run (checked)'],
    },
}

MUTATORS = {'append', 'add', 'update', 'pop', 'insert', 'extend', 'clear', 'remove', 'discard', 'popitem', 'setdefault', 'sort',
            'reverse', 'appendleft', 'popleft', 'rotate', 'subtract'}
IDEMPOTENT = {'int', 'str', 'float', 'list', 'tuple', 'bool', 'Path', 'sorted', 'set', 'pathlib.Path', 'File'}
IDEMPOTENT_METHODS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'expanduser', 'resolve', 'absolute'}
RUN_PHASE = ('run', 'receive', 'receive_error', 'flush')


def setup_sequence(p):
    """names of the methods PipelineExecutable.setup calls, unconditionally, on every operator"""
    c = p.cls('PipelineExecutable', 'marcel.pipeline')
    f = c.methods.get('setup')
    if f is None:
        raise AnalysisBroken('PipelineExecutable.setup not found')
    seq = []

    def walk(stmts, var, fn):
        for s in stmts:
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and any(
                    o.endswith('ops') for o in origin(p, s.iter, fn)):
                walk(s.body, s.target.id, fn)
            elif isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.target, ast.Tuple) and any(
                    isinstance(a, ast.Attribute) and a.attr == 'ops' for a in s.iter.args):
                for t in s.target.elts:
                    if isinstance(t, ast.Name):
                        walk(s.body, t.id, fn)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                call = s.value
                if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name):
                    if var is not None and call.func.value.id == var:
                        seq.append(call.func.attr)
                    elif call.func.value.id == fn.self_name():
                        g = c.find(call.func.attr)
                        if g is not None and g is not fn:
                            walk(g.body, None, g)
                elif var is None and isinstance(call.func, ast.Name) and call.func.id in fn.nested:
                    walk(fn.nested[call.func.id].body, None, fn.nested[call.func.id])
            elif isinstance(s, (ast.With, ast.Try)):
                walk(s.body, var, fn)
                walk(getattr(s, 'finalbody', []), var, fn)
    walk(f.body, None, f)
    return f, seq


def is_self(p, e, fr_func, cls, frcls):
    """does e denote the operator (an instance of cls)?"""
    f = fr_func
    while f is not None:
        sn = f.self_name()
        if sn and isinstance(e, ast.Name) and e.id == sn:
            return frcls is not None and frcls.derives(cls) or f.cls is not None and cls.derives(f.cls)
        f = f.parent
    return False


class Reach:
    """functions of an operator reachable from a set of its methods, with the class whose instance `self` is"""

    def __init__(self, p, om, cls):
        self.p, self.om, self.cls = p, om, cls

    def from_methods(self, names):
        seen = {}
        work = []
        for n in names:
            f = self.cls.find(n)
            if f is not None:
                work.append((f, self.cls))
        while work:
            f, c = work.pop()
            if (f, c) in seen:
                continue
            seen[(f, c)] = True
            for g in f.nested.values():
                if isinstance(g, FuncInfo):
                    work.append((g, c))
            for n in own_nodes(f.node):
                if isinstance(n, ast.Lambda):
                    work.append((self.p.lambda_info(n, f), c))
                if not isinstance(n, ast.Call):
                    continue
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('send', 'send_error', 'propagate_flush', 'receive_input'):
                    continue
                for t in self.p.callees(n, f, c):
                    if isinstance(t, ClassInfo):
                        i = t.find('__init__')
                        if i is not None and i.cls is not None and not t.derives(self.om.Op) and t not in self.om.pipeline_classes:
                            work.append((i, t))
                        continue
                    if not isinstance(t, FuncInfo) or t.cls is None:
                        continue
                    if t.cls in self.om.pipeline_classes:
                        continue
                    if t.cls is self.om.Op or t.cls is self.om.AbstractOp or t.cls.derives(self.om.Op):
                        if self.cls.derives(t.cls) and self.cls.find(t.name) is t or self._super(n, t):
                            work.append((t, self.cls))
                        continue
                    if t.module is self.cls.module or t.module in [b.module for b in self.cls.repo_mro()] or \
                            t.module.name.startswith('marcel.op.'):
                        for tc in self.receivers(n, f, c, t):
                            work.append((t, tc))
            # methods handed out as values (callbacks)
            for n in own_nodes(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load) and \
                        is_self(self.p, n.value, f, self.cls, c):
                    m = self.cls.find(n.attr)
                    if m is not None and m.cls is not self.om.Op and m.name not in ('cleanup', 'setup'):
                        work.append((m, self.cls))
        return list(seen)

    def _super(self, call, t):
        v = call.func.value if isinstance(call.func, ast.Attribute) else None
        return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super'

    def receivers(self, call, f, c, t):
        if isinstance(call.func, ast.Attribute):
            v = call.func.value
            if isinstance(v, ast.Name) and v.id == f.self_name() or self._super(call, t):
                return [c if c is not None and c.derives(t.cls) else t.cls]
            ty = [x for x in self.p.infer(v, f, c) if x.find(t.name) is t]
            if ty:
                return ty
        return [t.cls]


def mutations(p, om, cls, funcs):
    """(owner class, attr) -> [(func, node, how)] for attributes of the operator (owner cls) or of its helper objects"""
    out = {}

    def note(f, c, e, node, how):
        for o in _attr_origins(p, e, f):
            base, attr = o
            owner = None
            if isinstance(base, ast.Name):
                g = f
                while g is not None:
                    if g.self_name() and base.id == g.self_name():
                        owner = c
                        break
                    g = g.parent
            if owner is None:
                ty = p.infer(base, f, c) or given_types(p, base, f)
                if any(t.derives(om.Op) and cls.derives(t) or t is cls for t in ty) or any(
                        t.derives(cls) for t in ty):
                    owner = cls
                else:
                    h = [t for t in ty if not t.derives(om.Op) and t not in om.pipeline_classes]
                    if len(h) == 1:
                        owner = h[0]
            if owner is not None:
                out.setdefault((owner, attr), []).append((f, node, how))
    for f, c in funcs:
        nodes = list(own_nodes(f.node))
        for n in nodes:
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Delete):
                tg = n.targets
            elif isinstance(n, (ast.For, ast.comprehension)):
                tg = [n.target]
            elif isinstance(n, ast.With):
                tg = [i.optional_vars for i in n.items if i.optional_vars is not None]
            for t in tg:
                for t in _flat(t):
                    if isinstance(t, ast.Attribute):
                        note(f, c, t, n, 'assign' if not isinstance(n, ast.AugAssign) else 'update')
                    elif isinstance(t, ast.Subscript):
                        note(f, c, t.value, n, 'inplace')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                note(f, c, n.func.value, n, 'inplace')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args:
                note(f, c, n.args[0], n, 'inplace')
    return out


def _flat(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from _flat(e)
    elif isinstance(t, ast.Starred):
        yield from _flat(t.value)
    else:
        yield t


def _attr_origins(p, e, f, depth=0):
    """(base expr, attr) pairs an expression may denote (following local aliases)"""
    if depth > 5:
        return []
    if isinstance(e, ast.Attribute):
        return [(e.value, e.attr)]
    if isinstance(e, ast.Subscript):
        return _attr_origins(p, e.value, f, depth + 1)
    if isinstance(e, ast.Name):
        g = f
        while g is not None:
            out = []
            for v in g.local_assigns().get(e.id, []):
                if isinstance(v, (ast.Attribute, ast.Name, ast.Subscript, ast.IfExp)) and not (isinstance(v, ast.Name) and v.id == e.id):
                    out += _attr_origins(p, v, g, depth + 1)
            for n in own_nodes(g.node):
                if isinstance(n, (ast.For, ast.comprehension)) and any(
                        isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.target)):
                    out += _attr_origins(p, n.iter, g, depth + 1)
            if out:
                return out
            if e.id in g.params or e.id in g.local_assigns():
                return []
            g = g.parent
    if isinstance(e, ast.IfExp):
        return _attr_origins(p, e.body, f, depth + 1) + _attr_origins(p, e.orelse, f, depth + 1)
    return []


class WriteTS(Typestate):
    """state: frozenset of operator attributes freshly written so far. Records exposed reads and self-derived writes."""
    track_exc = False
    max_depth = 6

    def __init__(self, p, om, cls, watch):
        super().__init__(p)
        self.om, self.cls, self.watch = om, cls, watch
        self.exposed = {}
        self.selfderived = {}

    def relevant(self, t):
        if t.name in ('send', 'send_error', 'propagate_flush', 'receive_input', 'call', 'eval_function', 'fatal_error'):
            return False
        if t.cls is None or t.cls in self.om.pipeline_classes:
            return False
        if t.cls.derives(self.om.Op) or t.cls is self.om.Op:
            return self.cls.derives(t.cls)
        return t.module is self.cls.module or t.module.name.startswith('marcel.op.')

    def _self(self, e, fr):
        if isinstance(e, ast.Name):
            f = fr.func
            while f is not None:
                if f.self_name() and e.id == f.self_name():
                    return f.cls is not None and (self.cls.derives(f.cls)) and (fr.cls is None or fr.cls.derives(f.cls) or self.cls is fr.cls)
                f = f.parent
        if isinstance(e, (ast.Attribute, ast.Name)):
            ty = self.p.infer(e, fr.func, fr.cls, binds=fr.binds) or given_types(self.p, e, fr.func)
            return bool(ty) and all(t is self.cls or self.cls.derives(t) and t.derives(self.om.Op) or t.derives(self.cls) for t in ty)
        return False

    def attr(self, e, fr):
        if isinstance(e, ast.Attribute) and e.attr in self.watch and self._self(e.value, fr):
            return e.attr
        return None

    def read(self, a, node, st, fr):
        if a not in st and a not in self.exposed:
            self.exposed[a] = (fr.func, node)

    def on_expr(self, e, st, fr):
        a = self.attr(e, fr)
        if a is not None and isinstance(e.ctx, ast.Load):
            self.read(a, e, st, fr)
        return [st]

    def on_call(self, call, targets, st, fr):
        # eval_function(env, 'attr', ...) reads the attribute by name
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'eval_function' and len(call.args) >= 2 and \
                isinstance(call.args[1], ast.Constant) and call.args[1].value in self.watch:
            self.read(call.args[1].value, call, st, fr)
        return None

    def stale_refs(self, v, st, fr):
        """watched attributes (not freshly written) that the value refers to"""
        out = set()
        for n in ast.walk(v):
            a = self.attr(n, fr)
            if a is not None and a not in st:
                out.add(a)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'eval_function' and \
                    len(n.args) >= 2 and isinstance(n.args[1], ast.Constant) and n.args[1].value not in st:
                out.add(n.args[1].value)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for lv in fr.func.local_assigns().get(n.id, []):
                    if lv is not None and not isinstance(lv, ast.Name):
                        for m in ast.walk(lv):
                            a = self.attr(m, fr)
                            if a is not None and a not in st:
                                out.add(a)
        return out

    def idempotent(self, v):
        if isinstance(v, ast.Call) and dotted(v.func) in IDEMPOTENT:
            return True
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in IDEMPOTENT_METHODS:
            return True
        if isinstance(v, ast.IfExp):
            return self.idempotent(v.body) and self.idempotent(v.orelse)
        if isinstance(v, ast.BoolOp) and isinstance(v.op, ast.Or):
            return True     # self.a or default
        if isinstance(v, (ast.Attribute, ast.Constant)):
            return True
        return False

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute):
            a = self.attr(ast.Attribute(value=target.value, attr=target.attr, ctx=ast.Load()), fr)
            if a is not None:
                if value is None:
                    # augmented or opaque
                    self.read(a, target, st, fr)
                    if a not in st:
                        self.selfderived.setdefault(a, (fr.func, target))
                    return [st | {a}]
                if a not in st and a in self.stale_refs(value, st, fr):
                    if not self.idempotent(value):
                        self.selfderived.setdefault(a, (fr.func, target))
                    return [st]
                src = value
                # aliasing another stale attribute does not make this one fresh
                if isinstance(src, ast.Attribute) and self._self(src.value, fr) and src.attr not in st:
                    return [(st - {a}) | {('alias', a, src.attr)}]
                return [st | {a}]
        elif isinstance(target, ast.Subscript):
            for b, a in _attr_origins(self.p, target.value, fr.func):
                if a in self.watch and self._self(b, fr):
                    self.read(a, target, st, fr)
        return [st]


def check_F03(ctx):
    p = ctx.p
    om = OpModel(p)
    ctx.rule('reset', 'an attribute changed while an operator runs is written afresh by what is called on every operator before a run '
                      '(PipelineExecutable.setup), on every normal path, or is written before it is read within the run')
    ctx.rule('idempotent-setup', 'setup does not change an attribute that holds an argument into something derived from its own previous '
                                 'value (a second run would derive it again)')
    ctx.rule('accumulating', 'setup and customize_pipelines do not grow an attribute by appending to its own previous value')
    ctx.rule('own-copy', 'a nested pipeline that setup prepares for being fed item by item is a private copy')
    ctx.rule('immutable', 'copying a pipeline, or extending a copy of it, does not change the original')
    ctx.rule('executor-state', 'run_pipeline leaves the pipeline in its initial state on every exit')
    ctx.rule('protocol-not-hidden', 'no instance attribute has the name of a method of the operator protocol')
    ctx.rule('setup-calls', 'PipelineExecutable.setup calls setup and customize_pipelines on every operator')
    ctx.rule('no-shared-state', 'no operator changes class-level or module-level state while it runs')
    ctx.rule('copyable', 'copying an operator carries over all of its attributes')

    sf, seq = setup_sequence(p)
    for need in ('setup', 'customize_pipelines'):
        if need not in seq:
            ctx.bad('setup-calls', need, sf, f'PipelineExecutable.setup does not call {need} on every operator', sf.node)
        else:
            ctx.ok('setup-calls', need)
    protocol = {n for c in (om.Op, om.AbstractOp) for n in c.methods if not n.startswith('__')}
    base_attrs_done = False
    for cls in om.concrete:
        ctx.count('operator classes')
        _operator(ctx, p, om, cls, seq, protocol)
    ctx.need('operator classes', 40)
    _executors(ctx, p, om)
    _copy(ctx, p, om)
    _immutable(ctx, p, om)


def _operator(ctx, p, om, cls, seq, protocol):
    reach = Reach(p, om, cls)
    run_funcs = reach.from_methods(RUN_PHASE + ('receive_input',))
    ctx.count('run-phase functions', len(run_funcs))
    muts = mutations(p, om, cls, run_funcs)
    # functions given to nested operators by customize_pipelines run during the run as well
    cust = [(f, c) for f, c in reach.from_methods(('customize_pipelines',)) if f.parent is not None]
    for k, v in mutations(p, om, cls, cust).items():
        muts.setdefault(k, []).extend(v)
    watch = {a for (c, a) in muts if c is cls}
    helpers = {}
    for (c, a), v in muts.items():
        if c is cls:
            continue
        if all(f.name == '__init__' and f.cls is not None and c.derives(f.cls) for f, n, h in v):
            continue
        helpers.setdefault(c, set()).add(a)
    # attributes of the operator that hold stateful helpers
    helper_attrs = {}
    allattrs = set()
    for c in cls.repo_mro():
        allattrs |= set(c.attr_assigns())
    for a in allattrs:
        ty = p.attr_type(cls, a)
        hs = [h for h in helpers if any(t is h or t.derives(h) or h.derives(t) for t in ty)]
        if hs and not any(t.derives(om.Op) for t in ty):
            helper_attrs[a] = hs
    watch_all = set(allattrs) | watch
    # ---- setup phase
    ts = WriteTS(p, om, cls, watch_all)
    states = {frozenset()}
    for name in seq:
        f = cls.find(name)
        if f is None:
            continue
        nxt = set()
        for s in states:
            o = ts.run_function(f, cls, s)
            nxt |= {k[0] for k in o['ret']}
        states = nxt or states
    fresh = set.intersection(*[{x for x in s if isinstance(x, str)} for s in states]) if states else set()
    aliases = {x[1:] for s in states for x in s if isinstance(x, tuple)}
    # ---- reset
    cand = {a: v for (c, a), v in muts.items() if c is cls}
    for a in helper_attrs:
        h = helper_attrs[a][0]
        cand.setdefault(a, [(None, None, 'helper ' + h.name)])
    for a in sorted(cand):
        if a in ('receiver',):
            continue
        ctx.count('attributes changed while running')
        if a in fresh:
            ctx.ok('reset', f'{cls.qualname}.{a}', 'written on every path through ' + ', '.join(seq))
            continue
        # in the run phase: written before it is read?
        ts2 = WriteTS(p, om, cls, {a})
        hit = None
        for n in RUN_PHASE + ('receive_input',):
            f = cls.find(n)
            if f is None:
                continue
            ts2.exposed.clear()
            ts2.run_function(f, cls, frozenset())
            if a in ts2.exposed:
                hit = (n, ts2.exposed[a])
                break
            for g, c in cust:
                ts2.run_function(g, cls, frozenset())
                if a in ts2.exposed:
                    hit = (n, ts2.exposed[a])
                    break
        if _given(cls, a):
            # an object the creator of the operator handed to its constructor and reads afterwards (gather's output list)
            ctx.ok('reset', f'{cls.qualname}.{a}', 'owned by the creator of the operator')
            continue
        al = [b for (x, b) in aliases if x == a]
        where, node, how = cand[a][0]
        if hit is None and not (al and how == 'inplace'):
            ctx.ok('reset', f'{cls.qualname}.{a}', 'written before it is read in the run')
            continue
        if a in helper_attrs and al == [] and a not in {x for (c, x) in muts if c is cls} and not _ever_assigned_outside_init(cls, a):
            pass
        lazily = _none_in_cleanup(p, om, cls, a)
        if lazily:
            ctx.ok('reset', f'{cls.qualname}.{a}', 'cleared by cleanup')
            continue
        f = where or cls.find('setup')
        ctx.bad('reset', f'{cls.qualname}.{a}', f if f is not None else cls,
                f'{cls.name}.{a} is changed while the operator runs ({how}) and read in {hit[0] if hit else "the run"}, but setup does not write it '
                f'afresh on every path: the next run of the same pipeline starts with what this run left behind', node)
    # ---- idempotent setup
    n_checked = 0
    setup_funcs = [f for f, c in reach.from_methods(tuple(seq)) if c is cls]
    for a, (f, node) in sorted(ts.selfderived.items()):
        if _constant_guard(cls, a, setup_funcs, seq, watch):
            ctx.ok('idempotent-setup', f'{cls.qualname}.{a}', 'whether it is written afresh depends on the arguments only')
            continue
        ctx.bad('idempotent-setup', f'{cls.qualname}.{a}', f, f'{cls.name}.{a} is replaced by a value derived from its previous value when the '
                f'operator is set up: the second run does not see the original argument', node)
    smuts = mutations(p, om, cls, [(f, c) for f, c in reach.from_methods(tuple(seq))])
    for (c, a), v in sorted(smuts.items(), key=lambda kv: kv[0][1]):
        if c is not cls:
            continue
        n_checked += 1
        for f, node, how in v:
            if how != 'inplace' or f.name == '__init__':
                continue
            if f.parent is not None and (f, cls) in cust:
                continue
            # changed in place during setup: must have been written afresh before
            t3 = _InPlace(p, om, cls, a)
            bad = t3.check(seq)
            if bad:
                ctx.bad('accumulating', f'{cls.qualname}.{a}', f, f'{cls.name}.{a} is changed in place when the operator is set up without having '
                        f'been written afresh: each run starts from what the previous setup left', node)
                break
    ctx.count('setup-phase attributes', n_checked)
    ctx.ok('idempotent-setup', cls.qualname)
    # ---- private copies
    _own_copy(ctx, p, om, cls, seq)
    # ---- hidden protocol
    for a in sorted(allattrs & (protocol | {m for c in cls.repo_mro() for m in c.methods if not c.methods[m].is_property})):
        f, v = cls.all_attr_assigns(a)[0]
        ctx.bad('protocol-not-hidden', f'{cls.qualname}.{a}', f, f'the attribute {a} of {cls.name} hides the method {a} of the operator '
                f'protocol', f.node)
    ctx.ok('protocol-not-hidden', cls.qualname)
    # ---- shared state
    for f, c in run_funcs + cust:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Global):
                ctx.bad('no-shared-state', f'{f.qualname}:{",".join(n.names)}', f, f'{f.name} rebinds a module-level name while running', n)
            tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
            for t in tg:
                if isinstance(t, ast.Attribute) and dotted(t.value):
                    r = p.resolve_global(t.value, f.module, f.cls)
                    head = dotted(t.value).split('.')[0]
                    if isinstance(r, ClassInfo) and head not in f.local_assigns() and head not in f.params and r.derives(om.Op):
                        ctx.bad('no-shared-state', f'{r.qualname}.{t.attr}', f, f'{f.name} changes class-level state of {r.name} while running', n)
    for (c, a), v in sorted(muts.items(), key=lambda kv: (kv[0][0].qualname, kv[0][1])):
        inplace = [(f, n) for f, n, how in v if how == 'inplace']
        if inplace and _shared_container(c, a):
            f, n = inplace[0]
            ctx.bad('no-shared-state', f'{c.qualname}.{a}', f, f'{c.name}.{a} is one object for all instances of {c.name} and is changed in '
                    f'place while running: what one run collected is seen by the next run and by other operators', n)


MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)


def _mutable(v):
    return isinstance(v, MUTABLE) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in (
        'list', 'dict', 'set', 'deque', 'defaultdict', 'OrderedDict', 'Counter')


def _shared_container(c, a):
    """is attribute a of instances of c one container shared by all of them? (a class-level one that no instance replaces, or the
    default value of a parameter)"""
    own = []
    for k in c.repo_mro():
        for f in k.methods.values():
            for n in own_nodes(f.node):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) and n.value is not None else []
                if any(isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.value, ast.Name) and x.value.id == f.self_name()
                       for t in tg for x in _flat(t)):
                    own.append((f, n.value))
    for f, v in own:
        if isinstance(v, ast.Name) and v.id in f.params:
            ar = f.node.args
            pos = ar.posonlyargs + ar.args
            d = dict(zip([x.arg for x in pos[len(pos) - len(ar.defaults):]], ar.defaults))
            d.update({x.arg: y for x, y in zip(ar.kwonlyargs, ar.kw_defaults) if y is not None})
            if v.id in d and _mutable(d[v.id]):
                return True
    if own:
        return False
    for k in c.repo_mro():
        for st in k.node.body:
            tg = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) and st.value is not None else []
            if any(isinstance(t, ast.Name) and t.id == a for t in tg):
                return _mutable(st.value)
    return False


def _given(cls, a):
    vals = cls.all_attr_assigns(a)
    return bool(vals) and all(f.name == '__init__' and isinstance(v, ast.Name) and v.id in f.params for f, v in vals)


def _tests_over(f, node):
    """tests of the If statements around node in f, and of those that may return before it"""
    out = []

    def walk(n, tests):
        if n is node:
            out.extend(tests)
            return True
        for ch in ast.iter_child_nodes(n):
            t = tests
            if isinstance(n, (ast.If, ast.While, ast.IfExp)) and ch is not n.test:
                t = tests + [n.test]
            if walk(ch, t):
                return True
        return False
    walk(f.node, [])
    for n in own_nodes(f.node):
        if isinstance(n, ast.If) and any(isinstance(x, (ast.Return, ast.Continue, ast.Break)) for s in n.body + n.orelse for x in ast.walk(s)):
            out.append(n.test)
    return out


def _constant_guard(cls, a, funcs, seq, mutated):
    """a is None to begin with, and written afresh in the setup phase under conditions on unchanging attributes only (so it is
    written afresh either by every setup or by none)"""
    if not all(isinstance(v, ast.Constant) and v.value is None for f, v in cls.all_attr_assigns(a) if f.name == '__init__'):
        return False
    varying = set(mutated)
    for f in funcs:
        for n in own_nodes(f.node):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []:
                for t in _flat(t):
                    if isinstance(t, ast.Attribute):
                        varying.add(t.attr)

    def constant(tests, f):
        names = [n for t in tests for n in ast.walk(t)]
        for n in list(names):
            if isinstance(n, ast.Name):
                for v in f.local_assigns().get(n.id, []):
                    if v is None:
                        return False
                    names.extend(ast.walk(v))
        return not any(isinstance(n, ast.Attribute) and n.attr in varying for n in names)

    def reached_constantly(f, seen=()):
        if f.name in seq and cls.find(f.name) is f:
            return True
        for g in funcs:
            for n in own_nodes(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name and g not in seen and \
                        constant(_tests_over(g, n), g) and reached_constantly(g, seen + (f,)):
                    return True
        return False
    for f in funcs:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == a for t in n.targets) and not any(
                    isinstance(x, ast.Attribute) and x.attr == a or isinstance(x, ast.Constant) and x.value == a
                    for x in ast.walk(n.value)):
                if constant(_tests_over(f, n), f) and reached_constantly(f):
                    return True
    return False


def _ever_assigned_outside_init(cls, a):
    return any(f.name != '__init__' for f, v in cls.all_attr_assigns(a))


def _none_in_cleanup(p, om, cls, a):
    f = cls.find('cleanup')
    if f is None or f.cls is om.Op:
        return False
    ts = WriteTS(p, om, cls, {a})
    o = ts.run_function(f, cls, frozenset())
    return bool(o['ret']) and all(a in k[0] for k in o['ret'])


class _InPlace(WriteTS):
    def __init__(self, p, om, cls, a):
        super().__init__(p, om, cls, {a})
        self.a = a
        self.bad = False

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute) and call.func.attr in MUTATORS:
            for b, a in _attr_origins(self.p, call.func.value, fr.func):
                if a == self.a and self._self(b, fr) and a not in st:
                    self.bad = True
        return super().on_call(call, targets, st, fr)

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Subscript):
            for b, a in _attr_origins(self.p, target.value, fr.func):
                if a == self.a and self._self(b, fr) and a not in st:
                    self.bad = True
        return super().on_assign(target, value, st, fr)

    def check(self, seq):
        states = {frozenset()}
        for name in seq:
            f = self.cls.find(name)
            if f is None:
                continue
            nxt = set()
            for s in states:
                o = self.run_function(f, self.cls, s)
                nxt |= {k[0] for k in o['ret']}
            states = nxt or states
        return self.bad


class _CopyTS(Typestate):
    """state: frozenset of names ('x' local of frame, 'self.x') that hold a privately copied pipeline"""
    track_exc = False
    max_depth = 5

    def __init__(self, p, om, cls):
        super().__init__(p)
        self.om, self.cls = om, cls
        self.found = []

    def relevant(self, t):
        while t.parent is not None:
            t = t.parent
        return t.cls is not None and self.cls.derives(t.cls) and t.cls is not self.om.Op

    def name(self, e, fr):
        if isinstance(e, ast.Name):
            return (fr.func.qualname, e.id)
        if isinstance(e, ast.Attribute):
            return ('.', e.attr)
        return None

    def own(self, v, st, fr):
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
            if v.func.attr == 'copy':
                return True
            if v.func.attr == 'append_immutable':
                return self.own(v.func.value, st, fr)
            if v.func.attr == 'create_empty_pipeline':
                return True
        if isinstance(v, (ast.Name, ast.Attribute)):
            return self.name(v, fr) in st
        if isinstance(v, ast.IfExp):
            return self.own(v.body, st, fr) and self.own(v.orelse, st, fr)
        return False

    def on_assign(self, target, value, st, fr):
        n = self.name(target, fr)
        if n is None or value is None:
            return [st]
        return [st | {n}] if self.own(value, st, fr) else [st - {n}]

    def on_call(self, call, targets, st, fr):
        fe = call.func
        if isinstance(fe, ast.Attribute) and fe.attr == 'setup' and not (
                isinstance(fe.value, ast.Call)):
            pl = self.p.infer(fe.value, fr.func, fr.cls, binds=fr.binds)
            isp = bool(pl & self.om.pipeline_classes) or not pl and any(
                'pipeline' in o.removesuffix('.copy()').rsplit('.', 1)[-1] for o in origin(self.p, fe.value, fr.func))
            if isp:
                self.found.append((fr.func, call, self.own(fe.value, st, fr)))
                return [st]
        return None


def _immutable(ctx, p, om):
    """append_immutable and copy of the pipelines leave the original as it was"""
    for c in sorted(om.pipeline_classes, key=lambda c: c.qualname):
        for nm in ('append_immutable', 'copy'):
            f = c.methods.get(nm)
            if f is None or len(f.node.body) == 1 and isinstance(f.node.body[0], ast.Assert):
                continue
            ctx.count('methods that return a modified copy of a pipeline')
            ts = _ImmTS(p, f)
            ts.run_function(f, c, frozenset())
            if ts.bad:
                ctx.bad('immutable', f'{c.qualname}.{nm}', f, f'{c.name}.{nm} changes the pipeline it is called on: {ast.unparse(ts.bad[0])[:80]}', ts.bad[0])
            else:
                ctx.ok('immutable', f'{c.qualname}.{nm}')
    ctx.need('methods that return a modified copy of a pipeline', 3)


class _ImmTS(Typestate):
    """state: what is (part of) the original: names and attribute paths that denote a container of it"""
    track_exc = False
    max_depth = 2
    GROW = ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort')

    def __init__(self, p, f):
        super().__init__(p)
        self.f = f
        self.bad = []

    def relevant(self, t):
        return False

    def path(self, e, fr):
        return dotted(e)

    def original(self, e, st, fr):
        """does e denote the original, or a container that belongs to it?"""
        d = dotted(e)
        if d is None:
            return False
        if d in st:
            return True
        me = fr.func.self_name()
        return d == me or d.startswith(me + '.')

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute) and self.original(target.value, st, fr):
            self.bad.append(target)
        if isinstance(target, ast.Subscript) and self.original(target.value, st, fr):
            self.bad.append(target)
        d = dotted(target) if isinstance(target, (ast.Name, ast.Attribute)) else None
        if d is None or value is None:
            return [st]
        st = frozenset(x for x in st if x != d and not x.startswith(d + '.'))
        if isinstance(value, (ast.Name, ast.Attribute)) and self.original(value, st, fr):
            st = st | {d}
        return [st]

    def on_call(self, call, targets, st, fr):
        fn = call.func
        if isinstance(fn, ast.Attribute) and fn.attr in self.GROW and self.original(fn.value, st, fr):
            self.bad.append(call)
        return [st]


def _own_copy(ctx, p, om, cls, seq):
    ts = _CopyTS(p, om, cls)
    for name in seq:
        f = cls.find(name)
        if f is not None and f.cls is not om.Op:
            ts.run_function(f, cls, frozenset())
    verdict = {}
    for f, node, ok in ts.found:
        # on every path
        verdict[id(node)] = (f, node, ok and verdict.get(id(node), (0, 0, True))[2])
    for f, node, ok in verdict.values():
        ctx.count('nested pipelines set up')
        key = f'{cls.qualname}:{f.name}'
        if ok:
            ctx.ok('own-copy', key)
        else:
            ctx.bad('own-copy', key, f, f'{cls.name} sets up a pipeline that is not its own copy: the operators of the original (a '
                    f'variable, or the argument used again by the next run) are then shared', node)


class _StateTS(Typestate):
    """state: dict attr -> dump of last assigned value ('entry' if unassigned)"""
    max_depth = 4

    def __init__(self, p, om, cls, attrs):
        super().__init__(p)
        self.om, self.cls, self.attrs = om, cls, attrs

    def relevant(self, t):
        return t.cls is not None and self.cls.derives(t.cls)

    def may_raise(self, call, targets, fr):
        # leaving a scope that was entered does not fail (N01 decides that scopes are paired)
        return not (isinstance(call.func, ast.Attribute) and call.func.attr in ('vars', 'pop_scope'))

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and target.value.id == fr.func.self_name() \
                and fr.cls is not None and fr.cls is self.cls and target.attr in self.attrs:
            d = dict(st)
            d[target.attr] = _canon(value) if value is not None else '?'
            return [frozenset(d.items())]
        return [st]


def _canon(v):
    if isinstance(v, ast.Attribute):
        return '.'.join((dotted(v) or ast.dump(v)).split('.')[-2:])
    return ast.dump(v)


def _executors(ctx, p, om):
    n = 0
    for c in sorted(om.pipeline_classes, key=lambda c: c.qualname):
        f = c.methods.get('run_pipeline')
        if f is None or (len(f.node.body) == 1 and isinstance(f.node.body[0], ast.Assert)):
            continue
        n += 1
        attrs = set()
        reach = [f] + [g for g in c.methods.values()]
        for g, v in [(g, v) for a in c.attr_assigns() for g, v in c.attr_assigns()[a] if g.name in _called(p, f, c) | {'run_pipeline'}]:
            pass
        called = _called(p, f, c) | {'run_pipeline'}
        for a, l in c.attr_assigns().items():
            if any(g.name in called for g, v in l):
                attrs.add(a)
        init = {}
        for a in attrs:
            vals = [_canon(v) for g, v in c.all_attr_assigns(a) if g.name == '__init__' and v is not None]
            init[a] = vals
            sup = _super_init_value(c, a)
            if sup is not None:
                init[a].append(sup)
        ts = _StateTS(p, om, c, attrs)
        o = ts.run_function(f, c, frozenset())
        bad = None
        for kind in ('ret', 'exc'):
            for key, line in o[kind].items():
                d = dict(key[0])
                for a, v in d.items():
                    if v not in init[a] and _read_stale(p, om, c, a):
                        bad = bad or (a, line, kind, key[2])
        if bad:
            a, line, kind, k = bad
            ctx.bad('executor-state', f'{c.qualname}.{a}', f, f'{c.name}.run_pipeline can end (line {line}, '
                    f'{"normally" if kind == "ret" else "with an exception"}) with {a} not back at its initial value: the next run of '
                    f'this pipeline starts from the state of this one', f.node)
        else:
            ctx.ok('executor-state', c.qualname, f'attributes {sorted(attrs)}')
    ctx.count('pipeline executors', n)
    ctx.need('pipeline executors', 3)


def _read_stale(p, om, c, a):
    """can a value left in attribute a by one run be read by the next?"""
    for f in p.functions:
        if any(isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Load) for n in own_nodes(f.node)):
            if f.cls is not None and (f.cls.derives(c) or c.derives(f.cls)):
                ts = WriteTS(p, om, f.cls, {a})
                ts.run_function(f, f.cls, frozenset())
                if a in ts.exposed:
                    return True
            else:
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Load):
                        ty = p.infer(n.value, f, f.cls)
                        if not ty or any(t.derives(c) or c.derives(t) for t in ty):
                            return True
    return False


def _super_init_value(c, a):
    """value given to attribute a by super().__init__(const)"""
    i = c.methods.get('__init__')
    if i is None:
        return None
    for n in own_nodes(i.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__' and n.args:
            b = c.find('__init__', after=c)
            if b is None:
                continue
            for g, v in b.cls.attr_assigns().get(a, []):
                if g is b and isinstance(v, ast.Name) and v.id in b.params:
                    idx = b.params.index(v.id) - 1
                    if 0 <= idx < len(n.args):
                        return _canon(n.args[idx])
    return None


def _called(p, f, c):
    out = set()
    work = [f]
    seen = set()
    while work:
        g = work.pop()
        if g in seen:
            continue
        seen.add(g)
        for n in own_nodes(g.node):
            if isinstance(n, ast.Call):
                for t in p.callees(n, g, c):
                    if isinstance(t, FuncInfo) and t.cls is not None and c.derives(t.cls):
                        out.add(t.name)
                        work.append(t)
    return out


def _copy(ctx, p, om):
    """Op.copy carries over every attribute; overrides do too"""
    for c in [om.Op] + om.all:
        f = c.methods.get('copy')
        if f is None:
            continue
        ctx.count('copy methods')
        sn = f.self_name()
        ok = False
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                src = ast.unparse(n)
                if isinstance(n.func, ast.Attribute) and n.func.attr == 'update' and any(
                        isinstance(x, ast.Attribute) and x.attr == '__dict__' or isinstance(x, ast.Call) and dotted(x.func) == 'vars'
                        for a in n.args for x in ast.walk(a)):
                    ok = True
                if dotted(n.func) in ('copy.copy', 'copy.deepcopy', 'copy'):
                    ok = True
                if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and isinstance(n.func.value, ast.Call):
                    ok = True     # super().copy()
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == '__dict__' for t in n.targets):
                ok = True
        if ok:
            ctx.ok('copyable', f.qualname)
        else:
            ctx.bad('copyable', f.qualname, f, 'copying an operator does not carry over its attributes', f.node)
    # PipelineExecutable.copy copies every operator
    pe = p.cls('PipelineExecutable', 'marcel.pipeline')
    f = pe.methods.get('copy')
    if f is None:
        raise AnalysisBroken('PipelineExecutable.copy not found')
    ok = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and any(
        'ops' in o for o in origin(p, n.func.value, f)) and not any(o.endswith('ops') for o in origin(p, n.func.value, f)) for n in ast.walk(f.node))
    if ok:
        ctx.ok('copyable', f.qualname)
    else:
        ctx.bad('copyable', f.qualname, f, 'the copy of a pipeline shares operators with the original', f.node)
    for c in sorted(om.pipeline_classes, key=lambda c: c.qualname):
        f = c.methods.get('copy')
        if f is None or c is pe or len(f.body) == 1 and isinstance(f.body[0], ast.Assert):
            continue
        ctx.count('copy methods')
        bad = None
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                for t in p.callees(n, f, c):
                    if isinstance(t, ClassInfo) and t in om.pipeline_classes:
                        for a in n.args:
                            for o in origin(p, a, f):
                                if o.endswith('executable') or o.endswith('customizations'):
                                    bad = (n, o)
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr in ('executable', 'customizations', 'ops'):
                        for o in origin(p, n.value, f):
                            if o.endswith(('executable', 'customizations', 'ops')):
                                bad = (n, o)
        if bad:
            ctx.bad('copyable', f.qualname, f, f'the copy of the pipeline shares {bad[1]} with the original', bad[0])
        else:
            ctx.ok('copyable', f.qualname)


CHECKS = {'F03': check_F03}

MUTANTS = {'F03': [
    ('marcel/op/sql.py', "        self.total_update_count = 0\n        if", "        if self.total_update_count is None:\n            self.total_update_count = 0\n        if", 'sql: updates of the last run are counted'),
    ('marcel/op/reverse.py', '    def setup(self, env):\n        self.contents = []\n', '    def setup(self, env):\n        pass\n', 'reverse: not emptied'),
    ('marcel/op/sort.py', '    def setup(self, env):\n        self.contents = []\n', '    def setup(self, env):\n        self.contents = self.contents or []\n',
     'sort: list kept if there is one'),
    ('marcel/op/case.py', '        self.branches = []\n        predicate = None\n', '        self.branches = self.branches or []\n        predicate = None\n',
     'case: branches accumulate'),
    ('marcel/op/case.py', '                pipeline = pipeline.copy()\n', '', 'case: pipeline not copied'),
    ('marcel/pipeline.py', '            env.vars().pop_scope()\n            self.state = PipelineMarcel.State.IDLE\n', '            env.vars().pop_scope()\n',
     'pipeline stays RUNNING'),
    ('marcel/core.py', '    def reset_pos(self):\n        self._count = -1\n', '    def reset_pos(self):\n        pass\n', 'pos() carries on'),
    ('marcel/core.py', '        copy.__dict__.update(self.__dict__)\n', '', 'copy of an operator loses its arguments'),
]}
