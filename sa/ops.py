"""Facts about marcel's operators shared by the checks: inventory, argument functions, nested pipelines, setup facts."""
import ast

from .model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from .engine import Typestate, Out, test_key, _load


class OpModel:
    def __init__(self, p):
        self.p = p
        self.Op = p.cls('Op', 'marcel.core')
        self.AbstractOp = p.cls('AbstractOp', 'marcel.core')
        subs = p.subclasses(self.Op)
        self.all = [c for c in subs if c is not self.Op]
        # concrete: has no subclass of its own that is the real operator
        self.concrete = [c for c in self.all if not any(d is not c and d.derives(c) for d in self.all)]
        self.pipeline_classes = set()
        for name in ('Pipeline', 'PipelineExecutable'):
            try:
                self.pipeline_classes |= set(p.subclasses(p.cls(name, 'marcel.pipeline')))
            except AnalysisBroken:
                pass
        if not self.pipeline_classes:
            raise AnalysisBroken('no pipeline classes')
        self._nonnull = {}

    # ---- facts after setup
    def nonnull_after_setup(self, cls):
        """attributes that every normal path through setup() leaves bound to a value that is certainly not None, and that
        no other method (except __init__) rebinds to None"""
        if cls in self._nonnull:
            return self._nonnull[cls]
        res = set()
        f = cls.find('setup')
        if f is not None:
            ts = _Assigned(self.p, cls)
            o = ts.run_function(f, cls, frozenset())
            states = [k[0] for k in o['ret']]
            if states:
                res = set.intersection(*[set(s) for s in states])
        out = set()
        for a in res:
            bad = False
            for (g, v) in cls.all_attr_assigns(a):
                if g.name in ('__init__',):
                    continue
                if isinstance(v, ast.Constant) and v.value is None:
                    bad = True
            if not bad:
                out.add(a)
        self._nonnull[cls] = out
        return out

    def self_attr(self, e, fr):
        """name of attribute if e is `self.attr` in frame fr"""
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == fr.func.self_name():
            return e.attr
        return None

    # ---- pipelines
    def is_pipeline_expr(self, e, fr):
        t = self.p.infer(e, fr.func, fr.cls, binds=fr.binds)
        if t:
            return bool(t & self.pipeline_classes) and t <= self.pipeline_classes
        return None


class _Assigned(Typestate):
    """set of self attributes assigned a certainly-non-None value"""
    track_exc = False
    max_depth = 3

    def __init__(self, p, cls):
        super().__init__(p)
        self.cls = cls

    def relevant(self, t):
        return t.cls is not None and self.cls.derives(t.cls)

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and \
                target.value.id == fr.func.self_name() and fr.cls is not None and self.cls.derives(fr.func.cls or fr.cls):
            if self.sure(value, fr):
                return [st | {target.attr}]
            return [st - {target.attr}]
        return [st]

    def sure(self, v, fr):
        if v is None:
            return False
        if isinstance(v, ast.Constant):
            return v.value is not None
        if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.Tuple, ast.ListComp, ast.DictComp, ast.JoinedStr, ast.Compare,
                          ast.BinOp)):
            return True
        if isinstance(v, ast.IfExp):
            return self.sure(v.body, fr) and self.sure(v.orelse, fr)
        if isinstance(v, ast.Call):
            t = self.p.callees(v, fr.func, fr.cls, binds=fr.binds)
            if t and all(isinstance(x, ClassInfo) for x in t):
                return True
            if isinstance(v.func, ast.Name) and v.func.id in ('list', 'dict', 'set', 'len', 'iter', 'range', 'int', 'str'):
                return True
            if t and all(isinstance(x, FuncInfo) for x in t):
                return all(self.returns_sure(x) for x in t)
            if isinstance(v.func, (ast.Call, ast.IfExp)):
                # e.g. self.classify()(args): a class chosen by a function
                return False
        return False

    def returns_sure(self, f):
        rets = [n for n in own_nodes(f.node) if isinstance(n, ast.Return)]
        if not rets:
            return False
        last = f.node.body[-1] if isinstance(f.node.body, list) else None
        if not isinstance(last, (ast.Return, ast.Raise)):
            return False

        class F:
            pass
        fr = F()
        fr.func, fr.cls, fr.binds = f, f.cls, {}
        return all(r.value is not None and self.sure(r.value, fr) for r in rets)


def origin(p, e, func, depth=0):
    """canonical origins of an expression: aliases and loop variables are expanded to the attribute they come from"""
    if depth > 6:
        return {ast.unparse(e)}
    if isinstance(e, ast.Name):
        f = func
        while f is not None:
            outs = set()
            for n in own_nodes(f.node):
                if isinstance(n, (ast.For, ast.comprehension)):
                    for o in _loop_origin(n.target, n.iter, e.id):
                        outs |= {x + '[*]' for x in origin(p, o, f, depth + 1)}
            la = f.local_assigns()
            for v in la.get(e.id, []):
                if v is not None and not (isinstance(v, ast.Name) and v.id == e.id):
                    outs |= origin(p, v, f, depth + 1)
            if outs:
                return outs
            if e.id in f.params:
                return {e.id}
            f = f.parent
        return {e.id}
    if isinstance(e, ast.Attribute):
        return {x + '.' + e.attr for x in origin(p, e.value, func, depth + 1)}
    if isinstance(e, ast.Subscript):
        return {x + '[*]' for x in origin(p, e.value, func, depth + 1)}
    if isinstance(e, ast.IfExp):
        return origin(p, e.body, func, depth + 1) | origin(p, e.orelse, func, depth + 1)
    if isinstance(e, ast.BoolOp):
        r = set()
        for v in e.values:
            r |= origin(p, v, func, depth + 1)
        return r
    if isinstance(e, ast.Constant):
        return set()
    return {ast.unparse(e)}


def _loop_origin(target, it, name):
    if isinstance(target, ast.Name):
        if target.id == name:
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('list', 'reversed', 'sorted', 'iter', 'tuple') and it.args:
                yield it.args[0]
            else:
                yield it
    elif isinstance(target, ast.Tuple):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and it.args and len(target.elts) == 2:
            yield from _loop_origin(target.elts[1], it.args[0], name)
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'zip':
            for t, i in zip(target.elts, it.args):
                yield from _loop_origin(t, i, name)
        else:
            for t in target.elts:
                if isinstance(t, ast.Name) and t.id == name:
                    yield it


def reach_names(p, f, pred, cache, depth=0, stack=None, cls=None):
    """does function f transitively reach a call satisfying pred(call, func)?"""
    key = (f, cls)
    if key in cache:
        return cache[key]
    stack = stack or set()
    if key in stack or depth > 10:
        return False
    stack.add(key)
    res = False
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call):
            if pred(n, f):
                res = True
                break
            for t in p.callees(n, f, cls):
                if isinstance(t, ClassInfo):
                    t = t.find('__init__')
                if isinstance(t, FuncInfo) and reach_names(p, t, pred, cache, depth + 1, stack, cls if cls and t.cls and cls.derives(t.cls) else None):
                    res = True
                    break
            if res:
                break
    if not res:
        for g in f.nested.values():
            if isinstance(g, FuncInfo) and reach_names(p, g, pred, cache, depth + 1, stack, cls):
                res = True
                break
    stack.discard(key)
    if not stack or res:
        cache[key] = res
    return res
