"""Where values supplied by the user as functions live: attributes of operators and their helpers, locals, parameters."""
import ast

from .model import ClassInfo, FuncInfo, own_nodes, dotted


def scope_lookup(func, name):
    """the function in whose scope `name` is bound, seen from func (None: module level)"""
    f = func
    while f is not None:
        if name in f.params or name in f.local_assigns() or name in getattr(f, 'nested', {}) or name in _loop_names(f):
            return f
        f = f.parent
    return None


_LOOPS = {}


def _loop_names(f):
    if f not in _LOOPS:
        out = set()
        for n in own_nodes(f.node):
            if isinstance(n, (ast.For, ast.comprehension)):
                out |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        _LOOPS[f] = out
    return _LOOPS[f]


PASS_THROUGH = {'list', 'tuple', 'reversed', 'iter', 'sorted', 'enumerate', 'zip', 'copy', 'next', 'partial', 'values', 'get', 'pop',
                'ifnone', 'items'}


class Taint:
    """A flow-insensitive, field-based fixpoint. Seeds: attributes (class, name). `func_params` = parameters known to be tainted."""

    def __init__(self, p, functions, seeds):
        self.p = p
        self.functions = functions
        self.attrs = set(seeds)       # (class qualname, attr)
        self.params = set()           # (func, param)
        self.returns = set()          # func
        self.hand = {}
        self._fix()

    # ---- queries
    def attr_tainted(self, e, f):
        names = {a for c, a in self.attrs}
        if e.attr not in names:
            return False
        owners = self._owners(e.value, f)
        if not owners:
            # receiver of unknown type (an element of a collection): a helper class of the same module
            return any(a == e.attr and c.module is f.module for c, a in self.attrs)
        for c in owners:
            for (q, a) in self.attrs:
                if a == e.attr and (q is c or c.derives(q) or q.derives(c)):
                    return True
        return False

    def _owners(self, v, f):
        if isinstance(v, ast.Name):
            g = f
            while g is not None:
                if g.self_name() and v.id == g.self_name() and g.cls is not None:
                    return {g.cls}
                g = g.parent
        try:
            return self.p.infer(v, f, f.cls)
        except RecursionError:
            return set()

    def tainted(self, e, f, depth=0):
        if depth > 8 or e is None:
            return False
        if isinstance(e, ast.Attribute):
            return self.attr_tainted(e, f)
        if isinstance(e, ast.Subscript):
            return self.tainted(e.value, f, depth + 1)
        if isinstance(e, ast.Starred):
            return self.tainted(e.value, f, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.tainted(e.body, f, depth + 1) or self.tainted(e.orelse, f, depth + 1)
        if isinstance(e, ast.BoolOp):
            return any(self.tainted(v, f, depth + 1) for v in e.values)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return any(self.tainted(v, f, depth + 1) for v in e.elts)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.tainted(e.elt, f, depth + 1)
        if isinstance(e, ast.NamedExpr):
            return self.tainted(e.value, f, depth + 1)
        if isinstance(e, ast.Name):
            g = scope_lookup(f, e.id)
            if g is None or e.id in getattr(g, 'nested', {}):
                return False
            if (g, e.id) in self.params:
                return True
            for v in g.local_assigns().get(e.id, []):
                if v is not None and not (isinstance(v, ast.Name) and v.id == e.id) and self.tainted(v, g, depth + 1):
                    return True
            for n in own_nodes(g.node):
                if isinstance(n, (ast.For, ast.comprehension)) and any(
                        isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.target)):
                    if self._loop(n.target, n.iter, e.id, g, depth + 1):
                        return True
            return False
        if isinstance(e, ast.Call):
            nm = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else None
            if nm == 'getattr' and len(e.args) >= 2 and isinstance(e.func, ast.Name) and isinstance(e.args[0], ast.Name) and \
                    not isinstance(e.args[1], ast.Constant) and scope_lookup(f, e.args[0].id) is None:
                return True         # a function the user chose by its name: getattr(builtins, name)
            if nm in PASS_THROUGH:
                if isinstance(e.func, ast.Attribute) and nm in ('copy', 'values', 'get', 'pop', 'items') and self.tainted(e.func.value, f, depth + 1):
                    return True
                if nm not in ('get', 'pop', 'values', 'items', 'copy') and any(self.tainted(a, f, depth + 1) for a in e.args):
                    return True
            for t in self._callees(e, f):
                if isinstance(t, FuncInfo) and t in self.returns:
                    return True
        return False

    def _loop(self, target, it, name, g, depth):
        if isinstance(target, ast.Name):
            return self.tainted(it, g, depth)
        if isinstance(target, (ast.Tuple, ast.List)) and isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == 'enumerate' and it.args and len(target.elts) == 2:
                return _has(target.elts[1], name) and self._loop(target.elts[1], it.args[0], name, g, depth)
            if it.func.id == 'zip':
                return any(_has(t, name) and self._loop(t, i, name, g, depth) for t, i in zip(target.elts, it.args))
        return self.tainted(it, g, depth)

    def _callees(self, call, f):
        k = (call, f)
        if k not in self.hand:
            try:
                self.hand[k] = list(self.p.callees(call, f, f.cls))
            except RecursionError:
                self.hand[k] = []
        return self.hand[k]

    # ---- fixpoint
    def _fix(self):
        for _ in range(12):
            n = (len(self.attrs), len(self.params), len(self.returns))
            for f in self.functions:
                self._func(f)
            if n == (len(self.attrs), len(self.params), len(self.returns)):
                break

    def _func(self, f):
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and n.value is not None:
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and self.tainted(n.value, f):
                        for c in self._owners(t.value, f):
                            self.attrs.add((c, t.attr))
                    elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and self.tainted(n.value, f):
                        for c in self._owners(t.value.value, f):
                            self.attrs.add((c, t.value.attr))
            elif isinstance(n, ast.Return) and n.value is not None:
                if f not in self.returns and self.tainted(n.value, f):
                    self.returns.add(f)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'add', 'insert') and isinstance(n.func.value, ast.Attribute) \
                        and any(self.tainted(a, f) for a in n.args):
                    for c in self._owners(n.func.value.value, f):
                        self.attrs.add((c, n.func.value.attr))
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'add', 'insert') and isinstance(n.func.value, ast.Name) \
                        and any(self.tainted(a, f) for a in n.args):
                    g = scope_lookup(f, n.func.value.id)
                    if g is not None:
                        self.params.add((g, n.func.value.id))       # a local collection
                if not any(True for a in n.args) and not n.keywords:
                    continue
                ta = [i for i, a in enumerate(n.args) if self.tainted(a, f)]
                tk = [k.arg for k in n.keywords if self.tainted(k.value, f)]
                if not ta and not tk:
                    continue
                for t in self._callees(n, f):
                    init = False
                    if isinstance(t, ClassInfo):
                        t = t.find('__init__')
                        init = True
                    if not isinstance(t, FuncInfo) or t not in self.functions:
                        continue
                    ps = list(t.params)
                    off = 1 if (t.self_name() and (init or isinstance(n.func, ast.Attribute))) else 0
                    va = t.node.args.vararg.arg if not isinstance(t.node, ast.Lambda) and t.node.args.vararg else None
                    npos = len(t.node.args.posonlyargs) + len(t.node.args.args)
                    for i in ta:
                        if i + off < npos:
                            self.params.add((t, ps[i + off]))
                        elif va:
                            self.params.add((t, va))
                    for k in tk:
                        if k in ps:
                            self.params.add((t, k))


def _has(t, name):
    return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t))


# ---------------------------------------------------------------- arguments of operators
def parser_args(p, cls_parser):
    """[(name, attr set on the operator, convert expr or None, add-method, call node, func)] of an ArgsParser subclass"""
    out = []
    for c in cls_parser.repo_mro():
        f = c.methods.get('__init__')
        if f is None:
            continue
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'add_flag_no_value', 'add_flag_one_value', 'add_flag_optional_value', 'add_anon', 'add_anon_list') and \
                    isinstance(n.func.value, ast.Name) and n.func.value.id == f.self_name():
                kw = {k.arg: k.value for k in n.keywords}
                name = n.args[0] if n.args else kw.get('name')
                if not isinstance(name, ast.Constant):
                    continue
                tg = kw.get('target')
                attr = tg.value if isinstance(tg, ast.Constant) and tg.value is not None else name.value
                out.append((name.value, attr, kw.get('convert'), n.func.attr, n, f))
    return out


def function_converters(p):
    """converter methods of ArgsParser that may return a function"""
    ap = p.cls('ArgsParser', 'marcel.argsparser')
    F = p.cls('Function', 'marcel.function')
    out = set()
    work = True
    while work:
        work = False
        for f in ap.methods.values():
            if f.name in out:
                continue
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    for t in p.callees(n, f, ap):
                        if isinstance(t, ClassInfo) and t.derives(F) or isinstance(t, FuncInfo) and t.cls is ap and t.name in out:
                            if _returns_it(f, n):
                                out.add(f.name)
                                work = True
    return out


def _returns_it(f, call):
    for n in own_nodes(f.node):
        if isinstance(n, ast.Return) and n.value is not None:
            if any(x is call for x in ast.walk(n.value)):
                return True
            names = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
            for nm in names:
                if any(v is not None and any(x is call for x in ast.walk(v)) for v in f.local_assigns().get(nm, [])):
                    return True
    return False


def parser_of(p, om, cls):
    """the ArgsParser class of an operator: <Name>ArgsParser of the operator's module"""
    AP = p.cls('ArgsParser', 'marcel.argsparser')
    for c in cls.repo_mro():
        for n, k in c.module.classes.items():
            if k.derives(AP) and n.lower() == c.name.lower() + 'argsparser':
                return k
    return None
