"""G01: nothing refers to what does not exist."""
import ast
import builtins
import importlib
import string
import symtable
import sys

from ..engine import Typestate
from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken

META = {
    'G01': {
        'explanation': 'For every function of the repository: every name that it reads is bound in its scope, an enclosing one, its module '
                       'or builtins, and is assigned on every path to the read that makes no other test; every attribute of a module '
                       '(marcel\'s, or of the standard library of the Python in use) exists; every attribute read from self, or from an '
                       'object whose class is known, is defined by its class, an ancestor or a descendant, or is assigned to such objects '
                       'somewhere; every call of a function, method or class whose definition is known is accepted by its signature; the '
                       'number of items of a % format or str.format matches its arguments.',
        'assumptions': ['classes with __getattr__ or with bases from libraries that are not installed are not judged',
                        'a call that is known only by the name of a method is not judged'],
    },
}

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__builtins__', '__spec__', '__loader__', '__path__', '__class__', '__annotations__', '__dict__'}
SAFE = set(sys.stdlib_module_names) - {'antigravity', 'this', 'idlelib', 'tkinter', 'turtle', 'turtledemo'}


def stdlib(name):
    root = name.split('.')[0]
    if root not in SAFE:
        return None
    try:
        return importlib.import_module(name)
    except Exception:
        return None


# ------------------------------------------------------------------------------------------------------------ names
def module_names(p, m, _seen=None):
    _seen = _seen or set()
    if m.name in _seen:
        return set(), True
    _seen.add(m.name)
    names, exact = set(), True
    tree = raw(m)
    st = symtable.symtable(m.src, m.path, 'exec')
    for s in st.get_symbols():
        if s.is_assigned() or s.is_imported() or s.is_namespace():
            names.add(s.get_name())

    def rec(t):
        for c in t.get_children():
            for s in c.get_symbols():
                if s.is_declared_global() and (s.is_assigned() or s.is_imported() or s.is_namespace()):
                    names.add(s.get_name())
            rec(c)
    rec(st)
    for n in ast.walk(tree):
        if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
            o = p.modules.get(n.module or '')
            if o is None:
                lib = stdlib(n.module or '')
                if lib is None:
                    exact = False
                else:
                    names |= set(getattr(lib, '__all__', [x for x in dir(lib) if not x.startswith('_')]))
            else:
                a, b = module_names(p, o, _seen)
                names |= a
                exact = exact and b
    return names, exact


_raw = {}


def raw(m):
    k = (m.path, m.src)
    if k not in _raw:
        _raw[k] = ast.parse(m.src, filename=m.path)
    return _raw[k]


def undefined(p, m):
    """names read in some function that nothing binds"""
    names, exact = module_names(p, m)
    if not exact:
        return [], 0
    out, n = [], 0
    st = symtable.symtable(m.src, m.path, 'exec')

    def rec(t, path):
        nonlocal n
        for s in t.get_symbols():
            if s.is_referenced() and (s.is_global() or t.get_type() == 'module'):
                n += 1
                if s.get_name() not in names and s.get_name() not in BUILTINS:
                    out.append((s.get_name(), '.'.join(path), t.get_lineno()))
        for c in t.get_children():
            rec(c, path + [c.get_name()])
    rec(st, [])
    return out, n


# ------------------------------------------------------------------------------------------------- assigned before use
class Assigned:
    """which local names may have been assigned at each point; reads of names that cannot have been"""

    def __init__(self, fnode):
        self.f = fnode
        st = set()
        a = fnode.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            st.add(x.arg)
        self.params = set(st)
        self.locals = set()
        glob = set()
        for n in own(fnode):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
            self.locals |= bound(n)
        self.locals -= glob
        self.locals -= self.params
        self.bad = []
        self.reads = 0
        self.brk = [set()]
        self.cont = [set()]
        self.exc = [set()]
        self.block(fnode.body, set())

    def use(self, e, cur):
        """expressions, in their own scope"""
        if e is None or cur is None:
            return cur
        stack = [(e, frozenset())]
        # walrus binds
        for n in walk_scope(e):
            if isinstance(n, ast.NamedExpr):
                cur = cur | {n.target.id}
        for n, hidden in reads(e):
            if n.id in self.locals and n.id not in hidden:
                self.reads += 1
                if n.id not in cur:
                    self.bad.append(n)
        return cur

    def block(self, body, cur):
        for s in body:
            if cur is None:
                return None
            cur = self.stmt(s, cur)
            if cur is not None:
                for e in self.exc:
                    e |= cur
        return cur

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def stmt(self, s, cur):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                cur = self.use(d, cur)
            return cur | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return cur | {(a.asname or a.name.split('.')[0]) for a in s.names}
        if isinstance(s, ast.Assign):
            cur = self.use(s.value, cur)
            for t in s.targets:
                cur = self.target(t, cur)
            return cur
        if isinstance(s, ast.AugAssign):
            cur = self.use(s.value, cur)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.locals:
                    self.reads += 1
                    if s.target.id not in cur:
                        self.bad.append(s.target)
                return cur | {s.target.id}
            return self.target(s.target, cur)
        if isinstance(s, ast.AnnAssign):
            cur = self.use(s.value, cur)
            return self.target(s.target, cur) if s.value is not None else cur
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    cur = cur - {t.id}
                else:
                    cur = self.use(t, cur)
            return cur
        if isinstance(s, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(s):
                cur = self.use(e, cur)
            for e in self.exc:
                e |= cur
            return None
        if isinstance(s, ast.Break):
            self.brk[-1] |= cur | {'$'}
            return None
        if isinstance(s, ast.Continue):
            self.cont[-1] |= cur
            return None
        if isinstance(s, ast.If):
            cur = self.use(s.test, cur)
            return self.join(self.block(s.body, set(cur)), self.block(s.orelse, set(cur)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                test = s.test
                cur = self.use(test, cur)
                start = set(cur)
            else:
                cur = self.use(s.iter, cur)
                start = self.target(s.target, set(cur))
            # what an earlier iteration assigned
            inside = set()
            for x in s.body:
                for n in [x] + list(own(x)):
                    inside |= bound(n)
            self.brk.append(set())
            self.cont.append(set())
            n = len(self.bad)
            first = self.block(s.body, start | inside)
            brk, cont = self.brk.pop(), self.cont.pop()
            out = self.join(set(cur), first)
            out = self.join(out, cont)
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                out = None
            if out is not None and s.orelse:
                out = self.block(s.orelse, out)
            if '$' in brk:
                out = self.join(out, brk - {'$'})
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                cur = self.use(i.context_expr, cur)
                if i.optional_vars is not None:
                    cur = self.target(i.optional_vars, cur)
            before = set(cur)
            r = self.block(s.body, cur)
            # the context manager may swallow an exception
            return self.join(r, before)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            self.exc.append(set(cur))
            r = self.block(s.body, set(cur))
            e = self.exc.pop()
            if r is not None and s.orelse:
                self.exc.append(set())
                r = self.block(s.orelse, r)
                self.exc.pop()
            after = set(e)
            for h in s.handlers:
                hc = set(e)
                if h.type is not None:
                    hc = self.use(h.type, hc)
                if h.name:
                    hc = hc | {h.name}
                self.exc.append(set())
                hr = self.block(h.body, hc)
                after |= self.exc.pop()
                if hr is not None and h.name:
                    hr = hr - {h.name}
                after |= hr or set()
                r = self.join(r, hr)
            if s.finalbody:
                inside = set()
                for x in s.body + s.orelse:
                    for n in [x] + list(own(x)):
                        inside |= bound(n)
                f = self.block(s.finalbody, self.join(set(after) | inside, r))
                if f is None:
                    return None
                if r is not None:
                    r = r | (f - after)
                return r
            return r
        if isinstance(s, ast.Match):
            cur = self.use(s.subject, cur)
            out = set(cur)
            for c in s.cases:
                k = set(cur) | {n.name for n in ast.walk(c.pattern) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name}
                k = self.use(c.guard, k)
                out = self.join(out, self.block(c.body, k))
            return out
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                cur = self.use(e, cur)
        return cur

    def target(self, t, cur):
        if isinstance(t, ast.Name):
            return cur | {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                cur = self.target(x, cur)
            return cur
        if isinstance(t, ast.Starred):
            return self.target(t.value, cur)
        return self.use(t, cur)


NORETURN = ('exit', 'quit', 'sys.exit', 'os._exit', 'os.abort')


def ends(p, call, targets, depth=0):
    """a call that does not return"""
    if dotted(call.func) in NORETURN:
        return True
    ts = [t for t in targets if isinstance(t, FuncInfo)]
    if not ts or len(ts) < len(targets) or depth > 4:
        return False
    for t in ts:
        body = list(t.body) if isinstance(t.body, list) else []
        tail = []
        while len(body) > 1 and (isinstance(body[-1], ast.Pass) or isinstance(body[-1], ast.Return) and
                                 (body[-1].value is None or isinstance(body[-1].value, ast.Constant))):
            tail.append(body.pop())
        last = body[-1] if body else None
        if any(isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) and n is not last and n not in tail for n in own_nodes(t.node)):
            return False
        if isinstance(last, ast.Raise):
            continue
        if isinstance(last, (ast.Expr, ast.Return)) and isinstance(last.value, ast.Call) and \
                ends(p, last.value, p.callees(last.value, t, t.cls), depth + 1):
            continue
        if isinstance(last, ast.Assert) and isinstance(last.test, ast.Constant) and not last.test.value:
            continue
        return False
    return True


class MaybeTS(Typestate):
    """state: (the local variables assigned so far, those not to be judged, tests passed). Loops are taken to run at least once.

    A path is judged for a variable if all that it may have left undone is what one test or one exception made it skip: on a path
    that passes another test, which may tell the very case in which the variable has been assigned, it is not."""
    track_exc = True
    max_depth = 0

    def __init__(self, p, f, names):
        super().__init__(p)
        self.f, self.names = f, names
        self.bad = {}
        self.raise_kinds = ('E',) + tuple(c for c in p.classes if c.name == 'KillCommandException' and c.outer is None)
        # names assigned within the statement that a test (or a loop) controls
        self.controls = {}
        for n in own_nodes(f.node):
            if isinstance(n, (ast.If, ast.While, ast.For, ast.IfExp, ast.BoolOp, ast.Assert)):
                stored = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} & names
                for x in ast.walk(n.iter if isinstance(n, ast.For) else n.test if not isinstance(n, ast.BoolOp) else n):
                    # the innermost statement counts last
                    self.controls[id(x)] = stored
                if isinstance(n, ast.For):
                    self.controls[id(n)] = stored

    def relevant(self, t):
        return False

    def loop_nonempty(self, s, fr):
        return True

    def on_assign(self, target, value, st, fr):
        new = {n.id for n in ast.walk(target) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} & self.names
        return [(st[0] | new, st[1], st[2])]

    def on_catch(self, handler, kind, st, fr):
        return [(st[0] | {handler.name}, st[1], st[2])] if handler.name in self.names else [st]

    def on_call(self, call, targets, st, fr):
        if ends(self.p, call, targets):
            return [('exc', st, 'B')]
        return None

    def on_iter(self, s, st, fr):
        return [(st[0], st[1] | (self.names - self.controls.get(id(s), frozenset())), st[2])]

    def passed(self, test, st):
        if st[2]:
            return (st[0], self.names, True)
        return (st[0], st[1] | (self.names - self.controls.get(id(test), frozenset())), True)

    def look(self, e, states):
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and e.id in self.names:
            if any(e.id not in st[0] and e.id not in st[1] for st, fa in states):
                self.bad.setdefault(e.id, e)

    def expr(self, e, states, fr):
        self.look(e, states)
        return super().expr(e, states, fr)

    def on_test(self, test, truth, st, fr):
        self.look(test, [(st, None)])
        return self.passed(test, st)

    def on_test_call(self, call, targets, truth, st, fr):
        return self.passed(call, st)


def own(node):
    """nodes of this function's own scope (not of nested functions or classes)"""
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            yield c
            continue
        if isinstance(c, ast.Lambda):
            continue
        yield c
        yield from own(c)


def bound(n):
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
        return {n.id}
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return {n.name}
    if isinstance(n, (ast.Import, ast.ImportFrom)):
        return {(a.asname or a.name.split('.')[0]) for a in n.names}
    if isinstance(n, ast.ExceptHandler) and n.name:
        return {n.name}
    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
        return {n.name}
    return set()


def sometimes(f):
    """local variables whose first assignment is not on every path: not at the top level of the function"""
    a = Assigned(f.node)
    always = set()
    skip = set()
    for s in f.node.body:
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.For)):
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        always.add(n.id)
    read = set()
    for n in own(f.node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            skip.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            skip |= bound(n)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            skip.add(n.name)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # hidden by a comprehension, perhaps: leave such names to the other rule
            for g in n.generators:
                skip |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        elif isinstance(n, ast.Delete):
            skip |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            read.add(n.id)
    top = first_assigned_at_top(f.node, always)
    return frozenset((a.locals & read) - skip - top)


def first_assigned_at_top(fn, always):
    """names whose first mention is an assignment at the top level of the function"""
    out, seen = set(), set()
    for s in fn.body:
        names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
        if isinstance(s, ast.Assign):
            val = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in seen and n.id not in val:
                        out.add(n.id)
        elif isinstance(s, ast.For):
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name) and n.id not in seen:
                    out.add(n.id)
        seen |= names
    return out


def walk_scope(e):
    yield e
    for c in ast.iter_child_nodes(e):
        if isinstance(c, ast.Lambda):
            continue
        yield from walk_scope(c)


def reads(e, hidden=frozenset()):
    """names read when e is evaluated (not in lambdas), with the names that comprehensions hide"""
    if isinstance(e, ast.Name):
        if isinstance(e.ctx, ast.Load):
            yield e, hidden
        return
    if isinstance(e, ast.Lambda):
        for d in e.args.defaults + [x for x in e.args.kw_defaults if x is not None]:
            yield from reads(d, hidden)
        return
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        h = hidden | {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        for i, g in enumerate(e.generators):
            yield from reads(g.iter, hidden if i == 0 else h)
            for c in g.ifs:
                yield from reads(c, h)
        for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
            yield from reads(x, h)
        return
    for c in ast.iter_child_nodes(e):
        yield from reads(c, hidden)


# ------------------------------------------------------------------------------------------------------------ modules
def locally_bound(name, f):
    while f is not None:
        if name in f.params or name in f.kwonly or name in (f.vararg, f.kwarg) or name in f.local_assigns():
            return True
        f = f.parent
    return False


class Names:
    def __init__(self, p):
        self.p = p
        self.names = {m.name: module_names(p, m) for m in p.modules.values()}
        self.imported = set()
        for m in p.modules.values():
            for n in ast.walk(raw(m)):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        self._imp(a.name)
                elif isinstance(n, ast.ImportFrom) and n.module:
                    self._imp(n.module)
                    for a in n.names:
                        self._imp(n.module + '.' + a.name)

    def _imp(self, d):
        parts = d.split('.')
        for i in range(len(parts)):
            self.imported.add('.'.join(parts[:i + 1]))

    def is_package(self, d):
        return any(k.startswith(d + '.') for k in self.p.modules)

    def missing(self, target, rest):
        """the first attribute of `target.rest...` that does not exist, or None"""
        p = self.p
        d = target
        rest = list(rest)
        if d in p.modules or self.is_package(d):
            while rest and ((d + '.' + rest[0]) in p.modules or self.is_package(d + '.' + rest[0])):
                own = self.names.get(d, (set(), True))[0]
                if rest[0] in own and (d + '.' + rest[0]) not in self.imported:
                    break
                d += '.' + rest.pop(0)
                if d not in self.imported:
                    return f'module {d} is never imported'
            if not rest:
                return None
            if d not in p.modules:
                pk = p.modules.get(d + '.__init__')
                if pk is None:
                    return f'{d} has no {rest[0]}'
                d2 = d + '.__init__'
            else:
                d2 = d
            names, exact = self.names[d2]
            if rest[0] not in names and rest[0] not in BUILTINS:
                return f'{d} has no {rest[0]}' if exact else None
            return None
        lib = stdlib(d)
        if lib is None:
            return None
        o = lib
        path = d
        for r in rest[:2]:
            if not isinstance(o, (type(sys), type)):
                return None
            if not hasattr(o, r):
                if isinstance(o, type(sys)):
                    sub = stdlib(path + '.' + r)
                    if sub is not None and (path + '.' + r) in self.imported:
                        o, path = sub, path + '.' + r
                        continue
                return f'{path} has no {r}'
            o = getattr(o, r)
            path += '.' + r
        return None


# ---------------------------------------------------------------------------------------------------------- attributes
class Attrs:
    """attributes that objects of each class may have"""

    def __init__(self, p):
        self.p = p
        self.stores = {}      # attr -> classes to whose objects it is assigned; None: to objects of unknown class
        for f in p.functions:
            for n in own_nodes(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.store(n.attr, n.value, f)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.startswith(('add_flag_', 'add_anon')):
                    # filled in, in the operator, by the argument parser
                    for v in n.args[:1] + [k.value for k in n.keywords if k.arg == 'target']:
                        if isinstance(v, ast.Constant) and isinstance(v.value, str):
                            self.stores.setdefault(v.value, set()).update(c for c in p.classes if c.module is f.module and c is not f.cls)
                elif isinstance(n, ast.Call) and dotted(n.func) == 'setattr' and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                    self.store(n.args[1].value, n.args[0], f)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and \
                        n.value.attr == '__dict__' and isinstance(n.slice, ast.Constant):
                    self.store(n.slice.value, n.value.value, f)
        for m in p.modules.values():
            for s in m.tree.body:
                if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    for n in ast.walk(s):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                            self.stores.setdefault(n.attr, set()).add(None)
        self.cache = {}

    def store(self, attr, obj, f):
        if isinstance(obj, ast.Name) and obj.id == _self(f) and f.cls is not None:
            types = {f.cls}
        else:
            types = {t for t in self.p.infer(obj, f, f.cls) if isinstance(t, ClassInfo)}
            d = dotted(obj)
            if d and not locally_bound(d.split('.')[0], f):
                r = self.p.resolve_global(obj, f.module, f.cls)
                if isinstance(r, ClassInfo):
                    types = {r}
        self.stores.setdefault(attr, set()).update(types or {None})

    def judged(self, c):
        """can the attributes of the class be known?"""
        if c in self.cache:
            return self.cache[c]
        r = True
        for k in c.mro():
            if isinstance(k, ClassInfo):
                if any(m in k.methods for m in ('__getattr__', '__getattribute__', '__setattr__')) or '__slots__' in k.class_attrs:
                    r = False
                if any(self.dynamic(x, m) for m in k.methods.values() for x in ast.walk(m.node)):
                    r = False
                if k.node.keywords or k.node.decorator_list:
                    r = False
            elif self.ext(k) is None:
                r = False
        self.cache[c] = r
        return r

    @staticmethod
    def dynamic(x, m):
        """gives self attributes whose names are not written in the source"""
        if isinstance(x, ast.Call):
            if dotted(x.func) == 'setattr' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == m.self_name() and \
                    not isinstance(x.args[1], ast.Constant):
                return True
            if isinstance(x.func, ast.Attribute) and x.func.attr in ('update', 'setdefault', '__setitem__') and isinstance(x.func.value, ast.Attribute) and \
                    x.func.value.attr == '__dict__' and m.name not in ('__setstate__', '__copy__', '__deepcopy__'):
                return not (x.args and all(isinstance(a, ast.Attribute) and a.attr == '__dict__' for a in x.args) and not x.keywords)
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute) and x.value.attr == '__dict__':
            return not isinstance(x.slice, ast.Constant)
        return False

    def ext(self, k):
        if isinstance(getattr(builtins, k, None), type):
            return getattr(builtins, k)
        if '.' in k:
            m, a = k.rsplit('.', 1)
            lib = stdlib(m)
            o = getattr(lib, a, None) if lib is not None else None
            return o if isinstance(o, type) else None
        return None

    def has(self, c, attr, down=True):
        if attr.startswith('__') and attr.endswith('__'):
            return True
        for k in c.mro():
            if isinstance(k, ClassInfo):
                if attr in k.methods or attr in k.class_attrs or attr in k.inner or self.class_level(k, attr):
                    return True
                if k in self.stores.get(attr, ()):
                    return True
            else:
                e = self.ext(k)
                if e is None or hasattr(e, attr) or self.instance(e, attr):
                    return True
        if hasattr(object, attr):
            return True
        if None in self.stores.get(attr, ()):
            return True
        if down:
            return any(self.has(s, attr, False) for s in self.p.subclasses(c, strict=True))
        return False

    @staticmethod
    def class_level(k, attr):
        for n in k.node.body:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == attr and not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    return True
        return False

    @staticmethod
    def instance(e, attr):
        """an attribute that objects of a library class get in their methods"""
        import inspect
        try:
            src = inspect.getsource(e)
        except (OSError, TypeError):
            return not isinstance(e, type) or e.__module__ == 'builtins' and issubclass(e, BaseException) and attr in ('args', 'errno', 'filename', 'strerror')
        if f'self.{attr} ' in src or f'self.{attr},' in src:
            return True
        return any(Attrs.instance(b, attr) for b in e.__bases__ if b is not object)


# --------------------------------------------------------------------------------------------------------------- calls
def refuses(f, call, bound):
    """why the function does not accept the arguments of the call, or None"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        if not pos and a.vararg is None:
            return 'takes no arguments at all'
        pos = pos[1:]
    nreq = max(0, len(pos) - len(a.defaults)) if True else 0
    required = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = sum(1 for x in call.args if not isinstance(x, ast.Starred))
    kws = [k.arg for k in call.keywords if k.arg is not None]
    if a.vararg is None and npos > len(pos):
        return f'takes at most {len(pos)} positional arguments, and is given {npos}'
    kwonly = [x.arg for x in a.kwonlyargs]
    given = set(pos[:npos])
    posonly = {x.arg for x in a.posonlyargs}
    for k in kws:
        if k in given:
            return f'is given {k} twice'
        if k not in pos and k not in kwonly and a.kwarg is None or k in posonly and a.kwarg is None:
            return f'has no parameter {k}'
    if not star and not dstar:
        for r in required[npos:]:
            if r not in kws:
                return f'is not given {r}'
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in kws:
                return f'is not given {x.arg}'
    return None


PLAIN = {'staticmethod', 'classmethod', 'contextmanager', 'contextlib.contextmanager', 'abstractmethod', 'abc.abstractmethod'}


def plain(f):
    return all(dotted(d) in PLAIN for d in f.node.decorator_list)


def rejects(p, t, call, func, cls):
    """why target t (FuncInfo or ClassInfo) refuses the call, or None"""
    if isinstance(t, ClassInfo):
        if t.node.keywords or t.node.decorator_list:
            return None
        for k in t.mro():
            if isinstance(k, str):
                if k == 'object':
                    continue
                return None
            if '__new__' in k.methods:
                return None
            if '__init__' in k.methods:
                i = k.methods['__init__']
                return refuses(i, call, True) if plain(i) else None
        if call.args or call.keywords:
            return 'takes no arguments'
        return None
    if not isinstance(t, FuncInfo) or not isinstance(t.node, (ast.FunctionDef, ast.AsyncFunctionDef)) or not plain(t):
        return None
    bound = False
    if t.cls is not None and t.parent is None and not t.is_static:
        bound = True
        # Class.method(obj, ...)
        fn = call.func
        if isinstance(fn, ast.Attribute) and not t.is_classmethod:
            d = dotted(fn.value)
            head = d.split('.')[0] if d else None
            if d and not locally_bound(head, func):
                r = p.resolve_global(fn.value, func.module, func.cls)
                if isinstance(r, ClassInfo):
                    bound = False
        elif isinstance(fn, ast.Name):
            return None
    return refuses(t, call, bound)


def exact_targets(p, at, call, func, cls, depth=0):
    """targets when the definition that is called is known, not guessed from the name of a method"""
    fn = call.func
    if isinstance(fn, ast.Name):
        return [t for t in p.callees(call, func, cls) if isinstance(t, (FuncInfo, ClassInfo))] if not _param(fn.id, func) else []
    if isinstance(fn, ast.Attribute):
        v = fn.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
            return [t for t in p.callees(call, func, cls) if isinstance(t, FuncInfo)]
        d = dotted(fn)
        if d is not None and not locally_bound(d.split('.')[0], func):
            r = p.resolve_global(fn, func.module, func.cls)
            return [r] if isinstance(r, (FuncInfo, ClassInfo)) else []
        if isinstance(v, ast.Name) and func.cls is not None and v.id == _self(func):
            types = {func.cls} | set(p.subclasses(func.cls))
        else:
            types = definite(p, at, v, func, depth + 1)
        out = []
        for t in sorted(types, key=lambda c: c.qualname):
            m = t.find(fn.attr)
            if m is None:
                return []
            if m not in out:
                out.append(m)
        return out
    return []


def _param(name, f):
    while f is not None:
        if name in f.nested:
            return False
        if name in f.params or name in f.kwonly or name in (f.vararg, f.kwarg):
            return True
        f = f.parent
    return False


def contradicted(call, func, p):
    """a call for callable(x) only, in a function that asserts that x is of a class whose objects are not"""
    asserted = {}
    for n in own_nodes(func.node):
        if isinstance(n, ast.Assert) and isinstance(n.test, ast.Call) and dotted(n.test.func) == 'isinstance' and isinstance(n.test.args[0], ast.Name):
            c = p.resolve_global(n.test.args[1], func.module, func.cls) if dotted(n.test.args[1]) else None
            if isinstance(c, ClassInfo) and c.find('__call__') is None and not c.ext_bases() - {'object'}:
                asserted[n.test.args[0].id] = c
    given = {n.id for a in call.args for n in ast.walk(a) if isinstance(n, ast.Name)} & set(asserted)
    return any(isinstance(n, ast.Call) and dotted(n.func) == 'callable' and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in given
               for n in own_nodes(func.node))


# -------------------------------------------------------------------------------------------------------------- formats
def format_problem(n):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
        import re
        specs = re.findall(r'%(\([^)]*\))?[-#0 +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])', n.left.value)
        want = sum(1 + (w == '*') + (pr == '*') for k, w, pr, c in specs if c != '%')
        if any(k for k, *_ in specs):
            return None
        if isinstance(n.right, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.right.elts):
            if len(n.right.elts) != want:
                return f'{want} items in the format, {len(n.right.elts)} values'
        elif isinstance(n.right, (ast.Constant, ast.JoinedStr)) and want != 1:
            return f'{want} items in the format, 1 value'
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and \
            isinstance(n.func.value.value, str):
        if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
            return None
        try:
            fields = [f for _, f, _, _ in string.Formatter().parse(n.func.value.value) if f is not None]
        except ValueError as e:
            return str(e)
        auto = 0
        for f in fields:
            head = f.split('.')[0].split('[')[0]
            if head == '':
                head = str(auto)
                auto += 1
            if head.isdigit():
                if int(head) >= len(n.args):
                    return f'no value for item {head} of the format'
            elif head not in {k.arg for k in n.keywords}:
                return f'no value for item {head} of the format'
    return None


def check_G01(ctx):
    p = ctx.p
    ctx.rule('name', 'every name that is read is bound somewhere it is visible from')
    ctx.rule('assigned', 'every local variable that is read has been assigned on some path')
    ctx.rule('module', 'every module, and every attribute of a module, that is referred to exists and is imported')
    ctx.rule('attribute', 'every attribute read from an object whose class is known exists')
    ctx.rule('call', 'every call of a known definition gives it arguments that it accepts')
    ctx.rule('format', 'formats and their values agree')
    nm = Names(p)
    for m in sorted(p.modules.values(), key=lambda m: m.name):
        bad, n = undefined(p, m)
        ctx.count('names resolved', n)
        for name, path, line in bad:
            ctx.bad('name', f'{m.name}:{path}:{name}', m, f'{name} is not defined (in {m.name}{":" if path else ""}{path})', line)
        if not bad:
            ctx.ok('name', m.name)
        b2 = 0
        for n in ast.walk(raw(m)):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                a = Assigned(n)
                ctx.count('reads of local variables', a.reads)
                for x in a.bad:
                    b2 += 1
                    ctx.bad('assigned', f'{m.name}:{n.name}:{x.id}', m, f'{x.id} is read in {n.name} but cannot have been assigned', x)
            fp = format_problem(n)
            if fp:
                ctx.bad('format', f'{m.name}:{ast.unparse(n)[:60]}', m, fp, n)
        if not b2:
            ctx.ok('assigned', m.name)
        # imports
        for n in ast.walk(raw(m)):
            if isinstance(n, ast.Import):
                for a in n.names:
                    imports(ctx, nm, m, n, a.name, None)
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    imports(ctx, nm, m, n, n.module, a.name)
    at = Attrs(p)
    for f in sorted(p.functions, key=lambda f: f.qualname):
        if not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        ctx.count('functions')
        cls = f.cls
        inner = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute):
                inner.add(n.value)
        guarded = guards(f)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and n not in inner and dotted(n) and not locally_bound(dotted(n).split('.')[0], f):
                parts = dotted(n).split('.')
                if parts[0] in f.nested or (f.parent is not None and nested_above(parts[0], f)):
                    continue
                target = f.module.imports.get(parts[0])
                if target is not None:
                    ctx.count('references into modules')
                    why = nm.missing(target, parts[1:])
                    if why and not n_guarded(n, guarded):
                        ctx.bad('module', f'{f.qualname}:{dotted(n)}', f, why, n)
                    else:
                        ctx.ok('module', f'{f.qualname}:{dotted(n)}')
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                d = dotted(n.value)
                if d and not locally_bound(d.split('.')[0], f):
                    r = p.resolve_global(n.value, f.module, f.cls)
                    types = set()
                    if isinstance(r, ClassInfo):
                        # attribute of a class itself
                        types = {r}
                else:
                    types = caught(p, n.value, f) or definite(p, at, n.value, f)
                if isinstance(n.value, ast.Name) and f.cls is not None and n.value.id == _self(f):
                    types = {f.cls}
                types = [t for t in types if isinstance(t, ClassInfo)]
                if types and all(at.judged(t) for t in types) and all(at.judged(s) for t in types for s in p.subclasses(t)):
                    ctx.count('attributes of known objects')
                    if not any(at.has(t, n.attr) for t in types) and not n_guarded(n, guarded):
                        ctx.bad('attribute', f'{f.qualname}:{ast.unparse(n)}', f,
                                f'{" or ".join(sorted(t.name for t in types))} has no attribute {n.attr}', n)
                    else:
                        ctx.ok('attribute', f'{f.qualname}:{ast.unparse(n)}')
            if isinstance(n, ast.Call):
                ts = exact_targets(p, at, n, f, cls)
                if not ts:
                    continue
                ctx.count('calls of known definitions')
                why = [rejects(p, t, n, f, cls) for t in ts]
                if all(why) and not contradicted(n, f, p) and not n_guarded(n, guarded):
                    ctx.bad('call', f'{f.qualname}:{ast.unparse(n.func)}', f, f'{ast.unparse(n)[:80]}: {ts[0].name} {why[0]}', n)
                else:
                    ctx.ok('call', f'{f.qualname}:{ast.unparse(n.func)}')
    for f in sorted(p.functions, key=lambda f: f.qualname):
        if not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        names = sometimes(f)
        if names:
            ctx.count('local variables assigned on some paths only', len(names))
            ts = MaybeTS(p, f, names)
            ts.run_function(f, f.cls, (frozenset(), frozenset(), False))
            for n, e in ts.bad.items():
                ctx.bad('assigned', f'{f.qualname}:{n}', f, f'{n} is read in {f.name} on a path on which it has not been assigned', e)
            if not ts.bad:
                ctx.ok('assigned', f.qualname)
    ctx.need('functions', 300)
    ctx.need('names resolved', 500)
    ctx.need('calls of known definitions', 300)
    ctx.need('attributes of known objects', 300)
    ctx.need('references into modules', 300)


def definite(p, at, e, f, depth=0):
    """the classes of which e must be an object, or the empty set"""
    if depth > 5:
        return set()
    if isinstance(e, ast.Name):
        g = f
        while g is not None:
            if e.id in g.params or e.id in g.kwonly:
                if e.id == 'env' and g.local_assigns().get(e.id) is None:
                    return set(p.env_classes())
                if g is f and g.name == '__init__' and g.cls is not None and g.local_assigns().get(e.id) is None:
                    return supplied(p, at, e.id, g, depth)
                return set()
            its = p.loop_iters(g).get(e.id, [])
            vs = g.local_assigns().get(e.id, [])
            if its and all(v is None for v in vs) and len(vs) <= len(its):
                # a loop over objects of known classes
                out = set()
                for it in its:
                    t = {x for x in p.elem_types(it, g, g.cls) if isinstance(x, ClassInfo)}
                    if not t:
                        return set()
                    out |= t
                return out
            if vs:
                return together(p, at, [(v, g) for v in vs], depth)
            g = g.parent
        return set()
    if isinstance(e, ast.Call):
        ts = exact_targets(p, at, e, f, f.cls, depth)
        if len(ts) == 1:
            t = ts[0]
            if isinstance(t, ClassInfo):
                return {t}
            if t.is_contextmanager or not plain(t) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(t.node)):
                return set()
            if t.cls is not None and any(t.name in s.methods for s in p.subclasses(t.cls, strict=True)):
                return set()
            return together(p, at, [(n.value, t) for n in own_nodes(t.node) if isinstance(n, ast.Return) and n.value is not None], depth)
        return set()
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.cls is not None and e.value.id == _self(f):
        if None in at.stores.get(e.attr, ()) or any(e.attr in k.methods or e.attr in k.class_attrs for k in f.cls.repo_mro()):
            return {t for t in p.env_classes()} if e.attr == 'env' and None not in at.stores.get('env', ()) else set()
        if e.attr == 'env':
            return set(p.env_classes())
        family = set(f.cls.repo_mro()) | set(p.subclasses(f.cls))
        vs = []
        for k in family:
            vs += [(v, g) for g, v in k.all_attr_assigns(e.attr)]
        return together(p, at, list(dict.fromkeys(vs)), depth)
    if isinstance(e, ast.IfExp):
        return together(p, at, [(e.body, f), (e.orelse, f)], depth)
    return set()


def creations(p, c):
    """the calls that create objects of the class, or None if it is also used in other ways"""
    cache = p.__dict__.setdefault('_creations', {})
    if c in cache:
        return cache[c]
    cache[c] = None
    if p.subclasses(c, strict=True) or sum(1 for k in p.classes if k.name == c.name) > 1:
        return None
    uses = p.__dict__.get('_uses_of_names')
    if uses is None:
        names = {k.name for k in p.classes}
        uses = p.__dict__['_uses_of_names'] = {}
        where = {}
        for g in p.functions:
            for n in own_nodes(g.node):
                if isinstance(n, ast.Call):
                    where[id(n)] = g
        for m in p.modules.values():
            nodes = list(ast.walk(m.tree))
            calls = {id(n.func): n for n in nodes if isinstance(n, ast.Call)}
            tests = {id(x) for n in nodes if isinstance(n, ast.Call) and dotted(n.func) in ('isinstance', 'issubclass') for x in ast.walk(n)}
            for n in nodes:
                x = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                if x in names and id(n) not in tests:
                    # (the call, and the function that contains it)
                    call = calls.get(id(n))
                    uses.setdefault(x, []).append((call, where.get(id(call)) if call is not None else None))
    out = uses.get(c.name, [])
    if any(n is None or g is None for n, g in out):
        return None
    cache[c] = out
    return cache[c]


def supplied(p, at, param, init, depth):
    """what is given to a constructor, everywhere"""
    sites = creations(p, init.cls)
    if not sites:
        return set()
    pairs = []
    for n, g in sites:
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return set()
        i = init.params.index(param) - 1 if param in init.params else -1
        v = n.args[i] if 0 <= i < len(n.args) else next((k.value for k in n.keywords if k.arg == param), None)
        pairs.append((v, g))
    out, rest = set(), []
    for v, g in pairs:
        if isinstance(v, ast.Name) and g.cls is not None and v.id == g.self_name():
            out.add(g.cls)
        else:
            rest.append((v, g))
    if rest:
        t = together(p, at, rest, depth + 1)
        if not t:
            return set()
        out |= t
    return out


def together(p, at, pairs, depth):
    out = set()
    for v, g in pairs:
        if v is None:
            return set()
        if isinstance(v, ast.Constant) and v.value is None:
            continue
        t = definite(p, at, v, g, depth + 1)
        if not t:
            return set()
        out |= t
    return out


def caught(p, e, f):
    """classes of the exception that a handler's name stands for"""
    if not isinstance(e, ast.Name):
        return None
    out = set()
    for h in own_nodes(f.node):
        if isinstance(h, ast.ExceptHandler) and h.name == e.id and any(x is e for x in ast.walk(h)):
            for t in ([] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                r = p.resolve_global(t, f.module, f.cls) if dotted(t) else None
                if not isinstance(r, ClassInfo):
                    return None
                out.add(r)
            if h.type is None:
                return None
    return out


def guards(f):
    """try statements that expect a missing attribute or name, and hasattr tests"""
    out = []
    for n in own_nodes(f.node):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                ts = [] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                if any((dotted(t) or '').split('.')[-1] in ('AttributeError', 'NameError', 'ImportError') for t in ts):
                    out += [x for s in n.body for x in ast.walk(s)]
        elif isinstance(n, (ast.If, ast.IfExp)) and any(isinstance(x, ast.Call) and dotted(x.func) == 'hasattr' for x in ast.walk(n.test)):
            out += [x for s in (n.body if isinstance(n.body, list) else [n.body]) for x in ast.walk(s)]
    return {id(x) for x in out}


def n_guarded(n, guarded):
    return id(n) in guarded


def nested_above(name, f):
    while f is not None:
        if name in f.nested:
            return True
        f = f.parent
    return False


def _self(f):
    while f.parent is not None:
        f = f.parent
    return f.self_name()


def imports(ctx, nm, m, node, mod, name):
    p = nm.p
    ctx.count('imports')
    root = mod.split('.')[0]
    if root == 'marcel':
        if mod not in p.modules and not nm.is_package(mod):
            return ctx.bad('module', f'{m.name}:import {mod}', m, f'there is no module {mod}', node)
        if name and name != '*':
            if (mod + '.' + name) in p.modules:
                return ctx.ok('module', f'{m.name}:{mod}.{name}')
            names, exact = nm.names.get(mod) or nm.names.get(mod + '.__init__') or (set(), True)
            if exact and name not in names:
                return ctx.bad('module', f'{m.name}:from {mod} import {name}', m, f'{mod} has no {name}', node)
    elif root in SAFE:
        lib = stdlib(mod)
        if lib is None:
            return ctx.bad('module', f'{m.name}:import {mod}', m, f'there is no module {mod}', node)
        if name and name != '*' and not hasattr(lib, name) and stdlib(mod + '.' + name) is None:
            return ctx.bad('module', f'{m.name}:from {mod} import {name}', m, f'{mod} has no {name}', node)
    ctx.ok('module', f'{m.name}:{mod}')


CHECKS = {'G01': check_G01}
MUTANTS = {'G01': [
    ('marcel/op/forkmanager.py', "worker.terminate()", "worker.kill_it()", 'no such method of the elements of a list'),
    ('marcel/op/bash.py', "self.owner.process.stderr.close()", "self.owner.proc.stderr.close()", 'no such attribute of what a constructor is given'),
    ('marcel/reader.py', "import sys\n", "", 'import forgotten'),
    ('marcel/reader.py', "Reader.report_error(e.cause)\n        return command", "Reader.report_error(e.reason)\n        return command", 'attribute of a caught exception'),
    ('marcel/job.py', "        marcel.util.print_to_stderr(env, e)\n", "        marcel.util.print_stderr(env, e)\n", 'function of a module'),
    ('marcel/job.py', "        marcel.util.print_to_stderr(env, e)\n", "        marcel.util.print_to_stderr(e)\n", 'argument missing'),
    ('marcel/env.py', "        self.next_command = None\n        return command", "        self.next_command = None\n        return next_command", 'name of a variable'),
    ('marcel/core.py', "raise marcel.exception.KillCommandException(f'{self.op_name()} cannot", "raise marcel.exception.KillCommandException(f'{self.opname()} cannot", 'name of a method'),
    ('marcel/pipeline.py', "return PipelineFunction(env, pipeline)", "return PipelineFunction(pipeline)", 'constructor'),
    ('marcel/job.py', "    child_namespace_changes = None\n", "", 'a variable that the handler of an exception finds unassigned'),
    ('marcel/reader.py', "        command = None\n", "", 'a variable assigned by the try only'),
    ('marcel/reader.py', "        new_command = None\n", "", 'a variable assigned on some branches only'),
]}
