"""Source model of geophile/marcel: modules, classes (with MRO), functions, name resolution.

Nothing here imports or runs marcel; everything is read from the source text with `ast`.
"""
import ast
import functools
import os
import re

from .normal import normalise

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """The analysis lost an anchor (file/class/function) it needs: neither pass nor violation."""


@functools.lru_cache(maxsize=4096)
def identifiers(src):
    return frozenset(re.findall(r'[A-Za-z_]\w*', src))


_trees = {}     # analysing variants of the repository: most modules are the same


class FuncInfo:
    def __init__(self, module, cls, name, node, parent=None):
        self.module = module
        self.cls = cls            # ClassInfo in which it is textually defined (or None)
        self.name = name
        self.node = node
        self.parent = parent      # enclosing FuncInfo
        self.nested = {}
        outer = parent.qualname + '.' if parent else (cls.qualname + '.' if cls else module.name + ':')
        self.qualname = outer + name
        decos = getattr(node, 'decorator_list', [])
        dn = {dotted(d.func if isinstance(d, ast.Call) else d) for d in decos}
        self.is_static = 'staticmethod' in dn
        self.is_classmethod = 'classmethod' in dn
        self.is_property = 'property' in dn
        self.is_contextmanager = bool(dn & {'contextmanager', 'contextlib.contextmanager'})
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self._locals = None

    @property
    def body(self):
        return self.node.body if not isinstance(self.node, ast.Lambda) else [ast.Return(value=self.node.body, lineno=self.node.lineno, col_offset=0)]

    @property
    def line(self):
        return self.node.lineno

    @property
    def file(self):
        return self.module.path

    def self_name(self):
        if self.cls is not None and self.parent is None and not self.is_static and self.params:
            return self.params[0]
        return None

    def __repr__(self):
        return f'<{self.qualname}>'

    def local_assigns(self):
        """name -> list of value expressions assigned in this function (None = opaque binding)."""
        if self._locals is None:
            res = {}

            def bind(t, v):
                if isinstance(t, ast.Name):
                    res.setdefault(t.id, []).append(v)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and \
                            not any(isinstance(e, ast.Starred) for e in t.elts + v.elts):
                        for a, b in zip(t.elts, v.elts):
                            bind(a, b)
                    else:
                        for a in t.elts:
                            bind(a, None)
                elif isinstance(t, ast.Starred):
                    bind(t.value, None)
            for n in own_nodes(self.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        bind(t, n.value)
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    bind(n.target, n.value)
                elif isinstance(n, ast.AugAssign):
                    bind(n.target, None)
                elif isinstance(n, ast.NamedExpr):
                    bind(n.target, n.value)
                elif isinstance(n, (ast.For, ast.AsyncFor)):
                    bind(n.target, None)
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    for it in n.items:
                        if it.optional_vars is not None:
                            bind(it.optional_vars, it.context_expr)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    res.setdefault(n.name, []).append(None)
            self._locals = res
        return self._locals


class ClassInfo:
    def __init__(self, module, name, node, outer=None):
        self.module = module
        self.name = name
        self.node = node
        self.outer = outer
        self.qualname = (outer.qualname + '.' if outer else module.name + ':') + name
        self.methods = {}
        self.class_attrs = {}
        self.inner = {}
        self.base_exprs = node.bases
        self._mro = None
        self.project = None
        self._attr_assigns = None

    def __repr__(self):
        return f'<class {self.qualname}>'

    @property
    def file(self):
        return self.module.path

    @property
    def line(self):
        return self.node.lineno

    def bases(self):
        out = []
        for b in self.base_exprs:
            r = self.project.resolve_global(b, self.module, self)
            out.append(r if isinstance(r, ClassInfo) else (r or dotted(b) or '?'))
        return out

    def mro(self):
        if self._mro is None:
            self._mro = [self]
            seqs = [b.mro()[:] if isinstance(b, ClassInfo) else [b] for b in self.bases()]
            bs = list(self.bases())
            if bs:
                seqs.append(bs)
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in s if x is not c and x != c] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def repo_mro(self):
        return [c for c in self.mro() if isinstance(c, ClassInfo)]

    def find(self, name, after=None):
        m = self.repo_mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.repo_mro():
            if name in c.class_attrs:
                return c.class_attrs[name]
        return None

    def derives(self, other):
        return other in self.mro()

    def ext_bases(self):
        """dotted names of all non-repo ancestors"""
        return {c for c in self.mro() if isinstance(c, str)}

    def attr_assigns(self):
        """attr -> [(FuncInfo, value expr or None)] for assignments `self.attr = v` in this class's own methods."""
        if self._attr_assigns is None:
            res = {}
            for f in self.methods.values():
                sn = f.self_name()
                if not sn:
                    continue
                for n in ast.walk(f.node):
                    pairs = []
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            pairs += list(_pairs(t, n.value))
                    elif isinstance(n, (ast.AnnAssign,)) and n.value is not None:
                        pairs += list(_pairs(n.target, n.value))
                    elif isinstance(n, ast.AugAssign):
                        pairs += list(_pairs(n.target, None))
                    elif isinstance(n, (ast.For,)):
                        pairs += list(_pairs(n.target, None))
                    elif isinstance(n, ast.With):
                        for it in n.items:
                            if it.optional_vars is not None:
                                pairs += list(_pairs(it.optional_vars, it.context_expr))
                    for t, v in pairs:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == sn:
                            res.setdefault(t.attr, []).append((f, v))
            self._attr_assigns = res
        return self._attr_assigns

    def all_attr_assigns(self, attr):
        out = []
        for c in self.repo_mro():
            out += c.attr_assigns().get(attr, [])
        return out


def _pairs(t, v):
    if isinstance(t, (ast.Tuple, ast.List)):
        if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
            for a, b in zip(t.elts, v.elts):
                yield from _pairs(a, b)
        else:
            for a in t.elts:
                yield from _pairs(a, None)
    elif isinstance(t, ast.Starred):
        yield from _pairs(t.value, None)
    else:
        yield t, v


def own_nodes(fnode):
    """Nodes of a function excluding those in nested function/lambda/class bodies."""
    stack = list(ast.iter_child_nodes(fnode)) if not isinstance(fnode, ast.Lambda) else [fnode.body]
    if isinstance(fnode, (ast.FunctionDef, ast.AsyncFunctionDef)):
        stack = list(fnode.body)
    stack.reverse()
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        ch = list(ast.iter_child_nodes(n))
        ch.reverse()
        stack.extend(ch)


def dotted(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
        return '.'.join(reversed(parts))
    return None


class Module:
    def __init__(self, project, name, path, abspath):
        self.project = project
        self.name = name
        self.path = path
        if path in project.overlay:
            self.src = project.overlay[path]
        else:
            with open(abspath, encoding='utf-8') as f:
                self.src = f.read()
        self.tree = _trees.get((path, self.src))
        if self.tree is None:
            asked = []

            def elsewhere(x):
                asked.append(x)
                return any(x in ids for p, ids in project.identifiers.items() if p != path)
            self.tree = normalise(ast.parse(self.src, filename=path), name, elsewhere)
            if not asked:
                _trees[(path, self.src)] = self.tree
        self.imports = {}      # alias -> dotted target
        self.classes = {}
        self.functions = {}
        self.globals = {}      # name -> value expr (last)
        self.all_functions = []
        self.all_classes = []
        self._collect()

    def _collect(self):
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    pk = self.name.split('.')[:-n.level]
                    base = '.'.join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name != '*':
                        self.imports[a.asname or a.name] = base + '.' + a.name
        self._scope(self.tree.body, None, None)

    def _scope(self, body, cls, parent):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._func(n, cls, parent)
            elif isinstance(n, ast.ClassDef):
                ci = ClassInfo(self, n.name, n, outer=cls)
                ci.project = self.project
                ci.def_parent = parent
                if parent is not None:
                    parent.nested[n.name] = ci
                elif cls is not None:
                    cls.inner[n.name] = ci
                else:
                    self.classes[n.name] = ci
                self.all_classes.append(ci)
                self._scope(n.body, ci, None)
            elif isinstance(n, (ast.If, ast.Try, ast.With)) and parent is None:
                for fld in ('body', 'orelse', 'finalbody'):
                    self._scope(getattr(n, fld, []) or [], cls, parent)
                for h in getattr(n, 'handlers', []):
                    self._scope(h.body, cls, parent)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)) and parent is None:
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    if isinstance(t, ast.Name):
                        (cls.class_attrs if cls is not None else self.globals)[t.id] = n.value
                    elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple):
                        for a, b in zip(t.elts, n.value.elts):
                            if isinstance(a, ast.Name):
                                (cls.class_attrs if cls is not None else self.globals)[a.id] = b

    def _func(self, n, cls, parent):
        fi = FuncInfo(self, cls, n.name, n, parent)
        if parent is not None:
            parent.nested[n.name] = fi
        elif cls is not None:
            # property setters share the name: keep the getter
            if n.name not in cls.methods or not any(
                    isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter') for d in n.decorator_list):
                cls.methods[n.name] = fi
        else:
            self.functions[n.name] = fi
        self.all_functions.append(fi)
        self._nested(n, cls, fi)

    def _nested(self, n, cls, fi):
        for m in own_nodes(n):
            if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = FuncInfo(self, cls, m.name, m, fi)
                fi.nested[m.name] = g
                self.all_functions.append(g)
                self._nested(m, cls, g)
            elif isinstance(m, ast.ClassDef):
                ci = ClassInfo(self, m.name, m, outer=None)
                ci.project = self.project
                fi.nested[m.name] = ci
                self.all_classes.append(ci)
                self._scope(m.body, ci, None)


class Project:
    def __init__(self, root=None, extra=('bin/farcel.py',), overlay=None):
        self.root = root or REPO
        self.overlay = overlay or {}      # relative path -> source text that replaces the file's
        self.modules = {}
        pkg = os.path.join(self.root, 'marcel')
        if not os.path.isdir(pkg):
            raise AnalysisBroken(f'no package directory {pkg}')
        todo = []
        for d, dirs, files in os.walk(pkg):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    ap = os.path.join(d, f)
                    rel = os.path.relpath(ap, self.root)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    todo.append((name, rel, ap))
        for rel in extra:
            ap = os.path.join(self.root, rel)
            if os.path.exists(ap):
                todo.append((rel[:-3].replace('/', '.'), rel, ap))
        self.identifiers = {}
        for name, rel, ap in todo:
            src = self.overlay.get(rel)
            if src is None:
                with open(ap, encoding='utf-8') as fl:
                    src = fl.read()
            self.identifiers[rel] = identifiers(src)
        for name, rel, ap in todo:
            self._add(name, rel, ap)
        self.functions = [f for m in self.modules.values() for f in m.all_functions]
        self.classes = [c for m in self.modules.values() for c in m.all_classes]
        self.by_method = {}
        for c in self.classes:
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)
        self._attr_types = {}
        self._elems = {}
        self._lambdas = {}
        self._ret_types = {}

    def _add(self, name, rel, ap):
        try:
            self.modules[name] = Module(self, name, rel, ap)
        except SyntaxError as e:
            raise AnalysisBroken(f'{rel} does not parse: {e}')

    # ---- lookups
    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken(f'module {name} not found')
        return self.modules[name]

    def cls(self, name, module=None):
        """Class by bare name (optionally module), anywhere: survives moves between modules."""
        if module and module in self.modules and name in self.modules[module].classes:
            return self.modules[module].classes[name]
        c = [x for x in self.classes if x.name == name and x.outer is None]
        if len(c) == 1:
            return c[0]
        if not c:
            raise AnalysisBroken(f'class {name} not found')
        for x in c:
            if module and x.module.name == module:
                return x
        raise AnalysisBroken(f'class {name} is ambiguous: {c}')

    def method(self, cname, mname, module=None):
        c = self.cls(cname, module)
        f = c.find(mname)
        if f is None:
            raise AnalysisBroken(f'method {cname}.{mname} not found')
        return f

    def func(self, modname, name):
        m = self.module(modname)
        if name not in m.functions:
            raise AnalysisBroken(f'function {modname}.{name} not found')
        return m.functions[name]

    def subclasses(self, c, strict=False):
        return [x for x in self.classes if x.derives(c) and not (strict and x is c)]

    def lookup_dotted(self, name):
        """dotted global name -> Module / ClassInfo / FuncInfo / expr / None"""
        parts = name.split('.')
        for i in range(len(parts), 0, -1):
            mn = '.'.join(parts[:i])
            if mn in self.modules:
                cur = self.modules[mn]
                ok = True
                for p in parts[i:]:
                    if isinstance(cur, Module):
                        if p in cur.classes:
                            cur = cur.classes[p]
                        elif p in cur.functions:
                            cur = cur.functions[p]
                        elif p in cur.imports and cur.imports[p] != name:
                            nxt = self.lookup_dotted(cur.imports[p])
                            if nxt is None:
                                ok = False
                                break
                            cur = nxt
                        elif p in cur.globals:
                            v = cur.globals[p]
                            r = self.resolve_global(v, cur) if dotted(v) and dotted(v) != p else None
                            cur = r if r is not None and not isinstance(r, str) else v
                        else:
                            ok = False
                            break
                    elif isinstance(cur, ClassInfo):
                        f = cur.find(p)
                        if f:
                            cur = f
                        elif p in cur.inner:
                            cur = cur.inner[p]
                        elif cur.find_attr(p) is not None:
                            cur = cur.find_attr(p)
                        else:
                            ok = False
                            break
                    else:
                        ok = False
                        break
                return cur if ok else None
        return None

    def resolve_global(self, e, module, cls=None):
        """Resolve a Name/Attribute expr in module scope. Returns Module/ClassInfo/FuncInfo/ast expr, or dotted str if external."""
        d = dotted(e)
        if d is None:
            return None
        head, _, rest = d.partition('.')
        c = cls
        while c is not None:
            if head in c.inner and c.inner[head] is not None:
                base = c.inner[head]
                return self._walk(base, rest) if rest else base
            c = c.outer
        if head in module.classes:
            return self._walk(module.classes[head], rest)
        if head in module.functions:
            return self._walk(module.functions[head], rest)
        if head in module.globals:
            v = module.globals[head]
            dv = dotted(v)
            if dv and dv != head:
                r = self.resolve_global(v, module)
                if isinstance(r, (ClassInfo, FuncInfo, Module)):
                    return self._walk(r, rest)
                if isinstance(r, str):
                    return r + ('.' + rest if rest else '')
            return v if not rest else None
        if head in module.imports:
            full = module.imports[head] + ('.' + rest if rest else '')
            r = self.lookup_dotted(full)
            return r if r is not None else full
        return d

    def _walk(self, base, rest):
        cur = base
        for p in [x for x in rest.split('.') if x]:
            if isinstance(cur, Module):
                cur = self.lookup_dotted(cur.name + '.' + p)
            elif isinstance(cur, ClassInfo):
                f = cur.find(p)
                cur = f or cur.inner.get(p) or cur.find_attr(p)
            else:
                return None
            if cur is None:
                return None
        return cur

    # ---- light type inference: expr -> set of ClassInfo
    ENV_NAMES = ('env', '_env', '_ENV')

    def env_classes(self):
        base = self.cls('Environment', 'marcel.env')
        return self.subclasses(base)

    def infer(self, e, func, cls=None, depth=0, binds=None):
        """Set of repo classes an expression may be an instance of (empty = unknown)."""
        if depth > 6 or e is None:
            return set()
        if isinstance(e, ast.Name):
            if binds and e.id in binds:
                b = binds[e.id]
                if isinstance(b, set):
                    return b
            f = func
            while f is not None:
                sn = f.self_name()
                if sn and e.id == sn:
                    if f.is_classmethod:
                        return set()
                    return {cls} if cls is not None and (f.cls is None or cls.derives(f.cls)) else ({f.cls} if f.cls else set())
                la = f.local_assigns()
                its = self.loop_iters(f).get(e.id)
                if its and (e.id not in la or la[e.id] == [None] * len(la[e.id])):
                    out = set()
                    for it in its:
                        x = self.elem_types(it, f, cls, depth + 1)
                        if not x:
                            out = set()
                            break
                        out |= x
                    if out:
                        return out
                if e.id in la:
                    out = set()
                    for v in la[e.id]:
                        if v is not None and not (isinstance(v, ast.Name) and v.id == e.id):
                            out |= self.infer(v, f, cls, depth + 1)
                    if out:
                        return out
                    if e.id in self.ENV_NAMES:
                        return set(self.env_classes())
                    return out
                if e.id in f.params or e.id in f.kwonly:
                    if e.id in self.ENV_NAMES:
                        return set(self.env_classes())
                    return self._param_hint(e.id)
                f = f.parent
            if e.id in self.ENV_NAMES:
                return set(self.env_classes())
            g = func.module.globals.get(e.id) if func is not None else None
            if g is not None:
                return self.infer(g, None_func(func), None, depth + 1)
            return set()
        if isinstance(e, ast.Attribute):
            if e.attr in self.ENV_NAMES:
                return set(self.env_classes())
            if e.attr == 'workspace':
                h = self._param_hint('workspace')
                if h:
                    return h
            base = self.infer(e.value, func, cls, depth + 1, binds)
            out = set()
            for b in base:
                out |= self.attr_type(b, e.attr, depth + 1)
            if not out:
                r = self.resolve_global(e, func.module) if func is not None else None
                if isinstance(r, ast.AST) and r is not e:
                    out = self.infer(r, func, None, depth + 1)
            return out
        if isinstance(e, ast.Call):
            t = self.callees(e, func, cls, depth + 1, binds)
            out = set()
            for x in t:
                if isinstance(x, ClassInfo):
                    out.add(x)
                elif isinstance(x, FuncInfo):
                    out |= self.return_type(x, depth + 1)
            return out
        if isinstance(e, ast.IfExp):
            return self.infer(e.body, func, cls, depth + 1, binds) | self.infer(e.orelse, func, cls, depth + 1, binds)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.infer(v, func, cls, depth + 1, binds)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.infer(e.value, func, cls, depth + 1, binds)
        return set()

    def loop_iters(self, f):
        """name -> iterables that a loop or comprehension of f binds it to"""
        r = f.__dict__.get('_loop_iters')
        if r is None:
            r = {}
            if not isinstance(f, FuncInfo):
                return r
            for n in own_nodes(f.node):
                if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name):
                    r.setdefault(n.target.id, []).append(n.iter)
            f.__dict__['_loop_iters'] = r
        return r

    def elem_types(self, e, func, cls=None, depth=0):
        """repo classes of the elements of collection e, empty if that isn't known of every element"""
        if depth > 6 or e is None:
            return set()
        key = (id(e), func, cls)
        if key in self._elems:
            return self._elems[key]
        self._elems[key] = set()
        r = self._elem_types(e, func, cls, depth)
        self._elems[key] = r
        return r

    def _union(self, xs):
        out = set()
        for x in xs:
            if not x:
                return set()
            out |= x
        return out

    def _elem_types(self, e, func, cls, depth):
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.infer(e.elt, func, cls, depth + 1)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return self._union([self.infer(x, func, cls, depth + 1) for x in e.elts])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'set', 'sorted', 'reversed') and len(e.args) == 1:
            return self.elem_types(e.args[0], func, cls, depth + 1)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            return self.elem_types(e.value, func, cls, depth + 1)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self._union([self.elem_types(e.left, func, cls, depth + 1), self.elem_types(e.right, func, cls, depth + 1)])

        def empty(v):
            return isinstance(v, ast.Constant) and v.value is None or isinstance(v, (ast.List, ast.Tuple)) and not v.elts or \
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'set', 'tuple') and not v.args

        def added(match, fs):
            xs = []
            for g in fs:
                for n in own_nodes(g.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and match(n.func.value):
                        if n.func.attr in ('append', 'add', 'appendleft') and len(n.args) == 1:
                            xs.append(self.infer(n.args[0], g, g.cls, depth + 1))
                        elif n.func.attr in ('extend', 'update') and len(n.args) == 1:
                            xs.append(self.elem_types(n.args[0], g, g.cls, depth + 1))
                        elif n.func.attr == 'insert' and len(n.args) == 2:
                            xs.append(self.infer(n.args[1], g, g.cls, depth + 1))
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and match(n.value):
                        xs.append(set())
            return xs
        if isinstance(e, ast.Name) and func is not None:
            vs = func.local_assigns().get(e.id)
            if not vs or None in vs:
                return set()
            xs = [self.elem_types(v, func, cls, depth + 1) for v in vs if not empty(v)]
            # active = [w for w in active if ...]
            xs = [x for x, v in zip(xs, [v for v in vs if not empty(v)]) if x or not (
                isinstance(v, (ast.ListComp, ast.GeneratorExp)) and isinstance(v.elt, ast.Name) and len(v.generators) == 1 and
                isinstance(v.generators[0].iter, ast.Name) and v.generators[0].iter.id == e.id)]
            return self._union(xs + added(lambda v: isinstance(v, ast.Name) and v.id == e.id, [func]))
        if isinstance(e, ast.Attribute):
            out = []
            for c in self.infer(e.value, func, cls, depth + 1):
                vs = [(g, v) for g, v in c.all_attr_assigns(e.attr)]
                if not vs or any(v is None for g, v in vs):
                    return set()
                out += [self.elem_types(v, g, c, depth + 1) for g, v in vs if not empty(v)]
                ms = [m for k in c.mro() if isinstance(k, ClassInfo) for m in k.methods.values()]
                out += added(lambda v: isinstance(v, ast.Attribute) and v.attr == e.attr, [g for g in self.functions if g in ms or g.module is c.module])
            return self._union(out)
        return set()

    def _param_hint(self, name):
        if name == 'workspace':
            try:
                return set(self.subclasses(self.cls('Workspace')))
            except AnalysisBroken:
                return set()
        return set()

    def attr_type(self, c, attr, depth=0):
        key = (c, attr)
        if key in self._attr_types:
            return self._attr_types[key]
        self._attr_types[key] = set()
        if depth > 6:
            return set()
        out = set()
        f = c.find(attr)
        if f is not None and f.is_property:
            out |= self.return_type(f, depth + 1)
        for f, v in c.all_attr_assigns(attr):
            if v is not None:
                out |= self.infer(v, f, c, depth + 1)
        ca = c.find_attr(attr)
        if ca is not None:
            out |= self.infer(ca, None_func_mod(c.module), None, depth + 1)
        self._attr_types[key] = out
        return out

    def return_type(self, f, depth=0):
        if f in self._ret_types:
            return self._ret_types[f]
        self._ret_types[f] = set()
        out = set()
        if depth <= 6:
            for n in own_nodes(f.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    if isinstance(n.value, ast.Name) and n.value.id == f.self_name() and f.cls:
                        out.add(f.cls)
                    else:
                        out |= self.infer(n.value, f, f.cls, depth + 1)
        self._ret_types[f] = out
        return out

    # names so common on builtin objects that an untyped receiver must not resolve to repo methods
    COMMON = set(dir(str)) | set(dir(list)) | set(dir(dict)) | set(dir(set)) | set(dir(bytes)) | {
        'close', 'write', 'read', 'flush', 'start', 'run', 'join', 'wait', 'acquire', 'release', 'send', 'recv', 'exists',
        'open', 'unlink', 'rename', 'touch', 'mkdir', 'parse', 'search', 'match', 'group', 'execute', 'commit', 'cleanup',
        'setup', 'call', 'value', 'readline', 'readlines', 'kill', 'signal', 'notify', 'is_alive', 'poll', 'resolve', 'reset',
        'exit', 'delete', 'create', 'name', 'load', 'dump', 'home', 'receive', 'connection', 'cursor', 'history', 'input'}

    def callees(self, call, func, cls=None, depth=0, binds=None, loose=False):
        """List of FuncInfo / ClassInfo (constructor) / dotted str (external) a call may reach."""
        return self.callable_targets(call.func, func, cls, depth, binds, loose)

    def callable_targets(self, fe, func, cls=None, depth=0, binds=None, loose=False):
        if depth > 8:
            return []
        if isinstance(fe, ast.Name):
            if binds and fe.id in binds and not isinstance(binds[fe.id], set):
                return list(binds[fe.id])
            f = func
            while f is not None:
                if fe.id in f.nested:
                    return [f.nested[fe.id]]
                la = f.local_assigns()
                if fe.id in la:
                    out = []
                    for v in la[fe.id]:
                        if v is None:
                            continue
                        if isinstance(v, ast.Lambda):
                            out.append(self.lambda_info(v, f))
                        elif isinstance(v, (ast.Name, ast.Attribute)) and not (isinstance(v, ast.Name) and v.id == fe.id):
                            out += self.callable_targets(v, f, cls, depth + 1, binds, loose)
                        elif isinstance(v, ast.Call):
                            out += self.returned_callables(v, f, cls, depth + 1, binds)
                        elif isinstance(v, ast.IfExp):
                            for w in (v.body, v.orelse):
                                if isinstance(w, (ast.Name, ast.Attribute)):
                                    out += self.callable_targets(w, f, cls, depth + 1, binds, loose)
                    return out
                if fe.id in f.params or fe.id in f.kwonly:
                    return []
                f = f.parent
            if func is not None and func.cls is not None and False:
                pass
            r = self.resolve_global(fe, func.module, None) if func is not None else None
            if isinstance(r, (ClassInfo, FuncInfo)):
                return [r]
            if isinstance(r, ast.Lambda):
                return [self.lambda_info(r, None, func.module)]
            if isinstance(r, str):
                return [r]
            return []
        if isinstance(fe, ast.Attribute):
            v = fe.value
            # super().m
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                f = func
                while f is not None and f.cls is None:
                    f = f.parent
                if f is None:
                    return []
                c = cls if cls is not None and cls.derives(f.cls) else f.cls
                m = c.find(fe.attr, after=f.cls)
                if m is not None:
                    return [m]
                ext = [b for b in f.cls.mro() if isinstance(b, str)]
                return [f'{ext[0]}.{fe.attr}'] if ext else [f'object.{fe.attr}']
            # dotted global
            d = dotted(fe)
            if d is not None:
                head = d.split('.')[0]
                islocal = False
                f = func
                while f is not None:
                    if head in f.params or head in f.kwonly or head in f.local_assigns() or head == f.vararg or head == f.kwarg:
                        islocal = True
                    if head in f.nested and isinstance(f.nested[head], ClassInfo):
                        m = f.nested[head].find(fe.attr)
                        return [m] if m else []
                    f = f.parent
                if not islocal and func is not None:
                    r = self.resolve_global(fe, func.module, func.cls)
                    if isinstance(r, (ClassInfo, FuncInfo)):
                        return [r]
                    if isinstance(r, str) and head in func.module.imports:
                        return [r]
                elif func is not None and func.is_classmethod and head == (func.params[0] if func.params else None):
                    c = cls or func.cls
                    m = c.find(fe.attr) if c else None
                    return [m] if m else []
            types = self.infer(v, func, cls, depth + 1, binds)
            out = []
            for t in sorted(types, key=lambda c: c.qualname):
                m = t.find(fe.attr)
                if m is not None:
                    if m not in out:
                        out.append(m)
                else:
                    # attribute holding a callable
                    for (af, av) in t.all_attr_assigns(fe.attr):
                        if isinstance(av, ast.Lambda):
                            out.append(self.lambda_info(av, af))
                        elif isinstance(av, ast.Attribute) and isinstance(av.value, ast.Name) and av.value.id == af.self_name():
                            mm = t.find(av.attr)
                            if mm and mm not in out:
                                out.append(mm)
            if out:
                return out
            if types and not out:
                return [f'?.{fe.attr}']
            if loose or fe.attr not in self.COMMON:
                c = self.by_method.get(fe.attr, [])
                if c and (loose or len({x.cls for x in c}) <= 12):
                    return list(c)
            return [f'?.{fe.attr}']
        if isinstance(fe, ast.Lambda):
            return [self.lambda_info(fe, func)]
        if isinstance(fe, ast.IfExp):
            return self.callable_targets(fe.body, func, cls, depth + 1, binds, loose) + \
                self.callable_targets(fe.orelse, func, cls, depth + 1, binds, loose)
        if isinstance(fe, ast.Call):
            return self.returned_callables(fe, func, cls, depth + 1, binds)
        return []

    def returned_callables(self, call, func, cls, depth, binds):
        """the classes and functions that a call may return"""
        out = []
        if depth > 6:
            return out
        for t in self.callable_targets(call.func, func, cls, depth + 1, binds):
            if not isinstance(t, FuncInfo) or t.node is None or isinstance(t.node, ast.Lambda):
                continue
            work = [n.value for n in own_nodes(t.node) if isinstance(n, ast.Return) and n.value is not None]
            while work:
                e = work.pop()
                if isinstance(e, ast.IfExp):
                    work += [e.body, e.orelse]
                elif isinstance(e, (ast.Name, ast.Attribute)):
                    for r in self.callable_targets(e, t, t.cls, depth + 1):
                        if isinstance(r, ClassInfo) and r not in out:
                            out.append(r)
        return out

    def lambda_info(self, node, parent, module=None):
        fi = self._lambdas.get(node)
        if fi is None:
            fi = self._lambdas[node] = FuncInfo(module or parent.module, None, '<lambda>', _lam(node), parent)
            fi.node = node
        return fi


def _lam(node):
    return node


class _NF:
    """pseudo function used to resolve module-level expressions"""
    def __init__(self, module):
        self.module = module
        self.cls = None
        self.parent = None
        self.nested = {}
        self.params = []
        self.kwonly = []
        self.vararg = self.kwarg = None
        self.is_classmethod = False
        self.qualname = module.name + ':<module>'

    def self_name(self):
        return None

    def local_assigns(self):
        return {}


def None_func(f):
    return _NF(f.module)


def None_func_mod(m):
    return _NF(m)
