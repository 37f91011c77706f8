"""Path-sensitive tracking of marked values through names, attributes, parameters and returns."""
import ast

from .model import ClassInfo, FuncInfo, own_nodes, dotted
from .engine import Typestate, Frame

WRAP = {'list', 'tuple', 'iter', 'sorted', 'reversed', 'next', 'copy', 'deepcopy', 'enumerate', 'zip', 'ifnone'}


class ValueFlow(Typestate):
    """State: frozenset of (key, mark). key = (function, name) for locals, ('', text) for attributes, ('$ret', function)."""
    max_depth = 5
    track_exc = False

    # ---- override
    def source(self, e, st, fr):
        """mark if the expression e is a source, else None"""
        return None

    def overwritten(self, key, mark, target, fr):
        pass

    # ---- keys
    def key(self, e, fr):
        if isinstance(e, ast.Name):
            g = fr.func
            while g is not None:
                if e.id in g.params or e.id in g.local_assigns():
                    return (g.qualname, e.id)
                g = g.parent
            return (fr.func.qualname, e.id)
        if isinstance(e, ast.Attribute):
            return ('', ast.unparse(e))
        return None

    def mark(self, e, st, fr, depth=0):
        """the mark carried by expression e, or None"""
        if e is None or depth > 6:
            return None
        m = self.source(e, st, fr)
        if m is not None:
            return m
        if isinstance(e, (ast.Name, ast.Attribute)):
            k = self.key(e, fr)
            for kk, mm in st:
                if kk == k:
                    return mm
            return None
        if isinstance(e, (ast.Subscript, ast.Starred, ast.NamedExpr)):
            return self.mark(e.value, st, fr, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.mark(e.body, st, fr, depth + 1) or self.mark(e.orelse, st, fr, depth + 1)
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                m = self.mark(v, st, fr, depth + 1)
                if m:
                    return m
            return None
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            for v in e.elts:
                m = self.mark(v, st, fr, depth + 1)
                if m:
                    return m
            return None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.mark(e.elt, st, fr, depth + 1)
        if isinstance(e, ast.BinOp):
            return self.mark(e.left, st, fr, depth + 1) or self.mark(e.right, st, fr, depth + 1)
        if isinstance(e, ast.Call):
            nm = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else None
            if nm in WRAP:
                for a in e.args:
                    m = self.mark(a, st, fr, depth + 1)
                    if m:
                        return m
            if isinstance(e.func, ast.Attribute) and nm in ('pop', 'popleft', 'get', 'copy'):
                return self.mark(e.func.value, st, fr, depth + 1)
            for t in self.p.callees(e, fr.func, fr.cls, binds=fr.binds):
                if isinstance(t, FuncInfo):
                    for kk, mm in st:
                        if kk == ('$ret', t.qualname):
                            return mm
        return None

    def set(self, st, key, mark):
        st = frozenset(x for x in st if x[0] != key)
        return st | {(key, mark)} if mark else st

    # ---- hooks
    def on_assign(self, target, value, st, fr):
        k = self.key(target, fr)
        if isinstance(target, ast.Subscript):
            k = self.key(target.value, fr)
            m = self.mark(value, st, fr)
            if k and m:
                return [self.set(st, k, m)]
            return [st]
        if k is None:
            return [st]
        m = self.mark(value, st, fr) if value is not None else None
        for kk, mm in st:
            if kk == k and (not m or value is not None and self.source(value, st, fr) is not None):
                self.overwritten(k, mm, target, fr)
        st2 = self.set(st, k, m)
        st2 = frozenset(x for x in st2 if x[0][0] != '$ret')
        return [st2]

    def on_iter(self, s, st, fr):
        m = self.mark(s.iter, st, fr)
        if m:
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    st = self.set(st, self.key(n, fr), m)
        return [st]

    def on_return(self, node, st, fr):
        m = self.mark(node.value, st, fr) if node.value is not None else None
        if m:
            st = st | {(('$ret', fr.func.qualname), m)}
        return [st]

    def on_exit_frame(self, st, fr):
        return frozenset(x for x in st if x[0][0] != fr.func.qualname)

    def _inline(self, t, e, states, fr):
        if e is not None and not isinstance(t.node, ast.Lambda):
            params = list(t.params)
            bound = t.cls is not None and not t.is_static and t.parent is None and params
            if bound:
                params = params[1:]
            pairs = []
            for i, a in enumerate(e.args):
                if isinstance(a, ast.Starred):
                    break
                if i < len(params):
                    pairs.append((params[i], a))
            for k in e.keywords:
                if k.arg:
                    pairs.append((k.arg, k.value))
            new = {}
            for (st, fa), w in states.items():
                add = set()
                for nme, a in pairs:
                    m = self.mark(a, st, fr)
                    if m:
                        add.add(((t.qualname, nme), m))
                new.setdefault((st | frozenset(add), fa), w)
            states = new
        return super()._inline(t, e, states, fr)
