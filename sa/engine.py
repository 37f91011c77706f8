"""Path-sensitive, interprocedural typestate engine over Python syntax trees.

A rule subclasses `Typestate`.  A *user state* is any hashable value.  The engine executes a function body abstractly,
tracking the SET of reachable user states along every structural path (branches, loops to a fixpoint, try/except/else/
finally, with, return/break/continue/raise) and inlining calls it can resolve.  Nothing of marcel is executed.

Branch correlation: a test expression that occurs more than once in a function (or on `self.x` in a class) is recorded
as a path fact, so that `if c: A` ... `if c: B` does not produce the infeasible mixed paths.

Exceptions: kind 'E' = some Exception subclass, 'B' = some BaseException that is not an Exception (marcel's Kill*/Exit/
Reconfigure classes), or an explicit class (ClassInfo/dotted) for `raise X`.
"""
import ast
import builtins

from .model import ClassInfo, FuncInfo, own_nodes, dotted

PURE_BUILTINS = {'len', 'isinstance', 'type', 'str', 'repr', 'bool', 'id', 'callable', 'hasattr', 'print', 'list', 'tuple',
                 'set', 'dict', 'sorted', 'reversed', 'enumerate', 'zip', 'range', 'super', 'min', 'max', 'sum', 'any', 'all',
                 'issubclass', 'frozenset', 'debug', 'object', 'iter'}


class Frame:
    __slots__ = ('func', 'cls', 'binds', 'depth', 'caller', 'multi', 'uid', 'yield_cb', 'site')
    _n = 0

    def __init__(self, func, cls, binds=None, caller=None, site=None):
        self.func = func
        self.cls = cls
        self.binds = binds or {}
        self.caller = caller
        self.depth = 0 if caller is None else caller.depth + 1
        self.yield_cb = None
        self.site = site
        self.multi = multi_tests(func)
        Frame._n += 1
        self.uid = func.qualname

    def chain(self):
        f, out = self, []
        while f is not None:
            out.append(f)
            f = f.caller
        return list(reversed(out))


_multi_cache = {}


CONTAINER_MUTATORS = {'append', 'appendleft', 'add', 'extend', 'insert', 'update', 'setdefault', 'pop', 'popleft', 'popitem', 'remove', 'discard', 'clear'}


def test_key(e):
    """(key, polarity) canonical form of an atomic test."""
    pol = True
    while True:
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            pol = not pol
            e = e.operand
            continue
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op, r = e.ops[0], e.comparators[0]
            isnone = isinstance(r, ast.Constant) and r.value is None
            if isinstance(op, ast.IsNot):
                return ('is', ast.dump(e.left), ast.dump(r)) if not isnone else ('none', ast.dump(e.left)), not pol
            if isinstance(op, ast.Is):
                return ('is', ast.dump(e.left), ast.dump(r)) if not isnone else ('none', ast.dump(e.left)), pol
            if isinstance(op, ast.NotEq):
                return ('eq', ast.dump(e.left), ast.dump(r)), not pol
            if isinstance(op, ast.Eq):
                return ('eq', ast.dump(e.left), ast.dump(r)), pol
            if isinstance(op, ast.NotIn):
                return ('in', ast.dump(e.left), ast.dump(r)), not pol
            if isinstance(op, ast.In):
                return ('in', ast.dump(e.left), ast.dump(r)), pol
            if isinstance(op, ast.Gt) and isinstance(r, ast.Constant) and r.value == 0:
                return ('gt0', ast.dump(e.left)), pol
            if isinstance(op, ast.LtE) and isinstance(r, ast.Constant) and r.value == 0:
                return ('gt0', ast.dump(e.left)), not pol
        break
    return ('t', ast.dump(e)), pol


def names_in(e):
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add('.' + n.attr)
    return frozenset(out)


def atoms(e):
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            yield from atoms(v)
    elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        yield from atoms(e.operand)
    else:
        yield e


def tests_of(fnode):
    for n in own_nodes(fnode):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield from atoms(n.test)
        elif isinstance(n, ast.Assert):
            yield from atoms(n.test)


def multi_tests(func):
    key = func
    if key in _multi_cache:
        return _multi_cache[key]
    cnt = {}
    nodes = [func.node]
    for e in tests_of(func.node):
        k, _ = test_key(e)
        cnt[k] = cnt.get(k, 0) + 1
    own = set(cnt)
    if func.cls is not None:
        for m in func.cls.methods.values():
            if m is not func:
                for e in tests_of(m.node):
                    k, _ = test_key(e)
                    if k in own and any(x.startswith('.') for x in names_in(e)):
                        cnt[k] = cnt.get(k, 0) + 1
    res = {k for k, c in cnt.items() if c > 1}
    # names assigned None / bool then tested
    _multi_cache[key] = res
    return res


class Out:
    """kind -> {(state, extra): witness line}; kinds n, ret, brk, cont, exc"""
    __slots__ = ('d',)

    def __init__(self):
        self.d = {'n': {}, 'ret': {}, 'brk': {}, 'cont': {}, 'exc': {}}

    def add(self, kind, key, wit=None):
        self.d[kind].setdefault(key, wit)

    def merge(self, o, kinds=('n', 'ret', 'brk', 'cont', 'exc')):
        for k in kinds:
            for key, w in o.d[k].items():
                self.d[k].setdefault(key, w)

    def __getitem__(self, k):
        return self.d[k]


class Typestate:
    """Subclass and override: on_call, on_assign, on_enter..., inline_ok, may_raise."""
    max_depth = 8
    track_exc = True            # model implicit exceptions of calls
    raise_kinds = ('E', 'B')

    def __init__(self, project):
        self.p = project
        self.calls_seen = 0
        self.paths = 0
        self.funcs_seen = set()
        self.unresolved = {}
        self._stack = []
        self._memo = {}

    # ---------------------------------------------------------------- hooks
    def on_call(self, call, targets, st, fr):
        """Return None to let the engine decide (inline or skip), or a list of resulting user states (call consumed).
        May also return a list of ('exc', state, kind) tuples mixed with plain states wrapped as ('n', state)."""
        return None

    def on_stmt(self, node, st, fr):
        """called before each simple statement; return list of states"""
        return [st]

    def on_assign(self, target, value, st, fr):
        return [st]

    def on_del(self, target, st, fr):
        return [st]

    def on_test_call(self, call, targets, truth, st, fr):
        """refine state on the truth of a (non-inlined) call used as a test; return state or None if infeasible."""
        return st

    def on_test(self, test, truth, st, fr):
        return st

    def on_with(self, expr, phase, st, fr, targets):
        """phase 'enter'/'exit'; return None for default handling else list of states"""
        return None

    def on_return(self, node, st, fr):
        return [st]

    def inline_ok(self, target, call, fr):
        """should a resolved FuncInfo be inlined?"""
        return self.relevant(target)

    def relevant(self, target):
        return True

    def may_raise(self, call, targets, fr):
        return True

    def on_raise(self, node, st, fr):
        return [st]

    # ---------------------------------------------------------------- API
    def run_function(self, func, cls, st, binds=None):
        """Out with n/ret merged into 'ret'."""
        fr = Frame(func, cls, binds)
        return self._exec_func(fr, {(st, frozenset()): None})

    # ---------------------------------------------------------------- functions
    def _exec_func(self, fr, states):
        self.funcs_seen.add(fr.func.qualname)
        out = Out()
        body = fr.func.body
        o = self.block(body, states, fr)
        for (k, w) in o['n'].items():
            out.add('ret', (k[0], k[1], 'N'), w if w is not None else getattr(body[-1], 'end_lineno', None))
        for (k, w) in o['ret'].items():
            out.add('ret', k, w)
        for (k, w) in o['exc'].items():
            out.add('exc', k, w)
        return out

    # ---------------------------------------------------------------- blocks
    def block(self, stmts, states, fr):
        out = Out()
        cur = dict(states)
        for s in stmts:
            if not cur:
                break
            o = self.stmt(s, cur, fr)
            out.merge(o, ('ret', 'brk', 'cont', 'exc'))
            cur = o['n']
        for k, w in cur.items():
            out.add('n', k, w)
        return out

    def stmt(self, s, states, fr):
        out = Out()
        pre = {}
        for (st, fa), w in states.items():
            for st2 in self.on_stmt(s, st, fr):
                pre.setdefault((st2, fa), w)
        states = pre
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            # generic: evaluate child expressions
            cur = states
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    o = self.expr(c, cur, fr)
                    out.merge(o, ('exc',))
                    cur = o['n']
            for k, w in cur.items():
                out.add('n', k, w)
            return out
        return m(s, states, fr)

    def s_FunctionDef(self, s, states, fr):
        o = Out()
        for k, w in states.items():
            o.add('n', k, w)
        return o
    s_AsyncFunctionDef = s_ClassDef = s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass = s_FunctionDef

    def s_Expr(self, s, states, fr):
        return self.expr(s.value, states, fr)

    def s_Return(self, s, states, fr):
        out = Out()
        if s.value is None:
            for (st, fa), w in states.items():
                for st2 in self.on_return(s, st, fr):
                    out.add('ret', (st2, fa, 'N'), s.lineno)
            return out
        t, f, exc, unk = self.test(s.value, states, fr, force_unknown=True)
        out.merge(exc, ('exc',))
        for group, rv in ((t, 'T'), (f, 'F'), (unk, '?')):
            for (st, fa), w in group.items():
                v = rv
                if isinstance(s.value, ast.Constant) and s.value.value is None:
                    v = 'N'
                for st2 in self.on_return(s, st, fr):
                    out.add('ret', (st2, fa, v), s.lineno)
        return out

    def _kill(self, fa, names):
        if not fa:
            return fa
        return frozenset(x for x in fa if not (x[2] & names))

    def _kill_contents(self, fa, names):
        """facts that depend on what is in the containers"""
        return frozenset(x for x in fa if x[0] == ('$exc',) or x[0][1][0] in ('none', 'is') or not (x[2] & names)) if fa else fa

    def s_Assign(self, s, states, fr):
        return self._assign(s.targets, s.value, states, fr, s)

    def s_AnnAssign(self, s, states, fr):
        if s.value is None:
            o = Out()
            for k, w in states.items():
                o.add('n', k, w)
            return o
        return self._assign([s.target], s.value, states, fr, s)

    def s_AugAssign(self, s, states, fr):
        return self._assign([s.target], s.value, states, fr, s, aug=True)

    def _assign(self, targets, value, states, fr, s, aug=False):
        out = Out()
        single = targets[0] if len(targets) == 1 else None
        split = isinstance(single, (ast.Name, ast.Attribute)) and not aug and \
            (('t', ast.dump(_load(single))) in fr.multi or ('none', ast.dump(_load(single))) in fr.multi or
             self._tested(single, fr))
        groups = []
        if split:
            t, f, exc, unk = self.test(value, states, fr, force_unknown=True, assign_ctx=True)
            out.merge(exc, ('exc',))
            groups = [(t, True), (f, False), (unk, None)]
        else:
            o = self.expr(value, states, fr)
            out.merge(o, ('exc',))
            groups = [(o['n'], None)]
        if aug:
            pass
        for g, truth in groups:
            for (st, fa), w in g.items():
                cur = [st]
                for t in targets:
                    for tt, vv in _assign_pairs(t, value):
                        nxt = []
                        for c in cur:
                            nxt += self.on_assign(tt, None if aug else vv, c, fr)
                        cur = nxt
                names = set()
                for t in targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            names.add(x.id)
                        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                            names.add('.' + x.attr)
                        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                            b = x.value
                            if isinstance(b, ast.Attribute):
                                names.add('.' + b.attr)
                            elif isinstance(b, ast.Name):
                                names.add(b.id)
                fa2 = self._kill(fa, names)
                if split:
                    nm = names_in(_load(single))
                    sc = fr.uid if not isinstance(single, ast.Attribute) else ''
                    tk = (sc, ('t', ast.dump(_load(single))))
                    nk = (sc, ('none', ast.dump(_load(single))))
                    if isinstance(value, ast.Constant) and value.value is None:
                        fa2 = fa2 | {(nk, True, nm), (tk, False, nm)}
                    elif truth is not None:
                        fa2 = fa2 | {(tk, truth, nm)}
                        if truth:
                            fa2 = fa2 | {(nk, False, nm)}
                    elif isinstance(value, (ast.List, ast.Dict, ast.Tuple, ast.ListComp, ast.Call, ast.JoinedStr)) and \
                            self._nonnull(value, fr):
                        fa2 = fa2 | {(nk, False, nm)}
                for c in cur:
                    out.add('n', (c, fa2), w)
        return out

    def _nonnull(self, v, fr):
        if isinstance(v, ast.Call):
            t = self.p.callees(v, fr.func, fr.cls, binds=fr.binds)
            return bool(t) and all(isinstance(x, ClassInfo) for x in t)
        return True

    def _tested(self, target, fr):
        d = ast.dump(_load(target))
        c = getattr(fr.func, '_tested_cache', None)
        if c is None:
            c = set()
            for e in tests_of(fr.func.node):
                k, _ = test_key(e)
                if k[0] in ('t', 'none'):
                    c.add(k[1])
            for n in own_nodes(fr.func.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    for e in atoms(n.value):
                        k, _ = test_key(e)
                        if k[0] in ('t', 'none') and isinstance(e, ast.Name):
                            c.add(k[1])
            fr.func._tested_cache = c
        return d in c

    def s_Delete(self, s, states, fr):
        out = Out()
        for (st, fa), w in states.items():
            cur = [st]
            for t in s.targets:
                cur = [y for x in cur for y in self.on_del(t, x, fr)]
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    if isinstance(t.value, (ast.Name, ast.Attribute)):
                        fa = self._kill_contents(fa, {t.value.id if isinstance(t.value, ast.Name) else '.' + t.value.attr})
                elif isinstance(t, (ast.Name, ast.Attribute)):
                    fa = self._kill(fa, {t.id if isinstance(t, ast.Name) else '.' + t.attr})
            for c in cur:
                out.add('n', (c, fa), w)
        return out

    def s_If(self, s, states, fr):
        out = Out()
        t, f, exc, _ = self.test(s.test, states, fr)
        out.merge(exc, ('exc',))
        out.merge(self.block(s.body, t, fr))
        if s.orelse:
            out.merge(self.block(s.orelse, f, fr))
        else:
            for k, w in f.items():
                out.add('n', k, w)
        return out

    def s_While(self, s, states, fr):
        out = Out()
        seen = {}
        work = dict(states)
        exits = {}
        while work:
            for k, w in work.items():
                seen.setdefault(k, w)
            t, f, exc, _ = self.test(s.test, work, fr)
            out.merge(exc, ('exc',))
            for k, w in f.items():
                exits.setdefault(k, w)
            o = self.block(s.body, t, fr)
            out.merge(o, ('ret', 'exc'))
            for k, w in o['brk'].items():
                out.add('n', k, w)
            work = {k: w for d in (o['n'], o['cont']) for k, w in d.items() if k not in seen}
        if s.orelse:
            out.merge(self.block(s.orelse, exits, fr))
        else:
            for k, w in exits.items():
                out.add('n', k, w)
        return out

    def s_For(self, s, states, fr):
        out = Out()
        o = self.expr(s.iter, states, fr)
        out.merge(o, ('exc',))
        names = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        nonempty = isinstance(s.iter, (ast.Tuple, ast.List)) and len(s.iter.elts) > 0 or self.loop_nonempty(s, fr)
        start = {}
        for (st, fa), w in o['n'].items():
            start.setdefault((st, self._kill(fa, names)), w)
        seen = {}
        work = dict(start)
        exits = {} if nonempty else dict(o['n'])
        while work:
            for k, w in work.items():
                seen.setdefault(k, w)
            pre = {}
            for (st, fa), w in work.items():
                for st2 in self.on_assign(s.target, None, st, fr):
                    for st3 in self.on_iter(s, st2, fr):
                        pre.setdefault((st3, fa), w)
            b = self.block(s.body, pre, fr)
            out.merge(b, ('ret', 'exc'))
            for k, w in b['brk'].items():
                out.add('n', k, w)
            nxt = {}
            for d in (b['n'], b['cont']):
                for (st, fa), w in d.items():
                    k = (st, self._kill(fa, names))
                    exits.setdefault(k, w)
                    if k not in seen:
                        nxt.setdefault(k, w)
            if self.track_exc and self.iter_raises(s, fr):
                for (st, fa), w in list(work.items()):
                    for rk in self.raise_kinds:
                        out.add('exc', (st, fa, rk), s.lineno)
            work = nxt
        if s.orelse:
            out.merge(self.block(s.orelse, exits, fr))
        else:
            for k, w in exits.items():
                out.add('n', k, w)
        return out
    s_AsyncFor = s_For

    def on_iter(self, s, st, fr):
        return [st]

    def loop_nonempty(self, s, fr):
        """may the path on which the loop is not entered be ignored?"""
        return False

    def iter_raises(self, s, fr):
        return False

    def s_Break(self, s, states, fr):
        o = Out()
        for k, w in states.items():
            o.add('brk', k, w)
        return o

    def s_Continue(self, s, states, fr):
        o = Out()
        for k, w in states.items():
            o.add('cont', k, w)
        return o

    def s_Assert(self, s, states, fr):
        out = Out()
        t, f, exc, _ = self.test(s.test, states, fr)
        out.merge(exc, ('exc',))
        # a failing assertion is a bug elsewhere; its path is not followed
        for k, w in t.items():
            out.add('n', k, w)
        return out

    def exc_kind(self, e, fr):
        if e is None:
            return None
        t = e.func if isinstance(e, ast.Call) else e
        r = self.p.resolve_global(t, fr.func.module, fr.func.cls) if dotted(t) else None
        if isinstance(r, ClassInfo):
            return r
        if isinstance(r, str) and isinstance(getattr(builtins, r, None), type):
            return r
        if isinstance(t, ast.Name) and isinstance(getattr(builtins, t.id, None), type):
            return t.id
        return None

    def s_Raise(self, s, states, fr):
        out = Out()
        cur = states
        if s.exc is not None:
            if isinstance(s.exc, ast.Call):
                for a in list(s.exc.args) + [k.value for k in s.exc.keywords]:
                    o = self.expr(a, cur, fr)
                    out.merge(o, ('exc',))
                    cur = o['n']
        for (st, fa), w in cur.items():
            for st2 in self.on_raise(s, st, fr):
                if s.exc is None:
                    # re-raise current
                    kinds = [k[1] for k in fa if k[0] == ('$exc',)] or list(self.raise_kinds)
                    for k in kinds:
                        out.add('exc', (st2, fa, k), s.lineno)
                else:
                    k = self.exc_kind(s.exc, fr)
                    if k is None:
                        nm = s.exc.id if isinstance(s.exc, ast.Name) else None
                        ks = [x[1] for x in fa if x[0] == ('$exc',)] if nm else []
                        ks = ks or list(self.raise_kinds)
                    else:
                        ks = [k]
                    for k in ks:
                        out.add('exc', (st2, fa, k), s.lineno)
        return out

    def _is_exception(self, k):
        """True if exception kind k is definitely an Exception subclass, False if definitely not."""
        if k == 'E':
            return True
        if k == 'B':
            return False
        if isinstance(k, ClassInfo):
            for b in k.mro():
                if isinstance(b, str):
                    c = getattr(builtins, b, None)
                    if isinstance(c, type) and issubclass(c, BaseException):
                        return issubclass(c, Exception)
            return True
        c = getattr(builtins, k, None)
        return not (isinstance(c, type) and not issubclass(c, Exception))

    def catches(self, htype, k, fr):
        """'yes' / 'no' / 'maybe'"""
        if htype is None:
            return 'yes'
        ts = htype.elts if isinstance(htype, ast.Tuple) else [htype]
        res = 'no'
        for t in ts:
            r = self.exc_kind(t, fr)
            if r is None:
                d = dotted(t)
                x = self.p.resolve_global(t, fr.func.module, fr.func.cls) if d else None
                r = x if isinstance(x, str) else None
            c = self._catch1(r, k)
            if c == 'yes':
                return 'yes'
            if c == 'maybe':
                res = 'maybe'
        return res

    def _catch1(self, r, k):
        if r == 'BaseException':
            return 'yes'
        if r == 'Exception':
            return 'yes' if self._is_exception(k) else 'no'
        if r is None:
            return 'maybe'
        if isinstance(k, ClassInfo):
            if isinstance(r, ClassInfo):
                return 'yes' if k.derives(r) else 'no'
            if isinstance(r, str):
                return 'yes' if r in k.mro() else 'no'
        if k in ('E', 'B'):
            rexc = self._is_exception(r) if not (isinstance(r, str) and getattr(builtins, r, None) is None) else True
            return 'maybe' if rexc == (k == 'E') else 'no'
        if isinstance(r, ClassInfo):
            return 'no'
        a, b = getattr(builtins, r, None), getattr(builtins, k, None)
        if isinstance(a, type) and isinstance(b, type):
            return 'yes' if issubclass(b, a) else 'no'
        return 'maybe'

    def s_Try(self, s, states, fr):
        inner = Out()
        b = self.block(s.body, states, fr)
        inner.merge(b, ('ret', 'brk', 'cont'))
        if s.orelse:
            o = self.block(s.orelse, b['n'], fr)
            inner.merge(o)
        else:
            inner.merge(b, ('n',))
        for (st, fa, k), w in b['exc'].items():
            pending = [k]
            done = False
            for h in s.handlers:
                c = self.catches(h.type, k, fr)
                if c == 'no':
                    continue
                ko = k
                if c == 'maybe' or h.type is not None:
                    # narrow
                    hk = self.exc_kind(h.type, fr) if h.type is not None and not isinstance(h.type, ast.Tuple) else None
                    if k in ('E', 'B') and hk is not None and hk not in ('Exception', 'BaseException'):
                        ko = hk
                old = [x for x in fa if x[0] == ('$exc',)]
                fa2 = (fa - frozenset(old)) | {(('$exc',), ko, frozenset())}
                for st2 in self.on_catch(h, k, st, fr):
                    ho = self.block(h.body, {(st2, fa2): w}, fr)
                    for kind in ('n', 'ret', 'brk', 'cont', 'exc'):
                        for key, ww in ho[kind].items():
                            f3 = frozenset(x for x in key[1] if x[0] != ('$exc',)) | frozenset(old)
                            inner.add(kind, (key[0], f3) + tuple(key[2:]), ww)
                if c == 'yes':
                    done = True
                    break
            if not done:
                inner.add('exc', (st, fa, k), w)
        if not s.finalbody:
            return inner
        out = Out()
        for kind in ('n', 'ret', 'brk', 'cont', 'exc'):
            groups = {}
            for key, w in inner[kind].items():
                groups.setdefault(tuple(key[2:]), {}).setdefault((key[0], key[1]), w)
            for rest, sts in groups.items():
                fo = self.block(s.finalbody, sts, fr)
                for key, w in fo['n'].items():
                    out.add(kind, key + rest, w)
                out.merge(fo, ('ret', 'brk', 'cont', 'exc'))
        return out
    s_TryStar = s_Try

    def on_catch(self, handler, kind, st, fr):
        return [st]

    def s_With(self, s, states, fr):
        return self._with(s.items, s.body, states, fr, s)
    s_AsyncWith = s_With

    def _with(self, items, body, states, fr, s):
        if not items:
            return self.block(body, states, fr)
        it = items[0]
        out = Out()
        e = it.context_expr
        targets = self.p.callees(e, fr.func, fr.cls, binds=fr.binds) if isinstance(e, ast.Call) else []
        cm = None
        for t in targets:
            if isinstance(t, FuncInfo) and t.is_contextmanager:
                cm = t
        if cm is not None and not self._recursive(cm) and fr.depth < self.max_depth:
            return self._with_generator(cm, it, items, body, states, fr, s, out)
        pre_states = {}
        hooked = {}
        for (st, fa), w in states.items():
            r = self.on_with(e, 'enter', st, fr, targets)
            if r is not None:
                for x in r:
                    hooked.setdefault((x, fa), w)
            else:
                pre_states[(st, fa)] = w
        ishook = bool(hooked)
        cur = dict(hooked)
        if pre_states:
            o = self.expr(e, pre_states, fr)
            out.merge(o, ('exc',))
            cur.update(o['n'])
        classes = self.p.infer(e, fr.func, fr.cls, binds=fr.binds)
        if not ishook:
            for c in sorted(classes, key=lambda c: c.qualname):
                f = c.find('__enter__')
                if f is not None:
                    nx = {}
                    o = self._inline_many([f], None, cur, fr, c)
                    out.merge(o, ('exc',))
                    for k, w in o['n'].items():
                        nx.setdefault(k, w)
                    cur = nx
                    break
        if it.optional_vars is not None:
            nx = {}
            for (st, fa), w in cur.items():
                for st2 in self.on_assign(it.optional_vars, e, st, fr):
                    nx.setdefault((st2, fa), w)
            cur = nx
        b = self._with(items[1:], body, cur, fr, s)
        for kind in ('n', 'ret', 'brk', 'cont', 'exc'):
            for key, w in b[kind].items():
                st, fa, rest = key[0], key[1], tuple(key[2:])
                r = self.on_with(e, 'exit', st, fr, targets) if ishook else None
                if r is not None:
                    for x in r:
                        out.add(kind, (x, fa) + rest, w)
                    continue
                done = False
                if not ishook:
                    for c in sorted(classes, key=lambda c: c.qualname):
                        f = c.find('__exit__')
                        if f is not None:
                            o = self._inline_many([f], None, {(st, fa): w}, fr, c)
                            for k2, w2 in o['n'].items():
                                out.add(kind, k2 + rest, w2)
                            out.merge(o, ('exc',))
                            done = True
                            break
                if not done:
                    out.add(kind, key, w)
        return out

    def _with_generator(self, cm, it, items, body, states, fr, s, out):
        binds = self.bind_args(cm, it.context_expr, fr)
        cur = states
        for a in list(it.context_expr.args) + [k.value for k in it.context_expr.keywords]:
            o = self.expr(a, cur, fr)
            out.merge(o, ('exc',))
            cur = o['n']
        kindbox = {}

        def run(kind_wanted):
            res = Out()

            def cb(sts):
                b = self._with(items[1:], body, sts, fr, s)
                r = Out()
                if kind_wanted == 'exc':
                    for key, w in b['exc'].items():
                        r.add('exc', key, w)
                else:
                    for key, w in b[kind_wanted].items():
                        kindbox.setdefault(tuple(key[2:]), None)
                        r.add('n', key[:2], w)
                return r
            f2 = Frame(cm, fr.cls if cm.cls else None, binds, fr)
            f2.yield_cb = cb
            self._stack.append(cm)
            try:
                o = self._exec_func(f2, cur)
            finally:
                self._stack.pop()
            for key, w in o['ret'].items():
                res.add('n', key[:2], w)
            for key, w in o['exc'].items():
                res.add('exc', key, w)
            return res
        for kind in ('n', 'ret', 'brk', 'cont', 'exc'):
            kindbox.clear()
            r = run(kind)
            for key, w in r['exc'].items():
                out.add('exc', key, w)
            if kind != 'exc':
                rests = list(kindbox) or []
                for key, w in r['n'].items():
                    for rest in rests:
                        out.add(kind, key + rest, w)
            else:
                for key, w in r['n'].items():
                    out.add('n', key, w)
        return out

    def s_Match(self, s, states, fr):
        out = Out()
        o = self.expr(s.subject, states, fr)
        out.merge(o, ('exc',))
        cur = o['n']
        wild = False
        for c in s.cases:
            out.merge(self.block(c.body, cur, fr))
            if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                wild = True
        if not wild:
            for k, w in cur.items():
                out.add('n', k, w)
        return out

    # ---------------------------------------------------------------- tests
    def test(self, e, states, fr, force_unknown=False, assign_ctx=False):
        """-> (true states, false states, Out with exc, unknown states [only if force_unknown])"""
        exc = Out()
        t, f, u = {}, {}, {}
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b, x, un = self.test(e.operand, states, fr, force_unknown)
            return b, a, x, un
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = states
            for i, v in enumerate(e.values):
                a, b, x, un = self.test(v, cur, fr, force_unknown)
                exc.merge(x, ('exc',))
                u.update(un)
                if isand:
                    for k, w in b.items():
                        f.setdefault(k, w)
                    cur = dict(a)
                    if i < len(e.values) - 1:
                        for k, w in un.items():
                            cur.setdefault(k, w)
                            f.setdefault(k, w)
                        if un:
                            u = {}
                else:
                    for k, w in a.items():
                        t.setdefault(k, w)
                    cur = dict(b)
                    if i < len(e.values) - 1:
                        for k, w in un.items():
                            cur.setdefault(k, w)
                            t.setdefault(k, w)
                        if un:
                            u = {}
            for k, w in cur.items():
                (t if isand else f).setdefault(k, w)
            return t, f, exc, u
        if isinstance(e, ast.Constant):
            if e.value is None and force_unknown:
                return {}, dict(states), exc, {}
            return (dict(states), {}, exc, {}) if e.value else ({}, dict(states), exc, {})
        if isinstance(e, ast.NamedExpr):
            o = self._assign([e.target], e.value, states, fr, e)
            exc.merge(o, ('exc',))
            return self._atom(ast.copy_location(ast.Name(id=e.target.id, ctx=ast.Load()), e), o['n'], fr, exc, force_unknown)
        if isinstance(e, ast.IfExp):
            a, b, x, _ = self.test(e.test, states, fr)
            exc.merge(x, ('exc',))
            for br, sts in ((e.body, a), (e.orelse, b)):
                if sts:
                    t2, f2, x2, u2 = self.test(br, sts, fr, force_unknown)
                    exc.merge(x2, ('exc',))
                    t.update(t2)
                    f.update(f2)
                    u.update(u2)
            return t, f, exc, u
        if isinstance(e, ast.Call):
            o, targets, inlined = self.call(e, states, fr, want_ret=True)
            exc.merge(o, ('exc',))
            for (st, fa, rv), w in o['ret'].items():
                if rv == 'T':
                    t.setdefault((st, fa), w)
                elif rv in ('F', 'N'):
                    f.setdefault((st, fa), w)
                else:
                    ff = st if inlined else self.on_test_call(e, targets, False, st, fr)
                    tt = st if inlined else self.on_test_call(e, targets, True, st, fr)
                    if force_unknown and ff == st and tt == st:
                        u.setdefault((st, fa), w)
                    else:
                        if tt is not None:
                            t.setdefault((tt, fa), w)
                        if ff is not None:
                            f.setdefault((ff, fa), w)
            if not force_unknown or True:
                # the call's own text as a fact (pure predicates tested twice)
                k, pol = test_key(e)
                if k in fr.multi and not inlined:
                    return self._facts(e, t, f, u, fr, exc, force_unknown)
            return t, f, exc, u
        return self._atom(e, None, fr, exc, force_unknown, states)

    def _facts(self, e, t, f, u, fr, exc, force_unknown):
        key, pol = test_key(e)
        nm = names_in(e)
        k = (self._scope(e, fr), key)
        T, F, U = {}, {}, {}
        for sts, truth in ((t, True), (f, False)):
            for (st, fa), w in sts.items():
                known = [x[1] for x in fa if x[0] == k]
                want = truth == pol
                if known and known[0] != want:
                    continue
                (T if truth else F).setdefault((st, fa | {(k, want, nm)}), w)
        for (st, fa), w in u.items():
            U[(st, fa)] = w
        return T, F, exc, U

    def _scope(self, e, fr):
        """facts about self attributes are shared by frames with the same receiver; locals are per function"""
        loc = any(isinstance(n, ast.Name) and n.id != fr.func.self_name() for n in ast.walk(e))
        return fr.uid if loc else ''

    def _atom(self, e, o, fr, exc, force_unknown, states=None):
        if o is None:
            oo = self.expr(e, states, fr)
            exc.merge(oo, ('exc',))
            o = oo['n']
        t, f, u = {}, {}, {}
        key, pol = test_key(e)
        k = (self._scope(e, fr), key)
        record = key in fr.multi or (isinstance(e, (ast.Name, ast.Attribute, ast.Compare)) and key[0] in ('t', 'none'))
        nm = names_in(e)
        for (st, fa), w in o.items():
            known = [x[1] for x in fa if x[0] == k]
            if known:
                (t if known[0] == pol else f).setdefault((st, fa), w)
                continue
            tt = self.on_test(e, True, st, fr)
            ff = self.on_test(e, False, st, fr)
            if force_unknown and tt == st and ff == st:
                u.setdefault((st, fa), w)
                continue
            rec = key in fr.multi
            if tt is not None:
                t.setdefault((tt, fa | {(k, pol, nm)} if rec else fa), w)
            if ff is not None:
                f.setdefault((ff, fa | {(k, not pol, nm)} if rec else fa), w)
        return t, f, exc, u

    # ---------------------------------------------------------------- expressions
    def expr(self, e, states, fr):
        """evaluate e for its calls; Out n/exc"""
        out = Out()
        if not states:
            return out
        if isinstance(e, ast.Call):
            o, _, _ = self.call(e, states, fr)
            return o
        if isinstance(e, (ast.Lambda, ast.Constant, ast.Name)):
            for k, w in states.items():
                out.add('n', k, w)
            return out
        if isinstance(e, (ast.BoolOp,)):
            t, f, x, u = self.test(e, states, fr)
            out.merge(x, ('exc',))
            for d in (t, f, u):
                for k, w in d.items():
                    out.add('n', k, w)
            return out
        if isinstance(e, ast.IfExp):
            t, f, x, _ = self.test(e.test, states, fr)
            out.merge(x, ('exc',))
            for br, sts in ((e.body, t), (e.orelse, f)):
                o = self.expr(br, sts, fr)
                out.merge(o)
            return out
        if isinstance(e, ast.NamedExpr):
            return self._assign([e.target], e.value, states, fr, e)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            cur = states
            for g in e.generators:
                o = self.expr(g.iter, cur, fr)
                out.merge(o, ('exc',))
                cur = o['n']
            base = dict(cur)
            seen = dict(cur)
            work = dict(cur)
            elts = ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt])
            while work:
                c = work
                for g in e.generators:
                    for i in g.ifs:
                        o = self.expr(i, c, fr)
                        out.merge(o, ('exc',))
                        c = o['n']
                for el in elts:
                    o = self.expr(el, c, fr)
                    out.merge(o, ('exc',))
                    c = o['n']
                work = {k: w for k, w in c.items() if k not in seen}
                seen.update(work)
            for k, w in seen.items():
                out.add('n', k, w)
            return out
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            cur = states
            if e.value is not None:
                o = self.expr(e.value, cur, fr)
                out.merge(o, ('exc',))
                cur = o['n']
            if fr.yield_cb is not None:
                o = fr.yield_cb(cur)
                out.merge(o)
                return out
            nx = {}
            for (st, fa), w in cur.items():
                for s2 in self.on_yield(e, st, fr):
                    nx.setdefault((s2, fa), w)
            for k, w in nx.items():
                out.add('n', k, w)
            return out
        cur = states
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                o = self.expr(c, cur, fr)
                out.merge(o, ('exc',))
                cur = o['n']
            elif isinstance(c, ast.Slice):
                for cc in ast.iter_child_nodes(c):
                    o = self.expr(cc, cur, fr)
                    out.merge(o, ('exc',))
                    cur = o['n']
        cur2 = {}
        for (st, fa), w in cur.items():
            for s2 in self.on_expr(e, st, fr):
                cur2.setdefault((s2, fa), w)
        for k, w in cur2.items():
            out.add('n', k, w)
        return out

    def on_expr(self, e, st, fr):
        return [st]

    def on_yield(self, e, st, fr):
        return [st]

    # ---------------------------------------------------------------- calls
    def bind_args(self, target, call, fr, is_method=None):
        """param -> list of callable targets, or set of ClassInfo types"""
        binds = {}
        if call is None or not isinstance(target, FuncInfo):
            return binds
        params = list(target.params)
        if target.cls is not None and not target.is_static and target.parent is None and params:
            direct = isinstance(call.func, ast.Attribute) and isinstance(
                self.p.resolve_global(call.func.value, fr.func.module) if dotted(call.func.value) else None, ClassInfo) \
                and not target.is_classmethod
            if not direct:
                params = params[1:]
        pairs = []
        for i, a in enumerate(call.args):
            if isinstance(a, ast.Starred):
                break
            if i < len(params):
                pairs.append((params[i], a))
        for k in call.keywords:
            if k.arg:
                pairs.append((k.arg, k.value))
        for name, a in pairs:
            if isinstance(a, ast.Lambda):
                binds[name] = [self.p.lambda_info(a, fr.func)]
            elif isinstance(a, (ast.Name, ast.Attribute)):
                if isinstance(a, ast.Name) and a.id in fr.binds:
                    binds[name] = fr.binds[a.id]
                    continue
                ty = self.p.infer(a, fr.func, fr.cls, binds=fr.binds)
                if ty:
                    binds[name] = ty
                else:
                    ct = [x for x in self.p.callable_targets(a, fr.func, fr.cls, binds=fr.binds)
                          if isinstance(x, (FuncInfo, ClassInfo))]
                    # a method reference: only when it certainly names a function
                    if ct and (isinstance(a, ast.Name) or self._is_method_ref(a, fr)):
                        binds[name] = ct
            else:
                ty = self.p.infer(a, fr.func, fr.cls, binds=fr.binds)
                if ty:
                    binds[name] = ty
        return binds

    def _is_method_ref(self, a, fr):
        base = self.p.infer(a.value, fr.func, fr.cls, binds=fr.binds)
        return any(t.find(a.attr) for t in base) or isinstance(
            self.p.resolve_global(a, fr.func.module), FuncInfo)

    def _recursive(self, target):
        return target in self._stack

    def call(self, e, states, fr, want_ret=False):
        """-> (Out, targets, inlined). With want_ret, results are in out['ret'] as (st, fa, rv)."""
        self.calls_seen += 1
        out = Out()
        cur = states
        # receiver expression and args
        if isinstance(e.func, ast.Attribute):
            o = self.expr(e.func.value, cur, fr)
            out.merge(o, ('exc',))
            cur = o['n']
        elif not isinstance(e.func, ast.Name):
            o = self.expr(e.func, cur, fr)
            out.merge(o, ('exc',))
            cur = o['n']
        for a in e.args:
            o = self.expr(a.value if isinstance(a, ast.Starred) else a, cur, fr)
            out.merge(o, ('exc',))
            cur = o['n']
        for k in e.keywords:
            o = self.expr(k.value, cur, fr)
            out.merge(o, ('exc',))
            cur = o['n']
        targets = self.p.callees(e, fr.func, fr.cls, binds=fr.binds)
        if not targets:
            self.unresolved.setdefault(ast.unparse(e.func)[:60], fr.func.qualname)
        rest = {}
        inlined = False
        if isinstance(e.func, ast.Attribute) and e.func.attr in CONTAINER_MUTATORS and isinstance(e.func.value, (ast.Name, ast.Attribute)) and \
                not any(isinstance(t, FuncInfo) for t in targets):
            b = e.func.value
            changed = {b.id if isinstance(b, ast.Name) else '.' + b.attr}
            nc = {}
            for (st, fa), w in cur.items():
                nc.setdefault((st, self._kill_contents(fa, changed)), w)
            cur = nc

        def add(kind, st, fa, w, rv='?'):
            if kind == 'n':
                if want_ret:
                    out.add('ret', (st, fa, rv), w)
                else:
                    out.add('n', (st, fa), w)
            else:
                out.add('exc', (st, fa, rv), w)
        for (st, fa), w in cur.items():
            r = self.on_call(e, targets, st, fr)
            if r is None:
                rest[(st, fa)] = w
                continue
            for x in r:
                if isinstance(x, tuple) and len(x) == 3 and x[0] == 'exc':
                    add('exc', x[1], fa, e.lineno, x[2])
                elif isinstance(x, tuple) and len(x) == 3 and x[0] == 'rv':
                    add('n', x[1], fa, w, x[2])
                else:
                    add('n', x, fa, w)
        if rest:
            inl = [t for t in targets if isinstance(t, FuncInfo) and not self._recursive(t) and fr.depth < self.max_depth
                   and not t.is_contextmanager and self.inline_ok(t, e, fr)]
            ctor = [t for t in targets if isinstance(t, ClassInfo)]
            for t in ctor:
                i = t.find('__init__')
                if i is not None and not self._recursive(i) and fr.depth < self.max_depth and self.inline_ok(i, e, fr):
                    inl.append(i)
            if inl:
                inlined = True
                for t in inl:
                    o = self._inline(t, e, rest, fr)
                    for (st, fa, rv), w in o['ret'].items():
                        add('n', st, fa, w, rv if len(inl) == 1 and len(targets) == 1 and not ctor else ('?' if rv == '?' or True and len(targets) > 1 else rv))
                    out.merge(o, ('exc',))
                if len(inl) < len(targets):
                    for (st, fa), w in rest.items():
                        add('n', st, fa, w)
            else:
                for (st, fa), w in rest.items():
                    add('n', st, fa, w)
                    if self.track_exc and self.may_raise(e, targets, fr) and not self._pure(e, targets):
                        for rk in self.raise_kinds:
                            add('exc', st, fa, e.lineno, rk)
        return out, targets, inlined

    def _pure(self, e, targets):
        return isinstance(e.func, ast.Name) and e.func.id in PURE_BUILTINS

    def _receiver_cls(self, t, e, fr):
        if t.cls is None:
            return fr.cls if t.parent is not None else None
        if t.parent is not None:
            return fr.cls
        if e is None:
            return t.cls
        if isinstance(e.func, ast.Attribute):
            v = e.func.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                return fr.cls if fr.cls is not None and fr.cls.derives(t.cls) else t.cls
            ty = self.p.infer(v, fr.func, fr.cls, binds=fr.binds)
            ty = [c for c in ty if c.find(t.name) is t]
            if len(ty) == 1:
                return ty[0]
            # Base.method(self, ...) : keep dynamic class
            if e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == fr.func.self_name() and fr.cls is not None \
                    and fr.cls.derives(t.cls):
                return fr.cls
            if isinstance(v, ast.Name) and v.id == fr.func.self_name() and fr.cls is not None and fr.cls.derives(t.cls):
                return fr.cls
        elif fr.cls is not None and fr.cls.derives(t.cls):
            return fr.cls
        return t.cls

    def _inline(self, t, e, states, fr):
        cls = self._receiver_cls(t, e, fr)
        binds = self.bind_args(t, e, fr)
        f2 = Frame(t, cls, binds, fr, site=e)
        if t.parent is not None and t.parent is fr.func:
            b = dict(fr.binds)
            b.update(binds)
            f2.binds = b
        # callee sees: receiver facts only if it is the same object
        same = t.cls is not None and fr.func.cls is not None and cls is fr.cls
        self._stack.append(t)
        try:
            o = self._exec_func(f2, states)
        finally:
            self._stack.pop()
        # drop the callee's local facts
        res = Out()
        for kind in ('ret', 'exc'):
            for key, w in o[kind].items():
                fa = key[1]
                fa2 = frozenset(x for x in fa if x[0] == ('$exc',) or x[0][0] != t.qualname or t is fr.func)
                st = self.on_exit_frame(key[0], f2)
                res.add(kind, (st, fa2) + tuple(key[2:]), w)
        return res

    def on_exit_frame(self, st, fr):
        return st

    def _inline_many(self, fs, e, states, fr, cls):
        out = Out()
        for t in fs:
            if self._recursive(t) or fr.depth >= self.max_depth:
                for k, w in states.items():
                    out.add('n', k, w)
                continue
            f2 = Frame(t, cls, {}, fr)
            self._stack.append(t)
            try:
                o = self._exec_func(f2, states)
            finally:
                self._stack.pop()
            for key, w in o['ret'].items():
                out.add('n', key[:2], w)
            for key, w in o['exc'].items():
                out.add('exc', key, w)
        return out


def _load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    return t


def _assign_pairs(t, v):
    if isinstance(t, (ast.Tuple, ast.List)):
        if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
            for a, b in zip(t.elts, v.elts):
                yield from _assign_pairs(a, b)
        else:
            for a in t.elts:
                yield from _assign_pairs(a, None)
    elif isinstance(t, ast.Starred):
        yield from _assign_pairs(t.value, None)
    else:
        yield t, v
