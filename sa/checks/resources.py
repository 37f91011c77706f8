"""F08: files, connections, pipes and processes are closed."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, AnalysisBroken
from ..engine import Typestate
from ..ops import OpModel, origin

META = {
    'F08': {
        'explanation': 'Every place at which marcel opens a file, database connection or cursor, pipe, temporary file, selector or process '
                       '(and, transitively, every place that obtains one from a function of marcel that returns it, or creates an object '
                       'of marcel that holds one) is enumerated. Each must be the subject of a with statement; or be returned; or be '
                       'released on every path of the function, including exceptional ones; or be held in an attribute whose class has '
                       'a method that releases it on every path, which whoever holds the object must call in turn, up to the cleanup '
                       'of an operator (which F07 shows to be called).',
        'assumptions': ['objects owned by the environment of the shell live as long as the process',
                        'an exception may come from calls that perform input or output, start processes, serialise, or run operators'],
    },
}

FILE = ('close', '__exit__')
EXTERNAL = {
    'open': ('file', FILE), 'io.open': ('file', FILE), 'os.fdopen': ('file', FILE), 'tempfile.NamedTemporaryFile': ('file', FILE),
    'tempfile.TemporaryFile': ('file', FILE), 'gzip.open': ('file', FILE), 'socket.socket': ('socket', FILE), 'builtins.open': ('file', FILE),
    'subprocess.Popen': ('process', ('wait', 'communicate', '__exit__')),
    'psycopg2.connect': ('connection', ('close',)),
    'multiprocessing.Pipe': ('pipe', FILE), 'os.pipe': ('fd', ()),
    'tempfile.mkstemp': ('fd', ()), 'os.open': ('fd', ()),
    'selectors.DefaultSelector': ('selector', FILE), 'tempfile.mkdtemp': ('path', ()),
}
OS_CLOSERS = {'os.close', 'os.fdopen', 'open', 'builtins.open', 'io.open'}
PATH_CLOSERS = {'os.remove', 'os.unlink', 'shutil.rmtree', 'os.rename', 'os.replace', 'shutil.move'}
RISKY_METHODS = {'start', 'read', 'write', 'readline', 'readlines', 'load', 'dump', 'loads', 'dumps', 'send', 'send_error', 'recv', 'execute', 'fetchall', 'run',
                 'open', 'unlink', 'replace', 'rename', 'flush', 'writelines', 'receive', 'call', 'communicate', 'wait', 'join', 'writerow', 'pickle', 'decode',
                 'setup', 'run_pipeline', 'poll', 'check_call', 'check_output', 'query', 'insert', 'commit', 'touch', 'mkdir', 'chmod'}
RISKY_NAMES = {'open', 'eval', 'exec', 'compile', 'next', 'int', 'float'}


class Acq:
    """what calling something yields: a kind of resource and the methods that release it"""

    def __init__(self, kind, releases, subs=()):
        self.kind, self.releases, self.subs = kind, tuple(releases), tuple(subs)


class Model:
    def __init__(self, p, om):
        self.p, self.om = p, om
        self.returning = {}        # FuncInfo -> Acq
        self.classes = {}          # ClassInfo -> Acq: creating one acquires
        self._risky = {}
        self.viol = []
        self.attrs = {}            # (ClassInfo, attr) -> (Acq, func, node)
        self.others = {}
        self.sites = 0
        self.samples = []

    # ---- what is acquired by a call
    def acquires(self, call, f):
        if not isinstance(call, ast.Call):
            return None
        fn = call.func
        name = None
        if isinstance(fn, ast.Name) and fn.id == 'open':
            if not self.p.callees(call, f, f.cls) or self.p.callees(call, f, f.cls) in (['open'], ['builtins.open']):
                return Acq(*EXTERNAL['open'])
        if isinstance(fn, ast.Name) and fn.id == 'iter' and len(call.args) == 1:
            for c in list(self.p.infer(call.args[0], f, f.cls) or []) + tested_types(self.p, call.args[0], f):
                if isinstance(c, ClassInfo):
                    g = c.find('__iter__')
                    if g in self.returning:
                        return self.returning[g]
        targets = [t for t in self.p.callees(call, f, f.cls) if not (isinstance(t, str) and t.startswith('?'))]
        for t in targets:
            if isinstance(t, str):
                for pre in (t, t.replace('mp.', 'multiprocessing.')):
                    if pre in EXTERNAL:
                        a = Acq(*EXTERNAL[pre])
                        if a.kind == 'process':
                            a.subs = tuple(k.arg for k in call.keywords if k.arg in ('stdin', 'stdout', 'stderr')
                                           and (isinstance(k.value, (ast.Attribute, ast.Name)) and ast.unparse(k.value).endswith('PIPE')))
                        return a
            elif isinstance(t, ClassInfo) and t in self.classes:
                return self.classes[t]
            elif isinstance(t, FuncInfo) and t.name == '__init__' and t.cls in self.classes and not (isinstance(fn, ast.Attribute) and fn.attr == '__init__'):
                # the class being instantiated
                return self.classes[t.cls]
            elif isinstance(t, FuncInfo) and t in self.returning:
                return self.returning[t]
        if isinstance(fn, ast.Attribute):
            if not targets and isinstance(fn.value, ast.Name) and fn.value.id == self_of(f) and owner_class(f) is not None:
                for g, v in owner_class(f).all_attr_assigns(fn.attr):
                    for w in alternatives(v) if v is not None else []:
                        r = self.p.resolve_global(w, g.module, g.cls) if isinstance(w, (ast.Name, ast.Attribute)) else None
                        if r in self.classes:
                            return self.classes[r]
            if not targets:
                if fn.attr == 'cursor':
                    return Acq('cursor', FILE)
                if fn.attr == 'open' and (any(k.arg == 'mode' for k in call.keywords) or
                                          isinstance(fn.value, (ast.Name, ast.Attribute)) and ast.unparse(fn.value).lower().endswith('path')):
                    return Acq('file', FILE)
                if fn.attr == 'dup' and ast.unparse(fn) == 'os.dup':
                    return Acq('fd', ())
                cand = [g for g in self.returning if g.name == fn.attr and g.cls is not None]
                if cand and all(g.name == fn.attr for g in self.p.functions if g.cls is not None and g.name == fn.attr and g in self.returning) \
                        and len([g for g in self.p.functions if g.name == fn.attr and g.cls is not None]) == len(cand):
                    return self.returning[cand[0]]
        return None

    # ---- may a call raise
    def risky(self, call, f, depth=0):
        fn = call.func
        nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ''
        ts = self.p.callees(call, f, f.cls)
        repo = [t for t in ts if isinstance(t, FuncInfo)]
        if repo and depth < 3:
            return any(self.func_risky(t, depth + 1) for t in repo)
        if any(isinstance(t, ClassInfo) for t in ts):
            return False
        if isinstance(fn, ast.Attribute):
            root = ast.unparse(fn).split('.')[0]
            if root in ('os', 'shutil', 'subprocess', 'tempfile') and nm not in ('getpid', 'getuid', 'getenv', 'join', 'normpath', 'close') and not ast.unparse(fn).startswith('os.path'):
                return True
            if root in ('sys', 'time', 'threading'):
                return False
            return nm in RISKY_METHODS
        return nm in RISKY_NAMES

    def func_risky(self, t, depth):
        k = t
        if k in self._risky:
            return self._risky[k]
        self._risky[k] = False
        r = False
        for n in own_nodes(t.node):
            if isinstance(n, ast.Raise):
                r = True
            elif isinstance(n, ast.Call) and self.risky(n, t, depth):
                r = True
            if r:
                break
        self._risky[k] = r
        return r

    # ---- build
    def build(self):
        p = self.p
        fs = [f for f in p.functions if not f.module.name.startswith('test')]
        # functions that return what they acquire
        changed = True
        rounds = 0
        while changed and rounds < 6:
            changed = False
            rounds += 1
            for f in fs:
                if f not in self.returning:
                    for a in self.returned(f):
                        self.returning[f] = a
                        changed = True
                        break
            # attributes and the classes that hold them
            for f in fs:
                c = owner_class(f)
                if c is None:
                    continue
                for n in own_nodes(f.node):
                    for attr, call in self.attr_acquisitions(n, f):
                        a = self.acquires(call, f)
                        if f in self.returning and isinstance(n.value, ast.Name):
                            continue            # returned as well: the caller is responsible
                        if a is not None and (c, attr) not in self.attrs:
                            self.attrs[(c, attr)] = (a, f, n)
                            changed = True
                        elif a is not None and a.kind not in [x.kind for x, _, _ in self.others.setdefault((c, attr), [])] + [self.attrs[(c, attr)][0].kind]:
                            # something else that the same attribute may hold
                            self.others[(c, attr)].append((a, f, n))
            for f in fs:
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Call):
                        for i, x in enumerate(n.args):
                            if isinstance(x, ast.Name):
                                a = next((self.acquires(v, f) for v in f.local_assigns().get(x.id, []) if v is not None and self.acquires(v, f)), None)
                                if a is None or not a.releases:
                                    continue
                                for t in self.p.callees(n, f, f.cls):
                                    t = t.find('__init__') if isinstance(t, ClassInfo) else t
                                    s = stores_param(self.p, t, i) if isinstance(t, FuncInfo) and t.name == '__init__' else None
                                    if s and s not in self.attrs:
                                        self.attrs[s] = (a, f, n)
                                        changed = True
            # classes whose instances hold a resource: whoever creates one must release it
            for (c, attr), (a, f, n) in list(self.attrs.items()):
                if c.derives(self.om.AbstractOp) or self.contained(c, attr, a, f):
                    continue
                for k in [c] + [x for x in p.subclasses(c) if x is not c]:
                    rel = self.releasers(k, attr, a)
                    if rel and k not in self.classes:
                        self.classes[k] = Acq(f'{k.name}', rel)
                        changed = True
        return fs

    def returned(self, f):
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
                for v in alternatives(n.value):
                    a = self.acquires(v, f)
                    if a is not None:
                        yield a
                    elif isinstance(v, ast.Name):
                        for x in f.local_assigns().get(v.id, []):
                            a = self.acquires(x, f) if x is not None else None
                            if a is not None:
                                yield a

    def attr_acquisitions(self, n, f):
        """[(attr, acquiring call)] for an assignment to attributes of self"""
        if not isinstance(n, (ast.Assign, ast.AnnAssign)) or n.value is None:
            return
        targets = n.targets if isinstance(n, ast.Assign) else [n.target]
        for t in targets:
            for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == self_of(f):
                    for v in alternatives(n.value):
                        if isinstance(v, ast.Name):
                            for y in f.local_assigns().get(v.id, []):
                                if isinstance(y, ast.Call) and self.acquires(y, f):
                                    yield x.attr, y
                        elif isinstance(v, (ast.List, ast.ListComp, ast.Tuple)):
                            for y in ast.walk(v):
                                if isinstance(y, ast.Call) and self.acquires(y, f):
                                    yield x.attr, y
                        elif isinstance(v, ast.Call):
                            yield x.attr, v

    def releasers(self, c, attr, a):
        """methods of c that release attr on every normal path"""
        key = ('rel', c, attr, a.kind, tuple(a.releases))
        if key in self._risky:
            return self._risky[key]
        self._risky[key] = ()
        out = []
        names = {}
        for k in c.mro():
            if isinstance(k, ClassInfo):
                for m in k.methods.values():
                    names.setdefault(m.name, m)
        for m in names.values():
            if m.name in ('__init__', '__repr__', 'setup') or not touches(self.p, c, m, attr):
                continue
            if self.covers(c, m, attr, a):
                out.append(m.name)
        self._risky[key] = tuple(out)
        return tuple(out)

    def lazy(self, a):
        """methods of a class of the given kind that open something, or None if creating an instance does"""
        out = set()
        for c in self.classes:
            if c.name == a.kind:
                for (k, attr), (aa, g, n) in self.attrs.items():
                    if c.derives(k):
                        if g.name == '__init__':
                            return None
                        out.add(g.name)
        return out

    def contained(self, c, attr, a, f):
        """whatever opens attr releases it before returning"""
        key = ('contained', c, attr)
        if key in self._risky:
            return self._risky[key]
        self._risky[key] = False
        r = False
        if a.kind in self.class_kinds():
            lz = self.lazy(a)
            if lz:
                users = [m for k in c.mro() if isinstance(k, ClassInfo) for m in k.methods.values()
                         if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in lz and
                                any(o.startswith('self.' + attr) for o in origin(self.p, n.func.value, m)) for n in own_nodes(m.node))]
                r = bool(users) and all(self.covers(c, m, attr, a, True, lz) for m in users)
        elif f.cls is not None and c.derives(f.cls) and f.name != '__init__':
            r = self.covers(c, f, attr, a, True)
        self._risky[key] = r
        return r

    def covers(self, c, m, attr, a, exc=False, opens=()):
        ts = ReleaseTS(self, c, attr, a, exc)
        ts.opens = opens
        o = ts.run_function(m, c, frozenset({attr, f'{attr}.*'}) if exc else frozenset())
        need = {attr} | {f'{attr}.{s}' for s in a.subs}

        def done(st):
            return need <= st or f'{attr}.*' in st
        ok = all(done(st) for (st, fa, rv) in o['ret'])
        if exc:
            ok = ok and all(done(st) for (st, fa, k) in o['exc'])
        return ok and ts.released


def owner_class(f):
    while f is not None:
        if f.cls is not None:
            return f.cls
        f = f.parent
    return None


def self_of(f):
    while f is not None:
        if f.cls is not None:
            return f.self_name()
        f = f.parent
    return None


def alternatives(v):
    if isinstance(v, ast.IfExp):
        return alternatives(v.body) + alternatives(v.orelse)
    if isinstance(v, ast.BoolOp):
        return [x for y in v.values for x in alternatives(y)]
    return [v]


def tested_types(p, e, f):
    """classes of which f tests e to be an instance"""
    out = []
    txt = ast.unparse(e)
    for n in own_nodes(f.node):
        k = None
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Call) and ast.unparse(n.left) == f'type({txt})':
            k = n.comparators[0]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2 and ast.unparse(n.args[0]) == txt:
            k = n.args[1]
        if isinstance(k, (ast.Name, ast.Attribute)):
            r = p.resolve_global(k, f.module, f.cls)
            if isinstance(r, ClassInfo):
                out.append(r)
    return out


def touches(p, c, m, attr, depth=0):
    for n in own_nodes(m.node):
        if isinstance(n, ast.Attribute) and n.attr == attr:
            return True
        if isinstance(n, ast.Call) and depth < 3:
            for t in p.callees(n, m, c):
                if isinstance(t, FuncInfo) and t.cls is not None and c.derives(t.cls) and t is not m and touches(p, c, t, attr, depth + 1):
                    return True
    return False


def siblings(c, attr):
    """attributes given a value only together with attr (in the same block)"""
    def blocks(a):
        out = []
        for g, v in c.all_attr_assigns(a):
            if isinstance(v, ast.Constant) and v.value is None:
                continue
            out.append(g)
        return out
    mine = blocks(attr)
    res = set()
    if len(mine) != 1 or mine[0].name == '__init__':
        return res
    for k in c.mro():
        if isinstance(k, ClassInfo):
            for n in {x.attr for m in k.methods.values() for x in own_nodes(m.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}:
                if n != attr and blocks(n) == mine and same_block(mine[0].node, attr, n):
                    res.add(n)
    return res


def same_block(fnode, a, b):
    for n in ast.walk(fnode):
        for body in (getattr(n, 'body', None), getattr(n, 'orelse', None)):
            if isinstance(body, list):
                stored = {x.attr for s in body if isinstance(s, ast.Assign) for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
                if a in stored and b in stored:
                    return True
    return False


class ReleaseTS(Typestate):
    """state: parts of the attribute that have been released; 'attr.*' means it is absent or entirely released"""
    max_depth = 4
    raise_kinds = ('E', 'B')

    def __init__(self, m, c, attr, acq, exc):
        super().__init__(m.p)
        self.m, self.c, self.attr, self.acq = m, c, attr, acq
        self.track_exc = exc
        self.released = False
        self.elems = []
        self.skipped = None
        self.sib = siblings(c, attr)

    def relevant(self, t):
        return t.cls is not None and self.c.derives(t.cls) and t.name != '__init__' and touches(self.p, self.c, t, self.attr)

    def may_raise(self, call, targets, fr):
        return self.m.risky(call, fr.func)

    def parts(self, e, fr):
        out = set()
        for o in origin(self.p, e, fr.func):
            if o.startswith('self.'):
                o = o[5:]
                # getters: self.output() returns self._output
                base = o.split('.')[0].split('[')[0].split('(')[0]
                rest = o[len(base):]
                if base == self.attr:
                    out.add(self.attr + (rest if rest.startswith('.') else ''))
                elif '(' in o and not rest.strip('()'):
                    g = self.c.find(base)
                    if isinstance(g, FuncInfo) and any(isinstance(n, ast.Return) and n.value is not None and ast.unparse(n.value) == 'self.' + self.attr for n in own_nodes(g.node)):
                        out.add(self.attr)
        return out

    opens = ()

    def on_call(self, call, targets, st, fr):
        f = call.func
        if isinstance(f, ast.Attribute) and f.attr in self.opens and any(o.startswith('self.' + self.attr) for o in origin(self.p, f.value, fr.func)):
            st2 = frozenset(x for x in st if not x.startswith(self.attr))
            return [st2, ('exc', st2, 'E'), ('exc', st2, 'B')]
        if isinstance(f, ast.Attribute) and f.attr in self.acq.releases and (self.element(f.value, fr) or isinstance(f.value, ast.Subscript)):
            return [st | {'@elem'}]
        if isinstance(f, ast.Attribute):
            ps = self.parts(f.value, fr)
            rel = self.acq.releases
            if self.attr in ps and (f.attr in rel or f.attr == 'communicate' and self.acq.kind == 'process'):
                self.released = True
                add = {self.attr}
                if f.attr == 'communicate':
                    add |= {f'{self.attr}.{s}' for s in self.acq.subs}
                st2 = st | add
                if f.attr == 'wait' and 'stdin' in self.acq.subs and f'{self.attr}.stdin' not in st:
                    st2 = st        # it may be waiting for input
                return [st2] + ([('exc', st2, 'E'), ('exc', st2, 'B')] if self.track_exc and self.m.risky(call, fr.func) else [])
            for x in ps:
                if x in {f'{self.attr}.{s}' for s in self.acq.subs} and f.attr == 'close':
                    return [st | {x}]
        for t in targets:
            if isinstance(t, FuncInfo) and t not in (fr.func,):
                for i, x in enumerate(call.args):
                    if self.attr in self.parts(x, fr) and releases_param(self.p, t, i, self.acq.releases):
                        self.released = True
                        return [st | {self.attr}]
        if any(isinstance(t, str) and t in OS_CLOSERS | PATH_CLOSERS for t in targets) and any(self.attr in self.parts(x, fr) for x in call.args):
            self.released = True
            return [st | {self.attr}]
        return None

    def absent(self, e, fr):
        for o in origin(self.p, e, fr.func):
            if o.startswith('self.') and (o[5:] == self.attr or o[5:] in self.sib):
                return True
        return False

    def on_test(self, test, truth, st, fr):
        e, none = test, not truth
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            c = test.comparators[0]
            eq = isinstance(test.ops[0], (ast.Is, ast.Eq))
            if isinstance(c, ast.Constant) and c.value is None:
                e, none = test.left, truth if eq else not truth
            elif ast.unparse(c) in ('sys.stdout', 'sys.__stdout__', 'sys.stderr'):
                e, none = test.left, truth if eq else not truth
                if none and self.parts(e, fr):
                    return st | {f'{self.attr}.*', self.attr}
                return st
            else:
                return st
        if none and self.absent(e, fr):
            return st | {f'{self.attr}.*', self.attr}
        if none and (self.element(e, fr) or isinstance(e, ast.Attribute) and self.element(e.value, fr) and
                     any(k.name == self.acq.kind and (e.attr == a or e.attr in siblings(k, a)) for k, a in self.m.attrs)):
            return st | {'@elem'}
        # the value on which it depends whether it is a file of its own
        if none and isinstance(e, ast.Attribute) and e.attr in ('filename',):
            return st | {f'{self.attr}.*', self.attr}
        return st

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute) and target.attr == self.attr and isinstance(target.value, ast.Name) and target.value.id == fr.func.self_name():
            if not (isinstance(value, ast.Constant) and value.value is None):
                return [frozenset(x for x in st if not x.startswith(self.attr))]
        return [st]

    def on_with(self, expr, phase, st, fr, targets):
        if isinstance(expr, (ast.Attribute, ast.Name)) and self.attr in self.parts(expr, fr):
            self.released = True
            return [st if phase == 'enter' else st | {self.attr, f'{self.attr}.*'}]
        return None

    def element(self, e, fr):
        """e, if it is an element of what the attribute holds, or what such an element holds"""
        return bool(self.elems) and isinstance(e, ast.Name) and e.id in self.elems[-1]

    def on_iter(self, s, st, fr):
        if '@it' in st and '@elem' not in st:
            self.skipped = s
        return [(st - {'@elem'}) | {'@it'}]

    def s_For(self, s, states, fr):
        self.elems.append({n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)})
        outer, self.skipped = self.skipped, None
        try:
            o = super().s_For(s, states, fr)
        finally:
            self.elems.pop()
        for key in list(o['n']):
            if '@it' in key[0] and '@elem' not in key[0]:
                self.skipped = s
        every = self.skipped is None
        self.skipped = outer
        for kind in o.d:
            for key in list(o[kind]):
                if isinstance(key[0], frozenset) and key[0] & {'@it', '@elem'}:
                    w = o[kind].pop(key)
                    o.add(kind, (key[0] - {'@it', '@elem'},) + tuple(key[1:]), w)
        it = s.iter
        while True:
            if isinstance(it, ast.BoolOp):
                it = it.values[0]
            elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('list', 'tuple', 'reversed', 'sorted', 'set') and it.args:
                it = it.args[0]
            elif isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('values', 'copy', 'keys', 'items') and not it.args:
                it = it.func.value
            else:
                break
        if self.attr in self.parts(it, fr) and not isinstance(it, ast.Subscript):
            rel = [n for b in s.body for n in ast.walk(b) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self.acq.releases]
            if rel and every and not any(isinstance(n, (ast.Break, ast.Return)) for b in s.body for n in ast.walk(b)):
                self.released = True
                for kind in ('n', 'exc'):
                    for key in list(o[kind]):
                        w = o[kind].pop(key)
                        o.add(kind, (key[0] | {self.attr, f'{self.attr}.*'},) + tuple(key[1:]), w)
        return o


def releases_param(p, t, i, releases):
    ps = [x for x in t.params if x != t.self_name()] if t.cls is not None and not t.is_static else t.params
    if i >= len(ps):
        return False
    for n in own_nodes(t.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in releases:
            if any(o.split('[')[0] == ps[i] for o in origin(p, n.func.value, t)):
                return True
    return False


def stores_param(p, t, i, kw=None):
    """(class, attr) in which t keeps its i'th argument"""
    ps = [x for x in t.params if x != t.self_name()] if t.cls is not None and not t.is_static else list(t.params)
    name = kw if kw else ps[i] if i < len(ps) else None
    if name is None or t.cls is None:
        return None
    for n in own_nodes(t.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == name:
            for x in n.targets:
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == t.self_name():
                    return t.cls, x.attr
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'add') and any(isinstance(a, ast.Name) and a.id == name for a in n.args):
            v = n.func.value
            if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == t.self_name():
                return t.cls, v.attr
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__' and any(isinstance(a, ast.Name) and a.id == name for a in n.args):
            for u in p.callees(n, t, t.cls):
                if isinstance(u, FuncInfo):
                    for j, a in enumerate(n.args):
                        if isinstance(a, ast.Name) and a.id == name:
                            r = stores_param(p, u, j)
                            if r:
                                return r
    return None


class LocalTS(Typestate):
    """state: local names holding something that must be released"""
    raise_kinds = ('E', 'B')
    max_depth = 0

    def __init__(self, m, f, held):
        super().__init__(m.p)
        self.m, self.f = m, f
        self.held = held            # name -> [(Acq, call)]
        self.transfers = []

    def relevant(self, t):
        return False

    def may_raise(self, call, targets, fr):
        return self.m.risky(call, fr.func)

    def release_names(self, n):
        return {r for a, _ in self.held[n] for r in a.releases}

    def s_Assign(self, s, states, fr):
        o = super().s_Assign(s, states, fr)
        names = [n for n, hs in self.held.items() if any(any(x is c for x in alternatives(s.value)) for _, c in hs)
                 and any(isinstance(x, ast.Name) and x.id == n for t in s.targets for x in ast.walk(t))]
        if names:
            for key in list(o['n']):
                w = o['n'].pop(key)
                o.add('n', (key[0] | set(names), key[1]), w)
        return o

    def on_assign(self, target, value, st, fr):
        if isinstance(value, ast.Name) and value.id in st:
            if isinstance(target, ast.Name):
                if target.id != value.id:
                    self.held.setdefault(target.id, []).extend(self.held[value.id])
                    return [st - {value.id} | {target.id}]
            else:
                return [st - {value.id}]
        if value is not None and not isinstance(target, ast.Name):
            # kept as part of something that is kept
            gone = {n.id for v in alternatives(value) for n in ([v] if isinstance(v, ast.Name) else ast.walk(v) if isinstance(v, (ast.Tuple, ast.List, ast.Dict)) else [])
                    if isinstance(n, ast.Name) and n.id in st}
            return [st - gone]
        return [st]

    def on_return(self, node, st, fr):
        v = getattr(node, 'value', None)
        if v is not None:
            st = st - {n.id for n in ast.walk(v) if isinstance(n, ast.Name) and n.id in st and direct(v, n)}
        return [st]

    def on_test(self, test, truth, st, fr):
        e, none = test, not truth
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            e, none = test.left, truth if isinstance(test.ops[0], (ast.Is, ast.Eq)) else not truth
        elif isinstance(test, ast.Compare):
            return st
        if none and isinstance(e, ast.Name) and e.id in st:
            return None
        return st

    def on_with(self, expr, phase, st, fr, targets):
        if isinstance(expr, ast.Name) and expr.id in st:
            return [st if phase == 'enter' else st - {expr.id}]
        if isinstance(expr, ast.Call) and phase == 'enter':
            gone = {n.id for n in expr.args if isinstance(n, ast.Name) and n.id in st}
            if gone and (isinstance(expr.func, ast.Name) and expr.func.id in ('open', 'closing') or ast.unparse(expr.func) in ('os.fdopen', 'contextlib.closing')):
                return [st - gone]
        return None

    def on_call(self, call, targets, st, fr):
        f = call.func
        gone = set()
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in st and f.attr in self.release_names(f.value.id):
            gone.add(f.value.id)
        names = [(i, a.id, None) for i, a in enumerate(call.args) if isinstance(a, ast.Name) and a.id in st]
        names += [(0, k.value.id, k.arg) for k in call.keywords if isinstance(k.value, ast.Name) and k.value.id in st]
        text = ast.unparse(f)
        for i, n, kw in names:
            if text in OS_CLOSERS | PATH_CLOSERS | {'open'} or any(isinstance(t, str) and t in OS_CLOSERS | PATH_CLOSERS for t in targets):
                if any(a.kind in ('fd', 'path') for a, _ in self.held[n]):
                    gone.add(n)
            for t in targets:
                t = t.find('__init__') if isinstance(t, ClassInfo) else t
                if not isinstance(t, FuncInfo):
                    continue
                if any(a.kind == 'path' for a, _ in self.held[n]):
                    gone.add(n)
                if releases_param(self.p, t, i, self.release_names(n)):
                    gone.add(n)
                s = stores_param(self.p, t, i, kw)
                if s:
                    gone.add(n)
                    self.transfers.append((n, s, call))
            if isinstance(f, ast.Attribute) and f.attr in ('append', 'add', 'enter_context', 'put', 'setdefault') and not targets:
                gone.add(n)
            if isinstance(f, ast.Attribute) and f.attr in ('__init__',):
                gone.add(n)
        if gone:
            st2 = st - gone
            return [st2] + ([('exc', st2, 'E'), ('exc', st2, 'B')] if self.m.risky(call, fr.func) else [])
        return None

    def iter_raises(self, s, fr):
        return False


def direct(v, n):
    """n is (part of) the value v itself, not merely used to compute it"""
    if v is n:
        return True
    if isinstance(v, (ast.Tuple, ast.List)):
        return any(direct(x, n) for x in v.elts)
    if isinstance(v, ast.IfExp):
        return direct(v.body, n) or direct(v.orelse, n)
    if isinstance(v, ast.Call):
        return any(direct(a, n) for a in v.args)
    return False


def parents(fnode):
    out = {}
    for n in ast.walk(fnode):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def long_lived(p, om, c):
    """instances belong to the environment of the shell"""
    return c.name in ('Environment', 'EnvironmentScript', 'EnvironmentInteractive', 'EnvironmentAPI', 'Main', 'MainScript', 'MainInteractive', 'MainAPI') or \
        any(k.name == 'Environment' or k.name == 'Main' for k in c.mro() if isinstance(k, ClassInfo))


def check_F08(ctx):
    p = ctx.p
    om = OpModel(p)
    ctx.rule('local', 'what a function opens, it closes on every path, unless it hands it on')
    ctx.rule('held', 'what an object holds is released by a method of its class, on every path of that method')
    ctx.rule('owner', 'whoever holds an object that holds a resource releases it')
    ctx.rule('lost', 'what is opened is not lost')
    m = Model(p, om)
    fs = m.build()
    pm = {}
    listeners = []
    for f in sorted(fs, key=lambda f: f.qualname):
        par = None
        held = {}
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Call):
                continue
            a = m.acquires(n, f)
            if a is None:
                continue
            if par is None:
                par = parents(f.node)
            m.sites += 1
            ctx.count('places where something is opened')
            key = f'{f.qualname}:{ast.unparse(n.func)}'
            x = n
            while isinstance(par.get(x), (ast.IfExp, ast.BoolOp, ast.NamedExpr)):
                x = par[x]
            q = par.get(x)
            if isinstance(q, ast.withitem):
                ctx.ok('local', key)
                continue
            if isinstance(q, (ast.Return, ast.Yield)) or isinstance(q, ast.Lambda):
                ctx.ok('local', key + ':returned')
                continue
            if isinstance(q, ast.Call) and (ast.unparse(q.func).endswith(('closing', 'enter_context'))):
                ctx.ok('local', key)
                continue
            if isinstance(q, ast.Attribute) and q.attr in a.releases:
                ctx.ok('local', key)
                continue
            if isinstance(q, (ast.Assign, ast.AnnAssign)):
                targets = q.targets if isinstance(q, ast.Assign) else [q.target]
                names = []
                attrs = []
                for t in targets:
                    for i, y in enumerate(t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        kind = a
                        if a.kind == 'fd' and isinstance(t, (ast.Tuple, ast.List)) and i == 1 and 'pipe' not in ast.unparse(n.func).lower():
                            kind = Acq('path', ())
                        if isinstance(y, ast.Name):
                            names.append((y.id, kind))
                        elif isinstance(y, ast.Attribute):
                            attrs.append(y)
                        elif isinstance(y, ast.Subscript):
                            attrs.append(y)
                for nm, kind in names:
                    held.setdefault(nm, []).append((kind, n))
                for y in attrs:
                    c = owner_class(f)
                    if not (isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == self_of(f) and c is not None):
                        ctx.ok('local', key + ':stored')
                continue
            if isinstance(q, ast.Subscript):
                ctx.bad('lost', key, f, f'part of what {ast.unparse(n.func)} opens is discarded, and cannot be closed', n)
                continue
            if isinstance(q, ast.Call) and n in q.args:
                ts = p.callees(q, f, f.cls)
                ok = False
                for t in ts:
                    t2 = t.find('__init__') if isinstance(t, ClassInfo) else t
                    if isinstance(t2, FuncInfo):
                        s = stores_param(p, t2, q.args.index(n))
                        if s:
                            listeners.append((s, a, f, n))
                            ok = True
                        elif releases_param(p, t2, q.args.index(n), a.releases):
                            ok = True
                if isinstance(q.func, ast.Attribute) and q.func.attr in ('append', 'add') and isinstance(q.func.value, ast.Attribute):
                    c = owner_class(f)
                    if c is not None:
                        listeners.append(((c, q.func.value.attr), a, f, n))
                    ok = True
                if ok:
                    ctx.ok('local', key + ':stored')
                    continue
            if isinstance(q, (ast.List, ast.Tuple, ast.Set, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.Dict, ast.Starred, ast.keyword)):
                ctx.ok('local', key + ':stored')
                continue
            if a.kind in m.class_kinds() and isinstance(q, ast.Attribute):
                # e.g. PickleFile(...).reader(): opening happens in the method
                ctx.ok('local', key + ':chained')
                continue
            ctx.bad('lost', key, f, f'what {ast.unparse(n.func)} opens is used and then lost, without having been closed', n)
        if held:
            ts = LocalTS(m, f, held)
            o = ts.run_function(f, f.cls, frozenset())
            bad = {}
            for (st, fa, rv), line in o['ret'].items():
                for nm in st:
                    bad.setdefault(nm, 'a path that returns')
            for (st, fa, k), line in o['exc'].items():
                for nm in st:
                    bad.setdefault(nm, 'a path left by an exception')
            for nm, hs in sorted(held.items()):
                what = hs[0][0].kind
                key = f'{f.qualname}:{ast.unparse(hs[0][1].func)}:{what}'
                if nm in bad and not exempt(m, f, hs):
                    ctx.bad('local', key, f, f'the {what} {nm}, obtained from {ast.unparse(hs[0][1].func)}, is not released on {bad[nm]}', hs[0][1])
                else:
                    ctx.ok('local', key)
            for nm, s, call in ts.transfers:
                for a, n in held[nm]:
                    listeners.append((s, a, f, n))
    # attributes
    todo = dict(m.attrs)
    for s, a, f, n in listeners:
        todo.setdefault(s, (a, f, n))
    held = [(s, x) for s, x in todo.items()] + [(s, x) for s, xs in m.others.items() for x in xs]
    for (c, attr), (a, f, n) in sorted(held, key=lambda x: (x[0][0].qualname, x[0][1], x[1][0].kind)):
        if long_lived(p, om, c) or not a.releases:
            continue
        key = f'{c.name}.{attr}'
        ctx.count('attributes that hold something opened')
        coll = (c, attr) not in m.attrs
        rel = m.releasers(c, attr, a)
        if c.derives(om.AbstractOp):
            cl = c.find('cleanup')
            if 'cleanup' in rel or m.contained(c, attr, a, f):
                ctx.ok('held', key)
            else:
                ctx.bad('held', key, f, f'{c.name} opens {attr} ({a.kind}), but its cleanup does not release it on every path', n)
        elif rel:
            ctx.ok('held', key)
        elif m.contained(c, attr, a, f):
            ctx.ok('held', key)
        elif coll and element_released(p, c, attr, a):
            ctx.ok('held', key)
        else:
            ctx.bad('held', key, f, f'{c.name} holds {attr} ({a.kind}), but no method of {c.name} releases it on every path', n)
    # a long-lived holder releases what it held before opening another
    for (c, attr), (a, f, n) in sorted(m.attrs.items(), key=lambda x: (x[0][0].qualname, x[0][1])):
        if c.derives(om.AbstractOp) or f.name.startswith('__'):
            continue
        holders = [g for g in fs if g.cls is not None and long_lived(p, om, g.cls) and any(isinstance(x, ast.Call) and c in constructed(p, x, g) for x in own_nodes(g.node))]
        if not holders:
            continue
        for g in c.methods.values():
            if g.name.startswith('__') or not any(isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store) for x in own_nodes(g.node)):
                continue
            ts = ReplaceTS(m, c, attr, a)
            ts.run_function(g, c, frozenset())
            if ts.lost is not None:
                ctx.bad('lost', f'{c.name}.{attr}:{g.name}', g, f'{g.name} replaces {attr} without closing what it held', ts.lost)
            elif ts.checked:
                ctx.ok('lost', f'{c.name}.{attr}:{g.name}')
    ctx.need('places where something is opened', 15)
    ctx.need('attributes that hold something opened', 5)


def constructed(p, call, g):
    return [t if isinstance(t, ClassInfo) else t.cls for t in p.callees(call, g, g.cls)
            if isinstance(t, ClassInfo) or isinstance(t, FuncInfo) and t.name == '__init__']


class ReplaceTS(ReleaseTS):
    def __init__(self, m, c, attr, a):
        super().__init__(m, c, attr, a, False)
        self.lost = None
        self.checked = 0

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute) and target.attr == self.attr and isinstance(target.value, ast.Name) and target.value.id == fr.func.self_name():
            self.checked += 1
            if self.attr not in st and f'{self.attr}.*' not in st:
                self.lost = target
        return [st]


Model.class_kinds = lambda self: {k.name for k in self.classes}


def exempt(m, f, hs):
    return all(a.kind in m.class_kinds() and not opens_on_creation(m, a) for a, _ in hs)


def opens_on_creation(m, a):
    for c in m.classes:
        if c.name == a.kind:
            for (k, attr), (aa, g, n) in m.attrs.items():
                if c.derives(k) and g.name == '__init__':
                    return True
    return False


def element_released(p, c, attr, a):
    for k in c.mro():
        if isinstance(k, ClassInfo):
            for g in k.methods.values():
                loops = set()
                for n in own_nodes(g.node):
                    if isinstance(n, ast.For):
                        txt = {x for y in ast.walk(n.iter) for x in (origin(p, y, g) if isinstance(y, (ast.Name, ast.Attribute)) else ())}
                        if any(('self.' + attr) in t for t in txt):
                            loops |= {y.id for y in ast.walk(n.target) if isinstance(y, ast.Name)}
                for n in own_nodes(g.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in a.releases and isinstance(n.func.value, ast.Name) and n.func.value.id in loops:
                        return True
    return False


CHECKS = {'F08': check_F08}
MUTANTS = {'F08': [
    ('marcel/op/store.py', "    def cleanup(self):\n        if self.writer is not None:\n            self.writer.close()\n            self.writer = None\n", '', 'store'),
    ('marcel/op/load.py', "        if self.reader is not None:\n            self.reader.close()\n            self.reader = None\n", '        pass\n', 'load'),
    ('marcel/op/sql.py', "            self.connection.close()\n            self.connection = None\n", '            self.connection = None\n', 'sql'),
    ('marcel/op/bash.py', "                self.process.stdout.close()\n                self.process.stderr.close()\n                self.process = None\n", '                self.process = None\n', 'process output'),
    ('marcel/op/bash.py', "            with selectors.DefaultSelector() as selector:\n                self.handle_output(selector)\n", '            self.handle_output(selectors.DefaultSelector())\n', 'selector'),
    ('marcel/op/bash.py', "            try:\n                self.process.stdin.close()\n            except BrokenPipeError:\n                pass\n        while", '            pass\n        while', 'process stdin'),
    ('marcel/op/forkmanager.py', "        finally:\n            for worker in self.workers:\n                worker.close()\n", '        for worker in self.workers:\n            worker.close()\n', 'fork failure'),
    ('marcel/op/forkmanager.py', "            self.reader.close()\n            self.writer.close()\n", '            self.writer.close()\n', 'fork pipe'),
    ('marcel/job.py', "                    to_remove.append(listener)\n                    listener.close()\n", '                    to_remove.append(listener)\n', 'job pipe'),
    ('marcel/runeditor.py', "    fd, tmp_file = tempfile.mkstemp(text=True)\n    try:\n        with open(fd, 'w') as output:", "    _, tmp_file = tempfile.mkstemp(text=True)\n    try:\n        with open(tmp_file, 'w') as output:", 'temporary file'),
    ('marcel/api.py', "    _os.close(fd)\n", '', 'api reservoir'),
    ('marcel/env.py', "        if self.tracefile and self.tracefile is not sys.stdout:\n            self.tracefile.close()\n", '', 'trace file'),
    ('marcel/op/write.py', "        if self.op.filename and self._output is not None:\n            self._output.close()\n", '        pass\n', 'write'),
    ('marcel/op/write.py', "    def cleanup(self):\n        self.writer.close()\n", '', 'write pickle'),
    ('marcel/op/write.py', "    def cleanup(self):\n        self.writer.close()\n", "    def flush(self, env):\n        self.writer.close()\n", 'pickle file closed only at the end of the input'),
    ('marcel/op/read.py', "        with marcel.picklefile.PickleFile(file.path).reader() as input:\n            try:\n", "        input = marcel.picklefile.PickleFile(file.path).reader()\n        if input:\n            try:\n", 'read pickle'),
    ('marcel/picklefile.py', "        self.owner.release(self)\n        if self.file is not None:\n            self.file.close()\n            self.file = None\n", '        self.owner.release(self)\n        self.file = None\n', 'pickle file'),
]}
