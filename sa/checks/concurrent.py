"""F11: output of concurrent producers is complete before end of input is signalled."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate, test_key
from ..ops import OpModel, origin
from ..paths import call_sites

META = {
    'F11': {
        'explanation': 'Every operator that starts a thread, process or subprocess is found by following its methods. Their execution is abstracted to '
                       'which of them are running: none may be when run() ends or, if it was started by run() or receive() and left running, when flush() '
                       'passes on the end of input. The loops that read what such a producer delivers are executed abstractly: they '
                       'end only when the end of the stream was seen, or when nothing was left to read after the producer was found '
                       'to have ended; every item that was read is sent; nothing is read through a buffer that '
                       'select() does not know about; and a producer that has reported the end of its output is not counted again.',
        'assumptions': ['join, wait and communicate return when the thread or process has ended',
                        'a pipe reports the end of the stream after everything written to it was read'],
    },
}

END = ('join', 'wait', 'communicate')
THREAD = ('threading.Thread', 'Thread', 'threading.Timer')
PROC = ('multiprocessing.Process', 'mp.Process', 'subprocess.Popen', 'Popen')


def last(e):
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None


def thread_class(p, c):
    return isinstance(c, ClassInfo) and any(b in THREAD or b.endswith('.Thread') or b.endswith('.Timer') for b in c.ext_bases() if isinstance(b, str))


class Units:
    def __init__(self, p):
        self.p = p
        self._cache = {}
        self._produces = {}

    def created(self, v, f):
        """'thread' | 'process' | 'popen' if expression v creates one"""
        if not isinstance(v, ast.Call):
            return None
        for t in self.p.callees(v, f, f.cls):
            if isinstance(t, str):
                if t in ('subprocess.Popen',) or t.endswith('.Popen'):
                    return 'popen'
                if t.endswith('.Process') and t.split('.')[0] in ('multiprocessing', 'mp'):
                    return 'process'
                if t in THREAD or t.endswith('threading.Thread') or t.endswith('threading.Timer'):
                    return 'thread'
            elif thread_class(self.p, t):
                return 'thread' if self.produces(t) else None
            elif isinstance(t, FuncInfo) and t.name == '__init__' and thread_class(self.p, t.cls):
                return 'thread' if self.produces(t.cls) else None
        d = dotted(v.func) or ''
        if d in ('mp.Process', 'multiprocessing.Process'):
            return 'process'
        if d == 'subprocess.Popen':
            return 'popen'
        return None

    def produces(self, c):
        """does the thread send output (or hand it over)"""
        if c not in self._produces:
            m = c.find('run')
            self._produces[c] = not isinstance(m, FuncInfo) or any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('send', 'send_error', 'put', 'put_nowait', 'append', 'receive_input')
                for g in reach(self.p, m, c) for n in own_nodes(g.node))
        return self._produces[c]

    def kind(self, e, f):
        """kind of unit denoted by e"""
        key = (id(e), f)
        if key in self._cache:
            return self._cache[key]
        self._cache[key] = None
        r = self.created(e, f)
        if r is None and isinstance(e, ast.Name):
            g = f
            while g is not None and r is None:
                for v in g.local_assigns().get(e.id, []):
                    if isinstance(v, ast.AST):
                        r = r or self.created(v, g) or (self.kind(v, g) if isinstance(v, (ast.Attribute, ast.Name)) and v is not e else None)
                g = g.parent
            if r is None and f.self_name() == e.id and thread_class(self.p, f.cls) and self.produces(f.cls):
                r = 'thread'
        if r is None and isinstance(e, ast.Attribute):
            ks = [t for t in self.p.infer(e.value, f, f.cls) if isinstance(t, ClassInfo)]
            if isinstance(e.value, ast.Name) and e.value.id == f.self_name() and f.cls is not None:
                ks = [f.cls] + [k for k in self.p.subclasses(f.cls)]
            if not ks:
                ks = [k for k in self.p.classes if k.module is f.module]
            for k in ks:
                for g, v in k.all_attr_assigns(e.attr):
                    if isinstance(v, ast.AST):
                        r = r or self.created(v, g) or (self.kind(v, g) if isinstance(v, ast.Name) else None)
        if r is None:
            for t in self.p.infer(e, f, f.cls):
                if thread_class(self.p, t) and self.produces(t):
                    r = 'thread'
        self._cache[key] = r
        return r


class RunTS(Typestate):
    """state: frozenset of (unit name, kind, collection) running"""
    max_depth = 7
    track_exc = False

    def __init__(self, p, units, cls, interesting):
        super().__init__(p)
        self.u = units
        self.wcls = cls
        self.interesting = interesting
        self.started = {}
        self.flushed = []
        self.joins_process = set()

    def relevant(self, t):
        return t in self.interesting

    def loop_nonempty(self, s, fr):
        # nothing is running if there is nothing to loop over
        return any(isinstance(n, ast.Call) for b in s.body for n in ast.walk(b))

    def coll(self, e, fr):
        """the collection over which e is iterated, None if e is not a loop variable"""
        f, x = fr, e
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        while f is not None:
            for lp in own_nodes(f.func.node):
                if isinstance(lp, (ast.For, ast.comprehension)) and any(isinstance(t, ast.Name) and t.id == x.id for t in ast.walk(lp.target)):
                    it = lp.iter
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('list', 'tuple', 'reversed', 'enumerate') and it.args:
                        it = it.args[0]
                    while isinstance(it, ast.Name):
                        vs = [v for v in f.func.local_assigns().get(it.id, []) if isinstance(v, ast.AST)]
                        if len(vs) == 1:
                            it = vs[0]
                            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('list', 'tuple') and it.args:
                                it = it.args[0]
                        else:
                            break
                    return ast.unparse(it)
            # self of a method called on a loop variable
            if x.id == f.func.self_name() and f.caller is not None and isinstance(f.site, ast.Call) and isinstance(f.site.func, ast.Attribute):
                y = f.site.func.value
                while isinstance(y, ast.Attribute):
                    y = y.value
                if isinstance(y, ast.Name):
                    x, f = y, f.caller
                    continue
            return None
        return None

    def start(self, e, kind, st, fr, node):
        nm = last(e)
        if nm is None:
            return st
        if nm == fr.func.self_name() and isinstance(fr.site, ast.Call):
            nm = last(fr.site.func.value) if isinstance(fr.site.func, ast.Attribute) else nm
        x = (nm, kind, self.coll(e, fr))
        self.started.setdefault(x, (fr.func, node))
        return st | {x}

    def end(self, e, st, fr):
        nm = last(e)
        c = self.coll(e, fr)
        out = set(st)
        hit = None
        for x in st:
            if x[0] == nm and (x[2] is None or x[2] == c):
                out.discard(x)
                hit = x
        if self.u.kind(e, fr.func) == 'thread':
            # a thread that waits for the process it reads from
            for t in self.p.infer(e, fr.func, fr.func.cls) or []:
                if isinstance(t, ClassInfo) and waits(self.p, t):
                    for x in list(out):
                        if x[1] == 'popen':
                            out.discard(x)
            if hit and not [t for t in self.p.infer(e, fr.func, fr.func.cls) if isinstance(t, ClassInfo)]:
                for k in self.p.classes:
                    if k.module is fr.func.module and thread_class(self.p, k) and waits(self.p, k):
                        out = {x for x in out if x[1] != 'popen'}
        return frozenset(out)

    def on_call(self, call, targets, st, fr):
        fn = call.func
        if isinstance(fn, ast.Attribute):
            if fn.attr == 'start':
                k = self.u.kind(fn.value, fr.func)
                if k in ('thread', 'process'):
                    return [self.start(fn.value, k, st, fr, call)]
            if fn.attr in END and not any(isinstance(t, FuncInfo) for t in targets):
                timed = fn.attr != 'communicate' and (call.args or any(k.arg == 'timeout' for k in call.keywords)) and not (
                    call.args and isinstance(call.args[0], ast.Constant) and call.args[0].value is None)
                if isinstance(fn.value, ast.Constant) or fn.attr == 'join' and self.u.kind(fn.value, fr.func) is None and last(fn.value) not in {x[0] for x in st}:
                    return None
                return [st if timed else self.end(fn.value, st, fr)]
            if fn.attr == 'is_alive':
                return [('rv', st, 'T'), ('rv', self.end(fn.value, st, fr), 'F')]
            if fn.attr in ('recv', 'recv_bytes', 'load', 'loads') and not any(isinstance(t, FuncInfo) for t in targets):
                # what an endless loop of these ends with
                return [st, ('exc', st, 'EOFError')]
            if fn.attr == 'propagate_flush':
                self.flushed.append((st, call, fr))
                return [st]
        return None

    def on_assign(self, target, value, st, fr):
        if isinstance(target, (ast.Attribute, ast.Name)) and isinstance(value, ast.Call) and self.u.created(value, fr.func) == 'popen':
            return [self.start(target, 'popen', st, fr, value)]
        return [st]

    def on_test(self, test, truth, st, fr):
        k, pol = test_key(test)
        e = test
        while isinstance(e, ast.UnaryOp):
            e = e.operand
        l = e.left if isinstance(e, ast.Compare) else e
        nm = last(l)
        names = {x[0] for x in st}
        if nm == 'pid' and isinstance(l, ast.Attribute):
            nm = last(l.value)
        if nm in names:
            if k[0] == 'none' and truth == pol:
                return None
            if k[0] == 't' and truth != pol:
                return None
        return st


def waits(p, c):
    """run() of thread class c waits for the process it reads from"""
    for k in c.mro():
        if isinstance(k, ClassInfo):
            for m in k.methods.values():
                for n in own_nodes(m.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('wait', 'communicate') and not n.args:
                        return True
    return False


def scope(p, om, u):
    """{op class: functions of its methods and helpers that start, end or wait for units}"""
    # functions that directly start
    starts = set()
    for f in p.functions:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr == 'start' and u.kind(n.func.value, f) in ('thread', 'process') or u.created(n, f) == 'popen':
                    starts.add(f)
    return starts


def reach(p, f, cls, depth=0, seen=None):
    """functions of operator modules reached from f"""
    seen = seen if seen is not None else set()
    if f in seen or depth > 8:
        return seen
    seen.add(f)
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call):
            for t in p.callees(n, f, cls if f.cls is not None and cls is not None and cls.derives(f.cls) else f.cls):
                if isinstance(t, ClassInfo):
                    t = t.find('__init__')
                if isinstance(t, FuncInfo) and (t.module.name.startswith('marcel.op.') or t.module is f.module) and t.name not in ('send', 'send_error', 'propagate_flush'):
                    reach(p, t, cls, depth + 1, seen)
    for g in f.nested.values():
        if isinstance(g, FuncInfo):
            reach(p, g, cls, depth + 1, seen)
    return seen


def check_F11(ctx):
    p = ctx.p
    om = OpModel(p)
    u = Units(p)
    ctx.rule('ended', 'what an operator starts has ended before run() ends, or before flush() passes on the end of input')
    ctx.rule('drained', 'reading ends only at the end of the stream, or when nothing is left after the producer has ended')
    ctx.rule('passed', 'everything that is read is sent')
    ctx.rule('buffered', 'what is selected for reading is not read through a buffer')
    ctx.rule('once', 'a producer whose output has ended is not polled again')
    starts = scope(p, om, u)
    inops = set()
    n = 0
    for c in om.concrete:
        fs = set()
        for nm in ('run', 'receive', 'flush'):
            f = c.find(nm)
            if isinstance(f, FuncInfo) and f.cls is not om.Op and f.cls is not om.AbstractOp:
                fs |= reach(p, f, c)
        # helper objects of the operator's module that are called through an attribute
        helpers = [k for k in p.classes if k.module is c.module and k is not c and not k.derives(om.AbstractOp)]
        if not (fs & starts):
            hs = set()
            for k in helpers:
                for m in k.methods.values():
                    if m in starts and any(isinstance(x, ast.Call) and k in [t if isinstance(t, ClassInfo) else t.cls if isinstance(t, FuncInfo) and t.name == '__init__' else None
                                                                                 for t in p.callees(x, g, g.cls)]
                                           for g in c.methods.values() for x in own_nodes(g.node)):
                        hs.add(k)
            if not hs:
                continue
        n += 1
        # every combination of helper: the classes whose instances the attribute may hold
        _operator(ctx, p, om, u, c, fs, starts, helpers)
        inops |= {f for f in p.functions if f.module is c.module} | fs
    ctx.count('operators that start concurrent producers', n)
    ctx.need('operators that start concurrent producers', 2)
    for f in list(inops):
        for g in p.functions:
            if g.module is f.module:
                inops.add(g)
    inops = {f for f in inops if f.module.name.startswith('marcel.op.')}
    _readers(ctx, p, u, inops)
    _buffered(ctx, p, inops)


def _operator(ctx, p, om, u, c, fs, starts, helpers):
    """run, receive, flush of the operator; if it delegates to helper objects, of each helper"""
    cands = []
    run, rec, fl = (c.find(x) for x in ('run', 'receive', 'flush'))
    cands.append((c, run, rec, fl))
    deleg = []
    for k in helpers:
        if thread_class(p, k):
            continue
        ms = {m: k.find(m) for m in ('run', 'receive', 'flush')}
        if any(isinstance(m, FuncInfo) for m in ms.values()) and any(reach(p, m, k) & starts for m in ms.values() if isinstance(m, FuncInfo)):
            deleg.append((k, ms['run'], ms['receive'], ms['flush']))
    # methods of helper objects are analysed for each helper
    own = starts - {m for k, *_ in deleg for m in reach_class(p, k)}
    for k, run, rec, fl in ([x for x in cands if any(isinstance(m, FuncInfo) and reach(p, m, x[0]) & own for m in x[1:])] or []) + deleg:
        inter = set()
        for m in (run, rec, fl):
            if isinstance(m, FuncInfo):
                inter |= reach(p, m, k)
        left = {}
        for nm, m in (('run', run), ('receive', rec)):
            if not isinstance(m, FuncInfo) or m.cls is om.Op or m.cls is om.AbstractOp:
                continue
            ts = RunTS(p, u, k, inter)
            o = ts.run_function(m, k, frozenset())
            for x, w in ts.started.items():
                ctx.count('producers started')
            for (st, fa, rv), l in o['ret'].items():
                for x in st:
                    left.setdefault(x, (m, l))
        if not left:
            ctx.ok('ended', k.qualname, 'before run() ends')
            continue
        handled = set()
        if isinstance(fl, FuncInfo) and fl.cls is not om.Op and fl.cls is not om.AbstractOp:
            ts = RunTS(p, u, k, inter)
            o = ts.run_function(fl, k, frozenset(left))
            ends = [st for (st, fa, rv) in o['ret']]
            at = [st for st, call, fr in ts.flushed]
            handled = {x for x in left if all(x not in st for st in ends) and all(x not in st for st in at)}
        for x, (m, l) in sorted(left.items(), key=lambda y: y[0][0]):
            if x in handled:
                ctx.ok('ended', f'{k.qualname}:{x[0]}', 'in flush()')
            else:
                ctx.bad('ended', f'{k.qualname}:{x[0]}', m, f'{k.name} does not wait for {x[0]}, which it started, before the end of input is passed on: output can follow the end of input, or be lost', l)
    # flush of the operator waits for the helper before passing on
    if deleg:
        fl = c.find('flush')
        if isinstance(fl, FuncInfo) and fl.cls is not om.Op and fl.cls is not om.AbstractOp:
            ts = OrderTS(p, {m for k, *_ in deleg for m in k.methods.values() if m.name == 'flush'})
            ts.run_function(fl, c, False)
            if ts.bad:
                ctx.bad('ended', f'{c.qualname}:order', fl, 'the end of input is passed on before what produces output was waited for', ts.bad[0])
            else:
                ctx.ok('ended', f'{c.qualname}:order')
        else:
            ctx.bad('ended', f'{c.qualname}:order', c, 'the end of input is passed on without waiting for what produces output')


def reach_class(p, k):
    return {m for b in k.mro() if isinstance(b, ClassInfo) for m in b.methods.values()}


class OrderTS(Typestate):
    max_depth = 3
    track_exc = False

    def __init__(self, p, flushes):
        super().__init__(p)
        self.flushes = flushes
        self.bad = []

    def relevant(self, t):
        return False

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute):
            if call.func.attr == 'propagate_flush':
                if not st:
                    self.bad.append(call)
                return [st]
            if call.func.attr == 'flush' and ast.unparse(call.func.value) != 'super()':
                return [True]
        return None

    def on_test(self, test, truth, st, fr):
        # nothing was started
        k, pol = test_key(test)
        if k[0] == 'none' and truth == pol or k[0] == 't' and truth != pol and isinstance(test, ast.Attribute):
            return True
        return st


# ------------------------------------------------------------------------------------------------ readers
READ = ('recv', 'recv_bytes', 'load')


class ReadTS(Typestate):
    """state (pending item, seen eof)"""
    max_depth = 4
    raise_kinds = ('E',)

    def __init__(self, p):
        super().__init__(p)
        self.viol = []
        self.reads = 0
        self.sends = 0

    def relevant(self, t):
        return t.module.name.startswith('marcel.op.') and t.name not in ('__init__', 'cleanup')

    def may_raise(self, call, targets, fr):
        return False

    def is_read(self, call):
        return isinstance(call.func, ast.Attribute) and (call.func.attr in ('recv', 'recv_bytes') or call.func.attr == 'load' and not (
            isinstance(call.func.value, ast.Name) and call.func.value.id in ('dill', 'pickle'))) or \
            isinstance(call.func, ast.Attribute) and call.func.attr == 'load' and isinstance(call.func.value, ast.Name) and call.func.value.id in ('dill', 'pickle')

    def on_call(self, call, targets, st, fr):
        if any(isinstance(t, FuncInfo) for t in targets) and not self.is_read(call):
            nm = call.func.attr if isinstance(call.func, ast.Attribute) else ''
            if nm not in ('send', 'send_error'):
                return None
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'is_alive':
            return [('rv', st, 'T'), ('rv', st, 'F')]
        if self.is_read(call) and not any(isinstance(t, FuncInfo) for t in targets):
            self.reads += 1
            if st[0]:
                self.viol.append(('again', call, fr))
            # the end of the stream, or something that cannot be read
            return [(True, False), ('exc', (st[0], st[1]), 'EOFError'), ('exc', (st[0], st[1]), 'AttributeError')]
        nm = call.func.attr if isinstance(call.func, ast.Attribute) else ''
        if nm in ('send', 'send_error'):
            self.sends += 1
            return [(False, True if st[1] == 'failed' and nm == 'send_error' else st[1])]
        if st[1] == 'failed' and nm in ('fatal_error', 'non_fatal_error'):
            return [(False, True)]
        return None

    def on_catch(self, handler, kind, st, fr):
        if kind == 'EOFError':
            return [(st[0], True)]
        return [(st[0], 'failed')]


class PollTS(Typestate):
    """state: 'none' | 'T' (found to have ended) | 'S' (selected) | 'TS' (selected after it was found to have ended) | 'TSE' (and nothing was there),
    plus 'EOF' when all streams have ended"""
    max_depth = 2
    track_exc = False

    def __init__(self, p):
        super().__init__(p)
        self.selects = 0
        self.tests = 0
        self.vars = set()

    def relevant(self, t):
        return False

    def on_call(self, call, targets, st, fr):
        fn = call.func
        if isinstance(fn, ast.Attribute):
            if fn.attr == 'select':
                self.selects += 1
                return ['TS' if st in ('T', 'TS', 'TSE') else 'S']
            if fn.attr in ('poll', 'is_alive') and not call.args and not call.keywords:
                self.tests += 1
                return ['T']
            if fn.attr == 'get_map':
                return [('rv', st, 'T'), ('rv', 'EOF', 'F')]
        return None

    def on_test(self, test, truth, st, fr):
        k, pol = test_key(test)
        e = test
        while isinstance(e, ast.UnaryOp):
            e = e.operand
        if isinstance(e, ast.Compare) and isinstance(e.left, ast.Call) and isinstance(e.left.func, ast.Name) and e.left.func.id == 'len' and e.left.args:
            e2 = e.left.args[0]
            if isinstance(e2, ast.Name) and e2.id in self.events(fr):
                zero = isinstance(e.ops[0], ast.Eq)
                if (truth == zero) and st == 'TS':
                    return 'TSE'
                return st
        if isinstance(e, ast.Name) and e.id in self.events(fr):
            if truth != pol and st == 'TS':
                return 'TSE'
        return st

    def events(self, fr):
        return {n for n, vs in fr.func.local_assigns().items() for v in vs if isinstance(v, ast.AST) and any(
            isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'select' for x in ast.walk(v))}


def carriers(p, f):
    """methods of objects that split a stream, keeping the incomplete part: classes registered with a selector, and of the module, in which a
    method both uses and replaces an attribute"""
    out = set()
    for k in p.classes:
        if k.module is not f.module or thread_class(p, k):
            continue
        made = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'register' and any(
            isinstance(y, ast.Call) and (dotted(y.func) or '').split('.')[-1] == k.name for a in list(x.args) + [q.value for q in x.keywords] for y in ast.walk(a))
            for g in p.functions if g.module is f.module for x in own_nodes(g.node))
        if not made:
            continue
        carry = set()
        for m in k.methods.values():
            if m.name == '__init__':
                continue
            me = m.self_name()
            st = {x.attr for x in own_nodes(m.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Store)}
            ld = {x.attr for x in own_nodes(m.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Load)}
            carry |= st & ld
        if carry:
            out |= {m for m in k.methods.values() if m.name != '__init__' and any(isinstance(x, ast.Attribute) and x.attr in carry for x in own_nodes(m.node))}
    return out


class ChunkTS(Typestate):
    """state (what was read is not yet handed on, the incomplete parts were asked for since the last select)"""
    max_depth = 2
    track_exc = False

    def __init__(self, p, carry):
        super().__init__(p)
        self.carry = carry
        self.lost = []
        self.cache = {}

    def relevant(self, t):
        return False

    def loop_nonempty(self, s, fr):
        return any(isinstance(n, ast.Call) and self.hands(n, fr.func) for b in s.body for n in ast.walk(b))

    def hands(self, call, f):
        seen = set()

        def r(ts, d):
            for t in ts:
                if isinstance(t, FuncInfo) and t not in seen:
                    seen.add(t)
                    if t in self.carry or d < 4 and any(isinstance(x, ast.Call) and r(self.p.callees(x, t, t.cls), d + 1) for x in own_nodes(t.node)):
                        return True
                    if d < 4 and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in {m.name for m in self.carry} and
                                     isinstance(x.func.value, ast.Attribute) and x.func.value.attr == 'data' for x in own_nodes(t.node)):
                        return True
            return False
        if id(call) not in self.cache:
            self.cache[id(call)] = r(self.p.callees(call, f, f.cls), 0) or isinstance(call.func, ast.Attribute) and call.func.attr in {m.name for m in self.carry} and \
                isinstance(call.func.value, ast.Attribute) and call.func.value.attr == 'data'
        return self.cache[id(call)]

    def on_call(self, call, targets, st, fr):
        fn = call.func
        if isinstance(fn, ast.Attribute) and fn.attr in ('read', 'read1') and call.args and not any(isinstance(t, FuncInfo) for t in targets):
            if st[0]:
                self.lost.append(call)
            return [(True, False)]
        if isinstance(fn, ast.Attribute) and fn.attr == 'select':
            if st[0]:
                self.lost.append(call)
            return [(False, False)]
        if isinstance(fn, ast.Attribute) and fn.attr == 'get_map':
            return [('rv', st, 'T'), ('rv', (st[0], True), 'F')]
        if self.hands(call, fr.func):
            return [(False, True)]
        return None


def _readers(ctx, p, u, inops):
    n = 0
    tops = []
    for f in sorted(inops, key=lambda f: f.qualname):
        direct = [c for c in own_nodes(f.node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in READ and
                  not any(isinstance(t, FuncInfo) for t in p.callees(c, f, f.cls))]
        if not direct:
            continue
        # the function that reads, or the one that calls it and sends
        tops.append(f)
    done = set()
    for f in tops:
        g = f
        hops = 0
        while hops < 3 and not sends(p, g):
            up = {h for c, h in call_sites(p, g) if h in inops}
            if len(up) != 1:
                break
            g = up.pop()
            hops += 1
        if g in done or not sends(p, g):
            continue
        done.add(g)
        ts = ReadTS(p)
        o = ts.run_function(g, g.cls, (False, False))
        if not ts.reads:
            continue
        n += 1
        lost = [l for (st, fa, rv), l in o['ret'].items() if st[0]]
        if ts.viol or lost:
            ctx.bad('passed', g.qualname, g, 'an item that was read is not sent on every path', ts.viol[0][1] if ts.viol else lost[0])
        else:
            ctx.ok('passed', g.qualname)
        # a function that polls one item per call says whether there is more; others read to the end
        loops = [x for x in own_nodes(f.node) if isinstance(x, (ast.While, ast.For)) and any(d in list(ast.walk(x)) for d in
                 [c for c in own_nodes(f.node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in READ])]
        if loops or g is not f and any(isinstance(x, ast.While) for x in own_nodes(g.node)):
            early = [l for (st, fa, rv), l in o['ret'].items() if st[1] in (False, 'failed')]
            if early:
                ctx.bad('drained', g.qualname, g, 'reading can end before the end of the stream', early[0])
            else:
                ctx.ok('drained', g.qualname)
        else:
            early = [l for (st, fa, rv), l in o['ret'].items() if rv in ('F', 'N') and st[1] in (False, 'failed')]
            late = [l for (st, fa, rv), l in o['ret'].items() if rv == 'T' and st[1] is True]
            if early:
                ctx.bad('drained', g.qualname, g, 'the end of the output is reported although the end of the stream was not seen', early[0])
            elif late:
                ctx.bad('drained', g.qualname, g, 'more output is promised after the end of the stream', late[0])
            else:
                ctx.ok('drained', g.qualname)
            _driver(ctx, p, g, inops)
    for f in sorted(inops, key=lambda f: f.qualname):
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'select' for x in own_nodes(f.node)):
            n += 1
            ts = PollTS(p)
            o = ts.run_function(f, f.cls, 'none')
            bad = [l for (st, fa, rv), l in o['ret'].items() if st not in ('TSE', 'EOF')]
            if bad:
                ctx.bad('drained', f.qualname, f, 'reading can end although output is left: the producer has to be found to have ended before looking for output in vain', bad[0])
            else:
                ctx.ok('drained', f.qualname)
            carry = carriers(p, f)
            if carry:
                ts = ChunkTS(p, carry)
                o = ts.run_function(f, f.cls, (False, True))
                left = [l for (st, fa, rv), l in o['ret'].items() if st[0] or not st[1]]
                if ts.lost:
                    ctx.bad('passed', f'{f.qualname}:chunk', f, 'what was read is not handed on on every path: the incomplete part kept from before is lost at the end of the stream', ts.lost[0])
                elif left:
                    ctx.bad('passed', f'{f.qualname}:rest', f, 'reading ends without asking for the incomplete part that was read before', left[0])
                else:
                    ctx.ok('passed', f.qualname)
    ctx.count('readers of concurrent output', n)
    ctx.need('readers of concurrent output', 3)


def sends(p, g):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('send', 'send_error') and len(x.args) >= 2 for x in own_nodes(g.node))


def _driver(ctx, p, consume, inops):
    """the loop that polls all producers"""
    for call, f in call_sites(p, consume):
        if f not in inops:
            continue
        loops = [x for x in own_nodes(f.node) if isinstance(x, ast.While) and call in list(ast.walk(x))]
        if not loops:
            ctx.bad('drained', f'{f.qualname}:loop', f, 'a producer is polled once only', call)
            continue
        lp = loops[0]
        var = last(call.func.value) if isinstance(call.func, ast.Attribute) else None
        # the loop over producers
        it = None
        for x in ast.walk(lp):
            if isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(t, ast.Name) and t.id == var for t in ast.walk(x.target)):
                it = x.iter
        while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('list', 'tuple', 'set', 'sorted', 'reversed') and it.args:
            it = it.args[0]
        if it is None:
            for x in own_nodes(f.node):
                if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and x.target.id == var and lp in list(ast.walk(x)):
                    # each producer is polled to its end in turn
                    it = True
            if it is True:
                ctx.ok('once', f.qualname)
                ctx.ok('drained', f'{f.qualname}:loop')
                continue
        name = ast.unparse(it) if it is not None else None
        reduced = False
        for x in ast.walk(lp):
            if isinstance(x, ast.Assign) and any(ast.unparse(t) == name for t in x.targets):
                reduced = True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('remove', 'pop', 'discard', 'popleft', 'clear') and ast.unparse(x.func.value) == name:
                reduced = True
            if isinstance(x, ast.Delete) and any(name in ast.unparse(t) for t in x.targets):
                reduced = True
            if isinstance(x, ast.AugAssign) and ast.unparse(x.target) == name:
                reduced = True
        guarded = any(isinstance(x, ast.If) and call in list(ast.walk(x)) and any(isinstance(y, ast.Name) and y.id == var for y in ast.walk(x.test)) and
                      call not in list(ast.walk(x.test)) for x in ast.walk(lp)) or any(
            isinstance(x, ast.BoolOp) and call in list(ast.walk(x)) and call is not x.values[0] and call not in list(ast.walk(x.values[0])) for x in ast.walk(lp))
        if not reduced and not guarded:
            ctx.bad('once', f.qualname, f, 'a producer that has reported the end of its output is polled again, and counted again, so that others are abandoned', call)
        else:
            ctx.ok('once', f.qualname)
        # all producers, and until none is left
        if reduced and name and name.isidentifier():
            init = [v for v in f.local_assigns().get(name, []) if isinstance(v, ast.AST) and not any(v in list(ast.walk(lp)) for _ in [0])]
            partial = [v for v in init if any(isinstance(y, ast.Subscript) and isinstance(y.slice, ast.Slice) for y in ast.walk(v))]
            if partial:
                ctx.bad('drained', f'{f.qualname}:all', f, 'not all producers are polled', partial[0])
        gone = dropped_alive(f, lp, call, var)
        if gone is not None:
            ctx.bad('drained', f'{f.qualname}:alive', f, 'a producer is not polled any more because it has ended, although output may be left', gone)
        t = ast.unparse(lp.test)
        if reduced and name and any(isinstance(y, ast.Compare) and name in ast.unparse(y) and not ok_empty(y) for y in ast.walk(lp.test)):
            ctx.bad('drained', f'{f.qualname}:loop', f, f'polling ends (while {t}) although producers are left', lp)
        elif any(isinstance(y, ast.Break) for b in lp.body for y in own_breaks(b)):
            ctx.bad('drained', f'{f.qualname}:loop', f, 'polling is broken off although producers are left', lp) if not break_ok(lp, name) else ctx.ok('drained', f'{f.qualname}:loop')
        else:
            ctx.ok('drained', f'{f.qualname}:loop')


LIVE = ('is_alive', 'exitcode', 'poll', 'returncode')


def dropped_alive(f, lp, call, var):
    """a producer is removed from those polled on a condition that can hold, because of whether its process is alive, while it has more output"""
    def is_consume(e):
        if isinstance(e, ast.Name):
            return any(v is call or isinstance(v, ast.Call) and ast.dump(v) == ast.dump(call) for v in f.local_assigns().get(e.id, []))
        return e is call

    def live(e):
        return any(isinstance(x, ast.Attribute) and x.attr in LIVE for x in ast.walk(e))

    def values(e):
        """possible truth values, given that whatever has been polled has more output"""
        if is_consume(e):
            return {True}
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return {not v for v in values(e.operand)}
        if isinstance(e, ast.BoolOp):
            vs = [values(x) for x in e.values]
            if isinstance(e.op, ast.And):
                return ({False} if any(False in v for v in vs) else set()) | ({True} if all(True in v for v in vs) else set())
            return ({True} if any(True in v for v in vs) else set()) | ({False} if all(False in v for v in vs) else set())
        return {True, False}
    removes = ('remove', 'discard', 'pop', 'popleft')
    for x in ast.walk(lp):
        keep = []
        if isinstance(x, ast.comprehension) and isinstance(x.target, ast.Name) and x.target.id == var:
            keep += [(c, True) for c in x.ifs]
        if isinstance(x, ast.If):
            for body, pol in ((x.body, True), (x.orelse, False)):
                for b in body:
                    for y in ast.walk(b):
                        if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and any(isinstance(a, ast.Name) and a.id == var for a in y.args):
                            if y.func.attr in ('append', 'add'):
                                keep.append((x.test, pol))
                            elif y.func.attr in removes:
                                keep.append((x.test, not pol))
        for test, pol in keep:
            if live(test) and (not pol) in values(test):
                return test
    return None


def own_breaks(b):
    """break statements of the enclosing loop"""
    if isinstance(b, (ast.For, ast.While, ast.FunctionDef)):
        return
    if isinstance(b, ast.Break):
        yield b
    for c in ast.iter_child_nodes(b):
        yield from own_breaks(c)


def break_ok(lp, name):
    """the loop is broken off only if none is left"""
    for x in ast.walk(lp):
        if isinstance(x, ast.If) and any(isinstance(y, ast.Break) for b in x.body for y in own_breaks(b)):
            t = x.test
            e = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else t.left if isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.Eq) else None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('len', 'any') and e.args:
                e = e.args[0]
            if e is None or not name or ast.unparse(e) != name:
                return False
        if isinstance(x, ast.If) and any(isinstance(y, ast.Break) for b in x.orelse for y in own_breaks(b)):
            t = x.test
            if isinstance(t, ast.Compare):
                if not (name in ast.unparse(t) and ok_empty(t)):
                    return False
            elif ast.unparse(t) != name:
                return False
    return True


def ok_empty(c):
    """len(x) > 0, len(x) != 0, 0 < len(x), len(x) >= 1, x != []"""
    op, r, l = c.ops[0], c.comparators[0], c.left
    def const(e, v):
        return isinstance(e, ast.Constant) and e.value == v
    if isinstance(op, (ast.Gt, ast.NotEq)) and (const(r, 0) or isinstance(r, (ast.List, ast.Tuple)) and not r.elts):
        return True
    if isinstance(op, ast.GtE) and const(r, 1):
        return True
    if isinstance(op, (ast.Lt, ast.NotEq)) and const(l, 0):
        return True
    return False


def _buffered(ctx, p, inops):
    n = 0
    for f in sorted(inops, key=lambda f: f.qualname):
        regs = [x for x in own_nodes(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'register' and x.args]
        if not regs:
            continue
        n += 1
        fam = [g for g in inops if g.module is f.module and (g.cls is f.cls or g is f or g.parent is f)]
        bad = None
        for g in fam:
            for x in own_nodes(g.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('readline', 'readlines', 'read', 'read1') and not (
                        isinstance(x.func.value, ast.Name) and x.func.value.id == 'os') and x.func.attr != 'read1':
                    o = set(origin(p, x.func.value, g)) if not isinstance(x.func.value, ast.Attribute) else {ast.unparse(x.func.value)}
                    bad = bad or (g, x)
                if isinstance(x, ast.For) and isinstance(x.iter, (ast.Name, ast.Attribute)) and last(x.iter) in ('stream', 'fileobj', 'stdout', 'stderr'):
                    bad = bad or (g, x)
        if bad:
            ctx.bad('buffered', f.qualname, bad[0], 'a selected stream is read through a buffer: what is buffered is not selected, and is lost if the stream is kept open by another process', bad[1])
        else:
            ctx.ok('buffered', f.qualname)
    ctx.count('uses of selectors', n)


CHECKS = {'F11': check_F11}
B, K, R, S = 'marcel/op/bash.py', 'marcel/op/forkmanager.py', 'marcel/op/remote.py', 'marcel/op/sudo.py'
MUTANTS = {
    'F11': [
        (B, "            self.output_handler.join()\n            self.check_output_handler()", "            self.check_output_handler()", 'flush does not wait'),
        (B, "            self.output_handler.join()\n            self.check_output_handler()", "            self.output_handler.join(5)\n            self.check_output_handler()", 'flush waits a while'),
        (B, "        self.escape.flush(env)\n        self.propagate_flush(env)", "        self.propagate_flush(env)\n        self.escape.flush(env)", 'flush first'),
        (B, "                if not events and terminated:", "                if terminated:", 'events ignored'),
        (B, "            terminated = process.poll() is not None\n            events = sel.select(timeout=0.1)", "            events = sel.select(timeout=0.1)\n            terminated = process.poll() is not None", 'tested too late'),
        (B, "                    chunk = os.read(key.fd, 8192)", "                    chunk = key.fileobj.readline().encode()", 'buffered'),
        (K, "                active = [worker for worker in active if worker.consume_input()]", "                active = [worker for worker in active if worker.consume_input()]\n                if not active[0].process.is_alive():\n                    break", 'broken off'),
        (K, "            while len(active) > 0:", "            while len(active) > 1:", 'last worker abandoned'),
        (K, "            finally:\n", "            finally:\n", ''),
        (K, "        more = True\n        try:\n            if self.reader.poll", "        more = self.process.is_alive()\n        try:\n            if self.reader.poll", 'dead worker not drained'),
        (K, "                    self.op.send_error(self.env, x)\n                else:\n", "                    self.op.send_error(self.env, x)\n                elif x is not None:\n", 'None dropped'),
        (R, "                    x = input.load()\n                    if isinstance(x, marcel.object.error.Error):\n                        self.send_error(env, x)", "                    x = input.load()\n                    if isinstance(x, marcel.object.error.Error):\n                        self.send_error(env, x)\n                        break", 'stops at an error'),
        (R, "            except EOFError as e:\n                pass", "            except Exception as e:\n                pass", 'what cannot be read ends the output silently'),
        (S, "        stdout, stderr = self.process.communicate(input=buffer.getvalue())\n        # Wait for completion (already guaranteed by communicate returning?)\n        self.process.wait()\n", "        self.process.stdin.write(buffer.getvalue())\n        stdout, stderr = self.process.stdout.read(), self.process.stderr.read()\n", 'not waited for'),
    ],
}
MUTANTS['F11'] = [m for m in MUTANTS['F11'] if m[3]]
