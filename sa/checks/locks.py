"""J03: locks are released on every path."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate
from ..ops import origin, reach_names

META = {
    'J03': {
        'explanation': 'Every function that acquires or releases a threading lock or condition is executed abstractly along all paths, '
                       'including those on which a call made while the lock is held raises. On each path the lock must have been released '
                       'exactly as often as it was acquired when the function is left; waiting and notifying happen only while '
                       'the lock is held; a lock that is not reentrant is not acquired while held. Functions that only acquire or only '
                       'release are judged together with their callers.',
        'assumptions': ['the methods of lists, dicts and sets, reading the clock, and the operations of the lock itself do not raise'],
    },
}

SAFE_METHODS = {'append', 'remove', 'clear', 'notify', 'notify_all', 'notifyAll', 'acquire', 'release', 'wait', 'time', 'monotonic', 'locked', 'is_alive', 'get', 'keys',
                'values', 'items', 'copy', 'discard', 'add'}
CTORS = {'Lock', 'RLock', 'Condition', 'Semaphore', 'BoundedSemaphore'}


class LockTS(Typestate):
    max_depth = 5

    def __init__(self, p, kinds):
        super().__init__(p)
        self.kinds = kinds          # attribute/local name -> constructor
        self.viol = []
        self.cache = {}

    def relevant(self, t):
        return reach_names(self.p, t, lambda c, f: isinstance(c.func, ast.Attribute) and c.func.attr in ('acquire', 'release'), self.cache)

    def lock_of(self, e, fr):
        names = set()
        for o in origin(self.p, e, fr.func):
            names.add(o.rsplit('.', 1)[-1])
        for n in names:
            if n in self.kinds:
                return n
        return None

    def get(self, st, k):
        return dict(st).get(k, 0)

    def put(self, st, k, n):
        d = dict(st)
        d[k] = n
        return frozenset((a, b) for a, b in d.items() if b)

    def may_raise(self, call, targets, fr):
        f = call.func
        if isinstance(f, ast.Attribute) and f.attr in SAFE_METHODS:
            return False
        if isinstance(f, ast.Name) and f.id in ('list', 'tuple', 'len', 'set', 'dict', 'isinstance', 'type', 'id', 'bool'):
            return False
        return True

    def on_call(self, call, targets, st, fr):
        f = call.func
        if not isinstance(f, ast.Attribute):
            return None
        k = self.lock_of(f.value, fr)
        if k is None:
            return None
        n = self.get(st, k)
        if f.attr == 'acquire':
            if n >= 1 and self.kinds[k] == 'Lock':
                self.viol.append(('reacquire', call, fr, f'{k} is acquired while it is held: it is not reentrant'))
            bounded = any(kw.arg in ('timeout', 'blocking') for kw in call.keywords) or call.args
            st2 = self.put(st, k, min(n + 1, 3))
            if bounded:
                return [('rv', st2, 'T'), ('rv', st, 'F')]
            return [st2]
        if f.attr == 'release':
            if n == 0 and not self.helper_ok:
                self.viol.append(('release-unheld', call, fr, f'{k} is released on a path on which it is not held'))
            return [self.put(st, k, n - 1)]
        if f.attr in ('wait', 'notify', 'notify_all', 'notifyAll', 'wait_for') and self.kinds[k] == 'Condition':
            if n == 0 and not self.helper_ok:
                self.viol.append(('condition', call, fr, f'{k}.{f.attr} is called while {k} is not held'))
            return [st]
        return None

    def on_with(self, e, phase, st, fr, targets):
        if isinstance(e, (ast.Attribute, ast.Name)):
            k = self.lock_of(e, fr)
            if k is not None:
                n = self.get(st, k)
                if phase == 'enter':
                    if n >= 1 and self.kinds[k] == 'Lock':
                        self.viol.append(('reacquire', e, fr, f'{k} is acquired while it is held: it is not reentrant'))
                    return [self.put(st, k, min(n + 1, 3))]
                return [self.put(st, k, n - 1)]
        return None


def check_J03(ctx):
    p = ctx.p
    ctx.rule('released', 'a lock acquired in a function is released on every path out of it, including paths that raise')
    ctx.rule('release-unheld', 'a lock is released only while it is held')
    ctx.rule('reacquire', 'a non-reentrant lock is not acquired while it is held')
    ctx.rule('condition', 'a condition is waited for and notified only while it is held')
    kinds = {}
    for f in p.functions:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                d = (dotted(n.value.func) or '').split('.')
                if d[-1] in CTORS and (len(d) == 1 or d[0] in ('threading', 'mp', 'multiprocessing')):
                    for t in n.targets:
                        nm = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else None
                        if nm:
                            kinds[nm] = 'RLock' if d[-1] == 'RLock' else 'Condition' if d[-1] == 'Condition' else 'Lock' if d[-1] == 'Lock' else 'Sem'
    ctx.count('locks', len(kinds))
    ctx.need('locks', 1)
    work = []
    n = 0
    for f in p.functions:
        if isinstance(f.node, ast.Lambda):
            continue
        ts = LockTS(p, kinds)

        class FR:
            func, cls, binds = f, f.cls, {}
        hit = False
        for c in own_nodes(f.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('acquire', 'release', 'wait', 'notify', 'notify_all', 'notifyAll') and ts.lock_of(c.func.value, FR):
                hit = True
            if isinstance(c, ast.With) and any(isinstance(i.context_expr, (ast.Name, ast.Attribute)) and ts.lock_of(i.context_expr, FR) for i in c.items):
                hit = True
                n += 1
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'acquire' and ts.lock_of(c.func.value, FR):
                n += 1
        if hit:
            work.append(f)
    ctx.count('lock acquisitions', n)
    ctx.need('lock acquisitions', 2)
    done = set()
    while work:
        f = work.pop()
        if f in done:
            continue
        done.add(f)
        callers = [g for g in p.functions if g is not f and g.module is f.module and not isinstance(g.node, ast.Lambda) and any(
            isinstance(c, ast.Call) and f in p.callees(c, g, g.cls) for c in own_nodes(g.node))]
        ts = LockTS(p, kinds)
        ts.helper_ok = bool(callers)
        o = ts.run_function(f, f.cls, frozenset())
        nets = {k[0] for k in o['ret']}
        excs = {k[0] for k in o['exc']}
        bad = False
        helper = callers and len(nets | excs) == 1 and nets and next(iter(nets))
        released_only = callers and any(b < 0 for s in nets | excs for _, b in s) and len(nets | excs) == 1
        notified_only = callers and not any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'acquire' for c in own_nodes(f.node)) \
            and not any(isinstance(c, ast.With) for c in own_nodes(f.node))
        if helper or released_only or notified_only:
            work.extend(callers)
            ctx.ok('released', f.qualname, 'judged with its callers')
            if helper or released_only:
                continue
        else:
            if callers:
                ts = LockTS(p, kinds)
                ts.helper_ok = False
                o = ts.run_function(f, f.cls, frozenset())
            for rule, node, fr, msg in ts.viol:
                bad = True
                ctx.bad(rule, f'{f.qualname}', fr.func, msg, node)
        for (st, fa, rv), line in o['ret'].items():
            for k, b in st:
                if b > 0:
                    bad = True
                    ctx.bad('released', f'{f.qualname}:{k}', f, f'{k} is still held when {f.name} returns at line {line}', line)
        for (st, fa, kind), line in o['exc'].items():
            for k, b in st:
                if b > 0:
                    bad = True
                    ctx.bad('released', f'{f.qualname}:{k}', f, f'{k} is still held when an exception raised at line {line} leaves {f.name}', line)
        if not bad:
            ctx.ok('released', f.qualname, f'{len(o["ret"])} normal and {len(o["exc"])} exceptional exits')
            ctx.count('exits checked', len(o['ret']) + len(o['exc']))


CHECKS = {'J03': check_J03}
MUTANTS = {'J03': [
    ('marcel/op/timer.py', '            self.now = None\n            self.lock.release()\n            self.send(env, now)',
     '            self.now = None\n            self.send(env, now)\n            self.lock.release()', 'timer sends while holding its lock'),
    ('marcel/job.py', '        self.listeners.append(listener)\n        self.waiter.notify()\n        self.waiter.release()',
     '        self.listeners.append(listener)\n        self.waiter.release()\n        self.waiter.notify()', 'notify after release'),
    ('marcel/job.py', '            stop = self.stop\n            listeners = list(self.listeners)\n            self.waiter.release()\n            if stop:\n                return\n',
     '            if self.stop:\n                return\n            listeners = list(self.listeners)\n            self.waiter.release()\n', 'listener stops with its lock held'),
]}
