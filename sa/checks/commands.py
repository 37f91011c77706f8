"""J05: every command is run once, and none ends the shell."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate, test_key

META = {
    'J05': {
        'explanation': 'The functions that parse and run one command are found (they parse with marcel.parser.Parser and execute a '
                       'marcel.core.Command). On every path through them, each call that parses or runs may fail with an ordinary '
                       'exception or with the exceptions by which commands fail: none may escape, and each must be printed, once it is '
                       'caught. The loops that feed these functions are executed abstractly with the state of the pending input: a '
                       'command that was read is run once, is not run again after it ran or was interrupted, is not replaced before it '
                       'ran, and is carried across a restart that precedes it (only); an interrupt, or a switch of workspaces, does not leave '
                       'the loop. Every line of a script is read (a blank line does not end it) and becomes part of a command. What runs inside the prompt (functions of '
                       'the user, recalling and editing commands) cannot fail.',
        'assumptions': ['an assertion that fails is an ordinary exception',
                        'printing does not fail'],
    },
}

COMMAND_MODULES = ('marcel.parser', 'marcel.core', 'marcel.pipeline', 'marcel.job')


def _control(p):
    m = p.module('marcel.exception')
    out = {}
    for n in ('KillCommandException', 'KillAndResumeException', 'ReconfigureException', 'ExitException', 'KillShellException'):
        out[n] = m.classes.get(n)
        if out[n] is None:
            raise AnalysisBroken(f'no marcel.exception.{n}')
    return out


def prints(p, f, depth=0):
    """does the function print, on its main path?"""
    def block(stmts):
        for s in stmts:
            if isinstance(s, (ast.If, ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
                if isinstance(s, ast.If) and s.orelse and block(s.body) and block(s.orelse):
                    return True
                continue
            if isinstance(s, (ast.With, ast.Try)):
                if block(s.body):
                    return True
                continue
            for n in ast.walk(s):
                if isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Name) and n.func.id == 'print' or dotted(n.func) in ('sys.stderr.write', 'sys.stdout.write'):
                        return True
                    if depth < 3 and any(isinstance(t, FuncInfo) and prints(p, t, depth + 1) for t in p.callees(n, f, f.cls)):
                        return True
        return False
    return block(f.body)


def is_report(p, call, targets, name):
    if name is None:
        return False
    if not any(isinstance(n, ast.Name) and n.id == name for a in list(call.args) + [k.value for k in call.keywords] for n in ast.walk(a)):
        return False
    if isinstance(call.func, ast.Name) and call.func.id == 'print':
        return True
    return any(isinstance(t, FuncInfo) and prints(p, t) for t in targets)


def runners(p):
    """functions that parse and run one command"""
    Parser = p.module('marcel.parser').classes.get('Parser')
    Command = p.module('marcel.core').classes.get('Command')
    if Parser is None or Command is None:
        raise AnalysisBroken('no marcel.parser.Parser or marcel.core.Command')
    out = []
    for f in p.functions:
        if f.module.name != 'marcel.main':
            continue
        parses = makes = False
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                for t in p.callees(n, f, f.cls):
                    if t is Parser.methods.get('parse'):
                        parses = True
                    if t is Command or t is Command.methods.get('__init__'):
                        makes = True
        if parses and makes:
            out.append(f)
    return out


class RunTS(Typestate):
    """one command; state: 'ok' | ('failed', kind name) until it is reported"""
    track_exc = False
    max_depth = 3

    def __init__(self, p, runner, kinds, control):
        super().__init__(p)
        self.runner, self.kinds, self.control = runner, kinds, control
        self.sites = set()
        self.names = {}
        self.methods = set()

    def relevant(self, t):
        return t.module is self.runner.module and t.parent is self.runner

    def on_call(self, call, targets, st, fr):
        if st != 'ok':
            # something failed: is it reported?
            name = self.names.get(st)
            if is_report(self.p, call, targets, name):
                return ['ok']
            return [st] if not any(isinstance(t, FuncInfo) and self.relevant(t) for t in targets) else None
        ts = [t for t in targets if isinstance(t, (FuncInfo, ClassInfo))]
        if any(isinstance(t, FuncInfo) and self.relevant(t) for t in ts):
            return None
        if any(t.module.name in COMMAND_MODULES or (isinstance(t, FuncInfo) and t.cls is not None and self.runner.cls is not None and
                                                   (t.cls is self.runner.cls or t.cls.derives(self.runner.cls))) for t in ts):
            self.sites.add(ast.dump(call))
            return ['ok'] + [('exc', 'ok', k) for k in self.kinds]
        if not targets and isinstance(call.func, ast.Attribute) and call.func.attr in self.methods and isinstance(call.func.value, ast.Name) and \
                call.func.value.id in self.runner.params:
            self.sites.add(ast.dump(call))
            return ['ok'] + [('exc', 'ok', k) for k in self.kinds]
        return None

    def on_catch(self, handler, kind, st, fr):
        k = kind
        if k == 'E' or k is self.control['KillCommandException']:
            s = ('failed', handler.name or '?' + str(k if isinstance(k, str) else k.name))
            self.names[s] = handler.name
            return [s]
        return [st]


class LoopTS(Typestate):
    """the pending command of a loop: 'none' | 'read' | 'ran' | 'maybe' (as carried over, or as offered by someone)"""
    track_exc = False
    max_depth = 3

    def __init__(self, p, f, runners, control, place, readers):
        super().__init__(p)
        self.f, self.runners, self.control, self.place, self.readers = f, runners, control, place, readers
        self.problems = {}
        self.events = set()

    def relevant(self, t):
        return t.parent is self.f

    def here(self, e):
        return ast.unparse(e) == self.place

    def on_test(self, test, truth, st, fr):
        k, pol = test_key(test)
        if isinstance(k, tuple) and k[0] == 'none' and self.place_dump in k[1:]:
            none = truth == pol
            if st == 'maybe':
                return 'none' if none else 'read'
            if (st == 'none') != none:
                return None
        elif ast.dump(test) == self.place_dump:
            if st == 'maybe':
                return 'read' if truth else 'none'
            if st == 'none' and truth:
                return None
        return st

    @property
    def place_dump(self):
        return ast.dump(ast.parse(self.place, mode='eval').body)

    def on_assign(self, target, value, st, fr):
        if not self.here(target):
            return [st]
        if isinstance(value, ast.Constant) and value.value is None:
            self.events.add('cleared')
            if st == 'read' and not fr_in_handler(fr, self.f, target):
                self.problems.setdefault('dropped', (target, 'the command that was read is dropped before it has run'))
            return ['none']
        if st in ('read', 'maybe'):
            self.problems.setdefault('replaced', (target, 'the command that was read is replaced before it has run'))
        if isinstance(value, ast.IfExp):
            return sorted({x for v in (value.body, value.orelse) for x in self.value(v)})
        return self.value(value)

    def value(self, v):
        if isinstance(v, ast.Call) and any(v.func is c or ast.dump(v) == ast.dump(c) for c in self.readers):
            return ['read']
        if isinstance(v, ast.Constant) and v.value is None:
            return ['none']
        return ['maybe']

    def on_call(self, call, targets, st, fr):
        ts = [t for t in targets if isinstance(t, FuncInfo)]
        if any(t in self.runners for t in ts):
            self.events.add('run')
            if st == 'ran':
                self.problems.setdefault('again', (call, 'a command that has run already is run again'))
            return ['ran', ('exc', 'ran', 'KeyboardInterrupt'), ('exc', 'ran', self.control['ReconfigureException'])]
        if any(self.relevant(t) for t in ts):
            return None
        if any(reconfigures(self.p, t, self.control['ReconfigureException']) for t in ts):
            self.events.add('reconfigure')
            if st in ('ran', 'none'):
                # a restart at this point has nothing to carry over, or would run the command again
                self.problems.setdefault('restart', (call, 'marcel may restart here although the pending command has '
                                                           + ('run already: it is run again after the restart' if st == 'ran' else 'not been read')))
            return [st, ('exc', st, self.control['ReconfigureException']), ('exc', st, 'KeyboardInterrupt')]
        if any(ast.dump(call) == ast.dump(c) for c in self.readers):
            if st == 'read':
                self.problems.setdefault('replaced', (call, 'another command is read before the pending one has run'))
            return [st, ('exc', st, 'KeyboardInterrupt'), ('exc', st, 'EOFError')]
        if any(t.module.name == 'marcel.job' for t in ts):
            return [st, ('exc', st, 'KeyboardInterrupt')]
        return None


def leaves(loop, f):
    """handlers of an interrupt that are reached from inside the loop and do not go on with it"""
    out = []
    for t in own_nodes(f.node):
        if not isinstance(t, ast.Try):
            continue
        for h in t.handlers:
            ts = [] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            if not any(dotted(x) == 'KeyboardInterrupt' for x in ts):
                continue
            if any(x is loop for s in t.body for x in ast.walk(s)):
                # the loop is over. Is it entered again?
                if not any(isinstance(l, (ast.While, ast.For)) and l is not loop and any(x is t for x in ast.walk(l)) for l in own_nodes(f.node)) and \
                        not any(isinstance(x, ast.Call) for s in h.body for x in ast.walk(s) if isinstance(x, ast.Call) and
                                isinstance(x.func, ast.Attribute) and x.func.attr == f.name):
                    out.append(h)
            elif any(x is t for x in ast.walk(loop)):
                out += [x for s in h.body for x in ast.walk(s) if isinstance(x, (ast.Break, ast.Return)) and _owner(loop, x) and
                        not any(isinstance(l, (ast.While, ast.For)) and any(y is x for y in ast.walk(l)) for q in h.body for l in ast.walk(q))]
    return out


def fr_in_handler(fr, f, node):
    for n in ast.walk(fr.func.node):
        if isinstance(n, ast.ExceptHandler) and any(x is node for x in ast.walk(n)):
            return True
    return False


def switches(p, f, R):
    """restarts that name a workspace"""
    out = []
    for n in own_nodes(f.node):
        if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call) and dotted(n.exc.func) and \
                p.resolve_global(n.exc.func, f.module, f.cls) is R:
            given = list(n.exc.args) + [k.value for k in n.exc.keywords]
            for v in given:
                if isinstance(v, ast.Attribute) and v.attr == 'workspace' or isinstance(v, ast.Call):
                    out.append(n)
    return out


_rc = {}


def reconfigures(p, f, R):
    key = (id(p), f)
    if key not in _rc:
        _rc[key] = False
        for n in own_nodes(f.node):
            if isinstance(n, ast.Raise) and n.exc is not None:
                t = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                if dotted(t) and p.resolve_global(t, f.module, f.cls) is R:
                    _rc[key] = True
    return _rc[key]


class ForTS(Typestate):
    """state: has the command of this iteration been run? ('out' between iterations)"""
    track_exc = False
    max_depth = 3

    def __init__(self, p, f, loop, runners, control):
        super().__init__(p)
        self.f, self.loop, self.runners, self.control = f, loop, runners, control
        self.problems = {}

    def relevant(self, t):
        return t.parent is self.f

    def on_iter(self, s, st, fr):
        return [('new',)] if s is self.loop else [st]

    def on_call(self, call, targets, st, fr):
        if any(t in self.runners for t in targets):
            if st == ('ran',):
                self.problems.setdefault('again', (call, 'the command is run twice'))
            return [('ran',), ('exc', ('ran',), self.control['ReconfigureException'])]
        return None


class ScriptTS(Typestate):
    """which part of the line being looked at is still to be delivered: state (line: not looked at yet, held: '' | 'held' | 'sent')"""
    track_exc = False
    max_depth = 2

    def __init__(self, p, f, loop, acc):
        super().__init__(p)
        self.f, self.loop, self.acc = f, loop, acc
        self.var = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
        self.problems = {}
        self.yields = 0

    def relevant(self, t):
        return t.parent is self.f

    def on_iter(self, s, st, fr):
        if s is self.loop:
            if st[0]:
                self.problems.setdefault('line', (s, 'a line of the script is passed over'))
            return [(True, st[1])]
        return [st]

    def mentions(self, e, names):
        return any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(e))

    def on_test(self, test, truth, st, fr):
        # a blank line needs no treatment
        line, held = st
        if line and self.mentions(test, self.var) and 'strip' in ast.dump(test) and 'endswith' not in ast.dump(test):
            blank = blank_when(test)
            if blank is not None and blank == truth:
                return (False, held)
        if self.mentions(test, {self.acc}) and not self.mentions(test, self.var):
            empty = blank_when(test)
            if empty is not None:
                if empty == truth and held:
                    return None
                if empty != truth and not held:
                    return None
        return st

    def on_assign(self, target, value, st, fr):
        line, held = st
        if isinstance(target, ast.Name) and target.id == self.acc:
            aug = self.aug(target, fr)
            value = aug.value if aug is not None else value
            keeps = aug is not None or value is not None and self.mentions(value, {self.acc})
            takes = value is not None and self.mentions(value, self.var)
            if held == 'sent' and keeps:
                self.problems.setdefault('again', (target, 'a command that was delivered is part of the next one, too'))
            if held == 'held' and not keeps:
                self.problems.setdefault('held', (target, 'the beginning of a command that continues on the next line is dropped'))
            return [(line and not takes, 'held' if takes else held if keeps else '')]
        return [st]

    def aug(self, target, fr):
        for n in ast.walk(fr.func.node):
            if isinstance(n, ast.AugAssign) and n.target is target:
                return n
        return None

    def on_yield(self, e, st, fr):
        line, held = st
        self.yields += 1
        v = e.value
        if v is not None and self.mentions(v, {self.acc}):
            if held == 'sent':
                self.problems.setdefault('again', (e, 'a command is delivered twice'))
            held = 'sent' if held else ''
        elif held == 'held':
            self.problems.setdefault('held', (e, 'the beginning of a command that continues on the next line is passed over'))
        if v is not None and self.mentions(v, self.var):
            line = False
        return [(line, held)]


def blank_when(test):
    """truth value of the test for the empty string; None: unknown"""
    k, pol = test_key(test)
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        l, r = test.left, test.comparators[0]
        if isinstance(l, ast.Call) and dotted(l.func) == 'len' and isinstance(r, ast.Constant):
            def holds(n):
                return {'Gt': n > r.value, 'Lt': n < r.value, 'Eq': n == r.value, 'NotEq': n != r.value, 'GtE': n >= r.value,
                        'LtE': n <= r.value}.get(type(test.ops[0]).__name__)
            if not isinstance(r.value, int) or any(holds(n) == holds(0) for n in (1, 2, 1000)):
                # does not tell the blank lines from the others
                return None
            return holds(0)
        if isinstance(r, ast.Constant) and r.value == '':
            return {'Eq': True, 'NotEq': False}.get(type(test.ops[0]).__name__)
        return None
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        b = blank_when(test.operand)
        return None if b is None else not b
    if isinstance(test, ast.Call) and dotted(test.func) == 'len':
        return False
    if isinstance(test, ast.Name) or isinstance(test, ast.Call) and isinstance(test.func, ast.Attribute) and test.func.attr in ('strip', 'lstrip', 'rstrip'):
        return False
    return None


class PromptTS(Typestate):
    """what a function that the terminal library calls lets escape"""
    track_exc = False
    max_depth = 6

    def __init__(self, p, roots, kinds, control):
        super().__init__(p)
        self.mods = {f.module for f in roots}
        self.kinds, self.control = kinds, control
        self.user = set()
        self.sites = 0

    def relevant(self, t):
        return t.module in self.mods and not (t.name == '__init__')

    def on_call(self, call, targets, st, fr):
        fn = call.func
        if isinstance(fn, ast.Name) and not targets:
            defs = fr.func.local_assigns().get(fn.id)
            if fn.id in fr.func.params or defs:
                # something the user supplied
                self.user.add(fn.id)
                self.sites += 1
                return [st, ('exc', st, 'E')]
            if fn.id in ('int', 'float') and call.args and not isinstance(call.args[0], ast.Constant):
                self.sites += 1
                return [st, ('exc', st, 'ValueError')]
        if isinstance(fn, ast.Name) and fn.id in ('int', 'float') and call.args and not isinstance(call.args[0], ast.Constant):
            self.sites += 1
            return [st, ('exc', st, 'ValueError')]
        return None


def check_J05(ctx):
    p = ctx.p
    ctl = _control(p)
    EmptyCommand = p.module('marcel.parser').classes.get('EmptyCommand')
    rs = runners(p)
    # wrappers that only pass a command on to a runner are runners too (methods that override and call super())
    ctx.count('functions that run a command', len(rs))
    ctx.need('functions that run a command', 1)

    # ---- survives, reported
    ctx.rule('survives', 'no failure of parsing or running a command leaves the function that runs it')
    ctx.rule('reported', 'every failure that is caught there is printed, on every path')
    kinds = ['E', ctl['KillCommandException'], ctl['KillAndResumeException']] + ([EmptyCommand] if EmptyCommand is not None else [])
    for f in rs:
        ts = RunTS(p, f, kinds, ctl)
        o = ts.run_function(f, f.cls, 'ok')
        ctx.count('calls that parse or run a command', len(ts.sites))
        esc = {}
        for (st, fa, k), line in o['exc'].items():
            if k in kinds:
                esc.setdefault(k if isinstance(k, str) else k.name, line)
        for k in kinds:
            n = k if isinstance(k, str) else k.name
            label = 'any other exception' if n == 'E' else n
            if n in esc:
                ctx.bad('survives', f'{f.qualname}:{n}', f, f'{label} raised by a command escapes from {f.qualname} and ends the shell', esc[n])
            else:
                ctx.ok('survives', f'{f.qualname}:{n}')
        lost = {st: line for (st, fa, rv), line in o['ret'].items() if st != 'ok'}
        for st, line in lost.items():
            ctx.bad('reported', f'{f.qualname}', f, f'a failure of the command is caught in {f.qualname} and not printed on some path', line)
        if not lost:
            ctx.ok('reported', f.qualname)
    ctx.need('calls that parse or run a command', 3)
    jobs(ctx, p, ctl, kinds)

    # ---- loops
    ctx.rule('once', 'a command that was read is run once, then forgotten, whether it ended, failed or was interrupted')
    ctx.rule('interrupt', 'an interrupt does not leave the loop that reads commands')
    ctx.rule('carried', 'a pending command is carried across a restart that precedes it, and dropped when the restart was its effect')
    ctx.rule('rest', 'a script goes on with its next command, also after a command that made marcel restart')
    nloop = 0
    for f in p.functions:
        if f.module.name != 'marcel.main' or f in rs:
            continue
        for loop in [n for n in own_nodes(f.node) if isinstance(n, (ast.While, ast.For))]:
            calls = [n for n in ast.walk(loop) if isinstance(n, ast.Call) and any(t in rs for t in p.callees(n, f, f.cls))]
            inner = [l for l in ast.walk(loop) if l is not loop and isinstance(l, (ast.While, ast.For)) and
                     any(c in ast.walk(l) for c in calls)]
            if not calls or (inner and all(any(c in ast.walk(l) for l in inner) for c in calls)):
                continue
            nloop += 1
            if isinstance(loop, ast.For):
                ts = ForTS(p, f, loop, rs, ctl)
                o = ts.run_function(f, f.cls, ('out',))
                brk = [n for n in ast.walk(loop) if isinstance(n, (ast.Break, ast.Return)) and _owner(loop, n)]
                for n in brk:
                    ctx.bad('rest', f'{f.qualname}', f, f'{f.qualname} leaves the loop over the commands before the last one', n)
                for n in ast.walk(loop.iter):
                    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and not whole_slice(n.slice) or \
                            isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in ('islice', 'takewhile', 'dropwhile', 'filter', 'filterfalse'):
                        brk.append(n)
                        ctx.bad('rest', f'{f.qualname}:part', f, f'{f.qualname} runs some of the commands only', n)
                if not brk:
                    ctx.ok('rest', f.qualname)
                for k, (n, msg) in ts.problems.items():
                    ctx.bad('once', f'{f.qualname}:{k}', f, msg, n)
                if not ts.problems:
                    ctx.ok('once', f.qualname)
                # a script that is run as a whole survives a change of workspace
                if any(isinstance(n, ast.ExceptHandler) for n in ast.walk(f.node)) or f.parent is None and f.cls is None:
                    esc = [line for (st, fa, k), line in o['exc'].items() if k is ctl['ReconfigureException']]
                    if esc:
                        ctx.bad('rest', f'{f.qualname}:restart', f, f'a command that makes marcel restart ends {f.qualname}', esc[0])
                    else:
                        ctx.ok('rest', f'{f.qualname}:restart')
                continue
            arg = calls[0].args[0] if calls[0].args else calls[0].keywords[0].value if calls[0].keywords else None
            if arg is None:
                continue
            place = ast.unparse(arg)
            readers = readers_of(p, f)
            if not readers:
                raise AnalysisBroken(f'{f.qualname}: nothing reads commands')
            ctx.count('places where commands are read', len(readers))
            for c in [n for n in ast.walk(loop) if isinstance(n, ast.Call)]:
                for t in p.callees(c, f, f.cls):
                    if isinstance(t, FuncInfo) and t not in rs and t.module is f.module:
                        for x in switches(p, t, ctl['ReconfigureException']):
                            ctx.bad('carried', f'{t.qualname}:workspace', t, f'{t.qualname} restarts marcel as a command does that switches workspaces: the '
                                    'command that was read, which has not run, is dropped', x)
            ts = LoopTS(p, f, rs, ctl, place, readers)
            o = ts.run_function(f, f.cls, 'maybe')
            for k, (n, msg) in ts.problems.items():
                ctx.bad('carried' if k == 'restart' else 'once', f'{f.qualname}:{k}', f, msg, n)
            if not ts.problems:
                ctx.ok('once', f.qualname)
            offered(ctx, p, f, place, readers)
            esc = [line for (st, fa, k), line in o['exc'].items() if k == 'KeyboardInterrupt']
            esc += leaves(loop, f)
            if esc:
                ctx.bad('interrupt', f.qualname, f, f'an interrupt ends {f.qualname}, and with it the shell', esc[0])
            else:
                ctx.ok('interrupt', f.qualname)
            if place.startswith('self.') and f.cls is not None:
                carried(ctx, p, f.cls, place[5:], ctl)
            ends = sorted(line or 0 for (st, fa, rv), line in o['ret'].items() if st == 'ran')
            if ends and any(isinstance(n, ast.Break) for n in ast.walk(loop)):
                ctx.bad('rest', f.qualname, f, f'{f.qualname} ends after a command', ends[0])
    ctx.count('loops that run commands', nloop)
    ctx.need('loops that run commands', 3)

    script(ctx, p, rs)
    whole(ctx, p)
    prompt(ctx, p, ctl)


def whole_slice(s):
    return s.lower is None and s.upper is None and s.step is None


def jobs(ctx, p, ctl, kinds):
    """what runs a command in the process of a job reports its failure, too"""
    Command = p.module('marcel.core').classes['Command']
    execute = Command.methods.get('execute')
    for f in p.functions:
        if f.module.name != 'marcel.job' or not any(
                isinstance(n, ast.Call) and (execute in p.callees(n, f, f.cls) or isinstance(n.func, ast.Attribute) and n.func.attr == 'execute' and
                                             isinstance(n.func.value, ast.Name) and n.func.value.id in f.params) for n in own_nodes(f.node)):
            continue
        ts = RunTS(p, f, kinds, ctl)
        ts.methods = set(Command.methods)
        o = ts.run_function(f, f.cls, 'ok')
        ctx.count('functions that run a command in a job')
        lost = {st: line for (st, fa, rv), line in o['ret'].items() if st != 'ok'}
        for st, line in lost.items():
            ctx.bad('reported', f'{f.qualname}', f, f'a failure of the command is caught in {f.qualname} and not printed on some path', line)
        if not lost:
            ctx.ok('reported', f.qualname)


STRIP = ('strip', 'rstrip', 'lstrip', 'removesuffix', 'removeprefix', 'split')


def whole(ctx, p):
    """a loop that reads the lines of a script ends at the end of the input, not at a line that is blank"""
    ctx.rule('whole', 'a script is read to its end: not just to its first blank line')
    # what is run as a script
    rs, scripts = set(runners(p)), set()
    mains = [f for f in p.functions if f.module.name == 'marcel.main']
    takes = {f for f in mains if any(isinstance(n, ast.Call) and any(t in rs for t in p.callees(n, f, f.cls)) for n in own_nodes(f.node))}
    for f in mains:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and any(t in takes for t in p.callees(n, f, f.cls)):
                for a in n.args:
                    a = next((v for v in f.local_assigns().get(a.id, []) if isinstance(v, ast.AST)), a) if isinstance(a, ast.Name) else a
                    if isinstance(a, ast.Call):
                        scripts |= {t for t in p.callees(a, f, f.cls) if isinstance(t, FuncInfo)}
    for f in p.functions:
        if f.module.name != 'marcel.main' or isinstance(f.node, ast.Lambda):
            continue
        reads = [n for n in own_nodes(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
                 n.func.attr in ('readline', 'readlines', 'read')]
        over = [n for n in own_nodes(f.node) if isinstance(n, ast.For) and dotted(n.iter) == 'sys.stdin']
        if not reads and not over:
            continue
        bad = None
        for r in reads:
            if r.func.attr != 'readlines' and (r.args or r.keywords):
                bad = (r, 'reads a part of the script only')
        loops = [n for n in own_nodes(f.node) if isinstance(n, ast.While)] + over
        if f in scripts:
            for r in reads:
                if r.func.attr == 'readline' and not any(isinstance(l, (ast.While, ast.For, ast.ListComp, ast.GeneratorExp)) and
                                                         any(x is r for x in ast.walk(l)) for l in ast.walk(f.node)) and \
                        not any(isinstance(c, ast.Call) and dotted(c.func) == 'iter' and any(x is r for x in ast.walk(c)) for c in ast.walk(f.node)):
                    bad = (r, 'reads a single line of a script')
        for loop in loops:
            inside = [r for r in reads if any(x is r for x in ast.walk(loop))]
            if not inside and loop not in over:
                continue
            tests = [loop.test] if isinstance(loop, ast.While) else []
            for n in ast.walk(loop):
                if isinstance(n, ast.If) and any(isinstance(x, (ast.Break, ast.Return)) and _owner(loop, x) for b in (n.body, n.orelse) for s in b for x in ast.walk(s)):
                    tests.append(n.test)
            for t in tests:
                if any(stripped(x, f, loop) for x in ast.walk(t)):
                    bad = (t, 'stops reading a script at a blank line: the commands that follow are not run')
                elif isinstance(loop, ast.For) and t is not None and any(isinstance(x, ast.Constant) and x.value in ('\n', '') for x in ast.walk(t)):
                    bad = (t, 'stops reading a script at a blank line: the commands that follow are not run')
        ctx.count('functions that read scripts')
        if bad:
            ctx.bad('whole', f.qualname, f, f'{f.name} {bad[1]}', bad[0])
        else:
            ctx.ok('whole', f.qualname)


def stripped(e, f, loop, depth=0):
    """does e depend on a text from which white space was removed?"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in STRIP:
        return True
    if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and depth < 3:
        vs = [v for v in f.local_assigns().get(e.id, []) if isinstance(v, ast.AST)]
        return bool(vs) and all(any(stripped(x, f, loop, depth + 1) for x in ast.walk(v)) for v in vs)
    return False


class TakeTS(Typestate):
    """state: is the command that is offered still kept?"""
    track_exc = False
    max_depth = 2

    def __init__(self, p, attrs):
        super().__init__(p)
        self.attrs = attrs

    def relevant(self, t):
        return False

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute) and target.attr in self.attrs:
            return [not (isinstance(value, ast.Constant) and value.value is None)]
        return [st]


def offered(ctx, p, f, place, readers):
    """a command that something else left for the loop is handed over once"""
    for n in own_nodes(f.node):
        if not (isinstance(n, ast.Assign) and any(ast.unparse(t) == place for t in n.targets)):
            continue
        for c in [x for x in ast.walk(n.value) if isinstance(x, ast.Call) and x not in readers]:
            for t in p.callees(c, f, f.cls):
                if not isinstance(t, FuncInfo):
                    continue
                attrs = {a.attr for a in own_nodes(t.node) if isinstance(a, ast.Attribute) and isinstance(a.ctx, ast.Load) and
                         isinstance(a.value, ast.Name) and a.value.id == t.self_name()}
                ts = TakeTS(p, attrs)
                o = ts.run_function(t, t.cls, True)
                ctx.count('functions that hand over a command')
                kept = [line for (st, fa, rv), line in o['ret'].items() if st]
                if kept:
                    ctx.bad('once', f'{t.qualname}', t, f'{t.qualname} keeps the command it hands over: it is run for ever', kept[0])
                else:
                    ctx.ok('once', t.qualname)


def _owner(loop, n):
    """does this break/return leave `loop`?"""
    if isinstance(n, ast.Return):
        for x in ast.walk(loop):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and any(y is n for y in ast.walk(x)):
                return False
        return True
    for x in ast.walk(loop):
        if x is not loop and isinstance(x, (ast.For, ast.While)) and any(y is n for s in x.body for y in ast.walk(s)):
            return False
    return True


def readers_of(p, f):
    out = []
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id == 'input':
                out.append(n)
            elif any(isinstance(t, FuncInfo) and t.module.name == 'marcel.reader' for t in p.callees(n, f, f.cls)) or \
                    isinstance(n.func, ast.Attribute) and n.func.attr == 'input':
                out.append(n)
    return out


class CarryTS(Typestate):
    """restart handler. state: frozenset of ('same' | 'other') knowledge and whether the pending command was dropped"""
    track_exc = False
    max_depth = 2

    def __init__(self, p, f, attr, handler, what):
        super().__init__(p)
        self.f, self.attr, self.handler, self.what = f, attr, handler, what
        self.seen = {}

    def relevant(self, t):
        return t.parent is self.f

    def on_test(self, test, truth, st, fr):
        k, pol = test_key(test)
        if st[0] and isinstance(k, tuple) and k[0] == 'none' and f"attr='{self.what}'" in k[1]:
            return ('same' if truth == pol else 'other', st[1])
        return st

    def on_catch(self, handler, kind, st, fr):
        if handler is self.handler:
            return [('?', False)]
        return [st]

    def on_assign(self, target, value, st, fr):
        if st[0] and isinstance(target, ast.Attribute) and target.attr == self.attr and isinstance(value, ast.Constant) and value.value is None:
            return [(st[0], True)]
        return [st]

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'run' and fr.func is self.f:
            if st[0]:
                self.seen.setdefault(st, call)
            return [('', False), ('exc', ('', False), self.kind)]
        return None


def carried(ctx, p, cls, attr, ctl):
    R = ctl['ReconfigureException']
    init = R.methods.get('__init__')
    ps = [x for x in init.params if x != init.self_name()] if init is not None else []
    fields = set()
    if init is not None:
        for n in own_nodes(init.node):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ps:
                fields.add(n.targets[0].attr)
    # the new main takes over the pending command of the old one
    ci = cls.find('__init__')
    took = False
    for n in own_nodes(ci.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr for t in n.targets):
            if any(isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and
                   x.value.id in ci.params and x.value.id != ci.self_name() for x in ast.walk(n.value)):
                old = next(x.value.id for x in ast.walk(n.value) if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.value, ast.Name))
                tests = [x.test for x in ast.walk(n.value) if isinstance(x, ast.IfExp)] + \
                        [x.test for x in own_nodes(ci.node) if isinstance(x, ast.If) and any(y is n for y in ast.walk(x))]
                # nothing else decides
                took = took or all(y.id == old for t in tests for y in ast.walk(t) if isinstance(y, ast.Name))
                lost(ctx, p, cls, ci, old)
    if took:
        ctx.ok('carried', f'{cls.name}.__init__')
    else:
        ctx.bad('carried', f'{cls.name}.__init__', ci, f'a new {cls.name} does not take over the command that was pending when marcel restarted')
    n = 0
    for f in p.functions:
        if f.module is not cls.module:
            continue
        for h in [x for x in own_nodes(f.node) if isinstance(x, ast.ExceptHandler)]:
            ts_ = [] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            if not any(dotted(t) and p.resolve_global(t, f.module, f.cls) is R for t in ts_):
                continue
            loops = [l for l in own_nodes(f.node) if isinstance(l, ast.While) and any(x is h for x in ast.walk(l))]
            tries = [t for t in own_nodes(f.node) if isinstance(t, ast.Try) and h in t.handlers]
            if not loops or not any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'run' for t in tries for c in ast.walk(t)):
                continue
            n += 1
            for w in fields:
                ts = CarryTS(p, f, attr, h, w)
                ts.kind = R
                ts.run_function(f, f.cls, ('', False))
                for (k, dropped), c in sorted(ts.seen.items(), key=str):
                    if k == 'other' and not dropped:
                        ctx.bad('carried', f'{f.qualname}:other', f, 'a command that switched workspaces is run again in the workspace it switched to', c)
                    elif k == 'same' and dropped:
                        ctx.bad('carried', f'{f.qualname}:same', f, 'the pending command is lost when marcel restarts because the startup script changed', c)
                    elif k == '?':
                        ctx.bad('carried', f'{f.qualname}:both', f, 'the pending command is treated alike whether or not the restart was its effect', c)
                    else:
                        ctx.ok('carried', f'{f.qualname}:{k}')
                if not ts.seen:
                    ctx.bad('carried', f'{f.qualname}:ends', f, 'the shell does not go on after a restart', h)
    ctx.count('handlers of a restart', n)
    ctx.need('handlers of a restart', 1)


def lost(ctx, p, cls, init, param):
    """whoever makes a new main after the first one gives it the old one"""
    i = init.params.index(param) - 1
    def look(f, param, i, names, depth):
        for g in p.functions:
            if g.module is not cls.module:
                continue
            for n in own_nodes(g.node):
                if not (isinstance(n, ast.Call) and any(t is f or t is names for t in p.callees(n, g, g.cls))):
                    continue
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                v = n.args[i] if i < len(n.args) else next((k.value for k in n.keywords if k.arg == param), None)
                again = any(isinstance(x, (ast.While, ast.For, ast.ExceptHandler)) and any(y is n for y in ast.walk(x)) for x in own_nodes(g.node))
                if isinstance(v, ast.Constant) and v.value is None and (again or depth == 0 and g.name != '<module>' and g.params):
                    ctx.bad('carried', f'{g.qualname}:old', g, f'{g.qualname} makes a new main after a restart without the one before: its pending command is lost', n)
                elif isinstance(v, ast.Name) and v.id in g.params and depth < 3 and g is not f:
                    ctx.ok('carried', f'{g.qualname}:old')
                    look(g, v.id, g.params.index(v.id) - (1 if g.self_name() else 0), g, depth + 1)
    look(init, param, i, cls, 0)


def script(ctx, p, rs):
    ctx.rule('script', 'every line of a script becomes part of a command, and every command is delivered')
    n = 0
    for f in p.functions:
        if f.module.name != 'marcel.main' or not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(f.node)):
            continue
        loops = [x for x in own_nodes(f.node) if isinstance(x, ast.For)]
        if not loops:
            continue
        loop = loops[0]
        acc = {t.id for x in own_nodes(f.node) if isinstance(x, (ast.AugAssign, ast.Assign))
               for t in ([x.target] if isinstance(x, ast.AugAssign) else x.targets) if isinstance(t, ast.Name)
               if isinstance(x, ast.AugAssign) or any(isinstance(y, ast.Name) and y.id == t.id for y in ast.walk(x.value))}
        if len(acc) != 1:
            continue
        n += 1
        ts = ScriptTS(p, f, loop, next(iter(acc)))
        o = ts.run_function(f, f.cls, (False, ''))
        for (st, fa, rv), line in o['ret'].items():
            if st[1] == 'held':
                ts.problems.setdefault('end', (line, 'a command at the end of a script is not delivered'))
            if st[0]:
                ts.problems.setdefault('line', (line, 'a line of the script is passed over'))
        for k, (node, msg) in ts.problems.items():
            ctx.bad('script', f'{f.qualname}:{k}', f, msg, node)
        if not ts.problems:
            ctx.ok('script', f.qualname)
    ctx.count('functions that divide a script into commands', n)
    ctx.need('functions that divide a script into commands', 1)


def prompt(ctx, p, ctl):
    ctx.rule('prompt', 'nothing that runs while the user is entering a command can fail: functions in the prompt, recalling and editing commands')
    roots = []
    env = p.module('marcel.env')
    for c in env.all_classes:
        if 'prompt' in c.methods:
            roots.append(c.methods['prompt'])
    reader = p.module('marcel.reader')
    for c in reader.all_classes:
        for m in c.methods.values():
            for x in m.nested.values() if isinstance(m.nested, dict) else m.nested:
                if x.node.decorator_list and any(isinstance(d, ast.Call) and dotted(d.func) and dotted(d.func).endswith('.add') for d in x.node.decorator_list):
                    roots.append(x)
    ctx.count('functions called while a command is entered', len(roots))
    ctx.need('functions called while a command is entered', 2)
    for f in roots:
        ts = PromptTS(p, [f], None, ctl)
        o = ts.run_function(f, f.cls, '')
        ctx.count('calls there that may fail', ts.sites)
        bad = {}
        for (st, fa, k), line in o['exc'].items():
            if k == ctl['KillShellException']:
                continue
            bad.setdefault(k if isinstance(k, str) else k.name, line)
        for k, line in bad.items():
            ctx.bad('prompt', f'{f.qualname}:{k}', f, f'{"an exception" if k == "E" else k} can escape into the terminal library', line)
        if not bad:
            ctx.ok('prompt', f.qualname)


CHECKS = {'J05': check_J05}
M = 'marcel/main.py'
MUTANTS = {'J05': [
    (M, "len(line := sys.stdin.readline()) != 0", "len(line := sys.stdin.readline().strip()) != 0", 'a blank line ends the script'),
    (M, "            except Exception as e:\n                # A failing command", "            except ValueError as e:\n                # A failing command", 'other exceptions end the shell'),
    (M, "            except marcel.exception.KillAndResumeException:\n                # Error handler printed the error\n                pass\n            except", "            except", 'a failed item ends the shell'),
    (M, "            except marcel.exception.KillCommandException as e:\n                marcel.util.print_to_stderr(env, e)\n", "            except marcel.exception.KillCommandException as e:\n                pass\n", 'not reported'),
    (M, "                marcel.util.print_to_stderr(env, f'{type(e)}: {e}')", "                if env.trace.is_enabled():\n                    marcel.util.print_to_stderr(env, f'{type(e)}: {e}')", 'reported sometimes'),
    (M, "            try:\n                env.workspace.namespace.set_env(env)\n                parser = marcel.parser.Parser(text, env)\n                pipeline = parser.parse()\n", "            env.workspace.namespace.set_env(env)\n            parser = marcel.parser.Parser(text, env)\n            pipeline = parser.parse()\n            try:\n", 'parsed outside'),
    (M, "                    self.parse_and_run_command(self.input)\n                    self.input = None\n                    self.job_control", "                    self.parse_and_run_command(self.input)\n                    self.job_control", 'run for ever'),
    (M, "                except KeyboardInterrupt:  # ctrl-C\n                    self.input = None\n", "                except KeyboardInterrupt:  # ctrl-C\n", 'run again after an interrupt'),
    (M, "                    if self.input is None:\n                        self.input = self.env.take_next_command()\n", "                    self.input = self.env.take_next_command()\n", 'the pending command is replaced'),
    (M, "                    if self.input is None:\n                        self.input = (self.reader.input() if interactive\n                                      else input())\n", "                    self.input = (self.reader.input() if interactive\n                                      else input())\n", 'the pending command is replaced by another'),
    (M, "                    self.check_for_config_update()\n                    self.parse_and_run_command(self.input)\n                    self.input = None\n", "                    self.parse_and_run_command(self.input)\n                    self.check_for_config_update()\n                    self.input = None\n", 'restart after the command ran'),
    (M, "            self.input = old_main.input\n", "            self.env.next_command = None\n", 'not carried over'),
    (M, "                workspace = e.workspace_to_open\n                main.input = None\n\n\ndef main_script", "                workspace = e.workspace_to_open\n\n\ndef main_script", 'ws -o run again'),
    (M, "                workspace = env.workspace\n            else:", "                workspace = env.workspace\n                main.input = None\n            else:", 'dropped on restart'),
    (M, "            if line.endswith('\\\\'):\n                command += line[:-1]\n", "            if line.endswith('\\\\'):\n                command = line[:-1]\n", 'continued lines are dropped'),
    (M, "    if len(command) > 0:\n        yield command\n", "", 'the last command is dropped'),
    (M, "        if len(line.strip()) > 0:\n            if line.endswith", "        if len(line.strip()) > 0 and not line.startswith(' '):\n            if line.endswith", 'indented lines are dropped'),
    (M, "                yield command\n                command = ''\n", "                yield command\n", 'commands are repeated'),
    (M, "            main = MainScript(env)\n            main.run_startup_scripts()\n", "            main = MainScript(env)\n            main.run_startup_scripts()\n            break\n", 'a script ends when it switches workspaces, 2'),
    (M, "        except marcel.exception.ReconfigureException as e:\n            main.shutdown(restart=True)\n            # e.work", "        except marcel.exception.StartupScriptException as e:\n            main.shutdown(restart=True)\n            # e.work", 'a script ends when it switches workspaces'),
    ('marcel/env.py', "        self.next_command = None\n        return command\n", "        return command\n", 'handed over for ever'),
    ('marcel/env.py', "        except Exception as e:\n            print(f'Bad prompt", "        except TypeError as e:\n            print(f'Bad prompt", 'a function of the prompt fails'),
    ('marcel/reader.py', "            except ValueError:\n                raise", "            except TypeError:\n                raise", '!x'),
]}
