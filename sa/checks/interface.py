"""C01, C02, C03: API functions, argument parsers, registration and help of the operators agree."""
import ast
import re

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate
from ..ops import OpModel
from .describe import Facts, default_of

META = {
    'C01': {
        'explanation': 'The function by which the API creates an operator is executed abstractly on all paths, collecting the arguments it hands to the '
                       'operator\'s argument parser: each option it emits must exist, be followed by a value exactly if it takes one, and be '
                       'emitted from the parameter of the same name, under the condition that this was requested; every option and '
                       'argument of the parser must be emitted on some path; every parameter must reach the parser. '
                       'Options precede anonymous arguments, whose number must fit. The module-level API must forward what it is given '
                       'to the operator of the same name.',
        'assumptions': ['operators that the API does not offer (interactive ones) are judged by the same rules if they have an API function with parameters'],
    },
    'C02': {
        'explanation': 'For every operator module: it is registered, the class, the parser, the help text and the creating function are found by '
                       'the registry exactly once under the operator\'s name; the parser validates itself and its constraints are '
                       'satisfiable (unique flags, order of anonymous arguments, constraint names that exist, options that can be used); each '
                       'option that may be omitted has an initial value in the operator, and each one accepted is used by it.',
        'assumptions': [],
    },
    'C03': {
        'explanation': 'The options mentioned in each operator\'s help (usage lines and marked-up text) are extracted and compared, in both directions, with '
                       'those its argument parser declares: spelling, which short and long forms belong together, and whether they '
                       'take a value.',
        'assumptions': ['options in example output that is not marked up as an option are not documentation'],
    },
}

LINE = re.compile(r'--?[A-Za-z0-9][\w-]*')


class Arg:
    def __init__(self, name, attr, conv, meth, call, f):
        self.name, self.attr, self.conv, self.meth, self.call, self.f = name, attr, conv, meth, call, f
        kw = {k.arg: k.value for k in call.keywords}

        def const(i, k):
            v = call.args[i] if len(call.args) > i else kw.get(k)
            return v.value if isinstance(v, ast.Constant) else None
        self.short = const(1, 'short') if meth.startswith('add_flag') else None
        self.long = const(2, 'long') if meth.startswith('add_flag') else None
        self.flag = meth.startswith('add_flag')
        self.value = {'add_flag_no_value': 0, 'add_flag_one_value': 1, 'add_flag_optional_value': 2}.get(meth)
        self.list = meth == 'add_anon_list'
        d = kw.get('default')
        if meth == 'add_anon' and d is None and len(call.args) > 2:
            d = call.args[2]
        self.default = d
        self.mandatory = meth == 'add_anon' and d is None

    def names(self):
        return [x for x in (self.short, self.long) if x]


class OpInfo:
    pass


def op_infos(p, om):
    """name -> OpInfo for each module of marcel.op that defines an operator"""
    out = {}
    AP = p.cls('ArgsParser', 'marcel.argsparser')
    reg = p.module('marcel.op')
    for m in sorted(p.modules.values() if isinstance(p.modules, dict) else p.modules, key=lambda m: m.name):
        if not m.name.startswith('marcel.op.') or m.name == 'marcel.op':
            continue
        n = m.name.rsplit('.', 1)[1]
        i = OpInfo()
        i.name, i.module = n, m
        names = toplevel(m)
        i.names = names
        i.ops, i.parsers = [], []
        for k, v in names.items():
            c = v if isinstance(v, ClassInfo) else None
            if c is None:
                continue
            if c.derives(om.Op) and c.name.lower() == n:
                i.ops.append((k, c))
            elif c.derives(AP) and not c.derives(om.Op):
                i.parsers.append((k, c))
        i.help = None
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'HELP' for t in s.targets):
                i.help = text_of(s.value)
        i.api = [f for f in m.functions.values() if f.name in (n, '_' + n)] if isinstance(m.functions, dict) else []
        i.args = spec(p, i.parsers[-1][1]) if i.parsers else None
        out[n] = i
    return out


def text_of(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = text_of(e.left), text_of(e.right)
        return None if a is None or b is None else a + b
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('strip', 'format', 'lstrip', 'rstrip'):
        return text_of(e.func.value)
    if isinstance(e, ast.JoinedStr):
        return ''.join(v.value if isinstance(v, ast.Constant) else '' for v in e.values)
    return None


def toplevel(m):
    """names bound at module level to classes"""
    out = {}
    for k, c in m.classes.items():
        if '.' not in k:
            out[k] = c
    for s in m.tree.body:
        if isinstance(s, ast.ImportFrom) and s.module:
            for a in s.names:
                c = m.project.resolve_global(ast.Name(id=a.asname or a.name, ctx=ast.Load()), m, None) if hasattr(m, 'project') else None
                if isinstance(c, ClassInfo):
                    out[a.asname or a.name] = c
    return out


def spec(p, parser):
    """the arguments a parser declares, base class first"""
    from ..taint import parser_args
    seen = []
    raw = parser_args(p, parser)
    order = {}
    for k, c in enumerate(reversed(parser.repo_mro())):
        order[c] = k
    raw.sort(key=lambda r: order.get(r[5].cls, 99))
    return [Arg(*r) for r in raw]


# ------------------------------------------------------------------------------------------------ C01
class ApiTS(Typestate):
    """State: (flag awaiting a value or '', number of anonymous arguments 0..3 ('*' many), frozenset of (parameter, truth),
    frozenset of the parameters and options passed on)."""
    track_exc = False
    max_depth = 2

    def __init__(self, p, f, args):
        super().__init__(p)
        self.f, self.args = f, args
        self.flags = {n: a for a in args for n in a.names()}
        self.events = []            # (kind, ...)
        a = f.node.args
        self.params = list(dict.fromkeys(list(f.params) + [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]))
        self.direct = []
        self.lists = self.list_names(f)

    def relevant(self, t):
        return False

    def list_names(self, f):
        out = set()
        rets = [n.value for n in own_nodes(f.node) if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2]
        work = [r.elts[1] for r in rets]
        while work:
            e = work.pop()
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and n.id not in out:
                    vs = f.local_assigns().get(n.id, [])
                    if any(self.is_list(v) for v in vs):
                        out.add(n.id)
                        work += [v for v in vs if v is not None]
        return out

    def is_list(self, v):
        if isinstance(v, (ast.List, ast.ListComp, ast.Tuple)):
            return True
        if isinstance(v, ast.IfExp):
            return self.is_list(v.body) or self.is_list(v.orelse)
        if isinstance(v, ast.BinOp):
            return self.is_list(v.left) or self.is_list(v.right)
        return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list',)

    # ---- emissions
    def origin(self, e, depth=0, seen=None):
        seen = set() if seen is None else seen
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                if n.id in self.params:
                    out.add(n.id)
                if depth < 4 and n.id not in seen:
                    seen.add(n.id)
                    for v in self.f.local_assigns().get(n.id, []):
                        if v is not None and v is not e:
                            out |= self.origin(v, depth + 1, seen)
                    for x in own_nodes(self.f.node):
                        if isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(t, ast.Name) and t.id == n.id for t in ast.walk(x.target)):
                            out |= self.origin(x.iter, depth + 1, seen)
        return out

    def emit(self, e, st):
        """one argument"""
        pend, anon, facts, passed = st
        for alt, fc in self.alternatives(e, facts):
            yield from self.emit1(alt, (pend, anon, fc, passed))

    def alternatives(self, e, facts):
        if isinstance(e, ast.IfExp):
            for br, truth in ((e.body, True), (e.orelse, False)):
                fc = self.assume(e.test, truth, facts)
                if fc is not None:
                    yield from self.alternatives(br, fc)
        else:
            yield e, facts

    def assume(self, test, truth, facts):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, not truth, facts)
        if isinstance(test, ast.Name) and test.id in self.params:
            if (test.id, not truth) in facts:
                return None
            return facts | {(test.id, truth)}
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) and truth:
            for v in test.values:
                facts = self.assume(v, True, facts)
                if facts is None:
                    return None
            return facts
        q = {n.id for n in ast.walk(test) if isinstance(n, ast.Name) and n.id in self.params}
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and q:
            c = test.comparators[0]
            op = test.ops[0]
            if isinstance(c, ast.Constant) and c.value is True and isinstance(op, (ast.Is, ast.Eq)):
                return facts | {(test.left.id, truth)}
            pos = isinstance(op, (ast.Is, ast.Eq)) == truth
            return facts | {(test.left.id, ('=' if pos else '!') + ast.unparse(c))}
        return facts | {(x, 'tested') for x in q}

    def emit1(self, e, st):
        pend, anon, facts, passed = st
        if isinstance(e, ast.Starred):
            yield from self.emit_all(e.value, st)
            return
        if isinstance(e, ast.Constant) and isinstance(e.value, str) and len(e.value) > 1 and e.value.startswith('-') and not re.fullmatch(r'-\d+\.?\d*', e.value) \
                or isinstance(e, ast.Constant) and e.value in self.flags:
            if pend and self.flags[pend].value == 1:
                self.events.append(('novalue', pend, e, facts))
            elif pend:
                self.events.append(('bare', pend, e, facts))
            if e.value not in self.flags:
                self.events.append(('unknown', e.value, e, facts))
                yield ('', anon, facts, passed)
                return
            self.events.append(('flag', e.value, e, facts))
            if anon != 0:
                self.events.append(('late', e.value, e, facts))
            yield (e.value if self.flags[e.value].value else '', anon, facts, passed | {self.flags[e.value].name})
            return
        if pend:
            self.events.append(('value', pend, e, facts))
            yield ('', anon, facts, passed | self.origin(e))
            return
        self.events.append(('anon', anon, e, facts))
        yield ('', anon if anon == '*' else anon + 1 if anon < 5 else '*', facts, passed | self.origin(e))

    def emit_all(self, e, st):
        """the elements of a collection"""
        if isinstance(e, ast.IfExp):
            for alt, fc in self.alternatives(e, st[2]):
                yield from self.emit_all(alt, (st[0], st[1], fc, st[3]))
            return
        if isinstance(e, (ast.List, ast.Tuple)):
            sts = [st]
            for x in e.elts:
                sts = [s2 for s in sts for s2 in self.emit(x, s)]
            yield from sts
            return
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            for s in self.emit_all(e.left, st):
                yield from self.emit_all(e.right, s)
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple') and len(e.args) == 1:
            yield from self.emit_all(e.args[0], st)
            return
        if isinstance(e, ast.Name) and e.id in self.lists and e.id not in self.params:
            yield st                # accumulated in place
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple') and not e.args:
            yield st
            return
        pend, anon, facts, passed = st
        self.events.append(('many', anon, e, facts))
        yield ('', '*', facts, passed | self.origin(e))

    # ---- hooks
    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name):
            self.direct.append(target)
        if isinstance(target, ast.Name) and target.id in self.lists and value is not None and fr.func is self.f:
            if isinstance(value, ast.Name) and value.id not in self.lists:
                return [st]
            if isinstance(value, ast.Subscript):
                return [st]
            return list(self.emit_all(value, st)) or [st]
        return [st]

    def on_call(self, call, targets, st, fr):
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in self.lists and fr.func is self.f:
            if f.attr == 'append' and call.args:
                return list(self.emit(call.args[0], st)) or [st]
            if f.attr == 'extend' and call.args:
                return list(self.emit_all(call.args[0], st)) or [st]
            if f.attr == 'insert' and len(call.args) == 2:
                return list(self.emit(call.args[1], st)) or [st]
        return None

    def on_test(self, test, truth, st, fr):
        fc = self.assume(test, truth, st[2])
        return None if fc is None else (st[0], st[1], fc, st[3])

    def on_return(self, node, st, fr):
        v = getattr(node, 'value', None)
        if fr.func is self.f and isinstance(v, ast.Tuple) and len(v.elts) == 2:
            out = []
            for s in self.emit_all(v.elts[1], st):
                if s[0] and self.flags[s[0]].value == 1:
                    self.events.append(('novalue', s[0], node, s[2]))
                elif s[0]:
                    self.events.append(('bare', s[0], node, s[2]))
                self.events.append(('end', s[1], node, s[2]))
                self.events.append(('passed', s[3], node, s[2]))
                out.append(s)
            return out or [st]
        return super().on_return(node, st, fr)


def api_functions(p):
    """name in the API -> (wrapper, imported function)"""
    m = p.module('marcel.api')
    out = {}
    for f in m.functions.values():
        if '.' in f.qualname.split(':')[-1]:
            continue
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == '_generate_op' and n.args:
                g = p.resolve_global(n.args[0], m, None)
                out[f.name] = (f, g if isinstance(g, FuncInfo) else None, n)
    return out


# control of the shell, of its jobs, history and workspaces
COMMAND_LINE_ONLY = {'bg', 'edit', 'exit', 'fg', 'help', 'history', 'import', 'jobs', 'run', 'ws'}


def squash(n):
    return n[:-4] if n.endswith('_arg') else n


def check_C01(ctx):
    p = ctx.p
    om = OpModel(p)
    infos = op_infos(p, om)
    ctx.rule('option', 'each option that the API passes on exists')
    ctx.rule('value', 'an option is passed on with a value exactly if it takes one')
    ctx.rule('source', 'an option or argument is passed on from the parameter of that name, if it was requested')
    ctx.rule('complete', 'every option and argument that the command line accepts can be given through the API')
    ctx.rule('used', 'every parameter of the API reaches the operator')
    ctx.rule('count', 'the API passes on as many anonymous arguments as the operator accepts')
    ctx.rule('order', 'options are passed on before anonymous arguments')
    ctx.rule('offered', 'every operator is offered by the API, except those that only make sense at the command line')
    ctx.rule('parsed', 'the API hands arguments to the operator\'s argument parser, which checks them')
    ctx.rule('forward', 'the API function named after an operator creates that operator from the arguments given')
    apis = api_functions(p)
    by_func = {}
    for name, (w, g, call) in sorted(apis.items()):
        if name.startswith('_'):
            continue
        ctx.count('API functions', 1)
        if g is None:
            ctx.bad('forward', name, w, f'api.{name} does not create an operator from a known function', call)
            continue
        mod = g.module.name.rsplit('.', 1)[-1]
        by_func[g] = name
        if name not in (g.name, mod, '_' + g.name) :
            ctx.bad('forward', name, w, f'api.{name} creates the operator of {g.qualname}', call)
            continue
        va, ka = w.node.args.vararg, w.node.args.kwarg
        fwd_a = va and any(isinstance(a, ast.Starred) and isinstance(a.value, ast.Name) and a.value.id == va.arg for a in call.args[1:])
        fwd_k = ka and any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id == ka.arg for k in call.keywords)
        explicit = not va and not ka and {x for x in w.params} <= {n.id for a in call.args[1:] + [k.value for k in call.keywords] for n in ast.walk(a) if isinstance(n, ast.Name)}
        if (fwd_a and fwd_k) or explicit:
            ctx.ok('forward', name)
        else:
            ctx.bad('forward', name, w, f'api.{name} does not pass on all of its arguments', call)
    offered = {g.module for g in by_func}
    for n in sorted(set(registered(p)[1]) & set(infos)):
        if n in COMMAND_LINE_ONLY:
            continue
        if infos[n].module in offered:
            ctx.ok('offered', n)
        else:
            ctx.bad('offered', n, p.module('marcel.api'), f'the API does not offer operator {n}', p.module('marcel.api').tree)
    for n, i in sorted(infos.items()):
        if i.args is None:
            continue
        fs = [f for f in i.module.functions.values() if (f in by_func or f.name in (n, '_' + n)) and f.cls is None and f.parent is None]
        for f in fs:
            if f not in by_func and not f.params:
                continue
            ctx.count('operators', 1)
            _api(ctx, p, n, f, i.args, [g for _, g, _, _ in groups_of(i.parsers[-1][1])])
    ctx.need('API functions', 30)
    ctx.need('operators', 25)


def opaque(p, ts, f):
    """is the list of arguments built by other means than those followed: by a function called, or from a table?"""
    for x in own_nodes(f.node):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Name) and x.func.id in ('list', 'tuple', 'len', 'isinstance', 'print', 'str', 'type'):
                continue
            if any(isinstance(y, ast.Name) and y.id in ts.lists and y.id not in ts.params for a in x.args + [k.value for k in x.keywords] for y in ast.walk(a)) and \
                    not (isinstance(x.func, ast.Attribute) and x.func.attr == 'extend'):
                return True
            if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in ts.lists and \
                    x.func.attr not in ('append', 'extend', 'insert'):
                return True
            if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in ts.lists and x.args and \
                    isinstance(x.args[-1], ast.Name) and x.args[-1].id not in ts.params and constants_of(f, x.args[-1].id):
                return True
        if isinstance(x, ast.Return) and isinstance(x.value, ast.Tuple) and len(x.value.elts) == 2:
            for y in ast.walk(x.value.elts[1]):
                if isinstance(y, ast.Call) and not (isinstance(y.func, ast.Name) and y.func.id in ('list', 'tuple')):
                    return True
                if isinstance(y, ast.Name) and y.id not in ts.lists and y.id not in ts.params and (y is x.value.elts[1] or constants_of(f, y.id)):
                    return True
        if isinstance(x, ast.Return) and not isinstance(x.value, ast.Tuple):
            return True
        if isinstance(x, ast.ListComp) and any(isinstance(y, ast.Constant) and isinstance(y.value, str) and y.value.startswith('-') for y in ast.walk(x)):
            return True
    return False


def constants_of(f, name):
    vs = list(f.local_assigns().get(name, []))
    for x in own_nodes(f.node):
        if isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(t, ast.Name) and t.id == name for t in ast.walk(x.target)):
            vs.append(x.iter)
    return any(isinstance(y, ast.Constant) and isinstance(y.value, str) for v in vs if v is not None for y in ast.walk(v))


def _api(ctx, p, n, f, args, groups):
    ts = ApiTS(p, f, args)
    if opaque(p, ts, f):
        ctx.count('API functions not followed', 1)
        ctx.notes.append(f'the arguments built by {f.qualname} are not followed')
        return
    o = ts.run_function(f, None, ('', 0, frozenset(), frozenset()))
    if not any(e[0] == 'end' for e in ts.events):
        ctx.bad('parsed', n, f, f'the API function of {n} does not return the operator and its arguments', f.node)
        return
    if ts.direct:
        t = ts.direct[0]
        ctx.bad('parsed', n, f, f'the API function of {n} sets {ast.unparse(t)} directly: it is not checked by the argument parser', t)
    else:
        ctx.ok('parsed', n)
    anons = [a for a in args if not a.flag and not a.list]
    lst = [a for a in args if a.list]
    bynames = {}
    for a in args:
        for k in (a.name, a.attr, squash(a.attr)):
            bynames.setdefault(k, a)
    hit, used, bad = set(), set(), set()

    def once(rule, key, msg, node):
        if (rule, key) not in bad:
            bad.add((rule, key))
            ctx.bad(rule, key, f, msg, node)

    params = ts.params
    defaults = defaults_of(f)
    for kind, x, e, facts in ts.events:
        if kind == 'bare':
            # an option whose value may be omitted: omitted only if none was given
            own = [q for q in params if bynames.get(q) is ts.flags[x]]
            if any((q, False) in facts for q in own):
                once('source', f'{n}:{x}:falsy', f'the API passes {x} to {n} without its value if {own[0]} is false, e.g. 0', e)
        if kind in ('flag', 'value') and not [q for q in params if bynames.get(q) is ts.flags[x] and q not in defaults] and unrequested(facts, defaults):
            once('source', f'{n}:{x}:unrequested', f'the API passes {x} to {n} although nothing was requested', e)
        if kind == 'value' and numeric(ts.flags[x].conv):
            own = [q for q in params if bynames.get(q) is ts.flags[x]]
            for q in own:
                if (q, True) in facts and not isinstance(defaults.get(q), bool) and defaults.get(q) != 0:
                    once('source', f'{n}:{x}:zero', f'the API does not pass {x} to {n} if {q} is 0', e)
        if kind == 'unknown':
            once('option', f'{n}:{x}', f'the API passes {x} to {n}, which has no such option', e)
        elif kind == 'novalue':
            once('value', f'{n}:{x}', f'the API passes {x} to {n} without a value', e)
        elif kind == 'late':
            if any(ts.flags[x].name in g and any(t.name in g for t in anons) for g in groups):
                continue        # they exclude one another
            once('order', f'{n}:{x}', f'the API passes {x} to {n} after an anonymous argument', e)
        elif kind == 'flag':
            a = ts.flags[x]
            hit.add(a)
            used |= {q for q, _ in facts}
            own = [q for q in params if bynames.get(q) is a]
            if own and a.value == 0:
                if not any((q, True) in facts for q in own):
                    once('source', f'{n}:{x}', f'the API passes {x} to {n} although {own[0]} may be false', e)
            elif not own and a.value == 0:
                other = [q for q, t in facts if t is True and bynames.get(q) not in (None, a)]
                named = [q for q, t in facts if t not in ('tested', False)]
                if other and not [q for q in named if bynames.get(q) is None] :
                    once('source', f'{n}:{x}', f'the API passes {x} to {n} if {other[0]} was requested', e)
        elif kind == 'value':
            a = ts.flags[x]
            src = ts.origin(e)
            used |= src
            own = [q for q in params if bynames.get(q) is a]
            if isinstance(e, ast.Constant):
                once('source', f'{n}:{x}', f'the API passes the constant {ast.unparse(e)} as the value of {x} to {n}', e)
            elif own and not (src & set(own)):
                once('source', f'{n}:{x}', f'the API passes {ast.unparse(e)} as the value of {x} to {n}, instead of {own[0]}', e)
            elif not own and [q for q in src if bynames.get(q) not in (None, a)]:
                once('source', f'{n}:{x}', f'the API passes {ast.unparse(e)} as the value of {x} to {n}', e)
        elif kind in ('anon', 'many'):
            src = ts.origin(e)
            used |= src
            if kind == 'many':
                target = lst or anons
            elif x == '*':
                target = lst
            elif x < len(anons):
                target = [anons[x]]
            else:
                target = lst
            if not target:
                flagged = [q for q in src if bynames.get(q) is not None and bynames[q].flag]
                once('count', n, f'the API passes more anonymous arguments to {n} than it accepts: {ast.unparse(e)}', e)
                continue
            if kind == 'many' and not lst:
                once('count', n, f'the API passes any number of anonymous arguments to {n}, which accepts {len(anons)}', e)
            hit |= set(target) if kind == 'many' or len(target) == 1 else set()
            if kind == 'anon' and isinstance(e, ast.Constant) and isinstance(e.value, str) and params:
                once('source', f'{n}:{target[0].name}', f'the API passes the constant {ast.unparse(e)} to {n}, instead of {e.value if e.value in params else "an argument"}', e)
            for q in src:
                a = bynames.get(q)
                if a is not None and a.flag and a.attr not in [t.attr for t in target] and not any(bynames.get(r) in target for r in src):
                    once('value', f'{n}:{q}', f'the API passes {q} to {n} as an anonymous argument, but it is an option', e)
                elif a is not None and not a.flag and a not in target and isinstance(e, ast.Name) and e.id == q:
                    once('source', f'{n}:{target[0].name}', f'the API passes {q} to {n} as its argument {target[0].name}', e)
        elif kind == 'passed':
            for q in params:
                a = bynames.get(q)
                if a is None or a.list or q in x or a.name in x:
                    continue
                own = {t for r, t in facts if r == q}
                given = own & {True, '!None'} or not own and defaults.get(q, '') is None and not looped(f, q)
                if given and not own & {False, '=None', 'tested'} and not any(isinstance(t, str) and t[:1] == '=' for t in own):
                    once('source', f'{n}:{a.name}:dropped', f'the API does not pass {q} on to {n} in all cases in which it is given', e)
        elif kind == 'end':
            need = len([a for a in anons if a.mandatory])
            if x != '*' and x < need:
                q = [r for r, t in facts if t == '=None']
                if not q:
                    once('count', n, f'the API passes {x} anonymous arguments to {n}, which needs {need}', e)
    if lst and f.node.args.vararg is None and not any(k == 'many' for k, *_ in ts.events):
        v = [e for k, x, e, fc in ts.events if k == 'anon' and (x == '*' or x >= len(anons))]
        if v:
            once('complete', f'{n}:{lst[0].name}', f'{n} accepts any number of {lst[0].name}, but not through the API', f.node)
            hit |= set(lst)
    for a in args:
        key = f'{n}:{a.name}'
        direct = [t for t in ts.direct if t.attr == a.attr]
        if a in hit or direct:
            ctx.ok('complete', key)
        else:
            once('complete', key, f'{"option " + "|".join(a.names()) if a.flag else "argument " + a.name} of {n} cannot be given through the API', f.node)
    for q in params:
        if q in used or any(q in ts.origin(v) for t in ts.direct for v in direct_values(f, t)):
            ctx.ok('used', f'{n}:{q}')
        else:
            once('used', f'{n}:{q}', f'parameter {q} of the API function of {n} is ignored', f.node)
    if not bad:
        ctx.ok('source', n)
        ctx.ok('option', n)
        ctx.ok('value', n)
        ctx.ok('count', n)
        ctx.ok('order', n)


def looped(f, q):
    return any(isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == q for y in ast.walk(x.iter)) for x in own_nodes(f.node))


def numeric(conv):
    c = conv.attr if isinstance(conv, ast.Attribute) else conv.id if isinstance(conv, ast.Name) else ''
    return c in ('str_to_int', 'to_float', 'int', 'float')


def defaults_of(f):
    """{parameter: default (a constant, '' for any other)}"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = {}
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if d is not None:
            out[x.arg] = d.value if isinstance(d, ast.Constant) else ast.unparse(d)
    return out


def unrequested(facts, defaults):
    """do these facts hold if every parameter has its default?"""
    for q, t in facts:
        if q not in defaults:
            return False            # has to be given
        d = defaults[q]
        if t is True and not d:
            return False
        if t is False and d:
            return False
        if t == 'tested':
            return False
        if isinstance(t, str) and t[:1] in '=!' :
            same = t[1:] == (d if isinstance(d, str) and not t[1:].startswith(("'", '"')) else repr(d))
            if same != (t[0] == '='):
                return False
    return True


def direct_values(f, t):
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign) and any(x is t for x in n.targets):
            yield n.value


# ------------------------------------------------------------------------------------------------ C02
def registered(p):
    m = p.module('marcel.op')
    vals = {}
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            v = names_in_list(s.value, vals)
            if v is not None:
                vals[s.targets[0].id] = v
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in vals:
            vals[s.target.id] = vals[s.target.id] + (names_in_list(s.value, vals) or [])
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name):
            n = s.value.func.value.id
            if n in vals and s.value.args:
                if s.value.func.attr == 'extend':
                    vals[n] = vals[n] + (names_in_list(s.value.args[0], vals) or [])
                elif s.value.func.attr == 'append' and isinstance(s.value.args[0], ast.Constant):
                    vals[n] = vals[n] + [s.value.args[0].value]
    if 'public' not in vals or 'all' not in vals:
        raise AnalysisBroken('the lists of operators (marcel.op.public, marcel.op.all) are not understood')
    return m, vals['public'], vals['all']


def names_in_list(e, vals):
    if isinstance(e, (ast.List, ast.Tuple)):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Constant):
                out.append(x.value)
            elif isinstance(x, ast.Starred):
                out += names_in_list(x.value, vals) or []
        return out
    if isinstance(e, ast.Name):
        return vals.get(e.id)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = names_in_list(e.left, vals), names_in_list(e.right, vals)
        return None if a is None or b is None else a + b
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'sorted') and e.args:
        return names_in_list(e.args[0], vals)
    return None


OWN_SYNTAX = {'assign'}       # VAR = VALUE: not invoked by name


def check_C02(ctx):
    p = ctx.p
    om = OpModel(p)
    infos = op_infos(p, om)
    facts = Facts(p, om)
    ctx.rule('registered', 'every operator is listed among the available operators, once, and everything listed exists')
    ctx.rule('class', 'the class of an operator is found under its name and is created without arguments')
    ctx.rule('parser', 'exactly one argument parser is found for an operator; it is created with the environment and validates itself')
    ctx.rule('help', 'every public operator has a help text')
    ctx.rule('creation', 'operators that are created by name, with arguments, have a creating function')
    ctx.rule('constraints', 'the declarations of a parser are consistent: unique names and flags, order of arguments, constraints on arguments that exist')
    ctx.rule('usable', 'each option can be used: it does not conflict with a mandatory argument')
    ctx.rule('initial', 'each option that may be omitted has an initial value in the operator')
    ctx.rule('used', 'each option and argument accepted is used by the operator')
    reg, public, all_ = registered(p)
    AP = p.cls('ArgsParser', 'marcel.argsparser')
    for n in sorted(set(public) | set(all_)):
        if n not in infos:
            ctx.bad('registered', n, reg, f'{n} is listed as an operator, but there is no such module', reg.tree)
        elif public.count(n) > 1 or all_.count(n) > 1:
            ctx.bad('registered', n, reg, f'{n} is listed twice', reg.tree)
        elif n not in all_:
            ctx.bad('registered', n, reg, f'{n} is public but is not among all operators', reg.tree)
        else:
            ctx.ok('registered', n)
    internal = set()
    for n, i in sorted(infos.items()):
        complete = i.ops and i.help is not None
        if complete and i.parsers and n not in public and n not in all_:
            ctx.bad('registered', n, i.module, f'operator {n} is not listed among the available operators', i.module.tree)
    for n in sorted(set(all_) & set(infos)):
        i = infos[n]
        ctx.count('operators', 1)
        if len(i.ops) != 1:
            ctx.bad('class', n, i.module, f'the class of operator {n} is not found' if not i.ops else f'there are several classes for operator {n}', i.module.tree)
            continue
        k, c = i.ops[0]
        f = c.find('__init__')
        req = required(f) if isinstance(f, FuncInfo) else []
        if n in public and req:
            ctx.bad('class', n, f, f'operator {n} cannot be created without {", ".join(req)}', f.node)
        else:
            ctx.ok('class', n)
        if n in public and n not in OWN_SYNTAX:
            if i.help is None:
                ctx.bad('help', n, i.module, f'operator {n} has no help', i.module.tree)
            else:
                ctx.ok('help', n)
        if not i.parsers:
            if n in public:
                ctx.bad('parser', n, i.module, f'operator {n} has no argument parser', i.module.tree)
            continue
        if len({c2 for _, c2 in i.parsers}) > 1:
            ctx.bad('parser', n, i.module, f'several argument parsers are found for operator {n}: {", ".join(k2 for k2, _ in i.parsers)}', i.module.tree)
            continue
        q = i.parsers[-1][1]
        g = q.find('__init__')
        if not isinstance(g, FuncInfo) or g.cls is AP or len(required(g)) != 1:
            ctx.bad('parser', n, g if isinstance(g, FuncInfo) else i.module, f'the argument parser of {n} cannot be created from the environment alone', q.node)
        else:
            _validates(ctx, p, n, q, g, AP)
        _constraints(ctx, p, n, q, i.args)
        _fields(ctx, p, n, c, i, facts)
    # creation by name
    for f in p.functions:
        for x in own_nodes(f.node):
            if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == 'create_op' or isinstance(x.func, ast.Attribute) and x.func.attr == 'create_op') and \
                    len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                n = x.args[1].value
                if n not in infos or n not in all_:
                    ctx.bad('creation', f'{f.qualname}:{n}', f, f'an operator {n} is created, but there is none', x)
                elif not infos[n].api:
                    ctx.bad('creation', f'{f.qualname}:{n}', f, f'an operator {n} is created, but {infos[n].module.name} has no function {n} to do so', x)
                else:
                    ctx.ok('creation', f'{f.qualname}:{n}')
    ctx.need('operators', 45)


def required(f):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    r = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    r = [x for x in r if x != f.self_name()]
    return r + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]


class ValidTS(Typestate):
    track_exc = False
    max_depth = 4

    def __init__(self, p, AP):
        super().__init__(p)
        self.AP = AP
        self.names = set()

    def relevant(self, t):
        return t.cls is not None and t.cls.derives(self.AP) and t.name not in ('validate',) and not t.name.startswith('add_')

    def on_call(self, call, targets, st, fr):
        if isinstance(call.func, ast.Attribute):
            if call.func.attr == 'validate':
                return ['valid']
            if call.func.attr.startswith('add_') or call.func.attr in ('at_most_one', 'exactly_one'):
                return ['open']
            if call.func.attr == '__init__' and any(isinstance(t, FuncInfo) and t.cls is self.AP for t in targets) and call.args:
                v = call.args[0]
                self.names.add((v, fr.func))
                return ['open']
        return None


def _validates(ctx, p, n, q, g, AP):
    ts = ValidTS(p, AP)
    o = ts.run_function(g, q, 'open')
    sts = {k[0] for k in o['ret']}
    if sts != {'valid'}:
        ctx.bad('parser', n, g, f'the argument parser of {n} is not validated after its arguments have been declared: it cannot be used', g.node)
        return
    for v, f in ts.names:
        if isinstance(v, ast.Constant) and v.value != n:
            ctx.bad('parser', n + ':name', f, f'the argument parser of {n} calls itself {v.value}', v)
            return
    ctx.ok('parser', n)


def groups_of(q):
    groups = []
    for c in q.repo_mro():
        f = c.methods.get('__init__')
        if f is None:
            continue
        for x in own_nodes(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('at_most_one', 'exactly_one'):
                g = [y.value for y in x.args if isinstance(y, ast.Constant)]
                groups.append((x.func.attr, g, x, f))
    return groups


def _constraints(ctx, p, n, q, args):
    bad = []
    names = [a.name for a in args]
    for x in sorted({x for x in names if names.count(x) > 1}):
        bad.append(('constraints', x, f'{n} has two arguments named {x}', next(a for a in args if a.name == x)))
    fl = [s for a in args for s in a.names()]
    for x in sorted({x for x in fl if fl.count(x) > 1}):
        bad.append(('constraints', x, f'{n} has two options {x}', next(a for a in args if x in a.names())))
    attrs = [a.attr for a in args]
    for x in sorted({x for x in attrs if attrs.count(x) > 1}):
        bad.append(('constraints', x, f'two arguments of {n} are stored in {x}', next(a for a in args if a.attr == x)))
    for a in args:
        if a.flag:
            if not a.names():
                bad.append(('constraints', a.name, f'option {a.name} of {n} has neither a short nor a long form', a))
            if a.short and not re.fullmatch(r'-[^-]', a.short):
                bad.append(('constraints', a.name, f'{a.short} is not a short option', a))
            if a.long and not re.fullmatch(r'--.+', a.long):
                bad.append(('constraints', a.name, f'{a.long} is not a long option', a))
    anons = [a for a in args if a.meth == 'add_anon']
    lst = [a for a in args if a.list]
    opt = False
    for a in anons:
        if not a.mandatory:
            opt = True
        elif opt:
            bad.append(('constraints', a.name, f'mandatory argument {a.name} of {n} follows an optional one', a))
    if lst and any(not a.mandatory for a in anons):
        bad.append(('constraints', lst[0].name, f'the list {lst[0].name} of {n} follows an optional argument', lst[0]))
    groups = groups_of(q)
    ok_names = {a.name for a in args if not a.list}
    for kind, g, x, f in groups:
        for y in g:
            if y not in ok_names:
                bad.append(('constraints', f'{kind}:{y}', f'{n}: {kind} refers to {y}, which is not an argument', None))
        if len(set(g)) != len(g):
            bad.append(('constraints', kind, f'{n}: {kind} names an argument twice', None))
        man = [a for a in args if a.mandatory and a.name in g]
        for a in args:
            if a.name in g and man and a is not man[0]:
                bad.append(('usable', a.name, f'{"|".join(a.names()) or a.name} of {n} can never be used: it excludes {man[0].name}, which is mandatory', a))
    for rule, k, msg, a in bad:
        ctx.bad(rule, f'{n}:{k}', a.f if a is not None else q.find('__init__'), msg, a.call if a is not None else q.node)
    if not bad:
        ctx.ok('constraints', n)
        ctx.ok('usable', n)


def _fields(ctx, p, n, c, i, facts):
    b = None
    f = c.find('__init__')
    facts.bound(c)
    from .describe import InitTS
    if isinstance(f, FuncInfo):
        o = InitTS(p, c, facts).run_function(f, c, frozenset())
        sts = [k[0] for k in o['ret']]
        b = frozenset.intersection(*sts) if sts else frozenset()
    fields = set(b or ())
    mods = {i.module} | {k.module for k in c.repo_mro()} | {m for m in c.module.imports_modules} if hasattr(c.module, 'imports_modules') else {i.module} | {k.module for k in c.repo_mro()}
    mods = {m for m in mods if m.name != 'marcel.core'}
    loads = {}
    for m in mods:
        for g in list(m.functions.values()):
            pass
    used = set()
    for g in p.functions:
        if g.module in mods and g.name not in ('__repr__', '__str__'):
            if g.cls is not None and any(g.cls is q or q.derives(g.cls) for _, q in i.parsers):
                continue
            for x in own_nodes(g.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    used.add(x.attr)
                elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                    used.add(x.value)       # e.g. eval_function(env, 'n_arg')
    for a in i.args:
        key = f'{n}:{a.name}'
        if a.flag and a.attr not in fields and c.find_attr(a.attr) is None:
            ctx.bad('initial', key, f if isinstance(f, FuncInfo) else i.module, f'{n} has no initial value for {a.attr}, which is unset unless {"|".join(a.names())} is specified', a.call)
        else:
            ctx.ok('initial', key)
        if a.attr in used:
            ctx.ok('used', key)
        else:
            ctx.bad('used', key, a.f, f'{"option " + "|".join(a.names()) if a.flag else "argument " + a.name} of {n} is accepted, but is ignored', a.call)


# ------------------------------------------------------------------------------------------------ C03
def usage_lines(h):
    out = []
    for line in h.strip('\n').split('\n'):
        if not line.strip():
            if out:
                break
            continue
        out.append(re.sub(r'\{L[^}]*\}', '', line))
    return out


def documented(n, h, args):
    """(option tokens mentioned, usage groups [(names, value?)], pairs)"""
    known = {s for a in args for s in a.names()}
    toks = []
    groups = []
    lines = usage_lines(h)
    text = ' '.join(lines)
    for mt in re.finditer(r'(?<![\w|-])((?:--?[A-Za-z0-9][\w-]*)(?:\s*\|\s*--?[A-Za-z0-9][\w-]*)*)(?:\s+(\[?[A-Z][A-Z_0-9]*\]?))?', text):
        names = [x.strip() for x in mt.group(1).split('|')]
        if len(names) == 1 and re.fullmatch(r'-[A-Za-z0-9]{2,}', names[0]) and names[0] not in known:
            if all('-' + ch in known for ch in names[0][1:]):
                for ch in names[0][1:]:
                    toks.append('-' + ch)
                    groups.append((['-' + ch], None, mt.group(0)))
                continue
        toks += names
        # [-x] VALUE: the value belongs to the option only if it is not separated by a bracket
        groups.append((names, mt.group(2), mt.group(0)))
    marks = re.findall(r'\{[a-z]:([^}]*)\}', h)
    pairs = []
    for mk in marks:
        for t in re.findall(r'(?<![\w-])--?[A-Za-z0-9][\w-]*', mk) if mk.strip().startswith('-') else []:
            if re.fullmatch(r'-[A-Za-z0-9]{2,}', t) and t not in known and all('-' + ch in known for ch in t[1:]):
                toks += ['-' + ch for ch in t[1:]]
            elif not re.fullmatch(r'-\d+', t) or t in known:
                toks.append(t)
    for mt in re.finditer(r'\{[a-z]:(-[^-}])\}\s*(?:,|\||or)\s*\{[a-z]:(--[\w-]+)\}', h):
        pairs.append((mt.group(1), mt.group(2)))
    return toks, groups, pairs


def check_C03(ctx):
    p = ctx.p
    om = OpModel(p)
    infos = op_infos(p, om)
    ctx.rule('documented', 'each option that an operator accepts is mentioned in its help')
    ctx.rule('exists', 'each option mentioned in the help of an operator is accepted by it')
    ctx.rule('pair', 'short and long forms documented together belong to the same option')
    ctx.rule('value', 'an option documented with a value takes one, and one documented without does not')
    reg, public, all_ = registered(p)
    for n in sorted(set(public) & set(infos)):
        i = infos[n]
        if i.help is None or i.args is None:
            continue
        ctx.count('help texts', 1)
        by = {s: a for a in i.args for s in a.names()}
        toks, groups, pairs = documented(n, i.help, i.args)
        ctx.count('options mentioned', len(set(toks)))
        hnode = next((s for s in i.module.tree.body if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'HELP' for t in s.targets)), i.module.tree)
        for t in sorted(set(toks)):
            if t not in by:
                ctx.bad('exists', f'{n}:{t}', i.module, f'the help of {n} mentions {t}, which is not an option', hnode)
            else:
                ctx.ok('exists', f'{n}:{t}')
        for s, a in sorted(by.items()):
            if s not in toks:
                ctx.bad('documented', f'{n}:{s}', i.module, f'option {s} of {n} is not documented', hnode)
            else:
                ctx.ok('documented', f'{n}:{s}')
        for names, v, txt in groups:
            ks = {by[x].name for x in names if x in by}
            if len(ks) > 1:
                ctx.bad('pair', f'{n}:{"|".join(names)}', i.module, f'the help of {n} equates {" and ".join(names)}, which are different options', hnode)
            for x in names[:1]:
                a = by.get(x)
                if a is None or v is None and a.value == 0:
                    continue
                if v is not None and a.value == 0 and not re.search(r'\]\s*$', txt) and '[' not in (v or ''):
                    ctx.bad('value', f'{n}:{x}', i.module, f'the help of {n} documents {x} with a value ({v}), but it takes none', hnode)
                elif v is None and a.value == 1 and n != 'ws' and len(names) > 1:
                    ctx.bad('value', f'{n}:{x}', i.module, f'the help of {n} documents {x} without a value, but it takes one', hnode)
                else:
                    ctx.ok('value', f'{n}:{x}')
        for s, l in pairs:
            if s in by and l in by and by[s] is not by[l]:
                ctx.bad('pair', f'{n}:{s}|{l}', i.module, f'the help of {n} equates {s} and {l}, which are different options', hnode)
            elif s in by and l in by:
                ctx.ok('pair', f'{n}:{s}|{l}')
    ctx.need('help texts', 40)
    ctx.need('options mentioned', 50)


CHECKS = {'C01': check_C01, 'C02': check_C02, 'C03': check_C03}

MUTANTS = {
    'C01': [
        ('marcel/op/ls.py', '    if depth == 0:', '    if not depth:', 'option without being asked'),
        ('marcel/op/window.py', '    if overlap is not None:', '    if overlap:', 'zero ignored'),
        ('marcel/op/gen.py', 'if pad is not None else', 'if pad else', 'zero padding ignored'),
        ('marcel/op/ps.py', '        if user is not None and user is not True:', '        if user:', 'optional value dropped'),
        ('marcel/op/write.py', "args.append('--tsv')", "args.append('--csv')", 'wrong option'),
        ('marcel/op/window.py', "['--overlap', overlap]", "['--overlap', disjoint]", 'wrong value'),
        ('marcel/op/join.py', "args = ['--keep'] if keep else []", 'args = []', 'option dropped'),
        ('marcel/op/red.py', "['--incremental'] if incremental else []", "[] if incremental else ['--incremental']", 'inverted'),
        ('marcel/op/upload.py', '[cluster, dir] + list(paths)', '[dir, cluster] + list(paths)', 'order of arguments'),
        ('marcel/op/read.py', "args.append('--headings')", "args.append('--heading')", 'unknown option'),
        ('marcel/op/sql.py', "op_args.extend(['--commit', commit])", "op_args.append('--commit')", 'no value'),
        ('marcel/api.py', 'def head(*args, **kwargs): return _generate_op(_head, *args, **kwargs)', 'def head(*args, **kwargs): return _generate_op(_tail, *args, **kwargs)', 'wrong operator'),
    ],
    'C02': [
        ('marcel/op/__init__.py', "    'popd',\n", '', 'not registered'),
        ('marcel/op/unique.py', 'self.consecutive = None', 'self.contiguous = None', 'no initial value'),
        ('marcel/op/dirs.py', "        self.validate()\n", '', 'not validated'),
        ('marcel/op/read.py', "self.at_most_one('headings', 'skip_headings')", "self.at_most_one('headings', 'skip-headings')", 'constraint on an unknown name'),
    ],
    'C03': [
        ('marcel/op/red.py', "'-i', '--incremental'", "'-r', '--running'", 'renamed option'),
        ('marcel/op/read.py', '{r:-s}, {r:--skip-headings}', '{r:-h}, {r:--skip-headings}', 'wrong pair'),
    ],
}
