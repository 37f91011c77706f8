"""F10: describing an operator (or a pipeline, or a value) never fails."""
import ast

from ..model import ClassInfo, FuncInfo, own_nodes, dotted, AnalysisBroken
from ..engine import Typestate
from ..ops import OpModel
from ..taint import parser_args

META = {
    'F10': {
        'explanation': 'The printed form (__repr__, __str__) of every operator, pipeline, function, job, variable value and other object is '
                       'executed abstractly along all paths with the methods it calls. An attribute it reads must be given a value on '
                       'every path of the constructor; an attribute that may be absent (None: before setup, or because an '
                       'optional argument was omitted) may be used only as a value to print, or under a test that it is present; whatever is '
                       'joined to or returned as text must be text; and every operator must have a printed form of its own.',
        'assumptions': ['printing a value supplied by the user does not fail'],
    },
}

ITERATES = {'len', 'sorted', 'list', 'tuple', 'set', 'enumerate', 'zip', 'map', 'sum', 'min', 'max', 'any', 'all', 'reversed', 'iter', 'next', 'filter', 'int', 'float', 'round', 'abs', 'hex', 'ord'}
TEXT_METHODS = {'join', 'format', 'strip', 'rstrip', 'lstrip', 'upper', 'lower', 'title', 'replace', 'ljust', 'rjust', 'center', 'strftime', 'isoformat',
                'op_name', '__repr__', '__str__', 'decode', 'hexdigest', 'capitalize', 'expandtabs', 'zfill', 'removeprefix', 'removesuffix'}


class InitTS(Typestate):
    """attributes of self bound by the constructor"""
    track_exc = False
    max_depth = 4

    def __init__(self, p, cls, facts):
        super().__init__(p)
        self.cls = cls
        self.facts = facts
        self.ran = set()

    def relevant(self, t):
        return t.cls is not None and self.cls.derives(t.cls)

    def on_assign(self, target, value, st, fr):
        self.ran.add(fr.func)
        if isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and target.value.id == fr.func.self_name():
            n = '?' + target.attr
            null = self.facts.may_be_none(value, fr.func)
            return [(st | {target.attr, n}) if null else (st | {target.attr}) - {n}]
        return [st]

    def on_call(self, call, targets, st, fr):
        # setattr(self, 'x', v), self.__dict__.update({...})
        if isinstance(call.func, ast.Name) and call.func.id == 'setattr' and len(call.args) == 3 and isinstance(call.args[1], ast.Constant):
            return [st | {call.args[1].value}]
        return None


class Facts:
    def __init__(self, p, om):
        self.p, self.om = p, om
        self._bound = {}
        self._args = {}
        self._conv = None
        self._null = {}
        self._after = {}
        self.env_value = p.cls('EnvValue', 'marcel.nestednamespace')

    def is_function(self, cls, attr):
        """is the attribute always a function, if present?"""
        from ..taint import function_converters
        if self._conv is None:
            self._conv = function_converters(self.p)
        a = self.parser(cls).get(attr)
        return bool(a) and all(meth != 'add_anon_list' and isinstance(conv, ast.Attribute) and conv.attr in self._conv and conv.attr != 'function_or_pipeline' for _, conv, meth, _ in a)

    def parser(self, cls):
        if cls not in self._args:
            from ..taint import parser_of
            q = None
            if cls in self.om.concrete:
                try:
                    q = parser_of(self.p, self.om, cls)
                except Exception:
                    q = None
            self._args[cls] = {}
            if q is not None:
                for name, attr, conv, meth, call, f in parser_args(self.p, q):
                    self._args[cls].setdefault(attr, []).append((name, conv, meth, call))
        return self._args[cls]

    def together(self, cls, attr):
        """attributes that are given a value wherever attr is"""
        out = None
        for g, v in cls.all_attr_assigns(attr):
            if isinstance(v, ast.Constant) and v.value is None:
                continue
            here = set()
            for n in own_nodes(g.node):
                for fld in ('body', 'orelse', 'finalbody'):
                    b = getattr(n, fld, None)
                    if isinstance(b, list):
                        here |= self._siblings(b, attr, v)
            here |= self._siblings(g.body, attr, v)
            out = here if out is None else out & here
        return out or set()

    def _siblings(self, b, attr, v):
        def sets(s):
            return {t.attr: s.value for t in s.targets if isinstance(t, ast.Attribute)} if isinstance(s, ast.Assign) else {}
        if not any(sets(s).get(attr) is v for s in b):
            return set()
        return {a for s in b for a, x in sets(s).items() if not (isinstance(x, ast.Constant) and x.value is None)}

    def bound(self, cls):
        """attributes certainly bound once an instance exists; None: not known"""
        if cls in self._bound:
            return self._bound[cls]
        out = set()
        for k in cls.mro():
            if not isinstance(k, ClassInfo):
                if k not in ('object', 'Exception', 'BaseException', 'ABC', 'abc.ABC', 'builtins.object', 'list', 'dict', 'tuple', 'set', 'str', 'int'):
                    self._bound[cls] = None
                    return None
        f = cls.find('__init__')
        self._after[cls] = (frozenset(), set())
        if isinstance(f, FuncInfo):
            ts = InitTS(self.p, cls, self)
            o = ts.run_function(f, cls, frozenset())
            for g in {f} | ts.ran:
                if any(isinstance(n, ast.Attribute) and n.attr == '__dict__' for n in own_nodes(g.node)):
                    self._bound[cls] = None
                    return None
            sts = [k[0] for k in o['ret']]
            # values of variables are created in two steps
            if cls.derives(self.env_value):
                more = []
                for nm in ('assign', 'from_persistent_state'):
                    g = cls.find(nm)
                    if isinstance(g, FuncInfo) and not abstract_only(g):
                        for st in sts:
                            more += [k[0] for k in ts.run_function(g, cls, st)['ret']]
                sts = more or sts
            if sts:
                out |= frozenset.intersection(*sts)
                self._after[cls] = (frozenset.union(*sts), ts.ran)
        for a, uses in self.parser(cls).items():
            if any(m in ('add_anon', 'add_anon_list') for _, _, m, _ in uses):
                out.add(a)
        self._bound[cls] = out
        return out

    def is_member(self, cls, a):
        return cls.find_attr(a) is not None or cls.find(a) is not None or a in getattr(cls, 'inner', {}) or \
            a.startswith('__') and (hasattr(object(), a) or a in ('__dict__', '__module__', '__weakref__', '__slots__', '__traceback__', '__cause__', '__context__'))

    def nullable(self, cls, a):
        k = (cls, a)
        if k not in self._null:
            self._null[k] = False
            self._null[k] = self._nullable(cls, a)
        return self._null[k]

    def _nullable(self, cls, a):
        uses = self.parser(cls).get(a, [])
        for _, _, m, call in uses:
            if m == 'add_anon_list':
                return False
            if m == 'add_anon':
                d = next((x.value for x in call.keywords if x.arg == 'default'), call.args[2] if len(call.args) > 2 else None)
                if d is None:
                    return False            # mandatory
                if isinstance(d, ast.Constant):
                    if d.value is None:
                        return True
        b = self.bound(cls)
        after, ran = self._after.get(cls, (frozenset(), set()))
        if '?' + a in after:
            return True
        for g, v in cls.all_attr_assigns(a):
            if g not in ran and self.may_be_none(v, g) and not (b is not None and g.name == '__init__'):
                return True
        v = cls.find_attr(a)
        if v is not None and not isinstance(v, (FuncInfo, ClassInfo)):
            if isinstance(v, ast.Constant) and v.value is None and not any(f.name == '__init__' for f, _ in cls.all_attr_assigns(a)):
                return True
        return False

    def may_be_none(self, v, g, depth=0):
        if v is None or depth > 3:
            return False
        if isinstance(v, ast.Constant):
            return v.value is None
        if isinstance(v, ast.IfExp):
            then = other = False
            if isinstance(v.body, ast.Name) and self._tests(v.test, v.body):
                return self.may_be_none(v.orelse, g, depth + 1)
            return self.may_be_none(v.body, g, depth + 1) or self.may_be_none(v.orelse, g, depth + 1)
        if isinstance(v, ast.Name):
            if v.id in g.params:
                d = default_of(g, v.id)
                return isinstance(d, ast.Constant) and d.value is None and not g.local_assigns().get(v.id)
            return any(self.may_be_none(x, g, depth + 1) for x in g.local_assigns().get(v.id, []))
        return False

    @staticmethod
    def _tests(test, name):
        return any(isinstance(n, ast.Name) and n.id == name.id for n in ast.walk(test))


def default_of(f, name):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if x.arg == name:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            return d
    return None


class ReprTS(Typestate):
    """state: texts of attribute chains known to be present"""
    track_exc = False
    max_depth = 4

    def __init__(self, p, facts, cls):
        super().__init__(p)
        self.facts, self.cls = facts, cls
        self.viol = []
        self.reads = 0

    def relevant(self, t):
        return t.cls is not None and t.name != '__init__' and not t.name.startswith('__') and \
            (self.cls.derives(t.cls) or t.cls.name in ('Function',)) or t.name in ('__repr__', '__str__')

    # ---- facts
    def owner(self, e, fr):
        """class whose attribute e (an Attribute) is"""
        if isinstance(e.value, ast.Name) and e.value.id == fr.func.self_name() and fr.func.cls is not None:
            return [fr.cls or fr.func.cls]
        t = self.p.infer(e.value, fr.func, fr.cls, binds=fr.binds)
        return [c for c in t or [] if isinstance(c, ClassInfo)]

    def missing(self, e, st, fr):
        """e may be None here"""
        if not isinstance(e, ast.Attribute) or self.known(e, st, fr):
            return False
        own = self.owner(e, fr)
        return any(self.facts.nullable(c, e.attr) for c in own) if len(own) < 6 else False

    def ident(self, e, fr):
        return ast.unparse(e) + ('' if not any(isinstance(n, ast.Name) and n.id != fr.func.self_name() for n in ast.walk(e)) else '@' + fr.func.qualname)

    def known(self, e, st, fr):
        return self.ident(e, fr) in st

    def deref(self, e, st, fr, how):
        e = self.local(e, fr)
        if isinstance(e, ast.Attribute) and self.missing(e, st, fr):
            self.viol.append(('absent', f'{ast.unparse(e)}', e, f'{ast.unparse(e)} may be absent when it is {how}', fr.func))

    def local(self, e, fr):
        if isinstance(e, ast.Name) and e.id not in fr.func.params:
            vs = fr.func.local_assigns().get(e.id, [])
            if len(vs) == 1 and isinstance(vs[0], ast.Attribute):
                return vs[0]
        return e

    # ---- hooks
    def on_test(self, test, truth, st, fr):
        e, nn = test, truth
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant):
            e = test.left
            if test.comparators[0].value is None:
                nn = (not truth) if isinstance(test.ops[0], (ast.Is, ast.Eq)) else truth
            else:
                nn = truth if isinstance(test.ops[0], (ast.Is, ast.Eq)) else False
        e = self.local(e, fr)
        if isinstance(e, ast.Attribute) and nn:
            st = st | {self.ident(e, fr)}
            for c in self.owner(e, fr)[:1]:
                st = st | {self.ident(ast.Attribute(e.value, a, ast.Load()), fr) for a in self.facts.together(c, e.attr)}
        return st

    def on_test_call(self, call, targets, truth, st, fr):
        if isinstance(call.func, ast.Name) and call.func.id in ('isinstance', 'callable', 'hasattr', 'len') and call.args and truth:
            e = self.local(call.args[0], fr)
            if isinstance(e, ast.Attribute):
                return st | {self.ident(e, fr)}
        return st

    def on_assign(self, target, value, st, fr):
        if isinstance(target, ast.Attribute):
            k = self.ident(target, fr)
            st = frozenset(x for x in st if not (x == k or x.startswith(k + '.')))
            if value is not None and not self.facts.may_be_none(value, fr.func) and not (isinstance(value, ast.Attribute) and self.missing(value, st, fr)):
                st = st | {k}
        return [st]

    def on_expr(self, e, st, fr):
        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
            self.read(e, st, fr)
        elif isinstance(e, ast.Subscript):
            self.deref(e.value, st, fr, 'subscripted')
        elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            for x in (e.left, e.right):
                self.deref(x, st, fr, 'added')
            for x, y in ((e.left, e.right), (e.right, e.left)):
                if certainly_text(y) and not is_text(self, x, st, fr):
                    self.viol.append(('text', f'{ast.unparse(x)}', x, f'{ast.unparse(x)} is joined to other text, but need not be text', fr.func))
        elif isinstance(e, ast.FormattedValue) and e.format_spec is not None:
            self.deref(e.value, st, fr, 'formatted')
        elif isinstance(e, ast.Compare):
            for op, x in zip(e.ops, e.comparators):
                if isinstance(op, (ast.In, ast.NotIn)):
                    self.deref(x, st, fr, 'searched')
                elif isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    self.deref(x, st, fr, 'compared')
        return [st]

    def read(self, e, st, fr):
        self.reads += 1
        self.deref(e.value, st, fr, f'asked for its {e.attr}')
        if e.attr.startswith('__') and not isinstance(e.value, ast.Attribute):
            return
        for c in self.owner(e, fr)[:5]:
            b = self.facts.bound(c)
            if b is None or e.attr in b or self.facts.is_member(c, e.attr) or c.find('__getattr__') is not None or self.known(e, st, fr):
                continue
            if any(isinstance(x, ClassInfo) and x is not c and x.derives(c) for x in self.p.subclasses(c)) and \
                    all(self.facts.is_member(x, e.attr) or e.attr in (self.facts.bound(x) or {e.attr}) for x in self.p.subclasses(c) if x is not c):
                continue
            self.viol.append(('unbound', f'{c.name}.{e.attr}', e, f'{c.name}.{e.attr} is not given a value by the constructor', fr.func))

    def on_iter(self, s, st, fr):
        self.deref(s.iter, st, fr, 'iterated over')
        return [st]

    def expr(self, e, states, fr):
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in e.generators:
                for (st, fa) in states:
                    self.deref(g.iter, st, fr, 'iterated over')
        return super().expr(e, states, fr)

    def on_call(self, call, targets, st, fr):
        f = call.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Attribute):
                self.read(f.value, st, fr)
            self.deref(f.value, st, fr, f'asked for its {f.attr}')
            self.method(call, fr)
            if f.attr == 'extend' and call.args:
                self.deref(call.args[0], st, fr, 'iterated over')
            if f.attr == 'join' and len(call.args) == 1 and not (isinstance(f.value, ast.Attribute) and f.value.attr == 'path'):
                self.join(call.args[0], st, fr)
            if not any(isinstance(t, (FuncInfo, ClassInfo)) for t in targets) and isinstance(f.value, ast.Name) and f.value.id == fr.func.self_name() and fr.func.cls is not None:
                c = fr.cls or fr.func.cls
                b = self.facts.bound(c)
                if b is not None and f.attr not in b and not self.facts.is_member(c, f.attr) and c.find('__getattr__') is None and not builtin_member(c, f.attr):
                    self.viol.append(('unbound', f'{c.name}.{f.attr}', call, f'{c.name} has no method {f.attr}', fr.func))
        elif isinstance(f, ast.Name) and f.id in ITERATES and not any(isinstance(t, (FuncInfo, ClassInfo)) for t in targets):
            for a in call.args:
                self.deref(a.value if isinstance(a, ast.Starred) else a, st, fr, 'iterated over' if f.id != 'len' else 'measured')
        return None

    def method(self, call, fr):
        """a method asked of a function that the user gave"""
        e = self.local(call.func.value, fr)
        if not (isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == fr.func.self_name() and fr.func.cls is not None):
            return
        if not self.facts.is_function(fr.cls or fr.func.cls, e.attr):
            return
        F = self.p.cls('Function', 'marcel.function')
        if not isinstance(F.find(call.func.attr), FuncInfo) and not any(isinstance(c.find(call.func.attr), FuncInfo) for c in self.p.subclasses(F)):
            self.viol.append(('unbound', f'Function.{call.func.attr}', call, f'a function has no method {call.func.attr}', fr.func))

    def join(self, x, st, fr):
        self.deref(x, st, fr, 'iterated over')
        for e in elements(x, fr.func):
            if not is_text(self, e, st, fr):
                self.viol.append(('text', f'{ast.unparse(e)}', e, f'{ast.unparse(e)} is joined to other text, but need not be text', fr.func))

    def on_return(self, node, st, fr):
        if fr.func.name in ('__repr__', '__str__') and getattr(node, 'value', None) is not None:
            self.deref(node.value, st, fr, 'returned as the printed form')
        return super().on_return(node, st, fr)


def elements(x, f, depth=0):
    """expressions of which the elements of the collection x are made"""
    if depth > 3:
        return []
    if isinstance(x, (ast.List, ast.Tuple)):
        out = []
        for e in x.elts:
            out += elements(e.value, f, depth + 1) if isinstance(e, ast.Starred) else [e]
        return out
    if isinstance(x, (ast.ListComp, ast.GeneratorExp)):
        return [x.elt]
    if isinstance(x, ast.IfExp):
        return elements(x.body, f, depth + 1) + elements(x.orelse, f, depth + 1)
    if isinstance(x, ast.BinOp):
        return elements(x.left, f, depth + 1) + elements(x.right, f, depth + 1)
    if isinstance(x, ast.Call):
        n = x.func.id if isinstance(x.func, ast.Name) else None
        if n in ('list', 'tuple', 'sorted', 'reversed') and x.args:
            return elements(x.args[0], f, depth + 1)
        return []
    if isinstance(x, ast.Name):
        out = []
        for v in f.local_assigns().get(x.id, []):
            if v is not None:
                out += elements(v, f, depth + 1)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == x.id and n.args:
                if n.func.attr == 'append':
                    out.append(n.args[0])
                elif n.func.attr == 'insert' and len(n.args) > 1:
                    out.append(n.args[1])
                elif n.func.attr == 'extend':
                    out += elements(n.args[0], f, depth + 1)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == x.id and isinstance(n.op, ast.Add):
                out += elements(n.value, f, depth + 1)
        return out
    if isinstance(x, ast.Attribute):
        return [ast.copy_location(ast.Subscript(value=x, slice=ast.Constant(value=0), ctx=ast.Load()), x)]
    return []


def certainly_text(e):
    return isinstance(e, ast.JoinedStr) or isinstance(e, ast.Constant) and isinstance(e.value, str) or \
        isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and (certainly_text(e.left) or certainly_text(e.right)) or \
        isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('str', 'repr')


def is_text(ts, e, st, fr, depth=0):
    if depth > 4:
        return True
    f = fr.func
    if isinstance(e, ast.Constant):
        return isinstance(e.value, str)
    if isinstance(e, ast.JoinedStr):
        return True
    if isinstance(e, ast.IfExp):
        return is_text(ts, e.body, st, fr, depth + 1) and is_text(ts, e.orelse, st, fr, depth + 1)
    if isinstance(e, ast.BoolOp):
        # the value of x and y may be that of x
        return all(is_text(ts, x, st, fr, depth + 1) for x in e.values)
    if isinstance(e, ast.Compare) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return False
    if isinstance(e, ast.BinOp):
        return is_text(ts, e.left, st, fr, depth + 1)
    if isinstance(e, ast.Call):
        return True                 # str(x), x.snippet(), ...
    if isinstance(e, ast.Name):
        vs = f.local_assigns().get(e.id, [])
        return all(v is None or is_text(ts, v, st, fr, depth + 1) for v in vs)
    if isinstance(e, ast.Subscript):
        if isinstance(e.value, ast.Attribute) and ast.unparse(e.slice) == '0':
            return text_attr(ts, e.value, fr, True)
        return True
    if isinstance(e, ast.Attribute):
        return text_attr(ts, e, fr, False)
    return True


# converters that only let text through
TEXT_CONV = set()


def text_attr(ts, e, fr, element):
    """may the attribute (or an element of it) be something other than text?"""
    for c in ts.owner(e, fr)[:5]:
        uses = ts.facts.parser(c).get(e.attr)
        if uses:
            # whatever the converter, functions are let through, to be evaluated during setup, and without one, anything is
            return False
        vals = [v for _, v in c.all_attr_assigns(e.attr)]
        if vals and all(v is not None and isinstance(v, ast.Constant) and v.value is None or isinstance(v, ast.Attribute) and v.attr == e.attr for v in vals):
            return False            # set from elsewhere
        for v in vals:
            if v is None:
                continue
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'eval_function':
                if any(not (isinstance(x, ast.Name) and x.id == 'str') for x in v.args[2:]) or len(v.args) < 3:
                    return False
                continue
            if isinstance(v, ast.Constant) and (v.value is None or isinstance(v.value, str)):
                continue
            if element:
                continue
            if isinstance(v, (ast.List, ast.Dict, ast.Tuple, ast.Set, ast.Lambda, ast.ListComp)) or isinstance(v, ast.Constant):
                return False
            t = [x for g, vv in c.all_attr_assigns(e.attr) if vv is v for x in (ts.p.infer(v, g, c) or [])]
            if any(isinstance(x, ClassInfo) for x in t):
                return False
    return True


def builtin_member(cls, a):
    import builtins
    for k in cls.mro():
        if not isinstance(k, ClassInfo):
            b = getattr(builtins, k.rsplit('.', 1)[-1], None)
            if b is None or hasattr(b, a):
                return True
    return False


def abstract_only(f):
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return bool(b) and all(isinstance(s, (ast.Assert, ast.Raise)) for s in b)


def check_F10(ctx):
    p = ctx.p
    om = OpModel(p)
    facts = Facts(p, om)
    ctx.rule('exists', 'every operator has a printed form')
    ctx.rule('unbound', 'every attribute of which a printed form is made is given a value by the constructor')
    ctx.rule('absent', 'an attribute that may be absent is used only to print it or under a test that it is present')
    ctx.rule('text', 'what is joined to text is text')
    classes = p.classes.values() if isinstance(p.classes, dict) else p.classes
    targets = []
    made = set()
    for g in p.functions:
        for n in own_nodes(g.node):
            if isinstance(n, ast.Call):
                for t in p.callees(n, g, g.cls):
                    if isinstance(t, ClassInfo):
                        made.add(t)
                    elif isinstance(t, FuncInfo) and t.name == '__init__' and not (isinstance(n.func, ast.Attribute)):
                        made.add(t.cls)
    for c in sorted(classes, key=lambda c: c.qualname):
        if c.module.name.startswith('test') or c.derives(om.AbstractOp) and c not in om.concrete:
            continue
        for nm in ('__repr__', '__str__'):
            f = c.find(nm)
            leaf = not [x for x in p.subclasses(c) if x is not c]
            if isinstance(f, FuncInfo) and (c in om.concrete or leaf or c in made):
                targets.append((c, f))
            elif nm == '__repr__' and c in om.concrete:
                ctx.bad('exists', c.name, c.methods.get('__init__') or c.module, f'{c.name} has no printed form', c.node)
    reads = 0
    seen = set()
    for c, f in targets:
        key = f'{c.name}.{f.name}'
        if abstract_only(f):
            if c in om.concrete:
                ctx.bad('exists', c.name, f, f'{c.name} has no printed form of its own: describing it fails', f.node)
            continue
        ctx.count('printed forms', 1)
        ts = ReprTS(p, facts, c)
        ts.run_function(f, c, frozenset())
        reads += ts.reads
        if not ts.viol:
            ctx.ok('absent', key)
            ctx.ok('unbound', key)
            ctx.ok('text', key)
        for rule, what, node, msg, g in ts.viol:
            k = f'{g.cls.name}.{f.name}:{what}' if g.cls is not None else f'{key}:{what}'
            if (rule, k) in seen:
                continue
            seen.add((rule, k))
            ctx.bad(rule, k, g, f'{key}: {msg}', node)
    ctx.count('attributes read by printed forms', reads)
    ctx.need('printed forms', 40)
    ctx.need('attributes read by printed forms', 40)


CHECKS = {'F10': check_F10}

MUTANTS = {
    'F10': [
        ('marcel/op/map.py', "        return f'map({self.function.snippet()})'", "        return f'map({self.function.snippet()}, {self.count})'", 'attribute not bound'),
        ('marcel/op/window.py', 'if self.overlap:\n            options.append', 'if self.overlap or self.disjoint:\n            options.append', 'harmless control') if False else
        ('marcel/op/squish.py', "return f'squish({self.function.snippet()})' if self.function else 'squish()'", "return f'squish({self.function.snippet()})'", 'optional function not tested'),
        ('marcel/op/red.py', 'None if f is None else f.snippet()', 'f.snippet()', 'elements') if False else
        ('marcel/op/history.py', "args.append(f'n={self.n}')", 'args.append(self.n)', 'number joined'),
        ('marcel/op/gen.py', "        return f'gen({args_description})'", "        return 'gen(' + self.args_description + ')'", 'no such attribute'),
        ('marcel/op/head.py', "    def __repr__(self):\n        return f'head({self.n_arg})'\n", '', 'no printed form'),
    ],
}
