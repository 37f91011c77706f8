"""Bring a module into a canonical form before it is analysed, so that the checks judge what the code does and not how it is
written. Every step keeps the meaning of the program:

- statements without effect are dropped;
- a function that isn't in the inventory of functions (inventory.txt: the functions known when the checks were written) is a
  helper extracted from a known one. It is put back where it is called, if that can be done without changing control flow;
- a local assigned and used once, in the next statement, is replaced by its value; a local that is another name of a parameter
  is replaced by the parameter;
- formatting calls become f-strings, a constant is compared on the right, loops over an index that is only used to fetch the
  element become loops over the elements, loops that only append become comprehensions, "while True: if not c: break" becomes
  "while c".

What cannot be brought into this form is analysed as it is.
"""
import ast
import copy
import os
import re
import string

HERE = os.path.dirname(os.path.abspath(__file__))
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPE = FUNC + (ast.ClassDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
_inventory = None


def inventory():
    global _inventory
    if _inventory is None:
        try:
            with open(os.path.join(HERE, 'inventory.txt')) as f:
                _inventory = {l.strip() for l in f if l.strip()}
        except OSError:
            _inventory = set()
    return _inventory


def own(n):
    """nodes below n, not of nested scopes"""
    todo = list(ast.iter_child_nodes(n))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, SCOPE):
            todo.extend(ast.iter_child_nodes(x))


def own_of(stmts):
    for s in stmts:
        yield s
        if not isinstance(s, SCOPE):
            yield from own(s)


def is_name(e, i=None):
    return isinstance(e, ast.Name) and (i is None or e.id == i)


def lists(n):
    """(owner, field) of every statement list in the own scope of function n"""
    out = []
    todo = [n]
    while todo:
        x = todo.pop()
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(x, f, None)
            if isinstance(b, list) and (b and isinstance(b[0], ast.stmt)):
                out.append((x, f))
                todo.extend(s for s in b if not isinstance(s, SCOPE))
        for h in getattr(x, 'handlers', []):
            todo.append(h)
        for c in getattr(x, 'cases', []):
            todo.append(c)
    return out


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, FUNC)]


def params_of(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def pure(e):
    """no effect, cannot fail in a way that matters"""
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return all(pure(x) for x in e.elts)
    if isinstance(e, ast.Dict):
        return all(x is not None and pure(x) for x in e.keys + e.values)
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.operand, ast.Constant)
    return False


# ---------------------------------------------------------------- statements without effect
def drop_noops(tree):
    for f in functions(tree):
        loaded = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store)}
        declared = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        for o, fld in lists(f):
            b = getattr(o, fld)
            out = []
            for i, s in enumerate(b):
                if isinstance(s, ast.Pass):
                    continue
                if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant, ast.Name)):
                    if o is f and i == 0 and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                        out.append(s)
                    continue
                if isinstance(s, ast.AnnAssign):
                    if s.value is None:
                        continue
                    s = ast.copy_location(ast.Assign([s.target], s.value), s)
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id not in loaded and \
                        s.targets[0].id not in declared and pure(s.value):
                    continue
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and is_name(s.value, s.targets[0].id):
                    continue
                if isinstance(s, ast.If) and isinstance(s.test, ast.Constant):
                    out += s.body if s.test.value else s.orelse
                    continue
                if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and not s.test.value:
                    out += s.orelse
                    continue
                if isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and s.test.value:
                    continue
                if isinstance(s, ast.For) and isinstance(s.iter, (ast.Tuple, ast.List)) and not s.iter.elts:
                    out += s.orelse
                    continue
                out.append(s)
            setattr(o, fld, out)
        # empty compound statements
        for _ in range(3):
            for o, fld in lists(f):
                out = []
                for s in getattr(o, fld):
                    if isinstance(s, ast.If) and not s.body and s.orelse:
                        s.test, s.body, s.orelse = negate(s.test), s.orelse, []
                    if isinstance(s, ast.If) and not s.body and not s.orelse:
                        if not pure(s.test):
                            out.append(ast.copy_location(ast.Expr(s.test), s))
                        continue
                    if isinstance(s, ast.Try) and not s.body and not s.finalbody:
                        out += s.orelse
                        continue
                    if isinstance(s, ast.Try) and not s.handlers and not s.finalbody:
                        out += s.body + s.orelse
                        continue
                    out.append(s)
                setattr(o, fld, out)
        fill(f)


def fill(f):
    """no empty bodies"""
    for n in [f] + list(own(f)):
        if isinstance(n, (ast.For, ast.While, ast.If, ast.With, ast.Try, ast.ExceptHandler) + FUNC) and not n.body:
            n.body = [ast.copy_location(ast.Pass(), n)]


# ---------------------------------------------------------------- expressions
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Is: ast.Is, ast.IsNot: ast.IsNot}
NEG = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}


def negate(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in NEG:
        return ast.copy_location(ast.Compare(e.left, [NEG[type(e.ops[0])]()], e.comparators), e)
    return ast.copy_location(ast.UnaryOp(ast.Not(), e), e)


class Exprs(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.left, ast.Constant) and not isinstance(n.comparators[0], ast.Constant) and type(n.ops[0]) in FLIP:
            return ast.copy_location(ast.Compare(n.comparators[0], [FLIP[type(n.ops[0])]()], [n.left]), n)
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            o = n.operand
            if isinstance(o, ast.Compare) and len(o.ops) == 1 and type(o.ops[0]) in NEG:
                return negate(o)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            r = from_format(n)
            if r is not None:
                return r
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            r = from_percent(n)
            if r is not None:
                return r
        return n


def fvalue(v, conv=-1, spec=None):
    return ast.FormattedValue(v, conv, spec)


def joined(parts, n):
    return ast.fix_missing_locations(ast.copy_location(ast.JoinedStr(parts), n))


def from_format(n):
    if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
        return None
    kw = {k.arg: k.value for k in n.keywords}
    parts, i = [], 0
    try:
        items = list(string.Formatter().parse(n.func.value.value))
    except ValueError:
        return None
    for lit, fld, spec, conv in items:
        if lit:
            parts.append(ast.Constant(lit))
        if fld is None:
            continue
        if spec and '{' in spec:
            return None
        if fld == '':
            if i >= len(n.args):
                return None
            v = n.args[i]
            i += 1
        elif fld.isdigit() and int(fld) < len(n.args):
            v = n.args[int(fld)]
        elif fld in kw:
            v = kw[fld]
        else:
            return None
        parts.append(fvalue(copy.deepcopy(v), ord(conv) if conv else -1, ast.JoinedStr([ast.Constant(spec)]) if spec else None))
    return joined(parts, n)


def from_percent(n):
    vals = list(n.right.elts) if isinstance(n.right, ast.Tuple) else [n.right]
    bits = re.split(r'(%[srd%])', n.left.value)
    if any('%' in b and not re.fullmatch(r'%[srd%]', b) for b in bits):
        return None
    parts = []
    for b in bits:
        if b == '%%':
            parts.append(ast.Constant('%'))
        elif re.fullmatch(r'%[srd]', b):
            if not vals:
                return None
            parts.append(fvalue(vals.pop(0), ord('r') if b == '%r' else -1))
        elif b:
            parts.append(ast.Constant(b))
    if vals or isinstance(n.right, ast.Dict):
        return None
    return joined(parts, n)


# ---------------------------------------------------------------- extracted helpers
def qualnames(tree, modname):
    """{node: qualname} of every function"""
    out = {}

    def walk(n, prefix):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, FUNC):
                out[c] = f'{prefix}{c.name}'
                walk(c, f'{prefix}{c.name}.')
            elif isinstance(c, ast.ClassDef):
                walk(c, f'{prefix}{c.name}.')
            else:
                walk(c, prefix)
    walk(tree, f'{modname}:')
    return out


class Helper:
    def __init__(self, f, cls, parent):
        self.f = f
        self.cls = cls
        self.parent = parent
        self.static = any(is_name(d, 'staticmethod') for d in f.decorator_list)
        self.cm = any(is_name(d, 'classmethod') for d in f.decorator_list)
        self.method = cls is not None and parent is None


def usable(f):
    if isinstance(f, ast.AsyncFunctionDef) or f.args.posonlyargs:
        return False
    if any(not is_name(d, 'staticmethod') for d in f.decorator_list):
        return False
    for n in own(f):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Nonlocal)):
            return False
    return True


def find_helpers(tree, modname, inv):
    qn = qualnames(tree, modname)
    out = {}
    names = {}
    for f in qn:
        names[f.name] = names.get(f.name, 0) + 1

    def walk(n, cls, parent):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, FUNC):
                if qn[c] not in inv and usable(c) and names[c.name] == 1 and not (c.name.startswith('__') and c.name.endswith('__')):
                    out[c.name] = Helper(c, cls, parent)
                walk(c, None if parent is None and cls is None else cls, c)
            elif isinstance(c, ast.ClassDef):
                walk(c, c, None)
            else:
                walk(c, cls, parent)
    walk(tree, None, None)
    # not those that call themselves
    uses = {nm: {x.attr if isinstance(x, ast.Attribute) else x.id for x in ast.walk(h.f) if isinstance(x, (ast.Attribute, ast.Name))} & set(out) for nm, h in out.items()}
    for nm in list(out):
        seen, todo = set(), [nm]
        while todo:
            for x in uses[todo.pop()]:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        if nm in seen:
            del out[nm]
    return out


def bind(h, call):
    """{param: argument} or None"""
    f = h.f
    ps = [a.arg for a in f.args.args]
    args = list(call.args)
    b = {}
    if h.method and not h.static:
        if not isinstance(call.func, ast.Attribute) or not ps:
            return None
        b[ps[0]] = call.func.value
        ps = ps[1:]
    star = None
    if args and isinstance(args[-1], ast.Starred):
        star = args.pop().value
    if any(isinstance(a, ast.Starred) for a in args):
        return None
    if len(args) > len(ps):
        if not f.args.vararg or star is not None:
            return None
        b[f.args.vararg.arg] = ast.Tuple(args[len(ps):], ast.Load())
        args = args[:len(ps)]
    elif star is not None:
        if not f.args.vararg or len(args) != len(ps):
            return None
        b[f.args.vararg.arg] = star
    elif f.args.vararg:
        b[f.args.vararg.arg] = ast.Tuple([], ast.Load())
    for p, a in zip(ps, args):
        b[p] = a
    kws = [k for k in call.keywords if k.arg is not None]
    dbl = [k for k in call.keywords if k.arg is None]
    names = ps + [a.arg for a in f.args.kwonlyargs]
    for k in kws:
        if k.arg not in names or k.arg in b:
            return None
        b[k.arg] = k.value
    if dbl:
        if len(dbl) > 1 or not f.args.kwarg:
            return None
        b[f.args.kwarg.arg] = dbl[0].value
    elif f.args.kwarg:
        b[f.args.kwarg.arg] = ast.Dict([], [])
    dflt = dict(zip(reversed([a.arg for a in f.args.args]), reversed(f.args.defaults)))
    dflt.update({a.arg: d for a, d in zip(f.args.kwonlyargs, f.args.kw_defaults) if d is not None})
    for p in names:
        if p not in b:
            if p not in dflt or not isinstance(dflt[p], ast.Constant):
                return None
            b[p] = dflt[p]
    return b


def chain(e):
    """Name or attributes of a Name"""
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


class Rename(ast.NodeTransformer):
    def __init__(self, sub, ren):
        self.sub = sub
        self.ren = ren

    def visit_Name(self, n):
        if n.id in self.sub and isinstance(n.ctx, ast.Load):
            return ast.copy_location(copy.deepcopy(self.sub[n.id]), n)
        if n.id in self.ren:
            n.id = self.ren[n.id]
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name in self.ren:
            n.name = self.ren[n.name]
        return n

    def visit_arg(self, n):
        return n


def stored(nodes):
    out = set()
    for n in nodes:
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, SCOPE) and not isinstance(n, ast.Lambda):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in n.names}
    return out


_uid = [0]


def instantiate(h, call, caller, keep=()):
    """statements of the helper, with its parameters replaced; None if that can't be done"""
    b = bind(h, call)
    if b is None:
        return None
    body = copy.deepcopy(h.f.body)
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
        body = body[1:]
    nodes = [x for s in body for x in ast.walk(s)]
    st = stored(nodes)
    glob = {x for n in nodes if isinstance(n, ast.Global) for x in n.names}
    if glob & ({n.id for n in ast.walk(caller) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(params_of(caller))):
        if not glob <= {x for n in own(caller) if isinstance(n, ast.Global) for x in n.names}:
            return None
    st -= glob
    attrs_stored = {n.attr for n in nodes if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))}
    if any(isinstance(n, ast.Name) and n.id == 'super' for n in nodes) and not (
            isinstance(call.func, ast.Attribute) and is_name(call.func.value, (params_of(caller) or [''])[0])):
        return None
    used = {n.id for n in ast.walk(caller) if isinstance(n, ast.Name)} | set(params_of(caller)) | \
           {n.name for n in ast.walk(caller) if isinstance(n, ast.ExceptHandler) and n.name}
    own_params = set(params_of(h.f))
    # names of an enclosing function, for a nested helper
    inner_params = {a.arg for n in nodes if isinstance(n, SCOPE) and not isinstance(n, ast.ClassDef) for a in ast.walk(n.args) if isinstance(a, ast.arg)}
    if inner_params & (own_params | used) and inner_params & own_params:
        return None
    sub, ren, pre = {}, {}, []

    def fresh(x):
        if x not in used or x in keep:
            return x
        _uid[0] += 1
        return f'{x}_h{_uid[0]}'
    for p in sorted(own_params):
        a = b[p]
        direct = isinstance(a, (ast.Name, ast.Constant)) or chain(a) and not any(
            isinstance(x, ast.Attribute) and x.attr in attrs_stored for x in ast.walk(a))
        if p in st:
            direct = False
        if direct:
            sub[p] = a
        else:
            n = fresh(p)
            if n != p:
                ren[p] = n
            pre.append(ast.Assign([ast.Name(n, ast.Store())], a))
    # parameters are evaluated in the order of the call
    order = {id(x): i for i, x in enumerate(ast.walk(call))}
    pre.sort(key=lambda s: order.get(id(s.value), 0))
    pre = [ast.copy_location(ast.Assign(s.targets, copy.deepcopy(s.value)), call) for s in pre]
    for x in sorted(st - own_params):
        n = fresh(x)
        if n != x:
            ren[x] = n
    if ren and any(isinstance(n, FUNC + (ast.ClassDef,)) and n.name in ren for n in nodes):
        return None
    tr = Rename(sub, ren)
    body = [tr.visit(s) for s in body]
    return pre + body


def has_return(s):
    return isinstance(s, ast.Return) or not isinstance(s, SCOPE) and any(isinstance(n, ast.Return) for n in own(s))


def ends(stmts):
    """control never reaches the end of stmts"""
    if not stmts:
        return False
    s = stmts[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return bool(s.orelse) and ends(s.body) and ends(s.orelse)
    if isinstance(s, ast.With):
        return ends(s.body) and not any(False for _ in [])
    if isinstance(s, ast.Try):
        if ends(s.finalbody):
            return True
        return (ends(s.body) or bool(s.orelse) and ends(s.orelse)) and all(ends(h.body) for h in s.handlers)
    if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(n, ast.Break) for n in own(s)):
        return True
    return False


class CantInline(Exception):
    pass


def tailify(stmts, ret, final):
    """statements with 'return E' replaced by ret(E), such that control ends up after them. final: what falling off the end does"""
    for i, s in enumerate(stmts):
        if not has_return(s):
            if isinstance(s, ast.Raise):
                return stmts[:i + 1]
            continue
        rest = stmts[i + 1:]
        if isinstance(s, ast.Return):
            return stmts[:i] + ret(s)
        if isinstance(s, ast.If):
            both = not ends(s.body) and not ends(s.orelse) and rest
            if both and sum(1 for x in rest for _ in ast.walk(x)) > 400:
                raise CantInline()
            nb = s.body + ([] if ends(s.body) else rest)
            no = s.orelse + ([] if ends(s.orelse) else (copy.deepcopy(rest) if both else rest))
            n = ast.copy_location(ast.If(s.test, tailify(nb, ret, final) or [ast.Pass()], tailify(no, ret, final)), s)
            return stmts[:i] + [n]
        if isinstance(s, ast.With):
            if rest and not ends(s.body):
                raise CantInline()
            s.body = tailify(s.body, ret, final) or [ast.Pass()]
            return stmts[:i] + [s]
        if isinstance(s, ast.Try):
            if any(has_return(x) for x in s.finalbody):
                raise CantInline()
            parts = [s.body if not s.orelse else s.orelse] + [h.body for h in s.handlers]
            if s.orelse and any(has_return(x) for x in s.body):
                raise CantInline()
            if rest and not all(ends(b) for b in parts):
                # what falls out of the statement continues with the rest: only if that can't be confused with a return
                if any(has_return(x) for x in s.body) or s.orelse:
                    raise CantInline()
                if not ends(s.body):
                    # returns in handlers only
                    if all(ends(h.body) for h in s.handlers) and not any(has_return(x) for x in rest) and False:
                        pass
                    raise CantInline()
                raise CantInline()
            if s.orelse:
                s.orelse = tailify(s.orelse, ret, final) or [ast.Pass()]
            else:
                s.body = tailify(s.body, ret, final) or [ast.Pass()]
            for h in s.handlers:
                h.body = tailify(h.body, ret, final) or [ast.Pass()]
            return stmts[:i] + [s]
        if isinstance(s, (ast.For, ast.While)):
            inner = [x for x in own(s) if isinstance(x, (ast.For, ast.While))]
            if s.orelse or any(has_return(x) for x in inner) or any(isinstance(x, ast.Break) for b in s.body for x in breaks(b)):
                raise CantInline()
            for t in own(s):
                if isinstance(t, ast.Try) and any(has_return(x) for x in t.finalbody):
                    raise CantInline()

            class T(ast.NodeTransformer):
                def visit_Return(self, n):
                    return ret(n) + [ast.copy_location(ast.Break(), n)]

                def visit_FunctionDef(self, n):
                    return n
                visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef
            s.body = [y for x in s.body for y in (lambda r: r if isinstance(r, list) else [r])(T().visit(x))]
            s.orelse = tailify(rest, ret, final)
            return stmts[:i] + [s]
        raise CantInline()
    return stmts + (final if not ends(stmts) else [])


def breaks(s):
    """break statements that leave the loop s is in"""
    if isinstance(s, (ast.For, ast.While) + SCOPE):
        return
    if isinstance(s, ast.Break):
        yield s
    for c in ast.iter_child_nodes(s):
        yield from breaks(c)


def first_effect(e, target):
    """is target evaluated before anything in e that could have an effect? (None: not found)"""
    if e is target:
        return True
    if isinstance(e, (ast.Constant, ast.Name)):
        return None
    if isinstance(e, SCOPE + COMP):
        if isinstance(e, COMP):
            r = first_effect(e.generators[0].iter, target)
            if r is not None:
                return r
        return False if any(x is target for x in ast.walk(e)) else 'effect'
    if isinstance(e, ast.BoolOp):
        r = first_effect(e.values[0], target)
        return r if r is not None else (False if any(x is target for x in ast.walk(e)) else 'effect')
    if isinstance(e, ast.IfExp):
        r = first_effect(e.test, target)
        return r if r is not None else (False if any(x is target for x in ast.walk(e)) else 'effect')
    kids = list(ast.iter_child_nodes(e))
    for k in kids:
        if isinstance(k, (ast.expr_context, ast.operator, ast.unaryop, ast.cmpop, ast.boolop)):
            continue
        r = first_effect(k, target)
        if r == 'effect':
            return False if any(x is target for x in ast.walk(e)) else 'effect'
        if r is not None:
            return r
    if isinstance(e, ast.Call):
        return 'effect'
    return None


def heads(s):
    """expressions that statement s evaluates first, once"""
    if isinstance(s, (ast.Return, ast.Expr)):
        return [s.value] if s.value is not None else []
    if isinstance(s, ast.Assign):
        return [s.value]
    if isinstance(s, ast.AugAssign):
        return [s.value] if isinstance(s.target, ast.Name) or chain(s.target) else []
    if isinstance(s, ast.If):
        return [s.test]
    if isinstance(s, ast.For):
        return [s.iter]
    if isinstance(s, ast.With):
        return [s.items[0].context_expr]
    if isinstance(s, ast.Raise):
        return [s.exc] if s.exc is not None else []
    if isinstance(s, ast.Assert):
        return [s.test]
    return []


def set_head(s, e):
    if isinstance(s, (ast.Return, ast.Expr, ast.Assign, ast.AugAssign)):
        s.value = e
    elif isinstance(s, (ast.If, ast.Assert)):
        s.test = e
    elif isinstance(s, ast.For):
        s.iter = e
    elif isinstance(s, ast.With):
        s.items[0].context_expr = e
    elif isinstance(s, ast.Raise):
        s.exc = e


class Replace(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old = old
        self.new = new

    def visit(self, n):
        if n is self.old:
            return self.new
        return super().visit(n)


def helper_of(call, helpers, caller):
    if not isinstance(call, ast.Call):
        return None
    fn = call.func
    if isinstance(fn, ast.Attribute):
        h = helpers.get(fn.attr)
        if h is not None and h.method and h.f is not caller:
            if chain(fn.value) or h.static:
                return h
    elif isinstance(fn, ast.Name):
        h = helpers.get(fn.id)
        if h is not None and not h.method and h.f is not caller:
            if h.parent is not None and h.parent is not caller:
                return None
            return h
    return None


def single_return(h):
    b = h.f.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
        b = b[1:]
    if len(b) == 1 and isinstance(b[0], ast.Return) and b[0].value is not None:
        return b[0].value
    return None


class Inliner:
    def __init__(self, tree, helpers):
        self.tree = tree
        self.helpers = helpers
        self.changed = False

    def run(self):
        for _ in range(6):
            self.changed = False
            for f in functions(self.tree):
                self.function(f)
            if not self.changed:
                return

    def function(self, f):
        self.exprs(f)
        for _ in range(12):
            before = self.changed
            self.changed = False
            for o, fld in lists(f):
                self.block(f, o, fld)
            again = self.changed
            self.changed = before or again
            if not again:
                return

    def exprs(self, f):
        """calls of helpers that only return an expression"""
        me = self

        class T(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                h = helper_of(n, me.helpers, f)
                if h is None:
                    return n
                e = single_return(h)
                if e is None:
                    return n
                b = bind(h, n)
                if b is None:
                    return n
                e = copy.deepcopy(e)
                nodes = list(ast.walk(e))
                if any(isinstance(x, SCOPE + COMP + (ast.NamedExpr,)) for x in nodes):
                    inner = {a.arg for x in nodes for a in ast.walk(x) if isinstance(a, ast.arg)} | {x.id for x in nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    free = {x.id for a in b.values() for x in ast.walk(a) if isinstance(x, ast.Name)}
                    if inner & (set(b) | free):
                        return n
                if any(is_name(x, 'super') for x in nodes):
                    return n
                for p, a in b.items():
                    uses = sum(1 for x in nodes if is_name(x, p))
                    if not (isinstance(a, ast.Constant) or chain(a)) and uses != 1:
                        return n
                me.changed = True
                r = Rename(b, {}).visit(ast.Expr(e)).value
                return ast.copy_location(r, n)

            def visit_FunctionDef(self, n):
                return n if n is not f else self.generic_visit(n)
        T().visit(f)

    def block(self, f, o, fld):
        b = getattr(o, fld)
        out = []
        for i, s in enumerate(b):
            r = self.statement(f, s, o is f and fld == 'body' and i == len(b) - 1)
            if r is None:
                out.append(s)
            else:
                self.changed = True
                for x in r:
                    ast.fix_missing_locations(ast.copy_location(x, x if hasattr(x, 'lineno') else s))
                out += r
        setattr(o, fld, out or [ast.Pass()])

    def statement(self, f, s, last):
        """replacement for statement s of function f, or None"""
        val = s.value if isinstance(s, (ast.Return, ast.Expr, ast.Assign)) else None
        h = helper_of(val, self.helpers, f) if val is not None else None
        if h is not None:
            try:
                if isinstance(s, ast.Return):
                    body = instantiate(h, val, f)
                    if body is None:
                        return None
                    return body if ends(body) else body + [ast.copy_location(ast.Return(None), s)]
                if isinstance(s, ast.Expr):
                    body = instantiate(h, val, f)
                    if body is None:
                        return None
                    try:
                        return tailify(copy.deepcopy(body), lambda r: [] if r.value is None or pure(r.value) or chain(r.value) else [ast.copy_location(ast.Expr(r.value), r)], []) or [ast.Pass()]
                    except CantInline:
                        if last and all(r.value is None for x in body for r in own_of([x]) if isinstance(r, ast.Return)):
                            return body
                        return None
                if isinstance(s, ast.Assign):
                    keep = {n.id for t in s.targets for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                    keep -= {n.id for n in ast.walk(val) if isinstance(n, ast.Name)}
                    # a name is kept if all the helper does with it is compute and return it
                    rets = [n for n in own(h.f) if isinstance(n, ast.Return)]
                    if not (len(rets) == 1 and rets[0].value is not None and {n.id for n in ast.walk(rets[0].value) if isinstance(n, ast.Name)} >= keep):
                        keep = set()
                    body = instantiate(h, val, f, keep)
                    if body is None:
                        return None

                    def ret(r):
                        v = r.value if r.value is not None else ast.Constant(None)
                        if len(s.targets) == 1 and ast.dump(s.targets[0]).replace('Store()', 'Load()') == ast.dump(v):
                            return []
                        return [ast.copy_location(ast.Assign(copy.deepcopy(s.targets), v), r)]
                    return tailify(body, ret, ret(ast.copy_location(ast.Return(None), s)))
            except CantInline:
                return None
        # elsewhere in the expression the statement evaluates first
        for e in heads(s):
            for c in ast.walk(e):
                h = helper_of(c, self.helpers, f)
                if h is None or c is val:
                    continue
                if first_effect(e, c) is True:
                    _uid[0] += 1
                    nm = f'value_h{_uid[0]}'
                    pre = self.statement(f, ast.copy_location(ast.Assign([ast.Name(nm, ast.Store())], c), s), False)
                    if pre is None:
                        return None
                    set_head(s, Replace(c, ast.copy_location(ast.Name(nm, ast.Load()), c)).visit(e))
                    return pre + [s]
        return None


def remove(tree, helpers, elsewhere):
    """helpers nobody refers to any more"""
    for _ in range(4):
        refs = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute):
                refs[n.attr] = refs.get(n.attr, 0) + 1
            elif isinstance(n, ast.Name):
                refs[n.id] = refs.get(n.id, 0) + 1
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                refs[n.value] = refs.get(n.value, 0) + 1
        gone = {nm for nm in helpers if not refs.get(nm) and not elsewhere(nm)}
        if not gone:
            return
        for n in ast.walk(tree):
            b = getattr(n, 'body', None)
            if isinstance(b, list):
                nb = [s for s in b if not (isinstance(s, FUNC) and s.name in gone and helpers[s.name].f is s)]
                if len(nb) != len(b):
                    n.body = nb or [ast.copy_location(ast.Pass(), b[0])]
        for nm in gone:
            del helpers[nm]


# ---------------------------------------------------------------- locals
def collapse(f):
    """x = E; S(x) -> S(E)"""
    for _ in range(6):
        if not _collapse(f):
            return


def _collapse(f):
    nested = {n.id for g in own(f) if isinstance(g, SCOPE) for n in ast.walk(g) if isinstance(n, ast.Name)}
    decl = {x for n in own(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    loads, stores = {}, {}
    for n in own(f):
        if isinstance(n, ast.Name):
            d = loads if isinstance(n.ctx, ast.Load) else stores
            d.setdefault(n.id, []).append(n)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            stores.setdefault(n.name, []).extend([None, None])
    pairs = {}
    for o, fld in lists(f):
        b = getattr(o, fld)
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                continue
            x = s.targets[0].id
            if x in nested or x in decl or x in params_of(f):
                continue
            uses = [n for n in own_of([t]) if is_name(n, x) and isinstance(n.ctx, ast.Load)]
            if len(uses) != 1:
                continue
            hs = heads(t)
            if len(hs) != 1 or not any(n is uses[0] for n in ast.walk(hs[0])):
                continue
            if first_effect(hs[0], uses[0]) is not True:
                continue
            if any(is_name(n, x) for n in ast.walk(s.value)):
                continue
            if isinstance(s.value, (ast.Yield, ast.YieldFrom, ast.Await)) or isinstance(t, ast.Assign) and any(is_name(n, x) for tt in t.targets for n in ast.walk(tt)):
                continue
            # a comprehension's variable is its own
            pairs.setdefault(x, []).append((o, fld, s, t, uses[0]))
    hit = False
    for x, ps in pairs.items():
        if len(loads.get(x, [])) != len(ps) or len(stores.get(x, [])) != len(ps):
            continue
        for o, fld, s, t, use in ps:
            h = heads(t)[0]
            if not any(n is use for n in ast.walk(h)):
                continue
            set_head(t, Replace(use, s.value).visit(h))
            b = getattr(o, fld)
            setattr(o, fld, [y for y in b if y is not s])
            hit = True
        if hit:
            return True     # positions have changed
    return hit


def aliases(f):
    """y = p, p a parameter that is never assigned: y is p"""
    ps = set(params_of(f))
    st = {}
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            st[n.id] = st.get(n.id, 0) + 1
        elif isinstance(n, ast.arg):
            st[n.arg] = st.get(n.arg, 0) + 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                st[x] = 99
        elif isinstance(n, ast.ExceptHandler) and n.name:
            st[n.name] = 99
    for o, fld in lists(f):
        if o is not f:
            continue
        for s in list(getattr(o, fld)):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Name):
                y, p = s.targets[0].id, s.value.id
                if p in ps and st.get(p) == 1 and st.get(y) == 1 and y != p:
                    for n in ast.walk(f):
                        if is_name(n, y):
                            n.id = p
                    setattr(o, fld, [x for x in getattr(o, fld) if x is not s])
    fill(f)


# ---------------------------------------------------------------- loops
def loops(f):
    for o, fld in lists(f):
        b = getattr(o, fld)
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.While):
                while_break(s)
                r = while_index(f, b, i)
                if r is not None:
                    b[:] = r
                    continue
            if isinstance(s, ast.For):
                no_index(f, s)
                r = append_loop(f, b, i)
                if r is not None:
                    b[:] = r
                    i = max(0, i - 1)
                    continue
            i += 1


def while_break(s):
    while isinstance(s.test, ast.Constant) and s.test.value is True and not s.orelse and s.body and isinstance(s.body[0], ast.If) and not s.body[0].orelse and \
            len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Break) and len(s.body) > 1:
        s.test = negate(s.body[0].test)
        s.body = s.body[1:]


def index_only(nodes, i, seq):
    """every use of name i is seq[i] being read; -> those nodes, or None"""
    subs = [n for n in nodes if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and is_name(n.slice, i) and ast.dump(n.value) == seq]
    inside = {id(n.slice) for n in subs}
    if any(is_name(n, i) and id(n) not in inside for n in nodes):
        return None
    return subs


def replace_elements(body, subs, e):
    """body with seq[i] replaced by a variable; (target, body)"""
    s = body[0] if body else None
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Tuple)) and any(s.value is x for x in subs) and len(subs) == 1:
        return s.targets[0], body[1:]
    v = f'{e}_elem'
    ids = {id(x) for x in subs}

    class T(ast.NodeTransformer):
        def visit_Subscript(self, n):
            if id(n) in ids:
                return ast.copy_location(ast.Name(v, ast.Load()), n)
            return self.generic_visit(n)
    return ast.Name(v, ast.Store()), [T().visit(x) for x in body]


def stores_to(nodes, seq):
    """is seq, or an element of it, assigned?"""
    for n in nodes:
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, 'ctx', None), (ast.Store, ast.Del)) and ast.dump(n).replace('Store()', 'Load()').replace('Del()', 'Load()') == seq:
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and ast.dump(n.value) == seq:
            return True
    return False


def no_index(f, s):
    it = s.iter
    if not isinstance(it, ast.Call) or not isinstance(it.func, ast.Name) or it.keywords:
        return
    if it.func.id == 'enumerate' and len(it.args) == 1 and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name):
        i = s.target.elts[0].id
        if not any(is_name(n, i) and isinstance(n.ctx, ast.Load) for n in ast.walk(f)):
            s.target, s.iter = s.target.elts[1], it.args[0]
        return
    if it.func.id == 'range' and len(it.args) == 1 and isinstance(it.args[0], ast.Call) and is_name(it.args[0].func, 'len') and len(it.args[0].args) == 1 and \
            isinstance(s.target, ast.Name) and chain(it.args[0].args[0]):
        e = it.args[0].args[0]
        i = s.target.id
        nodes = [n for b in s.body for n in ast.walk(b)]
        subs = index_only(nodes, i, ast.dump(e))
        outside = sum(1 for n in ast.walk(f) if is_name(n, i)) - sum(1 for n in nodes if is_name(n, i)) - 1
        if not subs or outside or stores_to(nodes, ast.dump(e)):
            return
        s.target, s.body = replace_elements(s.body, subs, i)
        s.body = s.body or [ast.Pass()]
        s.iter = e
        ast.fix_missing_locations(s)


def while_index(f, b, k):
    """i = 0; while i < len(xs): x = xs[i]; ..; i += 1"""
    s = b[k]
    t = s.test
    if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name) and
                        isinstance(t.comparators[0], ast.Call) and is_name(t.comparators[0].func, 'len') and len(t.comparators[0].args) == 1):
        return None
    i = t.left.id
    e = t.comparators[0].args[0]
    if not chain(e):
        return None
    init = [j for j in range(k) if isinstance(b[j], ast.Assign) and len(b[j].targets) == 1 and is_name(b[j].targets[0], i) and
            isinstance(b[j].value, ast.Constant) and b[j].value.value == 0]
    if len(init) != 1:
        return None

    def step(x):
        return isinstance(x, ast.AugAssign) and is_name(x.target, i) and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1 or \
            isinstance(x, ast.Assign) and len(x.targets) == 1 and is_name(x.targets[0], i) and isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add) and \
            is_name(x.value.left, i) and isinstance(x.value.right, ast.Constant) and x.value.right.value == 1
    at = [j for j, x in enumerate(s.body) if step(x)]
    if len(at) != 1:
        return None
    body = s.body[:at[0]] + s.body[at[0] + 1:]
    if at[0] == len(s.body) - 1:
        if any(isinstance(x, ast.Continue) for y in s.body for x in own_of([y])):
            return None
    elif any(is_name(n, i) for x in s.body[at[0] + 1:] for n in ast.walk(x)):
        return None
    nodes = [n for x in body for n in ast.walk(x)]
    subs = index_only(nodes, i, ast.dump(e))
    total = sum(1 for n in ast.walk(f) if is_name(n, i))
    here = sum(1 for x in [b[init[0]], s] for n in ast.walk(x) if is_name(n, i))
    if not subs or total != here or stores_to(nodes, ast.dump(e)):
        return None
    target, body = replace_elements(body, subs, i)
    n = ast.fix_missing_locations(ast.copy_location(ast.For(target, e, body or [ast.Pass()], []), s))
    return [x for j, x in enumerate(b[:k]) if j != init[0]] + [n] + b[k + 1:]


def append_loop(f, b, k):
    """acc = []; for v in xs: [if c:] acc.append(e)   ->   acc = [e for v in xs if c]"""
    if k == 0:
        return None
    a, s = b[k - 1], b[k]
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and
            (isinstance(a.value, ast.List) and not a.value.elts or isinstance(a.value, ast.Call) and is_name(a.value.func, 'list') and not a.value.args)):
        return None
    acc = a.targets[0].id
    gens = []
    cur = s
    while True:
        if isinstance(cur, ast.For) and not cur.orelse and len(cur.body) == 1:
            gens.append(ast.comprehension(cur.target, cur.iter, [], 0))
            cur = cur.body[0]
        elif isinstance(cur, ast.If) and not cur.orelse and len(cur.body) == 1:
            gens[-1].ifs.append(cur.test)
            cur = cur.body[0]
        else:
            break
    if not (isinstance(cur, ast.Expr) and isinstance(cur.value, ast.Call) and isinstance(cur.value.func, ast.Attribute) and cur.value.func.attr == 'append' and
            is_name(cur.value.func.value, acc) and len(cur.value.args) == 1):
        return None
    e = cur.value.args[0]
    if sum(1 for n in ast.walk(s) if is_name(n, acc)) != 1 or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(s)):
        return None
    # the loop's variables aren't used elsewhere
    vs = {n.id for g in gens for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    for v in vs:
        if sum(1 for n in ast.walk(f) if is_name(n, v)) != sum(1 for n in ast.walk(s) if is_name(n, v)):
            return None
    n = ast.fix_missing_locations(ast.copy_location(ast.Assign(a.targets, ast.copy_location(ast.ListComp(e, gens), s)), s))
    return b[:k - 1] + [n] + b[k + 1:]


# ---------------------------------------------------------------- imports, assignments
def dotted_expr(d, at):
    e = None
    for x in d.split('.'):
        e = ast.Name(x, ast.Load()) if e is None else ast.Attribute(e, x, ast.Load())
        ast.copy_location(e, at)
    return e


def full_names(tree):
    """names imported from modules of marcel are written in full"""
    full, mods = {}, set()
    for s in tree.body:
        if isinstance(s, ast.ImportFrom) and not s.level and s.module and s.module.split('.')[0] == 'marcel':
            for a in s.names:
                if a.name != '*':
                    full[a.asname or a.name] = f'{s.module}.{a.name}'
                    mods.add(s.module)
        elif isinstance(s, ast.Import):
            for a in s.names:
                if a.asname and a.name.split('.')[0] == 'marcel':
                    full[a.asname] = a.name
                    mods.add(a.name)
    bound = stored(x for s in tree.body if not isinstance(s, (ast.Import, ast.ImportFrom)) for x in own_of([s])) | \
        {s.name for s in tree.body if isinstance(s, FUNC + (ast.ClassDef,))}
    full = {k: v for k, v in full.items() if k not in bound}
    if not full:
        return

    class T(ast.NodeTransformer):
        hidden = frozenset()

        def scope(self, n):
            before = self.hidden
            b = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
            if not isinstance(n, ast.Lambda):
                b |= stored(own(n)) - {x for g in own(n) if isinstance(g, ast.Global) for x in g.names}
                for d in n.decorator_list + n.args.defaults:
                    pass
            self.hidden = before | b
            self.generic_visit(n)
            self.hidden = before
            return n
        visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = scope

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Load) and n.id in full and n.id not in self.hidden:
                return dotted_expr(full[n.id], n)
            return n
    for i, s in enumerate(tree.body):
        if not isinstance(s, (ast.Import, ast.ImportFrom)):
            tree.body[i] = T().visit(s)
    last = max(i for i, s in enumerate(tree.body) if isinstance(s, (ast.Import, ast.ImportFrom)))
    tree.body[last + 1:last + 1] = [ast.copy_location(ast.Import([ast.alias(m)]), tree.body[last]) for m in sorted(mods)]


def split_assigns(f):
    """a, b = x, y -> a = x; b = y"""
    for o, fld in lists(f):
        out = []
        for s in getattr(o, fld):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and \
                    len(s.targets[0].elts) == len(s.value.elts) and all(isinstance(t, ast.Name) or chain(t) for t in s.targets[0].elts) and \
                    all(pure(v) or chain(v) for v in s.value.elts):
                ts, vs = s.targets[0].elts, s.value.elts
                keys = [ast.dump(t).replace('Store()', 'Load()') for t in ts]
                if not any(ast.dump(x) == keys[i] for j, v in enumerate(vs) for x in ast.walk(v) for i in range(j)):
                    out += [ast.copy_location(ast.Assign([t], v), s) for t, v in zip(ts, vs)]
                    continue
            out.append(s)
        setattr(o, fld, out)


def reassigned(f):
    """x = E; x = S(x) -> x = S(E)"""
    for o, fld in lists(f):
        b = getattr(o, fld)
        i = 0
        while i + 1 < len(b):
            s, j = b[i], i + 1
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and isinstance(s.targets[0], ast.Name):
                x, y = s.targets[0].id, s.value.id
                while j + 1 < len(b) and isinstance(b[j], (ast.Assert, ast.Expr, ast.Assign)) and \
                        not any(is_name(n, x) or is_name(n, y) and not isinstance(n.ctx, ast.Load) for n in ast.walk(b[j])):
                    j += 1
            t = b[j]
            if isinstance(s, ast.Assign) and isinstance(t, ast.Assign) and len(s.targets) == len(t.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                    is_name(t.targets[0], s.targets[0].id):
                u = [n for n in ast.walk(t.value) if is_name(n, s.targets[0].id)]
                if len(u) == 1 and first_effect(t.value, u[0]) is True:
                    t.value = Replace(u[0], s.value).visit(t.value)
                    del b[i]
                    continue
            i += 1


# ---------------------------------------------------------------- driver
def normalise(tree, modname, elsewhere=lambda name: False):
    """elsewhere(name): may other modules use this name?"""
    drop_noops(tree)
    Exprs().visit(tree)
    if modname not in ('marcel.api', 'marcel.builtin'):
        full_names(tree)
    for f in functions(tree):
        split_assigns(f)
    helpers = find_helpers(tree, modname, inventory()) if inventory() else {}
    if helpers:
        for f in reversed(functions(tree)):
            loops(f)
            collapse(f)
        Inliner(tree, helpers).run()
        remove(tree, helpers, elsewhere)
        drop_noops(tree)
    for f in reversed(functions(tree)):
        aliases(f)
        loops(f)
        reassigned(f)
        collapse(f)
        fill(f)
    Exprs().visit(tree)
    ast.fix_missing_locations(tree)
    return tree
