#!/usr/bin/env python3
"""Quietness self-test: rewrite every module of /repo in memory, by refactorings that keep its behaviour, and show what the
checks report that they don't report on the current tree (nothing should be). usage: quiet.py [-t transform,..] [-p PROP,..] [-m module-substring]"""
import argparse
import ast
import copy
import os
import sys
from concurrent.futures import ProcessPoolExecutor
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.model import Project, AnalysisBroken, own_nodes  # noqa
from sa.common import analyse  # noqa
from sa import registry  # noqa

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPE = FUNC + (ast.ClassDef, ast.Lambda)


def own(fn):
    """nodes of fn, not of nested scopes (comprehensions included)"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, SCOPE):
            todo.extend(ast.iter_child_nodes(n))


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, FUNC)]


def name(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def assign(i, v):
    return ast.Assign([name(i, ast.Store())], v)


def docsplit(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[:1], body[1:]
    return [], body


def blocks(tree):
    """every statement list: (owner, field, list)"""
    for n in ast.walk(tree):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def negate(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(type(e.ops[0]))
        if inv:
            return ast.Compare(e.left, [inv()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


# ---------------------------------------------------------------- transforms: tree -> None (in place)
def t_unparse(t):
    pass


def t_noop(t):
    for f in functions(t):
        d, b = docsplit(f.body)
        f.body = d + [assign('_noop', ast.Constant(None))] + b


def t_pass_end(t):
    for n, f, b in list(blocks(t)):
        if isinstance(n, (ast.Module, ast.ClassDef)):
            continue
        if not isinstance(b[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            b.append(ast.Pass())


def t_rename(t):
    for f in functions(t):
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)):
            continue
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'exec', 'eval') for n in ast.walk(f)):
            continue
        params = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        loc = {n.id for n in own(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
              {h.name for h in own(f) if isinstance(h, ast.ExceptHandler) and h.name}
        loc -= params
        # imports and nested functions keep their names; nested scopes that rebind a name are left alone
        for g in ast.walk(f):
            if isinstance(g, SCOPE) and g is not f:
                inner = {a.arg for a in ast.walk(g) if isinstance(a, ast.arg)} | \
                        {n.id for n in ast.walk(g) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                loc -= inner
                if not isinstance(g, ast.Lambda):
                    loc.discard(g.name)
        loc = {x for x in loc if not x.endswith('_rn')}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id += '_rn'
            elif isinstance(n, ast.ExceptHandler) and n.name in loc:
                n.name += '_rn'


def t_params(t):
    """rename the parameters of private nested functions and of overridden protocol methods (never called by keyword)"""
    for f in functions(t):
        if f.name not in ('receive', 'receive_error', 'receive_input', 'flush', 'run', 'cleanup', '__exit__', '__eq__', '__init__'):
            continue
        if f.name == '__init__':
            ren = {f.args.args[0].arg: 'this'} if f.args.args else {}
        else:
            ren = {a.arg: a.arg + '_p' for a in f.args.args[2:]}
        if any(isinstance(g, SCOPE) and g is not f for g in ast.walk(f)) or 'super' in ast.dump(f) and f.name == '__init__' and False:
            continue
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in ren:
                n.id = ren[n.id]
            elif isinstance(n, ast.arg) and n.arg in ren:
                n.arg = ren[n.arg]


def t_return_local(t):
    for n, fld, b in list(blocks(t)):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                out += [assign('result_', s.value), ast.Return(name('result_'))]
            else:
                out.append(s)
        setattr(n, fld, out)


def stmt_call(s):
    """the call evaluated by statement s, and how to put it back"""
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        return s.value
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call):
        return s.value
    return None


def in_function(t):
    for f in functions(t):
        for n, fld, b in list(blocks(f)):
            if isinstance(n, ast.ClassDef):
                continue
            yield f, n, fld, b


def t_receiver(t):
    """self.a.b(..) -> r = self.a; r.b(..)"""
    for f in functions(t):
        done = set()
        for n, fld, b in list(blocks(f)):
            if isinstance(n, ast.ClassDef) or id(b) in done:
                continue
            done.add(id(b))
            out = []
            for s in b:
                c = stmt_call(s)
                if c is not None and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Attribute) and \
                        isinstance(c.func.value.value, ast.Name) and c.func.value.value.id == 'self':
                    out.append(assign('recv_', c.func.value))
                    c.func.value = name('recv_')
                out.append(s)
            setattr(n, fld, out)


def t_arglocal(t):
    """f(g(x), ..) -> a = g(x); f(a, ..)"""
    for f in functions(t):
        for n, fld, b in list(blocks(f)):
            if isinstance(n, ast.ClassDef):
                continue
            out = []
            for s in b:
                c = stmt_call(s)
                if c is not None and c.args and isinstance(c.args[0], (ast.Call, ast.JoinedStr, ast.Attribute, ast.BinOp)) and isinstance(c.func, (ast.Name, ast.Attribute)) and \
                        not (isinstance(c.func, ast.Name) and c.func.id == 'super') and simple(c.func):
                    out.append(assign('arg_', c.args[0]))
                    c.args[0] = name('arg_')
                out.append(s)
            setattr(n, fld, out)


def simple(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def t_testlocal(t):
    """if E: -> cond = E; if cond:"""
    for f in functions(t):
        for n, fld, b in list(blocks(f)):
            if isinstance(n, ast.ClassDef):
                continue
            out = []
            for s in b:
                if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
                    # not for elif
                    if not (fld == 'orelse' and isinstance(n, ast.If) and len(b) == 1):
                        out.append(assign('cond_', s.test))
                        s.test = name('cond_')
                out.append(s)
            setattr(n, fld, out)


def t_invert(t):
    for n in ast.walk(t):
        if isinstance(n, ast.If) and n.orelse:
            n.test = negate(n.test)
            n.body, n.orelse = n.orelse, n.body
        elif isinstance(n, ast.IfExp):
            n.test = negate(n.test)
            n.body, n.orelse = n.orelse, n.body


def t_else(t):
    """if c: ..return; rest -> if c: ..return else: rest"""
    for n, fld, b in list(blocks(t)):
        if isinstance(n, (ast.Module, ast.ClassDef)):
            continue
        b = getattr(n, fld)
        for i in range(len(b) - 2, -1, -1):
            s = b[i]
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                s.orelse = b[i + 1:]
                del b[i + 1:]


def t_unelse(t):
    """if c: ..return else: rest -> if c: ..return; rest"""
    for _ in range(4):
        for n, fld, b in list(blocks(t)):
            if isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            b = getattr(n, fld)
            if not b:
                continue
            s = b[-1]
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) and not (
                    fld == 'orelse' and isinstance(n, ast.If) and len(b) == 1):
                rest = s.orelse
                s.orelse = []
                b.extend(rest)


def t_ternary(t):
    """x = a if c else b  <->  if"""
    for n, fld, b in list(blocks(t)):
        out = []
        for s in b:
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.IfExp):
                e = s.value
                a, c = copy.deepcopy(s), copy.deepcopy(s)
                a.value, c.value = e.body, e.orelse
                out.append(ast.If(e.test, [a], [c]))
            else:
                out.append(s)
        setattr(n, fld, out)


def t_toternary(t):
    for n, fld, b in list(blocks(t)):
        out = []
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value is not None and y.value is not None:
                    out.append(ast.Return(ast.IfExp(s.test, x.value, y.value)))
                    continue
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]) and len(x.targets) == len(y.targets) == 1:
                    out.append(ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value)))
                    continue
            out.append(s)
        setattr(n, fld, out)


def t_and(t):
    """if a and b: S -> if a: if b: S"""
    for n in ast.walk(t):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            vs = n.test.values
            rest = vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:])
            n.test = vs[0]
            n.body = [ast.If(rest, n.body, [])]


def t_while(t):
    for n in ast.walk(t):
        if isinstance(n, ast.While) and not n.orelse and not (isinstance(n.test, ast.Constant) and n.test.value is True):
            n.body = [ast.If(negate(n.test), [ast.Break()], [])] + n.body
            n.test = ast.Constant(True)


def t_comp(t):
    """x = [e for v in it if c] -> loop"""
    k = 0
    for f in functions(t):
        for n, fld, b in list(blocks(f)):
            if isinstance(n, ast.ClassDef):
                continue
            out = []
            for s in b:
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                    g = s.value.generators[0]
                    k += 1
                    acc = f'acc{k}_'
                    # don't clobber a name used elsewhere in the function
                    ns = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    sub = {x: f'{x}_c{k}' for x in ns}
                    for y in [s.value.elt, g.target] + g.ifs:
                        for x in ast.walk(y):
                            if isinstance(x, ast.Name) and x.id in sub:
                                x.id = sub[x.id]
                    body = [ast.Expr(ast.Call(ast.Attribute(name(acc), 'append', ast.Load()), [s.value.elt], []))]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    out += [assign(acc, ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
                    s.value = name(acc)
                out.append(s)
            setattr(n, fld, out)


def t_enumerate(t):
    k = 0
    for n in ast.walk(t):
        if isinstance(n, ast.For) and isinstance(n.iter, (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Name):
            k += 1
            n.target = ast.Tuple([name(f'i{k}_', ast.Store()), n.target], ast.Store())
            n.iter = ast.Call(name('enumerate'), [n.iter], [])


def t_index(t):
    """for x in xs -> for i in range(len(xs)): x = xs[i]   (lists only, but the checks can't tell)"""
    k = 0
    for n in ast.walk(t):
        if isinstance(n, ast.For) and isinstance(n.iter, (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Name) and \
                (getattr(n.iter, 'attr', None) or getattr(n.iter, 'id', '')) in ('ops', 'branches', 'pipelines', 'workers', 'args', 'anon', 'functions', 'setup_started', 'scopes'):
            k += 1
            i = f'i{k}_'
            n.body = [ast.Assign([n.target], ast.Subscript(n.iter, name(i), ast.Load()))] + n.body
            n.iter = ast.Call(name('range'), [ast.Call(name('len'), [copy.deepcopy(n.iter)], [])], [])
            n.target = name(i, ast.Store())


def t_fstring(t):
    class T(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            if any(isinstance(v, ast.FormattedValue) and v.format_spec is not None for v in n.values):
                return n
            fmt, args = '', []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    fmt += v.value.replace('{', '{{').replace('}', '}}')
                elif v.format_spec is None and v.conversion == -1:
                    fmt += '{}'
                    args.append(v.value)
                else:
                    return n
            return ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()), args, [])
    T().visit(t)


def t_aug(t):
    class T(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if not isinstance(n.target, (ast.Name, ast.Attribute)) or not isinstance(n.op, (ast.Add, ast.Sub)):
                return n
            ld = copy.deepcopy(n.target)
            ld.ctx = ast.Load()
            # lists: += keeps identity
            if not isinstance(n.value, (ast.Constant, ast.Name, ast.Attribute)) :
                return n
            return ast.Assign([n.target], ast.BinOp(ld, n.op, n.value))
    T().visit(t)


def t_len(t):
    """len(x) == 0 -> not len(x); len(x) > 0 -> len(x) != 0"""
    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == 'len' and len(n.ops) == 1 and \
                    isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value == 0:
                if isinstance(n.ops[0], ast.Eq):
                    return ast.UnaryOp(ast.Not(), n.left)
                if isinstance(n.ops[0], ast.Gt):
                    return ast.Compare(n.left, [ast.GtE()], [ast.Constant(1)])
            return n
    T().visit(t)


def t_swap(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            if isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                n.left, n.comparators = n.comparators[0], [n.left]
            else:
                sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(n.ops[0]))
                if sw:
                    n.left, n.comparators, n.ops = n.comparators[0], [n.left], [sw()]


def t_order(t):
    """methods of a class in reverse order (not properties with setters)"""
    for c in ast.walk(t):
        if isinstance(c, ast.ClassDef):
            idx = [i for i, s in enumerate(c.body) if isinstance(s, FUNC) and not s.decorator_list]
            ns = [c.body[i].name for i in idx]
            if len(ns) != len(set(ns)):
                continue
            fs = [c.body[i] for i in reversed(idx)]
            for i, s in zip(idx, fs):
                c.body[i] = s


def is_gen(f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(f))


SKIP = ('__new__', '__init_subclass__', '__getattr__', '__setattr__', '__getattribute__', '__del__')


def t_wrap(t):
    """every method delegates to an extracted method"""
    for c in ast.walk(t):
        if not isinstance(c, ast.ClassDef):
            continue
        out = []
        for s in c.body:
            if isinstance(s, FUNC) and not s.decorator_list and s.name not in SKIP and s.args.args and not s.args.kwonlyargs and \
                    not (s.name.startswith('__') and s.name != '__init__' and False) and not s.args.posonlyargs and \
                    not any(isinstance(x, ast.Name) and x.id == '__class__' for x in ast.walk(s)) and not is_gen(s) and \
                    not (s.name.startswith('__') and not s.name.endswith('__')):
                w = copy.deepcopy(s)
                nm = '_' + s.name.strip('_') + '_impl'
                a = s.args
                call = ast.Call(ast.Attribute(name(a.args[0].arg), nm, ast.Load()), [name(x.arg) for x in a.args[1:]], [])
                if a.vararg:
                    call.args.append(ast.Starred(name(a.vararg.arg), ast.Load()))
                if a.kwarg:
                    call.keywords.append(ast.keyword(None, name(a.kwarg.arg)))
                value = any(isinstance(x, ast.Return) and x.value is not None for x in own(s))
                w.body = [ast.Return(call) if value else ast.Expr(call)]
                s.name = nm
                s.args = copy.deepcopy(s.args)
                s.args.defaults = []
                # distinct per class: a subclass's extracted method must not override its superclass's
                s.name = call.func.attr = f'_{c.name.lower()}_{nm}'
                out += [w, s]
            else:
                out.append(s)
        c.body = out


def t_wrapfun(t):
    """every module function delegates to an extracted function"""
    out = []
    for s in t.body:
        if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.kwonlyargs and not is_gen(s) and not s.args.posonlyargs:
            w = copy.deepcopy(s)
            nm = '_' + s.name + '_impl'
            call = ast.Call(name(nm), [name(x.arg) for x in s.args.args], [])
            if s.args.vararg:
                call.args.append(ast.Starred(name(s.args.vararg.arg), ast.Load()))
            if s.args.kwarg:
                call.keywords.append(ast.keyword(None, name(s.args.kwarg.arg)))
            w.body = [ast.Return(call)]
            s.name = nm
            s.args.defaults = []
            out += [s, w]
        else:
            out.append(s)
    t.body = out


def free_block(f, b):
    """can statements b be moved into a helper?"""
    for s in b:
        for n in ast.walk(s):
            if isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.Raise)) and True:
                if isinstance(n, ast.Raise) and n.exc is not None:
                    continue
                return False
            if isinstance(n, SCOPE):
                return False
            if isinstance(n, ast.Name) and n.id in ('super', '__class__'):
                return False
            if isinstance(n, ast.Delete) and any(isinstance(x, ast.Name) for x in n.targets):
                return False
    return True


def extract(t, pick, style='method'):
    """move blocks of methods into new methods of the class"""
    for c in ast.walk(t):
        if not isinstance(c, ast.ClassDef):
            continue
        new = []
        for f in [s for s in c.body if isinstance(s, FUNC) and not s.decorator_list and s.args.args and s.args.args[0].arg == 'self']:
            if any(isinstance(g, SCOPE) and g is not f for g in ast.walk(f)) or is_gen(f):
                continue
            locs = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)} | \
                   {n.id for n in own(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
                   {h.name for h in own(f) if isinstance(h, ast.ExceptHandler) and h.name} | \
                   {(a.asname or a.name).split('.')[0] for i in own(f) if isinstance(i, (ast.Import, ast.ImportFrom)) for a in i.names}
            locs.discard('self')
            k = 0
            for n, fld, b in list(blocks(f)):
                if not pick(f, n, fld, b) or not free_block(f, b):
                    continue
                stored = sorted({x.id for s in b for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
                used = sorted({x.id for s in b for x in ast.walk(s) if isinstance(x, ast.Name) and x.id in locs} - set())
                # what's stored must be certainly assigned before it's used: keep to blocks whose stored names aren't read first
                reads_first = set()
                seen = set()
                for s in b:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in stored and x.id not in seen:
                            reads_first.add(x.id)
                    if isinstance(s, ast.Assign):
                        for tt in s.targets:
                            for x in ast.walk(tt):
                                if isinstance(x, ast.Name):
                                    seen.add(x.id)
                    elif isinstance(s, (ast.For, ast.With)):
                        for x in ast.walk(s):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                seen.add(x.id)
                if any(x not in seen for x in stored) and stored:
                    continue
                inside = {id(x) for s in b for x in ast.walk(s)}
                after = sorted({x.id for x in own(f) if isinstance(x, ast.Name) and id(x) not in inside and x.id in stored and isinstance(x.ctx, ast.Load)})
                if reads_first & set(stored):
                    continue
                if len(after) > 1:
                    continue
                caught = {h.name for s in b for h in ast.walk(s) if isinstance(h, ast.ExceptHandler) and h.name}
                params = [u for u in used if u not in stored and u not in caught]
                k += 1
                nm = f'_{c.name.lower()}_{f.name.strip("_")}_part{k}'
                call = ast.Call(ast.Attribute(name('self'), nm, ast.Load()), [name(u) for u in params], [])
                if style == 'function':
                    call = ast.Call(name(nm), [name('self')] + [name(u) for u in params], [])
                if style == 'nested':
                    if stored:
                        continue
                    call = ast.Call(name(nm), [], [])
                body = list(b)
                if after:
                    body = body + [ast.Return(name(after[0]))]
                    rep = [assign(after[0], call)]
                else:
                    rep = [ast.Expr(call)]
                new.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg('self')] + [ast.arg(u) for u in params], None, [], [], None, []), body, [], None, type_params=[]))
                setattr(n, fld, rep)
                if style == 'nested':
                    h = new.pop()
                    h.args.args = []
                    k = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
                    f.body.insert(k, h)
                break
        if style == 'function':
            t.body = t.body + new
        else:
            c.body = c.body + new


def t_extract_if(t):
    extract(t, lambda f, n, fld, b: isinstance(n, ast.If) and n is not f and not (fld == 'orelse' and len(b) == 1 and isinstance(b[0], ast.If)))


def t_extract_loop(t):
    extract(t, lambda f, n, fld, b: isinstance(n, (ast.For, ast.While)) and fld == 'body')


def t_extract_try(t):
    extract(t, lambda f, n, fld, b: isinstance(n, ast.Try) and fld in ('body', 'finalbody'))


def t_extract_handler(t):
    extract(t, lambda f, n, fld, b: isinstance(n, ast.ExceptHandler))


def t_extract_with(t):
    extract(t, lambda f, n, fld, b: isinstance(n, ast.With))


def t_fun_if(t):
    extract(t, lambda f, n, fld, b: isinstance(n, ast.If) and n is not f and not (fld == 'orelse' and len(b) == 1 and isinstance(b[0], ast.If)), 'function')


def t_fun_loop(t):
    extract(t, lambda f, n, fld, b: isinstance(n, (ast.For, ast.While)) and fld == 'body', 'function')


def t_fun_try(t):
    extract(t, lambda f, n, fld, b: isinstance(n, ast.Try) and fld in ('body', 'finalbody'), 'function')


def t_fun_handler(t):
    extract(t, lambda f, n, fld, b: isinstance(n, ast.ExceptHandler), 'function')


def t_fun_with(t):
    extract(t, lambda f, n, fld, b: isinstance(n, ast.With), 'function')


def t_nested_if(t):
    extract(t, lambda f, n, fld, b: isinstance(n, ast.If) and n is not f and not (fld == 'orelse' and len(b) == 1 and isinstance(b[0], ast.If)), 'nested')


def t_nested_loop(t):
    extract(t, lambda f, n, fld, b: isinstance(n, (ast.For, ast.While)) and fld == 'body', 'nested')


def t_nested_try(t):
    extract(t, lambda f, n, fld, b: isinstance(n, ast.Try) and fld in ('body', 'finalbody'), 'nested')


def t_nested_handler(t):
    extract(t, lambda f, n, fld, b: isinstance(n, ast.ExceptHandler), 'nested')


def t_nested_with(t):
    extract(t, lambda f, n, fld, b: isinstance(n, ast.With), 'nested')


def t_alias(t):
    """marcel.a.b.C -> b_.C, with import marcel.a.b as b_"""
    mods = {}
    for s in t.body:
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname is None and a.name.startswith('marcel.'):
                    mods[a.name] = 'm_' + a.name.split('.')[-1]
    if not mods:
        return

    def dotted(e):
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute):
            d = dotted(e.value)
            return d and f'{d}.{e.attr}'

    class T(ast.NodeTransformer):
        def visit_Attribute(self, n):
            d = dotted(n)
            if d in mods:
                return name(mods[d])
            self.generic_visit(n)
            return n
    for i, s in enumerate(t.body):
        if not isinstance(s, (ast.Import, ast.ImportFrom)):
            t.body[i] = T().visit(s)
    last = max(i for i, s in enumerate(t.body) if isinstance(s, ast.Import))
    t.body[last + 1:last + 1] = [ast.Import([ast.alias(m, a)]) for m, a in mods.items()]


def t_from(t):
    """marcel.exception.X -> X, with from marcel.exception import X (functions and classes of modules that don't import this one)"""
    used = set()

    class T(ast.NodeTransformer):
        def visit_Attribute(self, n):
            if isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == 'marcel' and \
                    n.value.attr in ('exception', 'util') and isinstance(n.ctx, ast.Load):
                used.add((n.value.attr, n.attr))
                return name(n.attr + '_i')
            self.generic_visit(n)
            return n
    if not any(isinstance(s, ast.Import) and any(a.name in ('marcel.exception', 'marcel.util') for a in s.names) for s in t.body):
        return
    for i, s in enumerate(t.body):
        if not isinstance(s, (ast.Import, ast.ImportFrom)):
            t.body[i] = T().visit(s)
    last = max(i for i, s in enumerate(t.body) if isinstance(s, ast.Import))
    t.body[last + 1:last + 1] = [ast.ImportFrom(f'marcel.{m}', [ast.alias(a, a + '_i')], 0) for m, a in sorted(used)]


def t_finally(t):
    """with open(..) as f: B -> f = open(..); try: B finally: f.close()"""
    for n, fld, b in list(blocks(t)):
        out = []
        for s in b:
            if isinstance(s, ast.With) and len(s.items) == 1 and isinstance(s.items[0].optional_vars, ast.Name) and isinstance(s.items[0].context_expr, ast.Call):
                fn = s.items[0].context_expr.func
                if isinstance(fn, ast.Name) and fn.id == 'open' or isinstance(fn, ast.Attribute) and fn.attr == 'open':
                    v = s.items[0].optional_vars.id
                    out += [assign(v, s.items[0].context_expr),
                            ast.Try(s.body, [], [], [ast.Expr(ast.Call(ast.Attribute(name(v), 'close', ast.Load()), [], []))])]
                    continue
            out.append(s)
        setattr(n, fld, out)


def t_isnone(t):
    """x is None tests moved into locals of their own; 'not x is None'"""
    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
            return n
    T().visit(t)


def t_cache_self(t):
    """op = self at the start of methods (used for reads of attributes)"""
    for c in ast.walk(t):
        if isinstance(c, ast.ClassDef):
            for f in c.body:
                if isinstance(f, FUNC) and not f.decorator_list and f.args.args and f.args.args[0].arg == 'self' and not is_gen(f):
                    hit = False
                    for s in f.body:
                        for n in ast.walk(s):
                            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load):
                                n.value = name('me_')
                                hit = True
                    if hit:
                        d, b = docsplit(f.body)
                        f.body = d + [assign('me_', name('self'))] + b


def t_chain_assign(t):
    """a, b = x, y -> two assignments of independent constants; and method-local tuple assignments"""
    for n, fld, b in list(blocks(t)):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if i + 1 < len(b) and isinstance(s, ast.Assign) and isinstance(b[i + 1], ast.Assign) and len(s.targets) == len(b[i + 1].targets) == 1 and \
                    isinstance(s.value, ast.Constant) and isinstance(b[i + 1].value, ast.Constant) and \
                    isinstance(s.targets[0], ast.Attribute) and isinstance(b[i + 1].targets[0], ast.Attribute) and isinstance(n, FUNC):
                out.append(ast.Assign([ast.Tuple([s.targets[0], b[i + 1].targets[0]], ast.Store())], ast.Tuple([s.value, b[i + 1].value], ast.Load())))
                i += 2
                continue
            out.append(s)
            i += 1
        setattr(n, fld, out)


def t_annotate(t):
    for f in functions(t):
        for a in f.args.args:
            if a.arg == 'env':
                a.annotation = ast.Constant('marcel.env.Environment')
        if f.returns is None and not any(isinstance(n, ast.Return) and n.value is not None for n in own(f)) and f.name != '__init__':
            f.returns = ast.Constant(None)
        declared = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        for n, fld, b in list(blocks(f)):
            if isinstance(n, ast.ClassDef):
                continue
            for i, s in enumerate(b):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and getattr(s.targets[0], 'id', '') not in declared and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
                    b[i] = ast.AnnAssign(s.targets[0], ast.Constant('object'), s.value, 1 if isinstance(s.targets[0], ast.Name) else 0)


def t_log(t):
    """a statement that does nothing observable, after every simple statement"""
    for f in functions(t):
        for n, fld, b in list(blocks(f)):
            if isinstance(n, ast.ClassDef):
                continue
            out = []
            for s in b:
                out.append(s)
                if isinstance(s, (ast.Assign, ast.Expr)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    out.append(ast.Expr(ast.Constant(None)))
            setattr(n, fld, out)


def t_dead(t):
    for f in functions(t):
        d, b = docsplit(f.body)
        f.body = d + [ast.If(ast.Constant(False), [ast.Pass()], [])] + b


TRANSFORMS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('t_')}


def overlay(tr, sub=''):
    p = base_project()
    ov = {}
    for m in p.modules.values():
        rel = m.path
        if rel.startswith('test') or sub not in rel:
            continue
        src = open(os.path.join(p.root, rel), encoding='utf-8').read()
        t = ast.parse(src)
        TRANSFORMS[tr](t)
        ast.fix_missing_locations(t)
        new = ast.unparse(t)
        compile(new, rel, 'exec')
        ov[rel] = new
    return ov


_p = None


def base_project():
    global _p
    if _p is None:
        _p = Project(os.environ.get('QUIET_REPO', '/repo'))
    return _p


def one(job):
    tr, prop, sub = job
    try:
        base = base_project()
        b = {f.ident() for f in analyse(prop, base, 'quick').findings}
        p2 = Project(base.root, overlay=overlay(tr, sub))
        return [(f.ident(), f'{f.file}:{f.line}: {f.message}') for f in analyse(prop, p2, 'quick').findings if f.ident() not in b]
    except AnalysisBroken as e:
        return [('BROKEN', str(e))]
    except Exception as e:
        import traceback
        return [('CRASH', traceback.format_exc()[-600:])]


def dump_sources(tr, d):
    for rel, src in overlay(tr).items():
        with open(os.path.join(d, rel), 'w') as f:
            f.write(src)


if __name__ == '__main__':
    a = argparse.ArgumentParser()
    a.add_argument('-t', default=','.join(TRANSFORMS))
    a.add_argument('-p', default=','.join(registry.ids()))
    a.add_argument('-m', default='')
    a.add_argument('-w', help='write the rewritten sources into this copy of the repository (to test that the rewriting keeps behaviour)')
    a.add_argument('-j', type=int, default=7)
    a = a.parse_args()
    if a.w:
        dump_sources(a.t, a.w)
        sys.exit(0)
    jobs = [(t, p, a.m) for t in a.t.split(',') for p in a.p.split(',')]
    bad = 0
    with ProcessPoolExecutor(a.j) as ex:
        for j, r in zip(jobs, ex.map(one, jobs)):
            for i, m in r:
                bad += 1
                print(f'{j[0]} {j[1]} {i} {m}', flush=True)
    print(f'{len(jobs)} combinations, {bad} alarms')
    sys.exit(1 if bad else 0)
