"""Options: what a caller's choice can influence, and whether it is handed on.

effective(f, p): does the value of parameter p reach anything but itself - a result, a test, a store, another call that uses it?
forwarding: calls of functions that take an option under the same name as the caller."""
from __future__ import annotations
import ast
import re
from .program import Function, Class
from .refs import resolve_in_fn, LocalTypes, ctor_of

TOL = re.compile(r"(^|_)[arxfgp]?tol(erance|s)?\d?($|_)|^eps(ilon)?$|^max_?(iter|depth|step)|^(min|max)_(step|depth|iter)|^(initial_)?step$")
LIMIT = re.compile(r"(^|_)[arxfgp]?tol(erance|s)?\d?($|_)|^eps(ilon)?$|^max_?(it|iter|iters|depth|steps?|iterations?)$")
QUIET = {"print", "warn", "warning", "debug", "info", "log"}
PURE = {"float", "int", "bool", "abs", "array", "asarray", "len", "tuple", "list", "copy", "min", "max", "sqrt", "fabs"}


def is_option(f, p):
    return p in f.defaults() or bool(TOL.search(p))


def assigned(f):
    out = set()
    for n in own_nodes(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    for n in own_nodes(f.node):
        if isinstance(n, ast.Nonlocal):
            out -= set(n.names)
    return out


class Options:
    def __init__(self, prog, scope):
        self.prog, self.scope = prog, scope
        self.memo, self.lt, self.calls_memo = {}, {}, {}

    # ------------------------------------------------------------------ calls
    def types(self, f):
        if f not in self.lt:
            self.lt[f] = LocalTypes(self.prog, f)
        return self.lt[f]

    def callee(self, f, call):
        """(function, number of leading parameters that are not arguments), by name, import, class or known receiver"""
        fn, prog = call.func, self.prog
        if not isinstance(fn, (ast.Name, ast.Attribute)):
            return None, 0
        r = resolve_in_fn(prog, f, fn)
        if isinstance(r, Function):
            return r, 1 if r.cls is not None and r.role not in ("static",) and isinstance(fn, ast.Attribute) and r.role == "class" else 0
        if isinstance(r, Class):
            c = ctor_of(prog, r)[0]
            return (c, 1) if isinstance(c, Function) else (None, 0)
        if isinstance(fn, ast.Attribute):
            v = fn.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls is not None:
                for b in prog.mro(f.cls)[1:]:
                    if fn.attr in b.methods:
                        return b.methods[fn.attr], 1
                return None, 0
            if isinstance(v, ast.Name) and f.cls is not None and f.pos_params and v.id == f.pos_params[0] and f.role not in ("static",):
                c = f.cls
            else:
                c = self.types(f).etype(v)
                g = f
                while c is None and g.parent is not None and isinstance(v, ast.Name) and v.id not in g.params and v.id not in assigned(g):
                    g = g.parent        # a closure variable
                    c = self.types(g).etype(v)
            if c is not None:
                m = prog.find_method(c, fn.attr)
                if m is not None and not any(fn.attr in k.methods and k is not m.cls for k in prog.subclasses(c)):
                    return m, 1 if m.role != "static" else 0
        return None, 0

    def bind(self, f, call):
        """(callee, {parameter: argument}) or (None, None)"""
        g, off = self.callee(f, call)
        if g is None or any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return None, None
        b = dict(zip(g.pos_params[off:], call.args))
        b.update({k.arg: k.value for k in call.keywords})
        return g, b

    def calls(self, f):
        if f not in self.calls_memo:
            out = []
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    g, b = self.bind(f, n)
                    out.append((n, g, b))
            self.calls_memo[f] = out
        return self.calls_memo[f]

    # ------------------------------------------------------------------ liveness
    def effective(self, f, p, stack=()):
        if (f, p) in self.memo:
            return self.memo[f, p]
        if (f, p) in stack:
            return False          # only ever handed to itself
        stack = stack + ((f, p),)
        bound = {}
        for n, g, b in self.calls(f):
            if g is not None:
                for q, a in b.items():
                    bound[id(a)] = (g, q)
        reach, work, seen = False, [p], {p}
        while work and not reach:
            x = work.pop()
            for kind, t in uses(f.node, x):
                if kind == "name":
                    if t not in seen:
                        seen.add(t)
                        work.append(t)
                elif kind == "arg" and id(t) in bound:
                    g, q = bound[id(t)]
                    if q not in g.params or self.abstract(g) or self.effective(g, q, stack):
                        reach = True
                else:
                    reach = True
                if reach:
                    break
        if reach or len(stack) == 1:
            self.memo[f, p] = reach
        return reach

    def limits(self, f, p):
        """a tolerance or limit does more than appear in what is returned"""
        rets = set()
        if not any(isinstance(n, (ast.For, ast.While)) for n in own_nodes(f.node)):
            return True
        for n in own_nodes(f.node):
            if isinstance(n, ast.Return) and n.value is not None:
                for x in _plain(n.value):
                    rets.add(id(x))
        loads = [n for n in own_nodes(f.node) if isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Load)]
        return not loads or any(id(n) not in rets for n in loads if not self.quiet(f, n))

    def quiet(self, f, n):
        key = ("quiet", f)
        if key not in self.memo:
            q = set()
            for c in own_nodes(f.node):
                if isinstance(c, ast.Call) and (c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else "") in QUIET:
                    q |= {id(x) for x in ast.walk(c)}
            self.memo[key] = q
        return id(n) in self.memo[key]

    @staticmethod
    def abstract(g):
        body = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return not body or all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def own_nodes(fn):
    """nodes of a function without those of nested classes; nested functions included"""
    for s in fn.body:
        yield from ast.walk(s)


def _plain(e):
    """names that are (elements of) a returned value as they stand"""
    if isinstance(e, ast.Name):
        yield e
    elif isinstance(e, (ast.Tuple, ast.List)):
        for x in e.elts:
            yield from _plain(x)
    elif isinstance(e, ast.IfExp):
        yield from _plain(e.body)
        yield from _plain(e.orelse)


def uses(fn, name):
    """how the value of a local name is used: ('name', target) for plain assignments to another local, ('arg', node) as a whole argument, ('use', node)"""
    for s in fn.body:
        yield from _stmt(s, name)


def _loads(e, name):
    return [n for n in ast.walk(e) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]


def _expr(e, name, into=None):
    """uses inside an expression whose value goes to the locals `into` (None: somewhere that matters)"""
    if e is None:
        return
    args, quiet, nested = {}, set(), set()
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            fn = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if fn in PURE:
                continue
            nested |= {id(x) for x in ast.walk(n)}
            for a in n.args + [k.value for k in n.keywords]:
                if isinstance(a, ast.Name) and a.id == name:
                    args[id(a)] = a
                if fn in QUIET:
                    quiet |= {id(x) for x in ast.walk(a)}
    for n in _loads(e, name):
        if id(n) in quiet:
            continue
        if id(n) in args:
            yield "arg", n
        elif into is not None and id(n) not in nested:
            for t in into:
                if t != name:
                    yield "name", t
        else:
            yield "use", n


def _stmt(s, name):
    if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
        ts = s.targets if isinstance(s, ast.Assign) else [s.target]
        flat = []
        plain = True
        for t in ts:
            for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                if isinstance(x, ast.Name):
                    flat.append(x.id)
                else:
                    plain = False
                    yield from _expr(x, name)
        v = s.value
        if v is None:
            return
        # p = default if p is None else p
        yield from _expr(v, name, flat if plain else None)
        return
    if isinstance(s, ast.If):
        body = s.body + s.orelse
        selfset = all(isinstance(b, (ast.Assign, ast.AugAssign)) and all(isinstance(t, ast.Name) and t.id == name for t in (b.targets if isinstance(b, ast.Assign) else [b.target])) or isinstance(b, ast.Pass)
                      or isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) for b in body)
        if not selfset and not same_branches(s):
            yield from _expr(s.test, name)
        for b in body:
            yield from _stmt(b, name)
        return
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        a = s.args
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            yield from _expr(d, name)
        if name not in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}:
            for b in s.body:
                yield from _stmt(b, name)
        return
    if isinstance(s, ast.Expr):
        v = s.value
        if isinstance(v, ast.Name) or isinstance(v, ast.Constant):
            return
        yield from _expr(v, name)
        return
    if isinstance(s, ast.Delete):
        return
    for field, value in ast.iter_fields(s):
        for x in (value if isinstance(value, list) else [value]):
            if isinstance(x, ast.stmt):
                yield from _stmt(x, name)
            elif isinstance(x, ast.ExceptHandler):
                for b in x.body:
                    yield from _stmt(b, name)
            elif isinstance(x, ast.withitem):
                yield from _expr(x.context_expr, name)
            elif isinstance(x, ast.match_case) if hasattr(ast, "match_case") else False:
                for b in x.body:
                    yield from _stmt(b, name)
            elif isinstance(x, ast.expr):
                yield from _expr(x, name)


def dump(x):
    return ast.dump(x) if isinstance(x, ast.AST) else [dump(y) for y in x]


def strip(body):
    return [s for s in body if not isinstance(s, ast.Pass) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]


def same_branches(s):
    if isinstance(s, ast.If):
        a, b = strip(s.body), strip(s.orelse)
        return bool(a) and dump(a) == dump(b)
    if isinstance(s, ast.IfExp):
        return dump(s.body) == dump(s.orelse)
    return False


def clobbered(f, p):
    """the first statement that mentions p at the top level assigns it without reading it"""
    for s in f.node.body:
        if not any(isinstance(n, ast.Name) and n.id == p for n in ast.walk(s)):
            continue
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(isinstance(t, ast.Name) and t.id == p or isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Name) and x.id == p for x in t.elts) for t in ts) and not _loads(s.value, p):
                return s
        return None
    return None
