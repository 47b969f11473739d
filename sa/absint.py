"""Forward abstract interpretation of functions over a pluggable value domain.

A value is None (nothing known), a tuple ("T", [values]) for displays, ("F", function, env) for nested functions, or whatever the domain defines.
Arrays carry the value of their elements.  Branches join, loops run to a fixpoint (three rounds, then changed variables are forgotten), calls of
functions of the program are analysed with the values of their arguments (memoised per argument values, bounded), out-arguments are written back."""
from __future__ import annotations
import ast
from .program import Function, Class

MAXCTX = 14
MAXDEPTH = 7


def tup(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "T"


class Engine:
    def __init__(self, prog, calls, dom, scope):
        self.prog, self.calls, self.dom, self.scope = prog, calls, dom, scope
        dom.engine = self
        self.memo = {}
        self.active = []
        self.nctx = {}

    # -------------------------------------------------------------- functions
    def top(self, f):
        """analyse with what parameter names and types say"""
        vals = tuple((p, self.dom.seed(f, p)) for p in f.params)
        return self.run(f, vals, {})

    def run(self, f, vals, outer):
        """(returned value, {parameter: value at exit}) of f called with parameter values"""
        key = (f, _fz(vals), _fz(tuple(sorted(outer.items(), key=lambda kv: kv[0]))) if outer else ())
        if key in self.memo:
            return self.memo[key]
        if f in self.active or len(self.active) >= MAXDEPTH:
            return None, {}
        n = self.nctx.get(f, 0)
        if n >= MAXCTX:
            return None, {}
        self.nctx[f] = n + 1
        self.active.append(f)
        try:
            w = Walk(self, f, dict(outer))
            w.env.update(vals)
            r = w.function()
        finally:
            self.active.pop()
        self.memo[key] = r
        return r

    def join(self, a, b):
        if a is b or a == b:
            return a
        if a == "bot":
            return b
        if b == "bot":
            return a
        if tup(a) and tup(b) and len(a[1]) == len(b[1]):
            return ("T", tuple(self.join(x, y) for x, y in zip(a[1], b[1])))
        if tup(a) or tup(b):
            return self.join(self.flat(a), self.flat(b)) if not (tup(a) and tup(b)) or len(a[1]) != len(b[1]) else None
        if a is None or b is None:
            return None
        return self.dom.join(a, b)

    def flat(self, v):
        """one value standing for every element"""
        if tup(v):
            if not v[1]:
                return "bot"
            r = self.flat(v[1][0])
            for x in v[1][1:]:
                r = self.join(r, self.flat(x))
            return r
        return v


def _fz(x):
    if isinstance(x, (tuple, list)):
        return tuple(_fz(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((k, _fz(v)) for k, v in x.items()))
    try:
        hash(x)
    except TypeError:
        return id(x)
    return x


class Walk:
    def __init__(self, eng, f, env):
        self.eng, self.f, self.env, self.dom = eng, f, env, eng.dom
        self.bound = {id(n): (g, b) for n, g, b in eng.calls.calls(f)}
        self.ret = "none"
        self.exits = []
        self.loops = []

    def function(self):
        self.block(self.f.node.body)
        if self.env is not None:
            self.exits.append(self.env)
            self.ret = self.ret if self.ret != "none" else "void"
        out = {}
        for p in self.f.params:
            v = "bot"
            for e in self.exits:
                x = e.get(p)
                if self.dom.cells:
                    inner = [y for k, y in e.items() if k.startswith(p + "[")]
                    if inner:
                        x = inner[0] if all(y == inner[0] for y in inner) and (x is None or x == "bot" or x == inner[0] or len(inner) > 1) else None
                v = self.eng.join(v, x)
            out[p] = v if v != "bot" else None
        return (self.ret if self.ret not in ("none", "void") else None), out

    # -------------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            if self.env is None:
                return
            self.stmt(s)

    def jenv(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = {}
        for k in a.keys() | b.keys():
            if k in a and k in b:
                r[k] = self.eng.join(a[k], b[k])
            else:
                r[k] = a[k] if k in a else b[k]
        return r

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            return m(s)
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.ev(x)

    def s_FunctionDef(self, s):
        self.env[s.name] = None

    def s_ClassDef(self, s):
        self.env[s.name] = None

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else "bot"
        self.dom.returned(self, v, s)
        self.ret = v if self.ret in ("none", "void") else self.eng.join(self.ret, v)
        self.exits.append(self.env)
        self.env = None

    def s_Raise(self, s):
        self.env = None

    def s_Break(self, s):
        if self.loops:
            self.loops[-1][0].append(self.env)
        self.env = None

    def s_Continue(self, s):
        if self.loops:
            self.loops[-1][1].append(self.env)
        self.env = None

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s.value)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s.value)
        elif isinstance(s.target, ast.Name):
            self.env[s.target.id] = "bot"

    def s_AugAssign(self, s):
        old = self.ev(_load(s.target))
        v = self.dom.binop(self, s.op, old, self.ev(s.value), s.target, s.value, s)
        self.assign(s.target, v, None)

    def assign(self, t, v, src):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            for k in [k for k in self.env if k.startswith((t.id + ".", t.id + "["))]:
                del self.env[k]
        elif isinstance(t, (ast.Tuple, ast.List)):
            if tup(v) and len(v[1]) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v[1]):
                    self.assign(x, y, None)
            else:
                for i, x in enumerate(t.elts):
                    e = self.dom.element(self, v, i) if not isinstance(x, ast.Starred) else None
                    self.assign(x.value if isinstance(x, ast.Starred) else x, e, None)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            b = t.value
            depth = 1
            while isinstance(b, ast.Subscript):
                self.ev(b.slice)
                b = b.value
                depth += 1
            k = _key(b)
            if k is not None:
                old = self.env.get(k, self.ev(b))
                i = _const(t.slice)
                if self.dom.cells:
                    self.put(t, k, v)
                if depth == 1 and tup(old) and i is not None and -len(old[1]) <= i < len(old[1]):
                    l = list(old[1])
                    l[i] = v
                    self.env[k] = ("T", tuple(l))
                else:
                    self.env[k] = self.dom.store(self, old, v, t)
        elif isinstance(t, ast.Attribute):
            k = _key(t)
            if k is not None:
                self.env[k] = v
            self.dom.setattr(self, t, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, None, None)

    def s_If(self, s):
        self.ev(s.test)
        e = self.env
        self.env = dict(e)
        self.dom.refine(self, s.test, True)
        self.block(s.body)
        a = self.env
        self.env = dict(e)
        self.dom.refine(self, s.test, False)
        self.block(s.orelse)
        self.env = self.jenv(a, self.env)

    def loop(self, pre, body, orelse, always=False):
        before = self.env
        after = None
        for rnd in range(3):
            self.env = dict(before)
            self.loops.append(([], []))
            pre()
            exit_env = dict(self.env)
            if not hasattr(self, "_quiet"):
                pass
            self.block(body)
            brk, cont = self.loops.pop()
            for c in cont:
                self.env = self.jenv(self.env, c)
            after = None if always else exit_env
            for b in brk:
                after = self.jenv(after, b)
            new = self.jenv(before, self.env)
            if self.env is not None and not always:
                after = self.jenv(after, self.env)
            if new == before:
                break
            if rnd == 1:
                new = {k: (v if k in before and before[k] == v else None) if k in before else v for k, v in new.items()}
            before = new
        self.env = after
        if self.env is not None and orelse:
            self.block(orelse)

    def s_For(self, s):
        it = self.ev(s.iter)

        def pre():
            self.assign(s.target, self.dom.item(self, it, s.iter, s.target), None)
        self.loop(pre, s.body, s.orelse)

    s_AsyncFor = s_For

    def s_While(self, s):
        always = isinstance(s.test, ast.Constant) and bool(s.test.value)

        def pre():
            self.ev(s.test)
        self.loop(pre, s.body, s.orelse, always)

    def s_Try(self, s):
        pre = dict(self.env)
        self.block(s.body)
        if self.env is not None:
            self.block(s.orelse)
        out = self.env
        mid = self.jenv(pre, out)
        for h in s.handlers:
            self.env = dict(mid)
            self.block(h.body)
            out = self.jenv(out, self.env)
        self.env = out
        if s.finalbody:
            if self.env is None:
                self.env = dict(mid)
                self.block(s.finalbody)
                self.env = None
            else:
                self.block(s.finalbody)

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, None, None)
        self.block(s.body)

    # -------------------------------------------------------------- expressions
    def ev(self, e):
        if e is None:
            return None
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            v = m(e)
        else:
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.ev(x)
            v = None
        return v

    def e_Constant(self, e):
        return self.dom.const(e.value)

    def e_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        return self.dom.name(self, e)

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            for x in e.elts:
                self.ev(x.value if isinstance(x, ast.Starred) else x)
            return None
        return ("T", tuple(self.ev(x) for x in e.elts))

    e_List = e_Tuple

    def e_Starred(self, e):
        self.ev(e.value)
        return None

    def e_BinOp(self, e):
        return self.dom.binop(self, e.op, self.ev(e.left), self.ev(e.right), e.left, e.right, e)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        return self.dom.unop(self, e.op, v)

    def e_BoolOp(self, e):
        for x in e.values:
            self.ev(x)
        self.dom.boolop(self, e)
        return None

    def e_Compare(self, e):
        vs = [self.ev(x) for x in [e.left] + e.comparators]
        ns = [e.left] + e.comparators
        for i, op in enumerate(e.ops):
            self.dom.compare(self, op, vs[i], vs[i + 1], ns[i], ns[i + 1], e)
        return None

    def e_IfExp(self, e):
        self.ev(e.test)
        env = self.env
        self.env = dict(env)
        self.dom.refine(self, e.test, True)
        a = self.ev(e.body)
        self.env = dict(env)
        self.dom.refine(self, e.test, False)
        b = self.ev(e.orelse)
        self.env = env
        return self.eng.join(a, b)

    def e_Attribute(self, e):
        k = _key(e)
        if k is not None and k in self.env:
            return self.env[k]
        b = self.ev(e.value)
        return self.dom.attr(self, e, b)

    def forget(self, k):
        for x in [x for x in self.env if x.startswith(k + "[")]:
            del self.env[x]

    def put(self, t, k, v):
        c = _cell(t)
        if c is None:
            self.forget(k)
            return
        for x in [x for x in self.env if x.startswith(c)]:
            del self.env[x]
        self.env[c] = v

    def get(self, e):
        """what is stored at a constant position, "?" if nothing is known about it"""
        c = _cell(e)
        if c is None:
            return "?"
        if c in self.env:
            inner = [v for x, v in self.env.items() if x.startswith(c) and x != c]
            if not inner:
                return self.env[c]
            return inner[0] if len(inner) >= 2 and all(v == inner[0] for v in inner) else None
        inner = [v for x, v in self.env.items() if x.startswith(c)]
        if inner:
            return inner[0] if len(inner) >= 2 and all(v == inner[0] for v in inner) else None
        p = c
        while True:
            p = p[:p[:-1].rfind(",") + 1] if "," in p[:-1] else ""
            if not p or "[" not in p:
                return "?"
            if p in self.env:
                v = self.env[p]
                return v if not tup(v) else "?"

    def e_Subscript(self, e):
        if self.dom.cells:
            v = self.get(e)
            if v != "?":
                return v
        b = self.ev(e.value)
        self.ev(e.slice)
        i = _const(e.slice)
        if isinstance(e.slice, ast.Tuple) and tup(b) and self.dom.cells:
            ix = [_const(x) for x in e.slice.elts]
            v = b
            for x in ix:
                v = v[1][x] if tup(v) and x is not None and -len(v[1]) <= x < len(v[1]) else "?"
            if v != "?":
                return v
        if i is not None and tup(b):
            return b[1][i] if -len(b[1]) <= i < len(b[1]) else None
        return self.dom.subscript(self, e, b)

    def e_Slice(self, e):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x)
        return None

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e.value)
        return v

    def e_Lambda(self, e):
        return None

    def comp(self, e, elt):
        save = dict(self.env)
        for g in e.generators:
            it = self.ev(g.iter)
            self.assign(g.target, self.dom.item(self, it, g.iter, g.target), None)
            for i in g.ifs:
                self.ev(i)
        v = self.ev(elt)
        self.env = save
        return self.dom.collect(self, v)

    def e_ListComp(self, e):
        return self.comp(e, e.elt)

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e):
        self.comp(e, e.value)
        return None

    def e_Call(self, e):
        fn = e.func
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
        recv = None
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value)
        args = [self.ev(a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        g, b = self.bound.get(id(e), (None, None))
        r = self.dom.call(self, e, name, recv, args, kws, g)
        if r is not NotImplemented:
            return r
        if g is not None and b is not None and self.eng.scope(g.module.name):
            vals = {}
            argv = {id(a): v for a, v in zip(e.args, args)}
            argv.update({id(k.value): kws[k.arg] for k in e.keywords})
            for p in g.params:
                if p in b and id(b[p]) in argv:
                    v = argv[id(b[p])]
                    s = self.dom.seed(g, p)
                    vals[p] = v if v is not None else s
                elif p in g.defaults():
                    d = g.defaults()[p]
                    vals[p] = self.dom.const(d.value) if isinstance(d, ast.Constant) else self.dom.seed(g, p)
                else:
                    vals[p] = self.dom.seed(g, p)
            outer = {}
            if g.parent is not None:
                if g.parent is self.f:
                    own = set(g.params)
                    outer = {n.id: self.env[n.id] for n in ast.walk(g.node) if isinstance(n, ast.Name) and n.id in self.env and n.id not in own}
            r, outs = self.eng.run(g, tuple(vals.items()), outer)
            for p, a in b.items():
                k = _key(a) if isinstance(a, (ast.Name, ast.Attribute)) else _addr(a)
                if k is not None and p in outs and p not in self.rebound(g) and (k in self.env or True):
                    if self.writes(g, p):
                        self.env[k] = outs[p]
                        self.forget(k)
                elif self.dom.cells and isinstance(a, ast.Subscript) and p in outs and p not in self.rebound(g) and self.writes(g, p):
                    b_ = a
                    while isinstance(b_, ast.Subscript):
                        b_ = b_.value
                    if _key(b_):
                        self.put(a, _key(b_), outs[p])
            return r
        return self.dom.unknown(self, e, name, recv, args)

    def rebound(self, g):
        c = self.eng.__dict__.setdefault("_reb", {})
        if g not in c:
            c[g] = {n.id for n in ast.walk(g.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        return c[g]

    def writes(self, g, p):
        """the callee stores into p[...] or hands it to a callee that does"""
        c = self.eng.__dict__.setdefault("_wr", {})
        if (g, p) not in c:
            c[g, p] = False
            w = any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and _base(n) == p for n in ast.walk(g.node))
            if not w:
                for n, h, b in self.eng.calls.calls(g):
                    if h is not None:
                        for q, a in (b or {}).items():
                            if (isinstance(a, ast.Name) and a.id == p or _addr(a) == p) and self.writes(h, q):
                                w = True
            c[g, p] = w
        return c[g, p]


def _base(n):
    while isinstance(n, ast.Subscript):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def _addr(a):
    """&x, &x[0]"""
    if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "__addr__" and a.args:
        x = a.args[0]
        while isinstance(x, ast.Subscript):
            x = x.value
        return _key(x)
    return None


def _load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
    return t


def _key(e):
    """x, self.a, self.a.b"""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = _key(e.value)
        return b + "." + e.attr if b else None
    return None


def _cell(t):
    """a[0], a[1, 0], a[..., 0] -> key, or None"""
    ix = []
    while isinstance(t, ast.Subscript):
        l = []
        for x in (t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]):
            if isinstance(x, ast.Constant) and x.value is Ellipsis or isinstance(x, ast.Slice) and x.lower is None and x.upper is None:
                continue
            i = _const(x)
            if i is None:
                return None
            l.append(i)
        ix = l + ix
        t = t.value
    k = _key(t)
    return k + "[" + "".join(f"{i}," for i in ix) if k and ix else None


def _const(e):
    if isinstance(e, ast.Constant) and type(e.value) is int:
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and type(e.operand.value) is int:
        return -e.operand.value
    return None


class Domain:
    """defaults: nothing is known"""
    engine = None
    cells = False           # remember what constant positions of arrays hold

    def seed(self, f, p):
        return None

    def returned(self, w, v, node):
        pass

    def name(self, w, e):
        return None

    def const(self, v):
        return None

    def join(self, a, b):
        return None

    def binop(self, w, op, a, b, an, bn, node):
        return None

    def unop(self, w, op, v):
        return None

    def compare(self, w, op, a, b, an, bn, node):
        pass

    def refine(self, w, test, truth):
        pass

    def boolop(self, w, node):
        pass

    def element(self, w, v, i):
        return v if not (isinstance(v, tuple) and v and v[0] == "T") else w.eng.flat(v)

    def store(self, w, old, new, node):
        return w.eng.join(w.eng.flat(old), w.eng.flat(new))

    def setattr(self, w, node, v):
        pass

    def item(self, w, it, node, target):
        if tup(it):
            return w.eng.flat(it) if not any(tup(x) for x in it[1]) else _jl(w, it[1])
        return it

    def collect(self, w, v):
        return v

    def attr(self, w, node, base):
        return None

    def subscript(self, w, node, base):
        if tup(base):
            return _jl(w, base[1])
        return base

    def call(self, w, node, name, recv, args, kws, g):
        return NotImplemented

    def unknown(self, w, node, name, recv, args):
        return None


def _jl(w, vs):
    r = "bot"
    for x in vs:
        r = w.eng.join(r, x)
    return r
