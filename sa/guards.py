"""Rejection conditions: the boolean condition over a function's inputs under which it raises.

A formula is True | False | ('a', key) | ('not', f) | ('and', f...) | ('or', f...).  Atoms are canonical comparisons:
both sides moved to one linear form over opaque terms, sign-normalised, parameters written $i, single-assignment locals and
one-expression predicate helpers substituted, and calls of helpers that raise inlined."""
from __future__ import annotations
import ast
import itertools
import re
from fractions import Fraction

from .program import Function
from .refs import resolve_in_fn, LocalTypes, bound_names


def NOT(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == "not":
        return f[1]
    return ("not", f)


def AND(*fs):
    out = []
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        out.extend(f[1:] if f[0] == "and" else [f])
    out2 = []
    for f in out:
        if f not in out2:
            out2.append(f)
    return True if not out2 else out2[0] if len(out2) == 1 else ("and", *out2)


def OR(*fs):
    return NOT(AND(*[NOT(f) for f in fs]))


def atoms(f, out=None):
    out = [] if out is None else out
    if f in (True, False):
        return out
    if f[0] == "a":
        if f[1] not in out:
            out.append(f[1])
    else:
        for g in f[1:]:
            atoms(g, out)
    return out


def ev(f, env):
    if f in (True, False):
        return f
    if f[0] == "a":
        return env[f[1]]
    if f[0] == "not":
        return not ev(f[1], env)
    if f[0] == "and":
        return all(ev(g, env) for g in f[1:])
    return any(ev(g, env) for g in f[1:])


def to_json(f):
    return f if f in (True, False) else [f[0]] + [x if isinstance(x, str) else to_json(x) for x in f[1:]]


def from_json(j):
    return j if j in (True, False) else tuple([j[0]] + [x if isinstance(x, str) else from_json(x) for x in j[1:]])


class Env:
    """substitution of names inside one function instance"""

    def __init__(self, prog, f, args=None, depth=0, up=None):
        self.prog, self.f, self.depth = prog, f, depth
        self.args = args
        self.sub = {}
        pp = f.pos_params
        if args is None:
            for i, p in enumerate(f.params):
                self.sub[p] = ast.Name(id=f"${i}", ctx=ast.Load())
        else:
            self.sub.update(args)
        self.cur = {}           # flow-sensitive: local -> expanded defining expression
        self.locals = bound_names(f.node.body)[0]

    def kill(self, names):
        for n in names:
            self.cur.pop(n, None)

    def assign(self, t, v):
        """v: already expanded expression or None"""
        if isinstance(t, ast.Name):
            if v is None:
                self.cur[t.id] = None
                return
            src = self.sub.get(t.id)
            if src is not None and t.id not in self.cur and isinstance(v, ast.Call) and any(ast.dump(a) == ast.dump(src) for a in v.args):
                return          # x = np.asarray(x): the normalised input stands for the input
            self.cur[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, None)
                elif v is None:
                    self.assign(x, None)
                elif isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and not any(isinstance(z, ast.Starred) for z in v.elts):
                    self.assign(x, v.elts[i])
                else:
                    self.assign(x, ast.Subscript(value=v, slice=ast.Constant(value=i), ctx=ast.Load()))

    def step(self, s):
        """effect of a simple statement on the substitution"""
        if isinstance(s, ast.Assign):
            v = self.expand(s.value)
            if sum(1 for _ in ast.walk(v)) > 400:
                v = None
            for t in s.targets:
                self.assign(t, v)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            if s.value is not None:
                self.assign(s.target, self.expand(s.value))
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            v = ast.BinOp(left=ast.Name(id=s.target.id, ctx=ast.Load()), op=s.op, right=s.value)
            self.assign(s.target, self.expand(v))
        elif isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef)):
            pass
        else:
            self.kill_stores([s])

    def kill_stores(self, body):
        for n in bound_names(body)[0]:
            if n in self.locals or n in self.sub:
                self.cur[n] = None

    def expand(self, e, d=0, busy=()):
        """expression with names substituted"""
        env = self

        class T(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in env.cur:
                    v = env.cur[n.id]
                    return ast.Name(id="~" + n.id, ctx=ast.Load()) if v is None else v
                if n.id in env.sub:
                    return env.sub[n.id]
                if n.id in env.locals and n.id not in env.f.nested:
                    return ast.Name(id="~" + n.id, ctx=ast.Load())
                return n

            def visit_Call(self, n):
                if isinstance(n.func, ast.Name) and n.func.id == "__cast__":
                    return self.visit(n.args[1])
                self.generic_visit(n)
                return n
        import copy
        return T().visit(copy.deepcopy(e))


LIN = {}      # atom key -> (op, {term: coefficient})


def canon(e):
    """spelling variants of one term"""
    class C(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            t = text(n.func)
            if t in ("fabs", "math.fabs", "np.abs", "np.fabs", "numpy.abs", "c_abs"):
                return ast.Call(func=ast.Name(id="abs", ctx=ast.Load()), args=n.args, keywords=[])
            if t in ("bool",) and len(n.args) == 1:
                return n.args[0]
            if t == "len" and len(n.args) == 1 and isinstance(n.args[0], ast.Attribute) and n.args[0].attr == "shape":
                return ast.Attribute(value=n.args[0].value, attr="ndim", ctx=ast.Load())
            if t in ("np.linalg.norm", "numpy.linalg.norm", "linalg.norm"):
                return ast.Call(func=ast.Name(id="norm", ctx=ast.Load()), args=n.args, keywords=n.keywords)
            return n

        def visit_Subscript(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Attribute) and n.value.attr == "shape" and isinstance(n.slice, ast.Constant) and n.slice.value == 0:
                return ast.Call(func=ast.Name(id="len", ctx=ast.Load()), args=[n.value.value], keywords=[])
            return n
    import copy
    return C().visit(copy.deepcopy(e))


def linear(e):
    """{term text: coefficient} with '' for the constant; None if not numeric-looking"""
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return {"": Fraction(e.value).limit_denominator(10 ** 15) if e.value == e.value and abs(e.value) != float("inf") else Fraction(0)}
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        a, b = linear(e.left), linear(e.right)
        s = 1 if isinstance(e.op, ast.Add) else -1
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + s * v
        return {k: v for k, v in out.items() if v}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return {k: -v for k, v in linear(e.operand).items()}
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        a, b = linear(e.left), linear(e.right)
        if set(a) <= {""}:
            return {k: v * a.get("", 0) for k, v in b.items() if v * a.get("", 0)}
        if set(b) <= {""}:
            return {k: v * b.get("", 0) for k, v in a.items() if v * b.get("", 0)}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.UAdd):
        return linear(e.operand)
    return {text(e): Fraction(1)}


def text(e):
    return ast.unparse(e)


def ctext(e):
    return ast.unparse(canon(e))


def lin_key(d):
    return " + ".join(f"{'' if v == 1 else str(v) + '*'}{k or '1'}" for k, v in sorted(d.items())) or "0"


def cmp_atom(op, l, r):
    """formula for one comparison"""
    l, r = canon(l), canon(r)
    return _cmp_atom(op, l, r)


def _lin_atom(d, op):
    k = lin_key(d) + f" {op} 0"
    LIN[k] = (op, d)
    return ("a", k)


def _cmp_atom(op, l, r):
    if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
        if isinstance(op, ast.Gt):
            return cmp_atom(ast.Lt(), r, l)
        if isinstance(op, ast.GtE):
            return NOT(cmp_atom(ast.Lt(), l, r))
        if isinstance(op, ast.LtE):
            return NOT(cmp_atom(ast.Lt(), r, l))
        for e, low in ((l, "min"), (r, "max")):
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("min", "max") and len(e.args) >= 2 and not e.keywords and not any(isinstance(x, ast.Starred) for x in e.args):
                fs = [cmp_atom(ast.Lt(), x, r) if e is l else cmp_atom(ast.Lt(), l, x) for x in e.args]
                return OR(*fs) if e.func.id == low else AND(*fs)
        a, b = linear(l), linear(r)
        d = dict(a)
        for k, v in b.items():
            d[k] = d.get(k, 0) - v
        d = {k: v for k, v in d.items() if v}
        if not d:
            return False
        if set(d) == {""}:
            return d[""] < 0
        # scale by the absolute leading coefficient
        k0 = sorted(k for k in d if k)[0]
        s = abs(d[k0])
        d = {k: v / s for k, v in d.items()}
        return _lin_atom(d, "<")
    if isinstance(op, (ast.Eq, ast.NotEq)):
        if isinstance(l, ast.Constant) and isinstance(r, ast.Constant):
            return (l.value == r.value) == isinstance(op, ast.Eq)
        if isinstance(l, ast.Constant) and isinstance(l.value, str) or isinstance(r, ast.Constant) and isinstance(r.value, str):
            a = ("a", " == ".join(sorted([text(l), text(r)])))
        else:
            x, y = linear(l), linear(r)
            d = dict(x)
            for k, v in y.items():
                d[k] = d.get(k, 0) - v
            d = {k: v for k, v in d.items() if v}
            if not d:
                a = True
            elif set(d) == {""}:
                a = False
            else:
                k0 = sorted(k for k in d if k)[0]
                s = d[k0]
                a = _lin_atom({k: v / s for k, v in d.items()}, "==")
        return NOT(a) if isinstance(op, ast.NotEq) else a
    if isinstance(op, (ast.Is, ast.IsNot)):
        if isinstance(l, ast.Constant) and isinstance(r, ast.Constant):
            return (l.value is r.value) == isinstance(op, ast.Is)
        if isinstance(l, (ast.Tuple, ast.List, ast.Dict)) and isinstance(r, ast.Constant):
            return isinstance(op, ast.IsNot)
        a = ("a", f"{text(l)} is {text(r)}")
        return NOT(a) if isinstance(op, ast.IsNot) else a
    if isinstance(r, (ast.Tuple, ast.List, ast.Set)) and r.elts:
        f = OR(*[cmp_atom(ast.Eq(), l, x) for x in r.elts])
    else:
        f = ("a", f"{text(l)} in {text(r)}")
    return NOT(f) if isinstance(op, ast.NotIn) else f


def spread(a):
    """the conditions in any([...]), all(p(x) for x in (a, b))"""
    if isinstance(a, (ast.Tuple, ast.List)):
        return None if any(isinstance(x, ast.Starred) for x in a.elts) else a.elts
    if isinstance(a, (ast.GeneratorExp, ast.ListComp)) and len(a.generators) == 1 and isinstance(a.generators[0].target, ast.Name) and isinstance(a.generators[0].iter, (ast.Tuple, ast.List)) \
            and not a.generators[0].ifs and len(a.generators[0].iter.elts) <= 4:
        import copy
        v, out = a.generators[0].target.id, []
        for x in a.generators[0].iter.elts:
            class P(ast.NodeTransformer):
                def visit_Name(self, n, x=x):
                    return copy.deepcopy(x) if n.id == v else n
            out.append(P().visit(copy.deepcopy(a.elt)))
        return out
    return None


class Guards:
    def __init__(self, prog):
        self.prog = prog

    # ---- condition of an expression
    def cond(self, env, e, depth=0):
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.BoolOp):
            fs = [self.cond(env, v, depth) for v in e.values]
            return AND(*fs) if isinstance(e.op, ast.And) else OR(*fs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return NOT(self.cond(env, e.operand, depth))
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd)) and isinstance(e.left, ast.Compare) and isinstance(e.right, ast.Compare):
            fs = [self.cond(env, v, depth) for v in (e.left, e.right)]
            return AND(*fs) if isinstance(e.op, ast.BitAnd) else OR(*fs)
        if isinstance(e, ast.Compare):
            fs = []
            l = e.left
            for op, r in zip(e.ops, e.comparators):
                fs.append(self.cmp(op, env.expand(l), env.expand(r)))
                l = r
            return AND(*fs)
        if isinstance(e, ast.IfExp):
            t = self.cond(env, e.test, depth)
            return OR(AND(t, self.cond(env, e.body, depth)), AND(NOT(t), self.cond(env, e.orelse, depth)))
        if isinstance(e, ast.Call) and depth < 4:
            if isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2 and isinstance(e.args[1], ast.Tuple):
                return OR(*[("a", f"isinstance({text(env.expand(e.args[0]))}, {text(x)})") for x in e.args[1].elts])
            if isinstance(e.func, ast.Name) and e.func.id in ("bool",) and len(e.args) == 1:
                return self.cond(env, e.args[0], depth + 1)
            if isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 and not e.keywords:
                xs = spread(e.args[0])
                if xs:
                    fs = [self.cond(env, x, depth + 1) for x in xs]
                    return OR(*fs) if e.func.id == "any" else AND(*fs)
            g = self.callee(env, e)
            if g is not None and g.qual not in self._stack(env):
                r = self.pred(env, g, e, depth)
                if r is not None:
                    return r
        x = env.expand(e)
        if not isinstance(e, (ast.Compare, ast.BoolOp)) and isinstance(x, (ast.Compare, ast.BoolOp, ast.IfExp)):
            return self.xcond(x)
        if isinstance(x, (ast.Compare, ast.BoolOp, ast.UnaryOp)) and depth < 6 and not (isinstance(x, ast.UnaryOp) and not isinstance(x.op, ast.Not)) and not isinstance(e, (ast.Compare, ast.BoolOp)):
            return self.cond(env, x, depth + 1)
        return ("a", ctext(x))

    def cmp(self, op, l, r, d=0):
        """comparison of expanded expressions; a conditional operand splits the comparison"""
        for e in ast.walk(ast.Tuple(elts=[l, r], ctx=ast.Load())):
            if isinstance(e, ast.IfExp) and d < 3:
                key = ast.dump(e)

                def pick(x, which):
                    class P(ast.NodeTransformer):
                        def visit_IfExp(self, n):
                            if ast.dump(n) == key:
                                return getattr(n, which)
                            self.generic_visit(n)
                            return n
                    import copy
                    return P().visit(copy.deepcopy(x))
                t = self.xcond(e.test)
                return OR(AND(t, self.cmp(op, pick(l, "body"), pick(r, "body"), d + 1)), AND(NOT(t), self.cmp(op, pick(l, "orelse"), pick(r, "orelse"), d + 1)))
        return cmp_atom(op, l, r)

    def xcond(self, e):
        """condition of an already expanded expression"""
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.BoolOp):
            fs = [self.xcond(v) for v in e.values]
            return AND(*fs) if isinstance(e.op, ast.And) else OR(*fs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return NOT(self.xcond(e.operand))
        if isinstance(e, ast.Compare):
            fs, l = [], e.left
            for op, r in zip(e.ops, e.comparators):
                fs.append(self.cmp(op, l, r))
                l = r
            return AND(*fs)
        return ("a", ctext(e))

    def _stack(self, env):
        return getattr(env, "stack", (env.f.qual,))

    def callee(self, env, call):
        f = call.func
        if isinstance(f, ast.Name):
            r = resolve_in_fn(self.prog, env.f, f)
            return r if isinstance(r, Function) else None
        if isinstance(f, ast.Attribute):
            r = resolve_in_fn(self.prog, env.f, f)
            if isinstance(r, Function) and r.cls is None:
                return r
            lt = LocalTypes(self.prog, env.f)
            c = lt.etype(f.value)
            if c is not None:
                m = self.prog.find_method(c, f.attr)
                if m is not None and not any(f.attr in k.methods for k in self.prog.subclasses(c) if k is not c):
                    return m
        return None

    def bind(self, env, g, call):
        """argument substitution for an inlined call, or None"""
        pos = g.pos_params
        args = {}
        a = list(call.args)
        if any(isinstance(x, ast.Starred) for x in a) or any(k.arg is None for k in call.keywords):
            return None
        if g.cls is not None and g.role not in ("static",) and isinstance(call.func, ast.Attribute):
            args[pos[0]] = env.expand(call.func.value)
            pos = pos[1:]
        if len(a) > len(pos):
            return None
        for p, x in zip(pos, a):
            args[p] = env.expand(x)
        for k in call.keywords:
            args[k.arg] = env.expand(k.value)
        for p, dv in g.defaults().items():
            if p not in args:
                args[p] = dv
        return args

    def pred(self, env, g, call, depth):
        """a helper whose body is 'return <expr>' (after docstring / simple assignments)"""
        body = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if not body or not isinstance(body[-1], ast.Return) or body[-1].value is None:
            return None
        if any(not isinstance(s, (ast.Assign, ast.AnnAssign)) for s in body[:-1]):
            return None
        v = body[-1].value
        if not isinstance(v, (ast.Compare, ast.BoolOp, ast.UnaryOp)) and not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name)):
            return None
        args = self.bind(env, g, call)
        if args is None:
            return None
        e2 = Env(self.prog, g, args)
        e2.stack = self._stack(env) + (g.qual,)
        for s in body[:-1]:
            e2.step(s)
        return self.cond(e2, v, depth + 1)

    # ---- rejection condition of a function
    def rejects(self, f, env=None, depth=0):
        """[(exception name, formula)] disjoint sites"""
        env = env or Env(self.prog, f)
        if not hasattr(env, "stack"):
            env.stack = (f.qual,)
        sites = []
        self.block(env, f.node.body, True, sites, depth)
        return sites

    def block(self, env, body, pc, sites, depth):
        """returns the condition under which control falls off the end of body"""
        for s in body:
            if pc is False:
                return False
            if isinstance(s, ast.If):
                c = self.cond(env, s.test)
                c0 = dict(env.cur)
                a = self.block(env, s.body, AND(pc, c), sites, depth)
                c1 = env.cur
                env.cur = c0
                b = self.block(env, s.orelse, AND(pc, NOT(c)), sites, depth)
                c2 = env.cur
                if a is False:
                    env.cur = c2
                elif b is False:
                    env.cur = c1
                else:
                    env.cur = {}
                    for k in set(c1) | set(c2):
                        x, y = (c[k] if k in c else env.sub.get(k, "-") for c in (c1, c2))
                        same = x is y or isinstance(x, ast.AST) and isinstance(y, ast.AST) and ast.dump(x) == ast.dump(y)
                        if same:
                            env.cur[k] = x
                        elif isinstance(x, ast.AST) and isinstance(y, ast.AST) and sum(1 for _ in ast.walk(x)) + sum(1 for _ in ast.walk(y)) < 60:
                            env.cur[k] = ast.IfExp(test=env.expand(s.test), body=x, orelse=y)
                        else:
                            env.cur[k] = None
                if a is False and b is False:
                    pc = False
                elif a is False:
                    pc = b
                elif b is False:
                    pc = a
                # both fall through: keep pc (branches that exit only under deeper conditions are approximated)
                elif a != AND(pc, c) or b != AND(pc, NOT(c)):
                    pc = OR(a, b)
            elif isinstance(s, ast.Raise):
                if s.exc is not None:
                    e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                    sites.append((text(e), pc))
                return False
            elif isinstance(s, ast.Assert):
                c = self.cond(env, s.test)
                sites.append(("AssertionError", AND(pc, NOT(c))))
            elif isinstance(s, (ast.Return, ast.Break, ast.Continue)):
                self.calls(env, s, pc, sites, depth)
                return False
            elif isinstance(s, (ast.For, ast.While)):
                env.kill_stores(s.body)
                if isinstance(s, ast.For):
                    env.assign(s.target, ast.Call(func=ast.Name(id="elt", ctx=ast.Load()), args=[env.expand(s.iter)], keywords=[]))
                self.block(env, s.body, pc if isinstance(s, ast.For) else AND(pc, self.cond(env, s.test)), sites, depth)
                env.kill_stores(s.body)
                if s.orelse:
                    self.block(env, s.orelse, pc, sites, depth)
            elif isinstance(s, ast.With):
                for i in s.items:
                    if i.optional_vars is not None:
                        env.assign(i.optional_vars, None)
                pc = self.block(env, s.body, pc, sites, depth)
            elif isinstance(s, ast.Try):
                if not any(True for h in s.handlers):
                    pc = self.block(env, s.body, pc, sites, depth)
                else:
                    inner = []
                    self.block(env, s.body, pc, inner, depth)
                    env.kill_stores([s])
                    caught = {text(h.type) if h.type is not None else "*" for h in s.handlers}
                    for e, c in inner:
                        if "*" not in caught and e not in caught and "Exception" not in caught:
                            sites.append((e, c))
                        else:
                            # translated by a handler that always raises
                            for h in s.handlers:
                                t = text(h.type) if h.type is not None else "*"
                                if t in ("*", e, "Exception") and h.body and isinstance(h.body[-1], ast.Raise):
                                    x = h.body[-1].exc
                                    nm = e if x is None else text(x.func if isinstance(x, ast.Call) else x)
                                    if isinstance(x, ast.Name) and h.name == x.id:
                                        nm = e
                                    sites.append((nm, c))
            else:
                self.calls(env, s, pc, sites, depth)
                env.step(s)
        return pc

    def calls(self, env, s, pc, sites, depth, exprs=None):
        """helpers that raise: only statement-level calls of functions without another purpose are inlined"""
        if depth >= 2:
            return
        if exprs is not None:
            return
        v = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.AnnAssign, ast.Return)) else None
        if not isinstance(v, ast.Call):
            return
        g = self.callee(env, v)
        if g is None or g.qual in env.stack:
            return
        if not any(isinstance(x, ast.Raise) for x in ast.walk(g.node)):
            return
        args = self.bind(env, g, v)
        if args is None:
            return
        e2 = Env(self.prog, g, args)
        e2.stack = env.stack + (g.qual,)
        inner = []
        self.block(e2, g.node.body, pc, inner, depth + 1)
        sites.extend(inner)


def implied(spec, cur, limit=16):
    """spec => cur ?  True, a counterexample valuation, or None if there are too many atoms"""
    at = atoms(spec)
    for a in atoms(cur):
        if a not in at:
            at.append(a)
    if len(at) > limit:
        return None
    if spec is False or cur is True:
        return True
    for vals in itertools.product((False, True), repeat=len(at)):
        env = dict(zip(at, vals))
        if ev(spec, env) and not ev(cur, env) and consistent(env):
            return env
    return True


INT = re.compile(r"^(len\(|.*\.(ndim|size|degree|_degree|count)$|.*\.shape\[|.*\._?size\[|.*_degree\[|.*\.degree\[)")


def consistent(env):
    """can the valuation occur?  equalities with constants, truthiness against length, and linear arithmetic (Fourier-Motzkin)
    with abs() split into cases"""
    eq = {}
    cons = []          # (dict, strict): sum + const < 0 / <= 0
    neq = []
    for k, v in env.items():
        if k in LIN:
            op, d = LIN[k]
            if op == "<":
                cons.append((d, True) if v else ({t: -c for t, c in d.items()}, False))
            elif v:
                cons.append((d, False))
                cons.append(({t: -c for t, c in d.items()}, False))
            else:
                neq.append(d)
        elif v and " == " in k:
            a, b = k.split(" == ", 1)
            for c, t in ((a, b), (b, a)):
                if c[:1] in "'\"":
                    if t in eq and eq[t] != c:
                        return False
                    eq[t] = c
        else:
            ln = f"len({k})"
            if any(ln in LIN[q][1] for q in env if q in LIN):
                cons.append(({"": Fraction(1), ln: Fraction(-1)}, False) if v else ({ln: Fraction(1)}, False))
    return _feasible(cons, neq)


def _feasible(cons, neq, depth=0):
    for d in neq:
        rest = [x for x in neq if x is not d]
        return _feasible(cons + [(d, True)], rest, depth) or _feasible(cons + [({t: -c for t, c in d.items()}, True)], rest, depth)
    # split abs terms
    for d, _ in cons:
        for t in d:
            if t.startswith("abs(") and t.endswith(")"):
                try:
                    e = ast.parse(t, mode="eval").body if "$" not in t else ast.parse(t.replace("$", "__P"), mode="eval").body
                except SyntaxError:
                    continue
                if not (isinstance(e, ast.Call) and len(e.args) == 1 and depth < 5):
                    continue
                inner = {k.replace("__P", "$"): v for k, v in linear(e.args[0]).items()}
                for s in (1, -1):
                    c2 = [(_subst(x, t, {k: s * v for k, v in inner.items()}), st) for x, st in cons]
                    c2.append(({k: -s * v for k, v in inner.items()}, False))
                    if _feasible(c2, [], depth + 1):
                        return True
                return False
    terms = {t for d, _ in cons for t in d if t}
    for t in terms:
        if re.match(r"^(len\(|norm\(|abs\(|.*\.ndim$|.*\.shape\[)", t):
            cons = cons + [({t: Fraction(-1)}, False)]
    # integer tightening
    out = []
    for d, st in cons:
        if st and all((t == "" or INT.match(t)) and c.denominator == 1 for t, c in d.items()):
            d = dict(d)
            d[""] = d.get("", 0) + 1
            st = False
        out.append((d, st))
    return _fm(out)


def _subst(d, t, lin):
    if t not in d:
        return d
    c = d[t]
    out = {k: v for k, v in d.items() if k != t}
    for k, v in lin.items():
        out[k] = out.get(k, 0) + c * v
    return {k: v for k, v in out.items() if v}


def _fm(cons):
    cons = [({k: v for k, v in d.items() if v}, s) for d, s in cons]
    while True:
        for d, s in cons:
            if not set(d) - {""}:
                c = d.get("", 0)
                if c > 0 or (s and c >= 0):
                    return False
        terms = {t for d, _ in cons for t in d if t}
        if not terms or len(cons) > 400:
            return True
        t = min(terms, key=lambda t: sum(1 for d, _ in cons if d.get(t, 0) > 0) * sum(1 for d, _ in cons if d.get(t, 0) < 0))
        pos = [(d, s) for d, s in cons if d.get(t, 0) > 0]
        neg = [(d, s) for d, s in cons if d.get(t, 0) < 0]
        new = [(d, s) for d, s in cons if not d.get(t, 0)]
        for d1, s1 in pos:
            for d2, s2 in neg:
                a, b = -d2[t], d1[t]
                r = {}
                for k in set(d1) | set(d2):
                    v = d1.get(k, 0) * a + d2.get(k, 0) * b
                    if v and k != t:
                        r[k] = v
                new.append((r, s1 or s2))
        cons = new
