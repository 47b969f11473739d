"""Progress of loops and recursions.

A loop is looked at as the part of the control-flow graph that leads from its head back to its head.  Measures that bound the number of
rounds are collected from its ways out: counters and lengths compared with a limit on a way out that is taken as soon as the comparison
fails, containers that are emptied, links that are followed, intervals that are halved or marched through by arithmetic alone.  A statement
that moves a measure toward its way out is a step; a cycle through the head that takes no step never ends, or ends only by luck.

Recursions: a call of the function itself must change something its base case looks at, and advance the depth its base case compares."""
from __future__ import annotations
import ast
import copy
import itertools
from .cfg import CFG, own_exprs, const_truth

POP = {"delItem", "delMin", "delete", "pop", "popleft", "popitem", "remove", "discard", "clear", "poptop", "get", "get_nowait", "pop_min", "pop_max"}
GROW = {"append", "extend", "add", "insert", "appendleft", "push", "put", "push_back"}
POPF = {"heappop", "heapreplace"}
ARITH = {"abs", "min", "max", "int", "float", "sum", "len", "round", "sqrt", "floor", "ceil", "fabs", "minimum", "maximum", "where", "clip", "linspace", "array", "asarray", "sign",
         "divmod", "copy", "bool", "range", "zip", "enumerate", "any", "all", "tuple", "list", "norm", "__cast__", "argmin", "argmax"}
SIZE_ATTR = {"size", "shape", "length", "count"}


def key(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = key(e.value)
        return None if b is None else b + "." + e.attr
    return None


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def names(e):
    """keys read by e (attribute chains whole, and their prefixes)"""
    out = set()
    for x in ast.walk(e):
        if isinstance(x, (ast.Name, ast.Attribute)):
            k = key(x)
            if k:
                out.add(k)
    return out


def targets(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)
    else:
        yield t


def calls(e):
    return [x for x in ast.walk(e) if isinstance(x, ast.Call)]


def fname(c):
    return c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else ""


def base(t):
    """the variable a target changes: x, self.x, and x of x[i]"""
    while isinstance(t, ast.Subscript):
        t = t.value
    return key(t)


def parts(v, n):
    """the n components of a tuple display, also of one chosen by a test"""
    if isinstance(v, (ast.Tuple, ast.List)):
        return v.elts if len(v.elts) == n and not any(isinstance(x, ast.Starred) for x in v.elts) else None
    if isinstance(v, ast.IfExp):
        a, b = parts(v.body, n), parts(v.orelse, n)
        if a is not None and b is not None:
            return [ast.IfExp(test=v.test, body=x, orelse=y) for x, y in zip(a, b)]
    return None


class Loop:
    def __init__(self, g, head, w, prog=None, fn=None):
        self.g, self.head, self.w, self.prog, self.fn = g, head, w, prog, fn
        self.nodes = [n for n in g.nodes if w in n.loops]
        self.ids = {n.id for n in self.nodes}
        self.defs = {}             # key -> [(node, rhs or None, kind)]
        for n in self.nodes + [head]:
            for k, rhs, kind in self.defs_of(n):
                self.defs.setdefault(k, []).append((n, rhs, kind))
        self._arith = {}

    # ---- definitions
    def defs_of(self, n):
        a = n.ast
        out = []
        for e in own_exprs(n):
            for x in ast.walk(e):
                if isinstance(x, ast.NamedExpr):
                    out.append((x.target.id, x.value, "set"))
        if n.kind == "for":
            for t in targets(a.target):
                out.append((base(t), a.iter, "for"))
        elif n.kind == "with":
            for i in a.items:
                if i.optional_vars is not None:
                    for t in targets(i.optional_vars):
                        out.append((base(t), i.context_expr, "set"))
        elif n.kind == "stmt":
            if isinstance(a, ast.Assign):
                for t in a.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and parts(a.value, len(t.elts)) is not None:
                        for x, v in zip(t.elts, parts(a.value, len(t.elts))):
                            for y in targets(x):
                                out.append((base(y), v, "set"))
                    else:
                        for x in targets(t):
                            out.append((base(x), a.value, "set"))
            elif isinstance(a, ast.AnnAssign) and a.value is not None:
                out.append((base(a.target), a.value, "set"))
            elif isinstance(a, ast.AugAssign):
                v = ast.BinOp(left=a.target, op=a.op, right=a.value)
                out.append((base(a.target), v, "set"))
            elif isinstance(a, ast.Delete):
                for t in a.targets:
                    out.append((base(t), None, "del"))
        return [o for o in out if o[0]]

    def closure(self, ks, data=False):
        """everything inside the loop that the given keys are computed from (data: not looking at the tests their statements are under)"""
        out, todo = set(), list(ks)
        while todo:
            k = todo.pop()
            if k in out:
                continue
            out.add(k)
            for n, rhs, _ in self.defs.get(k, ()):
                if rhs is not None:
                    todo += list(names(rhs))
                for t in () if data else self.controls(n):
                    todo += list(names(t))
        return out

    def controls(self, n):
        return self._ctl().get(n.id, ())

    def _ctl(self):
        c = getattr(self, "_c", None)
        if c is None:
            c = self._c = {}
            tests = {}

            def walk(body, ts):
                for s in body:
                    tests[id(s)] = ts
                    if isinstance(s, ast.If):
                        walk(s.body, ts + [s.test])
                        walk(s.orelse, ts + [s.test])
                    elif isinstance(s, (ast.For, ast.While)):
                        walk(s.body, ts + ([s.test] if isinstance(s, ast.While) else []))
                        walk(s.orelse, ts)
                    elif isinstance(s, (ast.With,)):
                        walk(s.body, ts)
                    elif isinstance(s, ast.Try):
                        walk(s.body, ts)
                        for h in s.handlers:
                            walk(h.body, ts)
                        walk(s.orelse, ts)
                        walk(s.finalbody, ts)
            walk(self.w.body, [])
            for n in self.nodes:
                c[n.id] = tests.get(id(n.ast), ())
        return c

    # ---- ways out
    def exits(self):
        """[(formula under which the loop goes on, node where it is decided)]"""
        out = []
        if const_truth(self.w.test) is not True:
            out.append((self.w.test, True, self.head))
        for n in self.nodes:
            if n.kind != "test" or n.ast is self.w:
                continue
            t = n.ast
            if isinstance(t, ast.While):
                continue
            inner = [b for b, l in n.succ if l is True]
            other = [b for b, l in n.succ if l is False]
            back_t, back_f = self.back(inner), self.back(other)
            if not back_t and back_f:
                out.append((t.test, False, n))
            elif back_t and not back_f:
                out.append((t.test, True, n))
        return out

    def back(self, starts):
        """can the loop head be reached again from these nodes without leaving the loop?"""
        seen, st = set(), list(starts)
        while st:
            a = st.pop()
            if a is self.head:
                return True
            if a.id in seen or a.id not in self.ids:
                continue
            seen.add(a.id)
            st += [b for b, l in a.succ]
        return False

    def variants(self):
        """a loop that goes on while A or B must come to the end of A and to the end of B"""
        vs = self.split(self.w.test, True)
        if len(vs) > 1:
            return vs
        if const_truth(self.w.test) is True and not any(self.limits()):
            for ts in self.chains():
                n = [x for x in self.nodes if ts and x.kind == "test" and x.ast.test is ts[0][0]]
                vs = [v for t, pos in ts for v in self.split(t, pos)]
                if len(vs) > 1 and n and not self.cycle({n[0].id}):
                    return vs
        return [None]

    def split(self, t, pos):
        """the parts of a test that must all come out the other way"""
        t = self.expand(t)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.split(t.operand, not pos)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or if pos else ast.And):
            return [x for v in t.values for x in self.split(v, pos)]
        return [(t, pos)]

    def expand(self, e, depth=0):
        """a flag set once in the round stands for its value, a call of a function that only returns an expression for that expression"""
        if depth > 4:
            return e
        if isinstance(e, ast.Name):
            ds = self.defs.get(e.id, ())
            if len(ds) == 1 and ds[0][2] == "set" and isinstance(ds[0][1], (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call, ast.Name)) and e.id not in names(ds[0][1]) and not self.carried(e.id):
                return self.expand(ds[0][1], depth + 1)
        if isinstance(e, ast.Call) and not any(k.arg is None for k in e.keywords) and not any(isinstance(a, ast.Starred) for a in e.args):
            g = self.resolve(e)
            node = g.node if g is not None else None
            body = [s for s in getattr(node, "body", []) if not isinstance(s, ast.Expr)] if isinstance(node, ast.FunctionDef) else []
            if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, (ast.Compare, ast.BoolOp, ast.UnaryOp)) and isinstance(e.func, ast.Name):
                ps = dict(zip(g.params, e.args))
                ps.update((k.arg, k.value) for k in e.keywords)
                if set(g.params) == set(ps) and not any(isinstance(x, (ast.Lambda, ast.comprehension)) for x in ast.walk(body[0].value)):
                    class Sub(ast.NodeTransformer):
                        def visit_Name(self, n):
                            return ps.get(n.id, n)
                    return self.expand(Sub().visit(copy.deepcopy(body[0].value)), depth + 1)
        return e

    def chains(self):
        """the tests on the way to each way out, outermost first: [(test, its value while the loop goes on)]"""
        out = []

        def walk(body, ts, inner):
            for s in body:
                if isinstance(s, ast.If):
                    walk(s.body, ts + [(s.test, False)], inner)
                    walk(s.orelse, ts + [(s.test, True)], inner)
                elif isinstance(s, ast.With):
                    walk(s.body, ts, inner)
                elif isinstance(s, (ast.Return, ast.Raise)) or isinstance(s, ast.Break) and not inner:
                    out.append(ts)
        walk(self.w.body, [], False)
        return out

    def atoms(self, only=None):
        """comparisons that end the loop as soon as they say so: [(atom, value of the atom while the loop goes on, node)]"""
        out = []

        def go(e, pos, n):
            e = self.expand(e)
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                go(e.operand, not pos, n)
            elif isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And if pos else ast.Or):
                for v in e.values:
                    go(v, pos, n)
            elif isinstance(e, ast.BoolOp):
                pass                                    # one operand alone does not end the loop
            elif isinstance(e, ast.Compare) and len(e.ops) > 1:
                if pos:
                    l = e.left
                    for o, r in zip(e.ops, e.comparators):
                        out.append((ast.Compare(left=l, ops=[o], comparators=[r]), pos, n))
                        l = r
            elif isinstance(e, ast.Call) and fname(e) in ("any", "all") and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
                go(e.args[0].elt, pos, n)
            elif isinstance(e, ast.Call) and fname(e) in ("any", "all") and not e.args and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Compare):
                go(e.func.value, pos, n)
            elif isinstance(e, ast.Call) and fname(e) in ("bool", "any", "all") and len(e.args) == 1 and isinstance(e.args[0], (ast.Compare, ast.BoolOp, ast.Name)):
                go(e.args[0], pos, n)
            else:
                out.append((e, pos, n))
        if only is not None:
            go(only[0], only[1], self.head)
        for t, pos, n in self.exits():
            if n is self.head and only is not None:
                continue
            if n is self.head or not self.cycle({n.id}):
                go(t, pos, n)
        return out

    def exit_keys(self):
        """keys any way out looks at"""
        out = set()
        for n in self.nodes + [self.head]:
            if n.kind == "test":
                out |= names(n.ast.test) | {x for v in self.split(n.ast.test, True) + self.split(n.ast.test, False) for x in names(v[0])}
            elif n.kind == "for":
                out |= names(n.ast.iter)
        return self.closure(out)

    # ---- cycles
    def facts(self, e, v):
        """what is known after test e came out as v: [(text, value)] plus one ('or', texts) for a disjunction"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.facts(e.operand, not v)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) == v:
                return [x for y in e.values for x in self.facts(y, v)]
            alts = [self.facts(y, v) for y in e.values]
            if all(len(a) == 1 and a[0][0] != "|" for a in alts):
                return [("|", frozenset(a[0] for a in alts))]
            return []
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
            o, l, r = e.ops[0], ast.unparse(e.left), ast.unparse(e.comparators[0])
            if isinstance(o, (ast.Gt, ast.LtE)):
                l, r = r, l
            if isinstance(o, (ast.Eq, ast.NotEq)):
                return [(" == ".join(sorted((l, r))), v == isinstance(o, ast.Eq))]
            return [(f"{l} < {r}", v == isinstance(o, (ast.Lt, ast.Gt)))]
        return [(ast.unparse(e), v)]

    def add(self, known, new):
        """known facts joined by new ones; None when they contradict each other"""
        out = set(known)
        for f in new:
            if f[0] != "|" and (f[0], not f[1]) in out:
                return None
            out.add(f)
        for f in list(out):
            if f[0] != "|" and f[1] is False and " < " in f[0]:
                l, _, r = f[0].partition(" < ")
                if (f"{r} < {l}", False) in out and (" == ".join(sorted((l, r))), False) in out:
                    return None
            if f[0] == "|":
                left = [a for a in f[1] if (a[0], not a[1]) not in out]
                if not left:
                    return None
        return frozenset(out)

    def kill(self, known, n):
        if not known:
            return known
        chg = {k for k, _, _ in self.defs_of(n)}
        call = any(calls(e) for e in own_exprs(n))
        out = set()
        for f in known:
            texts = [f[0]] if f[0] != "|" else [a[0] for a in f[1]]
            ok = True
            for t in texts:
                ks = self._names(t)
                if any(k == c or k.startswith(c + ".") or c.startswith(k + ".") for k in ks for c in chg):
                    ok = False
                if call and n.kind != "test" and ("." in t or "[" in t or "(" in t):
                    ok = False
            if ok:
                out.add(f)
        return frozenset(out)

    def _names(self, t):
        c = self.__dict__.setdefault("_nm", {})
        if t not in c:
            c[t] = names(ast.parse(t, mode="eval")) if t else set()
        return c[t]

    def cycle(self, avoid):
        """nodes of a feasible-looking cycle through the head that avoids the given nodes, or None"""
        if self.head.id in avoid:
            return None
        prev, st, seen = {}, [], set()

        def push(a, b, l, known):
            if a.kind == "test" and l in (True, False):
                known = self.add(known, self.facts(a.ast.test, l))
                if known is None:
                    return None
            if b is self.head:
                out = [a] if a is not self.head else []
                k = st_key
                while out and k in prev and prev[k] is not None:
                    k = prev[k]
                    if k[0] is not self.head:
                        out.append(k[0])
                return out[::-1] or True
            if b.id in self.ids and b.id not in avoid:
                q = (b, self.kill(known, b) if b.kind != "test" else known)
                if (b.id, q[1]) not in seen and len(seen) < 20000:
                    seen.add((b.id, q[1]))
                    prev[q] = st_key
                    st.append(q)
            return None
        st_key = (self.head, frozenset())
        prev[st_key] = None
        st.append(st_key)
        while st:
            st_key = st.pop(0)
            a, known = st_key
            for b, l in a.succ:
                if a is self.head and b.id not in self.ids and b is not self.head:
                    continue
                r = push(a, b, l, known)
                if r:
                    return r
        return None

    # ---- steps
    def limits(self, only=None):
        """counters: key -> directions (+1 up, -1 down, 0 any) in which it moves toward a way out; containers emptied / filled"""
        cnt, shrink, grow, either = {}, set(), set(), set()
        carried = set(self.defs)

        def size_of(e):
            if isinstance(e, ast.Call) and fname(e) in ("len",) and e.args:
                return key(e.args[0])
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and fname(e) in ("size", "qsize", "__len__", "empty", "is_empty"):
                return key(e.func.value)
            if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == "shape":
                return key(e.value.value)
            if isinstance(e, ast.Attribute) and e.attr in ("size", "length", "count"):
                return key(e.value)
            return None

        def side(e, d):
            s = size_of(e)
            if s:
                (either if d == 0 else shrink if d < 0 else grow).add(s)
                return
            ks = set()
            for x in ast.walk(e):
                if isinstance(x, ast.Call) and size_of(x) is None and fname(x) not in ARITH:
                    continue
                k = key(x) if isinstance(x, (ast.Name, ast.Attribute)) else base(x) if isinstance(x, ast.Subscript) else None
                if k:
                    ks.add(k)
            neg = {}
            signs(e, 1, neg)
            for k in ks:
                sg = neg.get(k, {1, -1})
                for q in sg:
                    cnt.setdefault(k, set()).add(0 if d == 0 else d * q)
            # elements of a sorted array: the index moves where the elements move
            for x in ast.walk(e):
                if isinstance(x, ast.Subscript):
                    for k in names(x.slice):
                        cnt.setdefault(k, set()).add(0)
        for e, pos, n in self.atoms(only):
            if isinstance(e, ast.Compare):
                o, l, r = e.ops[0], e.left, e.comparators[0]
                if isinstance(o, (ast.Lt, ast.LtE)):
                    d = 1 if pos else -1          # goes on while l < r: l up, r down
                elif isinstance(o, (ast.Gt, ast.GtE)):
                    d = -1 if pos else 1
                else:
                    d = 0
                side(l, d)
                side(r, -d)
            elif isinstance(e, ast.Call):
                s = size_of(e)
                if s:
                    (shrink if (fname(e) not in ("empty", "is_empty")) == pos else grow).add(s)
                else:
                    for a in list(e.args) + [k.value for k in e.keywords]:
                        side(a, 0)
                    if isinstance(e.func, ast.Attribute) and key(e.func.value):
                        either.add(key(e.func.value))
                        cnt.setdefault(key(e.func.value), set()).add(0)
            else:
                k = key(e) or size_of(e)
                if k:
                    shrink.add(k)
                    cnt.setdefault(k, set()).add(0)
        return cnt, shrink | either, (grow - shrink) | either

    def pure_arith(self, e, k, seen=()):
        """e is arithmetic over carried variables, constants and things that do not change in the loop (no call of anything unknown)"""
        skip = {id(y) for x in ast.walk(e) if isinstance(x, (ast.Subscript, ast.IfExp)) for y in ast.walk(x.slice if isinstance(x, ast.Subscript) else x.test)}
        for x in ast.walk(e):
            if id(x) in skip:
                continue
            if isinstance(x, ast.Call) and fname(x) not in ARITH and not self.arith_helper(x):
                return False
            if isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom, ast.Lambda)):
                return False
        for v in {key(x) for x in ast.walk(e) if id(x) not in skip and isinstance(x, (ast.Name, ast.Attribute))} - {None}:
            if v in seen:
                continue
            for n, rhs, kind in self.defs.get(v, ()):
                if rhs is None or kind == "for" or rhs is e:
                    continue
                if not self.pure_arith(rhs, k, tuple(seen) + (v,)):
                    return False
        return True

    def arith_helper(self, c):
        """a call of a function of the program that only computes with its arguments"""
        f = self.resolve(c)
        if f is None:
            return False
        ps = set(f.params)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                if fname(x) not in ARITH or root(x.func) in ps and isinstance(x.func, ast.Name):
                    return False
        return True

    def resolve(self, c):
        if self.prog is None or not isinstance(c.func, (ast.Name, ast.Attribute)):
            return None
        return self.prog(self.fn, c)

    def step_nodes(self, only=None):
        cnt, shrink, grow = self.limits(only)
        ek = self.exit_keys()
        out = set()
        wrong = {}
        self.inter = {}
        for k, ds in self.defs.items():
            for n, rhs, kind in ds:
                if kind == "del":
                    if k in shrink:
                        out.add(n.id)
                    continue
                if rhs is None:
                    continue
                if kind == "for":
                    continue
                if isinstance(rhs, (ast.Name, ast.Attribute)) and key(rhs) == k or nothing_added(rhs, k):
                    continue                             # x = x
                # counters and marches
                d = increment(rhs, k)
                if d == 0 and k not in cnt and not self.pure_arith(rhs, k):
                    d = None
                if d is not None:
                    if k in cnt and (0 in cnt[k] or d == 0 or d in cnt[k]):
                        out.add(n.id)
                    elif k in cnt:
                        wrong[n.id] = k
                    elif k in ek and self.counts_for(k, cnt):
                        out.add(n.id)
                    continue
                # links
                if k in ek and link(rhs, k, self):
                    out.add(n.id)
                    continue
                # slices of a consumed container
                if k in shrink and any(isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice) and key(x.value) == k for x in ast.walk(rhs)):
                    out.add(n.id)
                    continue
                if k in shrink and any(fname(c) in ("delete", "setdiff1d", "filter", "compress", "difference") for c in calls(rhs)) and k in names(rhs):
                    out.add(n.id)
                    continue
                if k in shrink and isinstance(rhs, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) and k in names(rhs):
                    out.add(n.id)
                    continue
                # intervals that are halved, marched through ...: arithmetic alone, over the variable itself
                if k in ek and (k in cnt or self.feeds(k, cnt)) and k in self.closure(names(rhs), True) and self.pure_arith(rhs, k):
                    if not isinstance(rhs, ast.Constant):
                        if k in names(rhs):
                            out.add(n.id)
                        else:
                            self.inter.setdefault(k, set()).add(n.id)
                    continue
                # a two-valued flag the way out looks at, set to a constant
                if k in cnt and isinstance(rhs, ast.Constant) and isinstance(rhs.value, bool):
                    out.add(n.id)
        for n in self.nodes + [self.head]:
            for e in own_exprs(n):
                for c in calls(e):
                    f = fname(c)
                    tgt = key(c.func.value) if isinstance(c.func, ast.Attribute) else None
                    if tgt and f in POP and (tgt in shrink or tgt in ek and f not in ("get", "delete", "discard")):
                        out.add(n.id)
                    elif tgt and f in GROW and tgt in grow:
                        out.add(n.id)
                    elif f in POPF and c.args and key(c.args[0]) in shrink:
                        out.add(n.id)
                    elif f in ("next", "__next__"):
                        out.add(n.id)
                    elif f not in POP and f not in GROW:
                        g = self.resolve(c)
                        if g is not None:
                            for p, a in bind(g, c):
                                if key(a) in shrink and consumes(g, p):
                                    out.add(n.id)
        return out, wrong

    def rounds(self, only=None):
        """[steps, wrong]: sets of statements every round must meet.  Variables computed from each other (low, high and mid of a bisection)
        move only when a round sets enough of them that the new value of one depends on its old value: at least one variable of every
        set that cuts all their mutual dependencies."""
        out, wrong = self.step_nodes(only)
        ks = sorted(self.inter)
        if not ks:
            return [(out, wrong)]
        dep = {k: set() for k in ks}
        for k in ks:
            todo, seen = [x for n, rhs, kind in self.defs[k] if rhs is not None and n.id in self.inter[k] for x in names(rhs)], set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in self.inter:
                    dep[k].add(x)
                    continue
                todo += [y for n, rhs, kind in self.defs.get(x, ()) if rhs is not None for y in names(rhs)]
        if len(ks) > 8:
            return [(out | {i for v in self.inter.values() for i in v}, wrong)]

        def acyclic(keep):
            keep = set(keep)
            while True:
                free = {k for k in keep if not dep[k] & keep}
                if not free:
                    return not keep
                keep -= free
        cuts = []
        for m in range(len(ks) + 1):
            for c in itertools.combinations(ks, m):
                if not any(set(d) <= set(c) for d in cuts) and acyclic(set(ks) - set(c)):
                    cuts.append(c)
        return [(out | {i for k in c for i in self.inter[k]}, wrong) for c in cuts]

    def weak_nodes(self, only=None, direct=False):
        """statements that change something carried from round to round that a way out is computed from (direct: that it compares)"""
        ek = set(self.limits(only)[0]) if direct else self.exit_keys()
        out = set()
        for k, ds in self.defs.items():
            if k in ek and (direct or self.carried(k)):
                for n, rhs, kind in ds:
                    if kind == "for" or rhs is None or isinstance(rhs, ast.Constant) or key(rhs) == k:
                        continue
                    out.add(n.id)
        for n in self.nodes + [self.head]:
            for e in own_exprs(n):
                for c in calls(e):
                    if isinstance(c.func, ast.Attribute):
                        o = key(c.func.value)
                        g = self.resolve(c)
                        if o and g is not None and g.params and any(k.startswith(o + ".") and writes(self, g, k[len(o) + 1:]) for k in ek):
                            out.add(n.id)
        return out

    def carried(self, k):
        """k may be read in a round before that round sets it"""
        ds = {n.id for n, _, kind in self.defs.get(k, ()) if kind != "del"}
        seen, st = set(), [self.head]
        while st:
            a = st.pop()
            if a.id in seen:
                continue
            seen.add(a.id)
            if any(k in names(e) or any(isinstance(x, ast.AugAssign) for x in [a.ast]) and k in names(a.ast) for e in own_exprs(a)) and self.reads(a, k):
                return True
            if a.id in ds:
                continue
            st += [b for b, l in a.succ if b.id in self.ids]
        return False

    def reads(self, n, k):
        a = n.ast
        if n.kind == "stmt" and isinstance(a, ast.Assign):
            return k in names(a.value) or any(k in names(t) for t in a.targets if not (isinstance(t, ast.Name) or isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in t.elts)))
        return True

    def feeds(self, k, cnt):
        return any(c in self.defs and k in self.closure([c], True) or c == k for c in cnt)

    def counts_for(self, k, cnt):
        """k is not compared itself but a compared variable is computed from it by arithmetic (mid = (low + high) // 2)"""
        for c in cnt:
            for n, rhs, kind in self.defs.get(c, ()):
                if rhs is not None and k in self.closure(names(rhs)) and self.pure_arith(rhs, c):
                    return True
        return False


def signs(e, s, out):
    """key -> signs with which it enters the sum e"""
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        signs(e.left, s, out)
        signs(e.right, s if isinstance(e.op, ast.Add) else -s, out)
    elif isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Div, ast.FloorDiv)) and isinstance(e.right, ast.Constant):
        signs(e.left, s, out)
    elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        signs(e.operand, -s, out)
    elif key(e):
        out.setdefault(key(e), set()).add(s)
    elif isinstance(e, ast.Subscript) and base(e):
        out.setdefault(base(e), set()).add(s)
    elif isinstance(e, ast.Call) and fname(e) == "__cast__" and len(e.args) == 2:
        signs(e.args[1], s, out)


def num(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = num(e.operand)
        return None if v is None else -v
    return None


def nothing_added(rhs, k):
    """k + 0, k * 1 and the like"""
    if not isinstance(rhs, ast.BinOp) or key(rhs.left) != k:
        return False
    v = num(rhs.right)
    return v == 0 and isinstance(rhs.op, (ast.Add, ast.Sub)) or v == 1 and isinstance(rhs.op, (ast.Mult, ast.Div, ast.FloorDiv, ast.Pow))


def increment(rhs, k):
    """+1 / -1 when rhs is k scaled by a constant, rhs is k plus or minus a positive constant, 0 when plus or minus something of unknown sign, else None"""
    if isinstance(rhs, ast.BinOp) and isinstance(rhs.op, (ast.Add, ast.Sub)):
        l, r = rhs.left, rhs.right
        if key(l) == k or isinstance(l, ast.Subscript) and base(l) == k:
            o = r
        elif key(r) == k and isinstance(rhs.op, ast.Add):
            o = l
        else:
            return None
        v = num(o)
        if v is None:
            return None if any(fname(c) not in ARITH for c in calls(o)) or k in names(o) else 0
        if v == 0:
            return None
        return (1 if v > 0 else -1) * (1 if isinstance(rhs.op, ast.Add) else -1)
    if isinstance(rhs, ast.BinOp) and isinstance(rhs.op, (ast.Mult, ast.Div, ast.FloorDiv, ast.RShift)) and key(rhs.left) == k:
        v = num(rhs.right)
        if v is not None and v > 1:
            return 1 if isinstance(rhs.op, ast.Mult) else -1
        if v is not None and isinstance(rhs.op, ast.RShift):
            return -1
        if v is not None and 0 < v < 1:
            return -1 if isinstance(rhs.op, ast.Mult) else 1
    return None


def link(rhs, k, loop):
    """k = k.next, k = parent[k], k = succ(k), k = other.next where other is followed in the loop"""
    e = rhs
    if isinstance(e, ast.Name) and e.id in loop.defs:
        return any(r is not None and not isinstance(r, ast.Name) and link(r, k, loop) for _, r, _ in loop.defs[e.id])
    if isinstance(e, (ast.Tuple, ast.IfExp, ast.BinOp, ast.Compare)):
        return False
    if isinstance(e, ast.Attribute) or isinstance(e, ast.Subscript) or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        r = root(e)
        base_k = k.split(".")[0]
        if r == base_k and key(e) != k:
            if isinstance(e, ast.Call) and (e.args and not all(isinstance(a, ast.Constant) for a in e.args)):
                return fname(e) in ("get",)
            return True
        if isinstance(e, ast.Subscript) and k in names(e.slice):
            return True
        if isinstance(e, ast.Call) and any(key(a) == k for a in e.args) and fname(e) in ("succ", "pred", "next", "prev", "get", "parent"):
            return True
        # node reached from a variable that was itself read from this one
        if r in loop.defs and any(rr is not None and base_k == root(rr) for _, rr, _ in loop.defs[r]):
            return isinstance(e, ast.Attribute)
    return False


def bind(g, c):
    ps = list(g.params)
    if isinstance(c.func, ast.Attribute) and ps and ps[0] in ("self", "cls"):
        ps = ps[1:]
    out = list(zip(ps, c.args))
    out += [(k.arg, k.value) for k in c.keywords if k.arg]
    return out


def consumes(g, p):
    for x in ast.walk(g.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in POP and key(x.func.value) == p:
            return True
        if isinstance(x, ast.Call) and fname(x) in POPF and x.args and key(x.args[0]) == p:
            return True
        if isinstance(x, ast.Delete) and any(base(t) == p for t in x.targets):
            return True
    return False


def writes(loop, g, attr, seen=()):
    """does method g (or a method of the same object it calls) set attribute attr of its receiver?"""
    if g in seen or len(seen) > 6:
        return False
    me = g.params[0]
    for x in ast.walk(g.node):
        if isinstance(x, (ast.Attribute,)) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me and x.attr == attr:
            return True
    for c in calls(g.node):
        if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == me and loop.prog is not None:
            h = loop.prog(g, c)
            if h is not None and h.params and writes(loop, h, attr, seen + (g,)):
                return True
    return False


# ---------------------------------------------------------------------------------------------------------------- recursion
class Recursion:
    """the calls of a function to itself, argument by argument"""

    def __init__(self, f, resolve, mutators=None):
        self.f = f
        self.mutators = mutators
        self.node = f.node
        self.own = [x for x in own_walk(f.node)]
        self.assigned = set()
        self.unpacked = {}
        for x in self.own:
            ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)) else []
            for t in ts:
                for y in targets(t):
                    b = base(y)
                    if b:
                        self.assigned.add(b)
                if isinstance(x, ast.Assign) and isinstance(t, (ast.Tuple, ast.List)) and isinstance(x.value, ast.Name) and all(isinstance(y, ast.Name) for y in t.elts):
                    self.unpacked.setdefault(x.value.id, []).append([y.id for y in t.elts])
        self.sites = []
        for x in self.own:
            if isinstance(x, ast.Call) and fname(x) == f.name:
                g = resolve(f, x)
                if g is f:
                    self.sites.append((x, self.bind(x)))

    def bind(self, c):
        ps = list(self.f.params)
        out = {}
        if self.f.cls is not None and self.f.role not in ("static",) and isinstance(c.func, ast.Attribute) and ps:
            out[ps[0]] = c.func.value
            ps = ps[1:]
        if any(k.arg is None for k in c.keywords):
            return None
        st = [i for i, a in enumerate(c.args) if isinstance(a, ast.Starred)]
        if st:                                      # the arguments behind the last star are the last parameters
            out.update(zip(ps, c.args[:st[0]]))
            tail = c.args[st[-1] + 1:]
            rest = ps[:len(ps) - len(tail)] if tail else ps
            out.update(zip(ps[len(ps) - len(tail):], tail))
            out.update((p, c.args[st[0]]) for p in rest if p not in out)
        else:
            out.update(zip(ps, c.args))
        for k in c.keywords:
            out[k.arg] = k.value
        return out

    def same(self, e, p):
        if isinstance(e, ast.Name):
            return e.id == p and p not in self.assigned
        if isinstance(e, (ast.Tuple, ast.List)) and all(isinstance(y, ast.Name) for y in e.elts):
            ns = [y.id for y in e.elts]
            return ns in self.unpacked.get(p, []) and not any(self.count(n) > 1 for n in ns)
        if isinstance(e, ast.Call) and fname(e) in ("list", "tuple", "array", "asarray", "copy") and len(e.args) == 1 and not e.keywords:
            return self.same(e.args[0], p)
        if isinstance(e, ast.Call) and fname(e) == "copy" and not e.args and isinstance(e.func, ast.Attribute):
            return self.same(e.func.value, p)
        if isinstance(e, ast.Call) and fname(e) == "__cast__" and len(e.args) == 2:
            return self.same(e.args[1], p)
        return False

    def count(self, n):
        k = 0
        for x in self.own:
            ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For)) else []
            k += sum(1 for t in ts for y in targets(t) if base(y) == n)
        return k

    def touched(self, p):
        """the object behind p is changed in place in the function"""
        for x in self.own:
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and root(x.func) == p and fname(x) != self.f.name and (self.mutators is None or fname(x) in self.mutators):
                    return True
                if fname(x) in {"next"} | POPF and x.args and root(x.args[0]) == p:
                    return True
            elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(getattr(x, "ctx", None), (ast.Store, ast.Del)) and root(x) == p:
                return True
        return False

    def controls(self, call):
        """tests between the top of the function and the call: enclosing ones, and earlier ones that can leave"""
        out = []

        def inside(s):
            return any(x is call for x in ast.walk(s))

        def walk(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    continue
                if isinstance(s, (ast.If, ast.While)):
                    if inside(s) or any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for x in ast.walk(s)):
                        out.append(s.test)
                elif isinstance(s, ast.For) and inside(s):
                    out.append(s.iter)
                for b in ("body", "orelse", "finalbody"):
                    walk(getattr(s, b, []) or [])
                for h in getattr(s, "handlers", []) or []:
                    walk(h.body)
        walk(self.node.body)
        for x in self.own:
            if isinstance(x, ast.IfExp) and inside(x):
                out.append(x.test)
            elif isinstance(x, ast.BoolOp) and inside(x):
                out += x.values
            elif isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and inside(x):
                out += [g.iter for g in x.generators] + [t for g in x.generators for t in g.ifs]
        return out

    def sources(self, es):
        """parameters the expressions are computed from"""
        rd = {}
        for x in self.own:
            ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)) else []
            v = getattr(x, "value", None) if not isinstance(x, ast.For) else x.iter
            for t in ts:
                for y in targets(t):
                    r = root(y)
                    if r and v is not None:
                        rd.setdefault(r, set()).update(n.split(".")[0] for n in names(v))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and root(x.func):
                for a in x.args:
                    rd.setdefault(root(x.func), set()).update(n.split(".")[0] for n in names(a))
        out, todo = set(), [n.split(".")[0] for e in es for n in names(e)]
        while todo:
            k = todo.pop()
            if k not in out:
                out.add(k)
                todo += rd.get(k, ())
        return out


def mutating_names(functions):
    """names of methods that may change their receiver: of containers, and every method of the program that writes through it, itself or through another"""
    out = set(POP | GROW | {"sort", "fill", "resize", "update", "setdefault", "reverse", "put", "itemset", "send", "close", "write", "read", "readline"})
    ms = {}
    for f in functions:
        if f.cls is not None and f.params:
            me = f.params[0]
            ms.setdefault(f.name, []).append((f, me))
            if any(isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(getattr(x, "ctx", None), (ast.Store, ast.Del)) and root(x) == me for x in ast.walk(f.node)):
                out.add(f.name)
    n = -1
    while n != len(out):
        n = len(out)
        for k, fs in ms.items():
            if k not in out and any(isinstance(x.func, ast.Attribute) and root(x.func) == me and fname(x) in out for f, me in fs for x in calls(f.node)):
                out.add(k)
    return out


def own_walk(fn):
    """nodes of a function without those of nested functions (lambdas included)"""
    st = list(fn.body)
    while st:
        x = st.pop(0)
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        st += list(ast.iter_child_nodes(x))


def loops_of(fnode, prog=None, fn=None):
    g = CFG(fnode)
    live = {n.id for n in g.reachable()}
    out = []
    for n in g.nodes:
        if n.id in live and n.kind == "test" and isinstance(n.ast, ast.While):
            out.append(Loop(g, n, n.ast, prog, fn))
    return g, out
