"""Provenance: from which fields of its source each field of a derived object is computed.

A small abstract interpreter over the syntax tree.  A value carries the source fields it may and must depend on; arrays and objects live in a
store, so that copying through pointers, views, memcpy, element loops, constructors, property setters and helper functions is followed.
Functions of the program are interpreted in place; anything else passes the dependencies of its operands on."""
from __future__ import annotations
import ast

MAXDEPTH = 7
NOTHING = frozenset()
ALLOC = {"empty", "zeros", "ones", "full", "empty_like", "zeros_like", "ones_like", "malloc", "calloc", "arange", "linspace", "eye"}
ALIAS = {"asarray", "ascontiguousarray", "reshape", "ravel", "view", "asfortranarray", "transpose", "squeeze", "cast"}
SHAPE = {"shape", "size", "ndim", "nbytes", "strides", "dtype", "itemsize"}


class D:
    """an immutable value: what it depends on; const is set for literals"""
    __slots__ = ("may", "must", "const", "shape")

    def __init__(self, may=NOTHING, must=None, const=None, shape=NOTHING):
        self.may = frozenset(may)
        self.must = self.may if must is None else frozenset(must)
        self.const = const          # ('c', value) for literals
        self.shape = shape          # atoms whose extent the value is

    def __repr__(self):
        return "D(" + ",".join(sorted(a + ("" if a in self.must else "?") for a in self.may)) + (f"={self.const[1]!r}" if self.const else "") + ")"


class Ref:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("r", self.id))

    def __repr__(self):
        return f"R{self.id}"


class ObjV(Ref):
    def __eq__(self, o):
        return isinstance(o, ObjV) and o.id == self.id

    def __hash__(self):
        return hash(("o", self.id))

    def __repr__(self):
        return f"O{self.id}"


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f"T{self.items}"


class Dict(Ref):
    def __repr__(self):
        return f"M{self.id}"


class Bound:
    def __init__(self, f, recv):
        self.f, self.recv = f, recv


class ClsV:
    def __init__(self, c):
        self.c = c


def dunion(ds):
    may, must = set(), set()
    for d in ds:
        may |= d.may
        must |= d.must
    return D(may, must)


class Cell:
    """contents of an array: all parts together, and elements written at constant positions"""
    __slots__ = ("all", "el", "nd", "cols")

    def __init__(self, a=None, el=None, nd=None, cols=None):
        self.all = a or D()
        self.el = dict(el or {})
        self.nd = nd
        self.cols = cols            # length of the last dimension, where known

    def copy(self):
        return Cell(self.all, self.el, self.nd, self.cols)

    def whole(self):
        a = part(self.all, "x") if "w" in self.el and "x" not in self.el else part(self.all, "w") if "x" in self.el and "w" not in self.el else self.all
        return dunion([a] + list(self.el.values()))

    def part(self, k):
        return self.el[k] if k in self.el else part(self.all, k)

    def __repr__(self):
        return f"[{self.all} {self.el or ''}]"


ND = {}
PARTS = set()          # fields whose rows are points x, y, z and a weight


def part(d, k):
    """the coordinates ('x') or the weight ('w') of what d stands for"""
    return D({atpart(a, k) for a in d.may}, {atpart(a, k) for a in d.must})


def atpart(a, k):
    return a + "." + k if a.split("/")[-1] in PARTS else a


class ObjS:
    __slots__ = ("cls", "f", "src")

    def __init__(self, cls, f=None, src=None):
        self.cls, self.f, self.src = cls, dict(f or {}), src

    def copy(self):
        return ObjS(self.cls, self.f, self.src)

    def __repr__(self):
        return f"<{self.cls.name if self.cls else '?'} {self.f}>"


class Dead(Exception):
    pass


class State:
    def __init__(self, env=None, store=None):
        self.env = dict(env or {})
        self.store = {k: v.copy() for k, v in (store or {}).items()}


class Interp:
    def __init__(self, prog, pairs=()):
        self.prog = prog
        self.n = 0
        self.pairs = set(pairs)      # fields whose elements 0 and 1 are told apart
        self.seen = set()            # functions interpreted
        self.trail = []
        self.events = []             # (kind, function, node, ...)
        self.budget = 60000
        self.closure = {}

    def fresh(self):
        self.n += 1
        return self.n

    # ------------------------------------------------------------------ objects
    def new_obj(self, S, cls, src=None):
        o = ObjV(self.fresh())
        S.store[o.id] = ObjS(cls, src=src)
        return o

    def new_cell(self, S, d=None, el=None):
        r = Ref(self.fresh())
        S.store[r.id] = Cell(d, el)
        return r

    def deps(self, S, v, seen=None):
        """everything the value is made of, as one D"""
        seen = seen if seen is not None else set()
        if isinstance(v, D):
            return v
        if isinstance(v, Tup):
            return dunion([self.deps(S, x, seen) for x in v.items])
        if isinstance(v, Bound):
            return self.deps(S, v.recv, seen) if v.recv is not None and not isinstance(v.recv, ClsV) else D()
        if isinstance(v, Ref):
            if v.id in seen or v.id not in S.store:
                return D()
            seen.add(v.id)
            c = S.store[v.id]
            if isinstance(c, Cell):
                return c.whole()
            if isinstance(c, ObjS):
                if c.src is not None:
                    return D({(c.src + "*") if c.src else "*"})
                return dunion([self.deps(S, x, seen) for x in c.f.values()])
        return D()

    # ------------------------------------------------------------------ running
    def call(self, S, f, args, kwargs, recv=None):
        """interpret f; S.store is updated; returns the value"""
        if len(self.trail) > MAXDEPTH or f in self.trail or self.budget < 0:
            r = dunion([self.deps(S, a) for a in ([recv] if recv is not None else []) + list(args) + list(kwargs.values())])
            return D(r.may, r.must)
        self.seen.add(f.qual)
        env = dict(self.closure.get(f) or {})
        ps = list(f.pos_params)
        vals = list(args)
        if f.cls is not None and f.role not in ("static",) and ps:
            env[ps[0]] = ClsV(f.cls) if f.role == "classmethod" and not isinstance(recv, ClsV) else recv
            ps = ps[1:]
        for p, v in zip(ps, vals):
            env[p] = v
        dfl = f.defaults()
        va = f.node.args.vararg
        if va is not None:
            env[va.arg] = Tup(vals[len(ps):])
        if f.node.args.kwarg is not None:
            env[f.node.args.kwarg.arg] = D()
        given = set(f.pos_params[:len(f.pos_params) - len(ps)]) | set(list(ps)[:len(vals)])
        for p in f.params:
            if p in given or p in env and p not in (self.closure.get(f) or {}):
                continue
            if p in kwargs:
                env[p] = kwargs[p]
            elif p in dfl:
                env[p] = self.const(dfl[p])
            else:
                env[p] = D()
        T = State(env, None)
        T.store = S.store
        self.trail.append(f)
        try:
            fr = Frame(self, f)
            out = fr.body(f.node.body, T)
            if out is not None:
                fr.rets.append((D(const=("c", None)), out.store))
        finally:
            self.trail.pop()
        if not fr.rets:
            raise Dead()
        v, st = fr.rets[0]
        T = State({"": v}, None)
        T.store = st
        for v2, st2 in fr.rets[1:]:
            U = State({"": v2}, None)
            U.store = st2
            T = self.join(T, U)
        S.store = T.store
        return T.env[""]

    def rows(self, S, vs):
        """the contents of several arrays put together, coordinates and weights kept apart"""
        cells = []
        for v in vs:
            if isinstance(v, Tup) and any(isinstance(x, (Ref, Tup)) for x in v.items):
                cells.append(self.rows(S, v.items))
            elif isinstance(v, Ref) and isinstance(S.store.get(v.id), Cell):
                cells.append(S.store[v.id])
            else:
                cells.append(Cell(self.deps(S, v)))
        ks = {k for c in cells for k in c.el if k in ("x", "w")}
        a = dunion([c.all for c in cells] + [d for c in cells for k, d in c.el.items() if k not in ("x", "w")])
        cols = {c.cols for c in cells}
        return Cell(a, {k: dunion([c.part(k) for c in cells]) for k in ks}, None, cols.pop() if len(cols) == 1 else None)

    def merge(self, S, x, y):
        A, B = State({"": x}, S.store), State({"": y}, S.store)
        R = self.join(A, B)
        S.store = R.store
        return R.env[""]

    @staticmethod
    def const(e):
        if isinstance(e, ast.Constant):
            return D(const=("c", e.value))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, (int, float)):
            return D(const=("c", -e.operand.value))
        return D()

    # ------------------------------------------------------------------ join
    def join(self, A, B):
        if A is None:
            return B
        if B is None:
            return A
        R = State()
        st = {}
        for k in set(A.store) | set(B.store):
            a, b = A.store.get(k), B.store.get(k)
            if a is None or b is None:
                st[k] = (a or b).copy()
            elif isinstance(a, Cell):
                el = {}
                for i in set(a.el) | set(b.el):
                    el[i] = jd(eget(a, i), eget(b, i))
                st[k] = Cell(jd(a.all, b.all), el, a.nd if a.nd == b.nd else None, a.cols if a.cols == b.cols else None)
            else:
                st[k] = ObjS(a.cls if a.cls is b.cls else None, None, a.src)
        R.store = st
        memo = {}

        def jv(x, y):
            if x is y or x == y:
                return x
            if x is None or y is None:
                return x if y is None else y
            if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
                return Tup([jv(p, q) for p, q in zip(x.items, y.items)])
            if isinstance(x, Tup) and isinstance(y, Tup) and x.items and y.items and all(isinstance(q, ObjV) for q in x.items + y.items):
                return Tup(x.items + [q for q in y.items if q not in x.items])
            if isinstance(x, D) and isinstance(y, D):
                return jd(x, y)
            if isinstance(x, D) and x.const == ("c", None) and isinstance(y, Ref):
                return y
            if isinstance(y, D) and y.const == ("c", None) and isinstance(x, Ref):
                return x
            if isinstance(x, ObjV) and isinstance(y, ObjV):
                if (x.id, y.id) in memo:
                    return memo[x.id, y.id]
                a, b = A.store[x.id], B.store[y.id]
                o = ObjV(self.fresh())
                memo[x.id, y.id] = o
                st[o.id] = ObjS(a.cls if a.cls is b.cls else None)
                st[o.id].f = jf(a, b)
                return o
            if isinstance(x, Ref) and isinstance(y, Ref) and isinstance(A.store.get(x.id), Cell) and isinstance(B.store.get(y.id), Cell):
                a, b = A.store[x.id], B.store[y.id]
                el = {i: jd(eget(a, i), eget(b, i)) for i in set(a.el) | set(b.el)}
                r = Ref(self.fresh())
                st[r.id] = Cell(jd(a.all, b.all), el, a.nd if a.nd == b.nd else None, a.cols if a.cols == b.cols else None)
                return r
            return jd(self.deps(A, x), self.deps(B, y))

        def jf(a, b):
            out = {}
            for k in set(a.f) | set(b.f):
                if k in a.f and k in b.f:
                    out[k] = jv(a.f[k], b.f[k])
                elif a.src is not None or b.src is not None:
                    out[k] = a.f.get(k, b.f.get(k))          # untouched so far on the other path
                else:
                    p = a.f.get(k, b.f.get(k))
                    S = A if k in a.f else B
                    d = self.deps(S, p)
                    out[k] = D(d.may, ())
            return out
        for k in list(st):
            if isinstance(st[k], ObjS) and k in A.store and k in B.store:
                st[k].f = jf(A.store[k], B.store[k])
            elif isinstance(st[k], ObjS) and not st[k].f:
                st[k].f = dict((A.store.get(k) or B.store.get(k) or st[k]).f)
        for k in set(A.env) | set(B.env):
            R.env[k] = jv(A.env.get(k), B.env.get(k))
        return R


def eget(c, i):
    return c.part(i) if i in ("x", "w") else c.el.get(i, c.all)


def jd(a, b):
    return D(a.may | b.may, a.must & b.must, a.const if a.const == b.const else None, a.shape & b.shape)


class Frame:
    def __init__(self, I, f):
        self.I, self.f = I, f
        self.m = f.module
        self.rets = []

    # ------------------------------------------------------------------ statements
    def body(self, stmts, S):
        for s in stmts:
            S = self.stmt(s, S)
            if S is None:
                return None
        return S

    def fork(self, S):
        T = State(S.env, S.store)
        return T

    def stmt(self, s, S):
        I = self.I
        I.budget -= 1
        try:
            if isinstance(s, ast.Assign):
                v = self.ev(s.value, S)
                for t in s.targets:
                    self.assign(t, v, S)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    self.assign(s.target, self.ev(s.value, S), S)
                elif isinstance(s.target, ast.Name):
                    a = s.annotation
                    t = a.value if isinstance(a, ast.Constant) and isinstance(a.value, str) else ""
                    if t.endswith("]") and "[:" not in t or t.startswith("vector"):
                        S.env[s.target.id] = I.new_cell(S)
            elif isinstance(s, ast.AugAssign):
                v = self.ev(s.value, S)
                if isinstance(s.target, ast.Name):
                    old = self.ev(s.target, S)
                    if isinstance(old, Ref) and isinstance(S.store.get(old.id), Cell) and not isinstance(s.op, (ast.Add, ast.Sub)):
                        self.write(S, old, v, None, False)
                    elif isinstance(old, Ref) and isinstance(S.store.get(old.id), Cell):
                        pass          # pointer arithmetic or in-place addition: same storage
                    else:
                        S.env[s.target.id] = dunion([I.deps(S, old), I.deps(S, v)])
                else:
                    old = self.ev(s.target, S)
                    d = dunion([I.deps(S, old), I.deps(S, v)])
                    self.assign(s.target, d, S, weak=isinstance(s.target, ast.Subscript))
            elif isinstance(s, ast.Return):
                v = self.ev(s.value, S) if s.value is not None else D(const=("c", None))
                self.rets.append((v, S.store))
                return None
            elif isinstance(s, ast.Raise):
                return None
            elif isinstance(s, ast.Expr):
                self.ev(s.value, S)
            elif isinstance(s, ast.If):
                t = self.truth(s.test, S)
                self.ev(s.test, S)
                if t is True:
                    return self.body(s.body, S)
                if t is False:
                    return self.body(s.orelse, S)
                A, B = self.fork(S), S
                A = self.body(s.body, A)
                B = self.body(s.orelse, B)
                return I.join(A, B)
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                it = self.ev(s.iter, S)
                x = self.element(S, it)
                self.assign(s.target, x, S)
                if isinstance(s.target, ast.Name):
                    c = s.iter
                    k = c.args[0].value if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "range" and len(c.args) == 1 and isinstance(c.args[0], ast.Constant) else None
                    S.env["%" + s.target.id] = D(const=("c", k)) if k == 3 else D()
                n = len(self.rets)
                T = self.body(s.body, S)
                if T is None:
                    if len(self.rets) == n:
                        return S          # left by continue / break only
                    return S
                return self.body(s.orelse, T) if s.orelse else T
            elif isinstance(s, ast.While):
                self.ev(s.test, S)
                T = self.body(s.body, S)
                return T if T is not None else S
            elif isinstance(s, ast.With):
                for i in s.items:
                    v = self.ev(i.context_expr, S)
                    if i.optional_vars is not None:
                        self.assign(i.optional_vars, v, S)
                return self.body(s.body, S)
            elif isinstance(s, ast.Try):
                T = self.body(s.body, S)
                if T is not None and s.orelse:
                    T = self.body(s.orelse, T)
                if s.finalbody:
                    T = self.body(s.finalbody, T if T is not None else S) if T is not None else None
                return T
            elif isinstance(s, (ast.Break, ast.Continue)):
                return None
            elif isinstance(s, ast.FunctionDef):
                g = [x for x in I.prog.functions() if x.node is s]
                S.env[s.name] = Bound(g[0], None) if g else D()
                if g:
                    I.closure[g[0]] = S.env
            return S
        except Dead:
            return None

    def truth(self, e, S):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e.operand, S)
            return None if t is None else not t
        if isinstance(e, ast.BoolOp):
            ts = [self.truth(x, S) for x in e.values]
            if isinstance(e.op, ast.And):
                return False if False in ts else True if all(t is True for t in ts) else None
            return True if True in ts else False if all(t is False for t in ts) else None
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Subscript) and isinstance(e.left.value, ast.Attribute) and e.left.value.attr == "shape" and isinstance(
                e.left.slice, ast.Constant) and isinstance(e.comparators[0], ast.Constant) and type(e.comparators[0].value) is int:
            b = self.ev(e.left.value.value, S)
            c = S.store.get(b.id) if isinstance(b, Ref) else None
            k, i = e.comparators[0].value, e.left.slice.value
            if isinstance(c, Cell) and c.cols is not None and (i == -1 or i == c.nd - 1 if c.nd is not None else i in (-1, 1)):
                n = c.cols
                return {ast.Eq: n == k, ast.NotEq: n != k, ast.Lt: n < k, ast.LtE: n <= k, ast.Gt: n > k, ast.GtE: n >= k}.get(type(e.ops[0]))
            return None
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            c = e.comparators[0]
            v = self.ev(e.left, S)
            pos = isinstance(e.ops[0], (ast.Is, ast.Eq))
            if isinstance(c, ast.Constant) and c.value is None:
                if isinstance(v, D) and v.const is not None:
                    return (v.const[1] is None) == pos
                if isinstance(v, (Ref, Tup)):
                    return not pos
                if isinstance(v, D) and v.may:
                    return not pos
                return None
            if isinstance(c, ast.Name) and c.id == "NULL":
                return not pos if isinstance(v, Ref) else None
            if isinstance(c, ast.Constant) and isinstance(v, D) and v.const is not None:
                return (v.const[1] == c.value) == pos
            return None
        if isinstance(e, ast.Name):
            v = self.ev(e, S)
            if isinstance(v, D) and v.const is not None:
                return bool(v.const[1])
        if isinstance(e, ast.Constant):
            return bool(e.value)
        return None

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, S, weak=False):
        I = self.I
        if isinstance(t, ast.Name):
            S.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if isinstance(v, Tup) and len(v.items) == len(t.elts) and not st:
                for a, b in zip(t.elts, v.items):
                    self.assign(a, b, S)
            else:
                for i, a in enumerate(t.elts):
                    self.assign(a.value if isinstance(a, ast.Starred) else a, self.element(S, v, i if not st else None), S)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, S)
            if isinstance(o, ObjV):
                ob = S.store[o.id]
                g = I.prog.find_setter(ob.cls, t.attr) if ob.cls else None
                if g is not None:
                    I.call(S, g, [v], {}, o)
                    return
                if isinstance(v, Tup):
                    v = I.new_cell(S, None, {i: I.deps(S, x) for i, x in enumerate(v.items)}) if t.attr in I.pairs else v
                old = ob.f.get(t.attr)
                if isinstance(v, D) and isinstance(old, Ref) and isinstance(S.store.get(old.id), Cell) and not isinstance(old, (ObjV, Dict)):
                    pass
                S.store[o.id].f[t.attr] = v
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, S)
            if isinstance(b, Dict):
                k = self.ev(t.slice, S)
                if isinstance(k, D) and k.const:
                    S.store[b.id].f[k.const[1]] = v
                return
            if isinstance(b, Ref) and isinstance(S.store.get(b.id), Cell):
                c = self.cidx(t.slice)
                cp = self.colpart(t, S.store[b.id], v, S.env)
                if cp == "x" and not isinstance(self.path(t)[1][-1], ast.Slice):
                    c0 = S.store[b.id]
                    if not ("x" in c0.el or "w" in c0.el or any(a.split("/")[-1].split(".")[0] in PARTS for a in c0.all.may | I.deps(S, v).may)):
                        cp = None
                if cp is not None:
                    self.write(S, b, v, cp, False, acc=weak or cp == "x" and not isinstance(self.path(t)[1][-1], ast.Slice))
                    return
                nested = isinstance(t.value, ast.Subscript)
                full = isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None and t.slice.step is None or \
                    isinstance(t.slice, ast.Constant) and t.slice.value is Ellipsis or \
                    isinstance(t.slice, ast.Tuple) and all(isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None for x in t.slice.elts)
                if nested:
                    c0 = self.cidx(t.value.slice) if not isinstance(t.value.value, ast.Subscript) else None
                    c, full = c0, False
                    if c is not None:
                        self.write(S, b, v, c, False, acc=True)
                        return
                self.write(S, b, v, c, full and not weak, acc=weak)
            elif isinstance(b, Tup):
                c = self.cidx(t.slice)
                if c is not None and -len(b.items) <= c < len(b.items):
                    b.items[c] = v

    @staticmethod
    def path(t):
        """the index expressions of a[i][j,k] in order"""
        ix = []
        while isinstance(t, ast.Subscript):
            sl = t.slice
            ix = (list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]) + ix
            t = t.value
        return t, ix

    @classmethod
    def colpart(cls, t, cell=None, v=None, env=None):
        """'w' / 'x' / None: the last index picks the weight, the coordinates, or all"""
        base, ix = cls.path(t)
        if len(ix) < 2:
            return None
        e = ix[-1]
        nd = cell.nd if cell is not None else None
        dots = any(isinstance(x, ast.Constant) and x.value is Ellipsis for x in ix)
        if nd is not None and len(ix) != nd and not dots:
            return None
        if nd is None and isinstance(v, Ref) and not isinstance(e, ast.Slice) and not dots:
            return None
        if isinstance(e, ast.Name) and env is not None:
            r = env.get("%" + e.id)
            return "x" if isinstance(r, D) and r.const and r.const[1] == 3 else None
        if isinstance(e, ast.Constant) and type(e.value) is int:
            return "w" if e.value in (3, -1) else "x" if e.value in (0, 1, 2) else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant) and e.operand.value == 1:
            return "w"
        if isinstance(e, ast.Slice) and e.step is None:
            lo = e.lower.value if isinstance(e.lower, ast.Constant) else 0 if e.lower is None else None
            up = e.upper
            if lo == 0 and up is not None:
                if isinstance(up, ast.Constant) and up.value in (3, -1):
                    return "x"
                if isinstance(up, ast.UnaryOp) and isinstance(up.operand, ast.Constant) and up.operand.value == 1:
                    return "x"
            if lo == 3 and (up is None or isinstance(up, ast.Constant) and up.value == 4):
                return "w"
        return None

    @staticmethod
    def cidx(e):
        if isinstance(e, ast.Tuple) and e.elts:
            e = e.elts[0]
        if isinstance(e, ast.Constant) and type(e.value) is int:
            return e.value
        return None

    def write(self, S, ref, v, c, full, acc=False):
        I = self.I
        cell = S.store[ref.id].copy()
        d = I.deps(S, v)
        src = S.store.get(v.id) if isinstance(v, Ref) else None
        if not full and c is None and isinstance(src, Cell) and ("x" in src.el or "w" in src.el):
            for k in ("x", "w"):
                cell.el[k] = dunion([cell.part(k), src.part(k)])
            cell.all = dunion([cell.all, src.whole()])
            S.store[ref.id] = cell
            return
        if full:
            nd, cols = cell.nd, cell.cols
            S.store[ref.id] = Cell(d)
            if isinstance(v, Tup):
                S.store[ref.id] = Cell(None, {i: I.deps(S, x) for i, x in enumerate(v.items)})
            elif isinstance(v, Ref) and isinstance(S.store.get(v.id), Cell):
                S.store[ref.id] = S.store[v.id].copy()
            if nd is not None or cols is not None:
                S.store[ref.id].nd, S.store[ref.id].cols = nd, cols
            return
        if c is not None:
            if c == "x":
                d = part(d, "x")
            if acc and c in cell.el:
                d = dunion([cell.el[c], d])
            cell.el[c] = d
        else:
            cell.all = dunion([cell.all, d])
            for k in ("x", "w"):
                if k in cell.el:
                    cell.el[k] = dunion([cell.el[k], part(d, k)])
        S.store[ref.id] = cell

    def element(self, S, v, i=None):
        """one element of a container"""
        I = self.I
        if isinstance(v, Tup):
            if i is not None and i < len(v.items):
                return v.items[i]
            if v.items and all(isinstance(x, ObjV) for x in v.items):
                r = v.items[0]
                for x in v.items[1:]:
                    r = I.merge(S, r, x)
                return r
            if v.items and all(isinstance(x, Tup) and len(x.items) == len(v.items[0].items) for x in v.items if isinstance(v.items[0], Tup)) and isinstance(v.items[0], Tup):
                return Tup([dunion([I.deps(S, x.items[k]) for x in v.items]) for k in range(len(v.items[0].items))])
            return dunion([I.deps(S, x) for x in v.items])
        if isinstance(v, Ref) and isinstance(S.store.get(v.id), Cell):
            c = S.store[v.id]
            if i is not None:
                return self.elem_d(c, i)
            return c.whole()
        if isinstance(v, D):
            return D(v.may, v.must)
        return I.deps(S, v)

    def elem_d(self, c, i):
        if i in c.el:
            return c.el[i]
        d = c.all
        return D({self.at(a, i) for a in d.may}, {self.at(a, i) for a in d.must})

    def at(self, a, i):
        f = a.split("/")[-1]
        if f in self.I.pairs and i in (0, 1, -1, -2):
            return a + "." + str(i % 2)
        return a

    # ------------------------------------------------------------------ expressions
    def ev(self, e, S):
        I = self.I
        I.budget -= 1
        if e is None:
            return D()
        if isinstance(e, ast.Constant):
            return D(const=("c", e.value))
        if isinstance(e, ast.Name):
            if e.id in S.env:
                return S.env[e.id] if S.env[e.id] is not None else D()
            r = I.prog.resolve(self.m, e.id)
            if hasattr(r, "methods"):
                return ClsV(r)
            if hasattr(r, "pos_params"):
                return Bound(r, None)
            return D()
        if isinstance(e, ast.Attribute):
            return self.attr(e, S)
        if isinstance(e, ast.Subscript):
            return self.subscript(e, S)
        if isinstance(e, ast.Call):
            return self.call(e, S)
        if isinstance(e, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                out = []
                for x in e.elts:
                    if isinstance(x, ast.Starred):
                        v = self.ev(x.value, S)
                        if isinstance(v, Tup):
                            out += v.items
                            continue
                        return dunion([I.deps(S, self.ev(y.value if isinstance(y, ast.Starred) else y, S)) for y in e.elts])
                    out.append(self.ev(x, S))
                return Tup(out)
            return Tup([self.ev(x, S) for x in e.elts])
        if isinstance(e, ast.Dict):
            m = Dict(I.fresh())
            S.store[m.id] = ObjS(None)
            for k, v in zip(e.keys, e.values):
                vv = self.ev(v, S)
                kk = self.ev(k, S) if k is not None else None
                if isinstance(kk, D) and kk.const:
                    S.store[m.id].f[kk.const[1]] = vv
            return m
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            old = dict(S.env)
            for g in e.generators:
                self.assign(g.target, self.element(S, self.ev(g.iter, S)), S)
            v = self.ev(e.elt, S)
            S.env = old
            return v if isinstance(v, D) else I.deps(S, v) if not isinstance(v, Tup) else Tup([v])
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, S), self.ev(e.right, S)
            if isinstance(e.op, (ast.Add, ast.Sub)) and isinstance(a, Ref) and not isinstance(a, (ObjV, Dict)) and isinstance(b, D) and not b.may and self.pointer(e.left):
                return a
            if isinstance(e.op, ast.Add) and isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if any(isinstance(x, Ref) and isinstance(S.store.get(x.id), Cell) and ("w" in S.store[x.id].el or "x" in S.store[x.id].el) for x in (a, b)):
                r = I.new_cell(S)
                S.store[r.id] = I.rows(S, [a, b])
                return r
            return dunion([I.deps(S, a), I.deps(S, b)])
        if isinstance(e, ast.BoolOp):
            return dunion([I.deps(S, self.ev(x, S)) for x in e.values])
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, S)
            if isinstance(v, D) and v.const and isinstance(e.op, ast.USub) and isinstance(v.const[1], (int, float)):
                return D(const=("c", -v.const[1]))
            return I.deps(S, v)
        if isinstance(e, ast.Compare):
            return dunion([I.deps(S, self.ev(x, S)) for x in [e.left] + e.comparators])
        if isinstance(e, ast.IfExp):
            t = self.truth(e.test, S)
            if t is True:
                return self.ev(e.body, S)
            if t is False:
                return self.ev(e.orelse, S)
            a, b = I.deps(S, self.ev(e.body, S)), I.deps(S, self.ev(e.orelse, S))
            return D(a.may | b.may, a.must & b.must)
        if isinstance(e, ast.Starred):
            return self.ev(e.value, S)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, S)
            self.assign(e.target, v, S)
            return v
        if isinstance(e, (ast.JoinedStr, ast.FormattedValue, ast.Lambda)):
            return D()
        return D()

    def pointer(self, e):
        n = e
        while isinstance(n, (ast.BinOp,)):
            n = n.left
        if isinstance(n, ast.Name):
            for x in ast.walk(self.f.node):
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == n.id:
                    a = x.annotation
                    return isinstance(a, ast.Constant) and str(a.value).endswith("*")
            for a in self.f.arg_nodes():
                if a.arg == n.id:
                    return (self.f.ann(n.id) or "").endswith("*")
        return False

    def attr(self, e, S):
        I = self.I
        o = self.ev(e.value, S)
        if isinstance(o, ObjV):
            ob = S.store[o.id]
            if e.attr == "__class__":
                return ClsV(ob.cls) if ob.cls else D()
            if e.attr in ob.f:
                return ob.f[e.attr]
            if ob.cls is not None:
                g = I.prog.find_getter(ob.cls, e.attr)
                if g is not None:
                    return I.call(S, g, [], {}, o)
                f = I.prog.find_method(ob.cls, e.attr)
                if f is not None:
                    return Bound(f, o)
            if ob.src is not None:
                a = (ob.src + "/" if ob.src else "") + e.attr
                sub = None
                if ob.cls is not None:
                    t = I.prog.field_type(ob.cls, e.attr)
                    sub = I.prog.class_named(ob.cls.module, t) if isinstance(t, str) else None
                v = I.new_cell(S, D({a}))
                S.store[v.id].nd = ND.get(e.attr)
                S.store[v.id].cols = 4 if e.attr in PARTS else None
                ob.f[e.attr] = v
                return v
            if ob.cls is not None and (e.attr in I.pairs or any(e.attr in k.fields for k in I.prog.mro(ob.cls))):
                v = I.new_cell(S)
                ob.f[e.attr] = v
                return v
            return D()
        if isinstance(o, Tup) and e.attr in ("copy", "append"):
            return Bound(e.attr, o)
        if isinstance(o, Ref) and isinstance(S.store.get(o.id), Cell):
            if e.attr in SHAPE:
                return D()
            if e.attr in ("T", "base", "flat", "real"):
                return o
            return Bound(e.attr, o)
        if isinstance(o, ClsV):
            f = I.prog.find_method(o.c, e.attr)
            if f is not None:
                return Bound(f, o if f.role in ("static", "classmethod") else None)
            if e.attr == "__new__":
                return Bound("__new__", o)
            return D()
        if isinstance(o, Dict):
            return Bound(e.attr, o)
        if isinstance(o, D):
            if e.attr in SHAPE:
                return D()
            r = I.prog.resolve_expr(self.m, e) if not o.may else None
            if hasattr(r, "methods"):
                return ClsV(r)
            if hasattr(r, "pos_params"):
                return Bound(r, None)
            return Bound(e.attr, o)
        return D()

    def subscript(self, e, S):
        b = self.ev(e.value, S)
        if isinstance(b, Bound):
            b = D()
        if isinstance(b, Dict):
            k = self.ev(e.slice, S)
            if isinstance(k, D) and k.const:
                return S.store[b.id].f.get(k.const[1], D())
            return D()
        sl = e.slice
        i = sl.value if isinstance(sl, ast.Constant) and type(sl.value) is int else -sl.operand.value if isinstance(sl, ast.UnaryOp) and isinstance(sl.operand, ast.Constant) and type(
            sl.operand.value) is int else None
        if isinstance(b, Tup):
            if i is not None and -len(b.items) <= i < len(b.items):
                return b.items[i]
            if isinstance(sl, ast.Slice):
                return b
            return self.element(S, b)
        self.ev(sl, S) if not isinstance(sl, (ast.Slice, ast.Tuple)) else None
        if isinstance(b, Ref) and isinstance(S.store.get(b.id), Cell):
            c = S.store[b.id]
            cp = self.colpart(e, c, None, S.env)
            if cp is not None and (cp in c.el or any(a.split("/")[-1] in PARTS for a in c.all.may)):
                return self.part_cell(S, c, cp)
            if isinstance(sl, ast.Slice) or isinstance(sl, ast.Tuple) and any(isinstance(x, ast.Slice) for x in sl.elts):
                return b
            j = self.cidx(sl) if i is None else i
            if j is not None and (j in c.el or any(a.split("/")[-1] in self.I.pairs for a in c.all.may)):
                return self.elem_d(c, j)
            return b          # a row or an element: same storage
        if isinstance(b, D):
            if i is not None:
                return D({self.at(a, i) for a in b.may}, {self.at(a, i) for a in b.must})
            return D(b.may, b.must)
        return self.I.deps(S, b)

    # ------------------------------------------------------------------ calls
    def call(self, e, S):
        I = self.I
        fn = e.func
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
        if name == "__cast__":
            return self.ev(e.args[1], S)
        if name == "__addr__":
            x = e.args[0]
            while isinstance(x, ast.Subscript):
                x = x.value
            v = self.ev(x, S)
            if isinstance(v, D) and isinstance(x, ast.Name):
                return v
            return v
        if name == "__sizeof__":
            return D()
        if name == "__cyarray__":
            return self.ev(e.args[0], S)
        if isinstance(fn, ast.Name) and fn.id == "super":
            return D()
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and self.f.cls is not None:
            slf = S.env.get(self.f.pos_params[0]) if self.f.pos_params else None
            f = None
            for k in I.prog.mro(self.f.cls)[1:]:
                if fn.attr in k.methods:
                    f = k.methods[fn.attr]
                    break
            if f is not None and isinstance(slf, (ObjV, ClsV)):
                a, k = self.args(e, S)
                return I.call(S, f, a, k, slf)
            if fn.attr == "__new__":
                a, k = self.args(e, S)
                c = slf if isinstance(slf, ClsV) else a[0] if a and isinstance(a[0], ClsV) else None
                return I.new_obj(S, c.c) if c else D()
            return D()
        a, k = self.args(e, S)
        if isinstance(fn, ast.Subscript) and isinstance(fn.value, ast.Name) and fn.value.id in ("vector", "list", "dict"):
            return I.new_cell(S, dunion([I.deps(S, x) for x in a[1:]] + [I.deps(S, x) for x in a[:1] if isinstance(x, Ref)]))
        f = self.ev(fn, S)
        return self.apply(name, f, a, k, S, e)

    def args(self, e, S):
        a = []
        for x in e.args:
            v = self.ev(x, S)
            if isinstance(x, ast.Starred):
                if isinstance(v, Tup):
                    a += v.items
                elif isinstance(v, Ref) and isinstance(S.store.get(v.id), Cell):
                    a += [self.element(S, v, i) for i in range(2)]
                else:
                    a.append(v)
            else:
                a.append(v)
        return a, {k.arg: self.ev(k.value, S) for k in e.keywords if k.arg}

    def construct(self, S, c, a, k):
        I = self.I
        o = I.new_obj(S, c)
        ci = I.prog.find_method(c, "__cinit__")
        if ci is not None:
            I.call(S, ci, a if len(ci.pos_params) > 1 else [], {}, o)
        init = I.prog.find_method(c, "__init__")
        if init is not None:
            I.call(S, init, a, k, o)
        else:
            fs = [x for kk in reversed(I.prog.mro(c)) for x in kk.fields]
            for x, v in list(zip(fs, a)) + list(k.items()):
                S.store[o.id].f[x] = v
        return o

    def apply(self, name, f, a, k, S, e=None):
        I = self.I
        if isinstance(f, Bound) and hasattr(f.f, "pos_params"):
            g = f.f
            if g.cls is not None and g.role not in ("static", "classmethod") and f.recv is None:
                if a and isinstance(a[0], ObjV):
                    return I.call(S, g, a[1:], k, a[0])
                return dunion([I.deps(S, x) for x in a])
            return I.call(S, g, a, k, f.recv)
        if isinstance(f, ClsV):
            if f.c.module.name == "builtins":
                return dunion([I.deps(S, x) for x in a])
            return self.construct(S, f.c, a, k)
        if isinstance(f, Bound):
            r, m = f.recv, f.f
            if m == "__new__" and isinstance(r, ClsV):
                o = I.new_obj(S, r.c)
                ci = I.prog.find_method(r.c, "__cinit__")
                if ci is not None:
                    I.call(S, ci, [], {}, o)
                return o
            if isinstance(r, Dict):
                if m in ("get", "pop", "setdefault") and a and isinstance(a[0], D) and a[0].const:
                    return S.store[r.id].f.get(a[0].const[1], a[1] if len(a) > 1 else D())
                return I.deps(S, r)
            if isinstance(r, Tup):
                if m == "append":
                    r.items.append(a[0] if a else D())
                    return D(const=("c", None))
                return r
            if isinstance(r, Ref):
                if m in ("copy", "tolist", "astype", "flatten", "__copy__", "__deepcopy__", "tobytes"):
                    c = S.store[r.id]
                    r2 = I.new_cell(S, c.all, c.el)
                    S.store[r2.id].nd, S.store[r2.id].cols = c.nd, c.cols
                    return r2
                if m in ("reshape", "ravel", "view", "transpose", "squeeze", "swapaxes"):
                    return r
                if m in ("fill", "push_back", "emplace_back", "append", "assign", "extend", "insert"):
                    self.write(S, r, dunion([I.deps(S, x) for x in (a[1:] if m == "insert" else a)]), None, m == "fill")
                    return D(const=("c", None))
                if m in ("begin", "end", "data"):
                    return r
                return dunion([I.deps(S, r)] + [I.deps(S, x) for x in a] + [I.deps(S, x) for x in k.values()])
            if name in ALLOC and isinstance(r, D) and not r.may:
                return self.alloc(S, a)
            if isinstance(r, D) and not r.may or r is None:
                return self.ext(name, a, k, S)
            return dunion([I.deps(S, r)] + [I.deps(S, x) for x in a] + [I.deps(S, x) for x in k.values()])
        return self.ext(name, a, k, S)

    def part_cell(self, S, c, cp):
        r = self.I.new_cell(S, c.part(cp))
        S.store[r.id].nd = c.nd
        S.store[r.id].cols = 3 if cp == "x" else None
        return r

    def alloc(self, S, a):
        r = self.I.new_cell(S)
        if a and isinstance(a[0], Tup):
            S.store[r.id].nd = len(a[0].items)
            z = a[0].items[-1] if a[0].items else None
            S.store[r.id].cols = z.const[1] if isinstance(z, D) and z.const and type(z.const[1]) is int else None
        elif a and isinstance(a[0], Ref) and isinstance(S.store.get(a[0].id), Cell):
            S.store[r.id].nd = S.store[a[0].id].nd
        return r

    def ext(self, name, a, k, S):
        I = self.I
        if name in ALLOC:
            if name == "full" and len(a) > 1:
                return I.new_cell(S, I.deps(S, a[1]))
            if name in ("linspace", "arange"):
                return I.new_cell(S, dunion([I.deps(S, x) for x in a[:2]]))
            return self.alloc(S, a)
        if name in ("memcpy", "memmove", "copyto") and len(a) >= 2:
            if isinstance(a[0], Ref) and isinstance(S.store.get(a[0].id), Cell):
                self.write(S, a[0], a[1], None, True)
            return D()
        if name in ("realloc",) and a:
            return a[0]
        if name in ("free", "print", "len", "range", "isinstance", "hasattr", "memset", "super"):
            return D()
        if name == "dict":
            m = Dict(I.fresh())
            S.store[m.id] = ObjS(None)
            S.store[m.id].f.update(k)
            return m
        if name in ("array", "vstack", "concatenate", "stack", "asarray", "flip", "hstack", "append", "repeat", "take") and a:
            vs = a[:1] if name != "append" else a[:2]
            if any(isinstance(x, Ref) and not isinstance(x, (ObjV, Dict)) or isinstance(x, Tup) and any(isinstance(y, Ref) and not isinstance(y, (ObjV, Dict)) for y in x.items) for x in vs) and not (
                    name == "asarray" and isinstance(a[0], Ref)):
                r = I.new_cell(S)
                c = I.rows(S, vs)
                if name in ("array", "asarray", "stack", "vstack") and isinstance(a[0], Tup) and not c.el and not any(x.split("/")[-1].split(".")[0] in PARTS for x in c.all.may):
                    c = Cell(None, {i: I.deps(S, x) for i, x in enumerate(a[0].items)})
                S.store[r.id] = c
                return r
        if name in ALIAS and a:
            if isinstance(a[0], Tup):
                return I.new_cell(S, None, {i: I.deps(S, x) for i, x in enumerate(a[0].items)})
            return a[0]
        if name in ("array", "list", "tuple", "deepcopy", "copy", "asarray") and a:
            v = a[0]
            if isinstance(v, Tup):
                return Tup(v.items) if name in ("list", "tuple", "copy", "deepcopy") else I.new_cell(S, None, {i: I.deps(S, x) for i, x in enumerate(v.items)})
            if isinstance(v, ObjV):
                ob = S.store[v.id]
                for mn in ("__deepcopy__", "__copy__") if name == "deepcopy" else ("__copy__",):
                    f = I.prog.find_method(ob.cls, mn) if ob.cls else None
                    if f is not None and f not in I.trail:
                        return I.call(S, f, [], {}, v)
                return v
            if isinstance(v, Ref) and isinstance(S.store.get(v.id), Cell):
                c = S.store[v.id]
                return I.new_cell(S, c.all, c.el)
            return v if isinstance(v, D) else I.deps(S, v)
        if name == "getattr" and len(a) >= 2 and isinstance(a[0], ObjV) and isinstance(a[1], D) and a[1].const:
            return self.attr(ast.Attribute(value=_Val(a[0]), attr=a[1].const[1]), S) if False else self.getattr_(a[0], a[1].const[1], S)
        if name in ("zip", "enumerate", "reversed", "sorted", "map"):
            if name == "zip":
                return Tup([Tup([self.element(S, x) for x in a])])
            if name == "enumerate" and a:
                return Tup([Tup([D(), self.element(S, a[0])])])
        return dunion([I.deps(S, x) for x in a] + [I.deps(S, x) for x in k.values()])

    def getattr_(self, o, attr, S):
        S.env["__ga__"] = o
        return self.attr(ast.Attribute(value=ast.Name(id="__ga__", ctx=ast.Load()), attr=attr, ctx=ast.Load()), S)


def source_object(I, S, cls, tag=""):
    o = ObjV(I.fresh())
    S.store[o.id] = ObjS(cls, src=tag)
    return o
