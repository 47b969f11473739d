"""Interprocedural points-to / effect / derived-state analysis (forward abstract interpretation).

Abstract locations (tuples):
  ('P', name)            object bound to a parameter on entry
  ('F', loc, field)      object found in `field` of an entry object (lazy, depth-limited)
  ('A', site...)         object allocated at a site inside the function (or inlined callee site)
  ('G', module, name)    module-level object
  ('C',)                 nothing mutable (immutable constants)
A numpy view, a memoryview and the array it was taken from share ONE location (the buffer).

Function summaries are parameterised over entry locations:
  ret        Val returned
  mut        {loc: witness}      buffers / containers / attributes written
  stores     {(loc, field): (set(locs), weak)}   field contents at exit
  ts         typestate transformers for derived state
"""
from __future__ import annotations
import ast
import re
from .program import Function, Class, Module, Ext
from .cextern import cfun

MAXDEPTH = 4
ELEM = "[]"

# numpy callables that may return (a view of) one of their arguments
NP_ALIAS = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "atleast_3d",
            "reshape", "ravel", "squeeze", "transpose", "swapaxes", "moveaxis", "broadcast_to", "expand_dims", "flip",
            "flipud", "fliplr", "rollaxis", "diagonal", "real", "imag", "rot90", "require", "asfarray", "split",
            "array_split", "hsplit", "vsplit", "frombuffer", "broadcast_arrays"}
NP_MUT0 = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis", "shuffle"}
ARR_ALIAS_METH = {"reshape", "view", "squeeze", "ravel", "transpose", "swapaxes", "diagonal", "__array__"}
ARR_ALIAS_ATTR = {"T", "base", "flat", "real", "imag", "memview", "obj"}
ARR_FRESH_METH = {"copy", "astype", "tolist", "flatten", "dot", "sum", "mean", "min", "max", "tobytes", "nonzero",
                  "argmin", "argmax", "argsort", "cumsum", "prod", "round", "clip", "all", "any", "std", "var", "repeat",
                  "take", "trace", "conj", "searchsorted", "item", "ptp", "compress", "cumprod", "index", "count", "tostring"}
MUT_METH = {"sort", "fill", "resize", "put", "itemset", "partition", "setfield", "append", "extend", "insert", "pop",
            "remove", "clear", "reverse", "add", "discard", "update", "setdefault", "popitem", "appendleft",
            "popleft", "extendleft", "rotate", "intersection_update", "difference_update",
            "symmetric_difference_update", "__setitem__", "__delitem__", "__iadd__"}
CONT_STORE_METH = {"append": 0, "extend": 0, "insert": 1, "add": 0, "appendleft": 0, "update": 0, "setdefault": 1, "__setitem__": 1}
SCALAR_T = re.compile(r"^(const\s+)?(unsigned\s+)?(int|long|double|float|size_t|bint|char|short|Py_ssize_t|uint\d+_t|int\d+_t|bool|str|bytes|complex|DTYPE_t|np\.float64_t|cnp\.float64_t|floating|np\.npy_intp|tuple\s*of.*)(\s*(long|int|double))?$")
PURE_BUILTIN = {"len", "int", "float", "bool", "str", "repr", "abs", "sum", "round", "isinstance", "issubclass", "hash", "id",
                "range", "any", "all", "print", "hasattr", "callable", "ord", "chr", "divmod", "pow", "format", "bytes",
                "type", "complex", "bin", "hex", "issubclass", "__sizeof__", "super"}
CONT_BUILTIN = {"list", "tuple", "set", "frozenset", "sorted", "dict", "zip", "map", "enumerate", "iter", "reversed", "filter"}


def stub(fn):
    """a body that does nothing: documentation, pass, a bare constant or an error"""
    for s in getattr(fn, "body", ()):
        if isinstance(s, (ast.Pass, ast.Raise)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.AnnAssign) and s.value is None:
            continue
        return False
    return True


class Val:
    """points-to set + coarse kind: 'scal','arr','cont','obj','fn','?'  + data dependencies (locations read)"""
    __slots__ = ("locs", "kind", "fn", "elts", "deps")

    def __init__(self, locs=frozenset(), kind="?", fn=None, elts=None, deps=frozenset()):
        self.locs, self.kind, self.fn, self.elts, self.deps = locs, kind, fn, elts, deps

    def __eq__(self, o):
        return o is not None and self.locs == o.locs and self.kind == o.kind and self.fn == o.fn and self.elts == o.elts and self.deps == o.deps

    def with_deps(self, d):
        if not d or d <= self.deps:
            return self
        return Val(self.locs, self.kind, self.fn, self.elts, self.deps | d)

    def __repr__(self):
        return f"V({self.kind},{set(self.locs) or ''}{',' + str(self.fn) if self.fn else ''})"


SCAL = Val(frozenset(), "scal")
NONE = Val(frozenset(), "none")
UNK = Val(frozenset(), "?")


def vjoin(a, b):
    if a is b or a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    k = a.kind if a.kind == b.kind else (b.kind if a.kind == "none" else a.kind if b.kind == "none" else "?")
    el = None
    if a.elts and b.elts and len(a.elts) == len(b.elts):
        el = tuple(vjoin(x, y) for x, y in zip(a.elts, b.elts))
    return Val(a.locs | b.locs, k, a.fn if a.fn == b.fn else None, el, a.deps | b.deps)


def root_of(loc):
    while loc[0] == "F":
        loc = loc[1]
    return loc


def path_of(loc):
    p = []
    while loc[0] == "F":
        p.append(loc[2])
        loc = loc[1]
    return loc, tuple(reversed(p))


def depth_of(loc):
    d = 0
    while loc[0] == "F":
        d += 1
        loc = loc[1]
    return d


def show(loc):
    r, p = path_of(loc)
    base = {"P": lambda: r[1], "A": lambda: f"<new@{r[1]}>", "G": lambda: f"{r[1]}.{r[2]}"}.get(r[0], lambda: str(r))()
    return base + "".join("[*]" if x == ELEM else "." + x for x in p)


class State:
    __slots__ = ("env", "heap", "dead", "ts")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.dead = False
        self.ts = {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.dead = self.dead
        s.ts = dict(self.ts)
        return s


def ts_join(a, b):
    if a == b:
        return a
    return {k: a.get(k, frozenset()) | b.get(k, frozenset()) for k in set(a) | set(b)}


class Summary:
    def __init__(self):
        self.ret = None
        self.mut = {}
        self.stores = {}
        self.types = {}
        self.ts = {}          # (loc, derived) -> transformer at normal exit
        self.newstate = {}    # (loc, derived) for fresh objects
        self.noreturn = False

    def key(self):
        return (self.ret, frozenset(self.mut), frozenset((k, v[0], v[1]) for k, v in self.stores.items()),
                frozenset((k, frozenset(v.items())) for k, v in self.ts.items()))


class Analyzer:
    """Computes summaries on demand with fixpoint over recursion."""

    def __init__(self, prog, specs=None):
        self.p = prog
        self.summaries = {}
        self.inprogress = set()
        self.specs = specs or {}       # Class -> list[DerivedSpec]
        self.nf = 0
        self.ncalls = 0
        self.nstores = 0
        self.unresolved = 0

    def summary(self, f):
        k = id(f.node)
        if k in self.summaries:
            return self.summaries[k]
        if k in self.inprogress:
            return None
        self.inprogress.add(k)
        import sys
        sys.setrecursionlimit(20000)
        try:
            fa = FnAnalysis(self, f)
            s = fa.run()
        finally:
            self.inprogress.discard(k)
        self.nf += 1
        if s is not None and is_memoised(f):
            _globalise(f, s)
        self.summaries[k] = s
        return s

    def derived_for(self, cls):
        if not isinstance(cls, Class):
            return []
        out = []
        for k in self.p.mro(cls):
            out += self.specs.get(k.qual, [])
        return out


CACHE_DECOS = {"lru_cache", "cache", "cached", "memoize", "memoise", "cached_property"}


def is_memoised(f):
    for d in f.node.decorator_list:
        d = d.func if isinstance(d, ast.Call) else d
        n = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else ""
        if n in CACHE_DECOS:
            return True
    return False


def _globalise(f, s):
    """a memoised function hands out ONE object per key: its fresh results are module-level objects"""
    if s.ret is None:
        return
    g = ("G", f.module.name, f.name + "()")
    s.ret = Val(frozenset(g if l[0] == "A" else l for l in s.ret.locs), s.ret.kind, s.ret.fn, None, s.ret.deps)


class Derived:
    """derived field `name` of a class computed from `sources` fields.
    kind 'cache'  : memoised results; emptied by .cache_clear() / rebinding, filled by calling it
    kind 'value'  : recomputed by writing it with data that depends on the source
    kind 'binding': must be re-derived when the source is REBOUND (content writes are shared)"""

    def __init__(self, name, sources, kind):
        self.name, self.sources, self.kind = name, frozenset(sources), kind

    def key(self, s):
        return self.name if self.kind == "cache" else f"{self.name}<-{s}"

    def keys(self):
        return [self.name] if self.kind == "cache" else [self.key(s) for s in sorted(self.sources)]

    def __repr__(self):
        return f"{self.name}<-{sorted(self.sources)}"


# typestate values:  'F' fresh, 'E' empty, 'S' stale, 'N' never set on a new object
IDENT = {"F": frozenset("F"), "E": frozenset("E"), "S": frozenset("S"), "N": frozenset("N")}


def ts_map(t, m):
    return {k: frozenset(m.get(x, x) for x in v) for k, v in t.items()}


class FnAnalysis:
    def __init__(self, an, f):
        self.an, self.p, self.f = an, an.p, f
        self.m = f.module
        self.mut = {}
        self.rets = []
        self.exits = []
        self.types = {}       # loc -> Class | 'arr' | 'cont' | 'scal'
        self.locals_types = {}
        self.site_n = 0
        self.loopstack = []
        self.once = None
        self.arrayish = self._arrayish_names()
        self.escaped = {}
        self.depstack = []

    # ---- helpers
    def _arrayish_names(self):
        s = set()
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                s.add(n.value.id)
            elif isinstance(n, ast.Attribute) and n.attr in ("shape", "ndim", "T", "dtype", "size") and isinstance(n.value, ast.Name):
                s.add(n.value.id)
            elif isinstance(n, ast.Call):
                fn = n.func
                nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
                if nm in ("dot", "cross", "norm", "asarray", "scalar_norm", "scalar_dot", "array", "len"):
                    for a in n.args:
                        if isinstance(a, ast.Name):
                            s.add(a.id)
        return s

    def kind_of_type(self, t):
        if t is None:
            return "?", None
        t = t.strip().strip("'\"")
        if SCALAR_T.match(t):
            return "scal", None
        if "[" in t and ":" in t and "Callable" not in t:
            return "arr", "arr"
        if t.startswith(("np.ndarray", "ndarray", "cnp.ndarray", "NDArray", "numpy.ndarray", "np.array")):
            return "arr", "arr"
        if t.endswith("*"):
            return "arr", "arr"
        if re.match(r"^(list|tuple|set|dict|List|Tuple|Dict|Set|deque)\b", t):
            return "cont", "cont"
        c = self.p.class_named(self.m, t)
        if c is not None:
            return "obj", c
        return "?", None

    def new(self, node, tag, typ=None):
        loc = ("A", f"{self.f.qual}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}:{tag}")
        if typ is not None:
            self.types[loc] = typ
        return loc

    def type_of(self, loc):
        return self.types.get(loc)

    def field(self, st, loc, name):
        """contents of loc.name"""
        if (loc, name) in st.heap:
            return st.heap[(loc, name)]
        if name[0] == "$":
            return UNK
        r = root_of(loc)
        if r[0] in ("P", "G"):
            t = self.types.get(loc)
            k, ty = "?", None
            if isinstance(t, Class):
                ft = self.p.field_type(t, name)
                k, ty = self._kind_in(t, ft)
                if k == "scal":
                    return Val(frozenset(), "scal", None, None, frozenset([("F", loc, name)]))
            if depth_of(loc) >= MAXDEPTH:
                return Val(frozenset([loc]), k)
            nl = ("F", loc, name)
            if ty is not None and nl not in self.types:
                self.types[nl] = ty
            return Val(frozenset([nl]), k)
        return UNK

    def _kind_in(self, cls, ft):
        if ft is None:
            return "?", None
        for k in self.p.mro(cls):
            save = self.m
            self.m = k.module
            try:
                kind, ty = self.kind_of_type(ft)
            finally:
                self.m = save
            if kind != "?":
                return kind, ty
        return "?", None

    def write_mut(self, st, loc, node, why, v=None):
        if loc not in self.mut:
            self.mut[loc] = (self.f.qual, getattr(node, "lineno", 0), why)
        d = self.depset(st, v)
        if d:
            old = st.heap.get((loc, "$d"))
            nv = Val(frozenset(), "scal", None, None, d)
            st.heap[(loc, "$d")] = nv if old is None else vjoin(old, nv)
        for k in [k for k in st.heap if k[1].startswith("$pre:") and loc in st.heap[k].deps]:
            x = st.heap[k]               # what was computed from this content before no longer matches it
            st.heap[k] = Val(x.locs, x.kind, x.fn, x.elts, x.deps - {loc})
        self.touch_content(st, loc, d)

    def depset(self, st, v):
        """everything the content of v depends on"""
        if v is None:
            return frozenset()
        out = set(v.deps) | set(v.locs)
        todo = list(out)
        n = 0
        while todo and n < 40:
            n += 1
            l = todo.pop()
            h = st.heap.get((l, "$d"))
            if h is not None:
                for x in h.deps:
                    if x not in out:
                        out.add(x)
                        todo.append(x)
        return frozenset(out)

    # ---- derived-state events
    def touch_content(self, st, loc, deps):
        """content of `loc` changed: if it is (currently) a source / derived field of a tracked object, record it."""
        if not self.an.specs:
            return
        for obj in self.tracked(st):
            for d in self.an.derived_for(self.types.get(obj)):
                if d.kind == "value" and loc in self.field(st, obj, d.name).locs:
                    self.refresh(st, obj, d, deps)
                    continue
                if d.kind == "binding":
                    continue
                for s in d.sources:
                    if loc in self.field(st, obj, s).locs:
                        self.dirty(st, obj, d, s)

    def tracked(self, st):
        out = []
        for l, t in self.types.items():
            if isinstance(t, Class) and self.an.derived_for(t):
                if l[0] == "A" and (l, "*") not in st.ts:
                    continue
                if l[0] == "F" and not (l[2] == ELEM or l[2].endswith("()")) and False:
                    continue
                out.append(l)
        return out

    def src_locs(self, st, obj, s):
        v = self.field(st, obj, s)
        return v.locs | v.deps | self.depset(st, v)

    def upd(self, st, obj, d, s, m):
        k = (obj, d.key(s))
        st.ts[k] = ts_map(st.ts.get(k, IDENT), m)

    def dirty(self, st, obj, d, s):
        if d.kind == "cache":
            self.upd(st, obj, d, "*", {"F": "S"})
        else:
            self.upd(st, obj, d, s, {"F": "S"})

    def refresh(self, st, obj, d, deps, complete=False):
        if d.kind == "cache":
            self.upd(st, obj, d, "*", {x: "E" for x in "FSNE"})
            return
        fresh = complete
        # value copied from the same derived field of another object: accepted as consistent
        for x in deps:
            if x[0] == "F" and x[2] == d.name:
                o = x[1]
                if o != obj:
                    fresh = True
        old = st.heap.get((obj, "$pre:" + d.name))
        nv = Val(frozenset(), "scal", None, None, frozenset(deps))
        st.heap[(obj, "$pre:" + d.name)] = nv if old is None else vjoin(old, nv)
        for s in d.sources:
            S = self.field(st, obj, s)
            S = S.locs | S.deps
            if fresh or (S & deps):
                self.upd(st, obj, d, s, {x: "F" for x in "FSNE"})

    def source_bound(self, st, obj, d, s, v):
        """obj.s was just rebound to v"""
        pre = st.heap.get((obj, "$pre:" + d.name))
        if d.kind != "cache" and pre is not None and v.locs and v.locs & pre.deps:
            self.upd(st, obj, d, s, {x: "F" for x in "FSNE"})
            return
        self.dirty(st, obj, d, s)

    # ---- run
    def run(self):
        f = self.f
        st = State()
        summ = Summary()
        # parent closures: free variables unknown
        for i, a in enumerate(f.arg_nodes()):
            nm = a.arg
            if f.cls is not None and i == 0 and f.role not in ("static",):
                if f.role == "classmethod":
                    st.env[nm] = Val(frozenset(), "fn", f.cls)
                    continue
                loc = ("P", nm)
                self.types[loc] = f.cls
                st.env[nm] = Val(frozenset([loc]), "obj")
                continue
            k, ty = self.kind_of_type(f.ann(nm))
            if k == "scal":
                st.env[nm] = Val(frozenset(), "scal", None, None, frozenset([("P", nm)]))
                continue
            loc = ("P", nm)
            if ty is not None:
                self.types[loc] = ty
            st.env[nm] = Val(frozenset([loc]), k)
        va = f.node.args
        for x in (va.vararg, va.kwarg):
            if x is not None:
                loc = ("P", "*" + x.arg)
                self.types[loc] = "cont"
                st.env[x.arg] = Val(frozenset([loc]), "cont")
        # cdef local declarations anywhere (C scoping)
        for n in ast.walk(f.node):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and isinstance(n.annotation, ast.Constant):
                self.locals_types[n.target.id] = str(n.annotation.value)
        self.exec_body(f.node.body, st)
        if not st.dead:
            self.exits.append((st, NONE))
        ret = None
        heap = {}
        ts = {}
        first = True
        for s, v in self.exits:
            ret = vjoin(ret, v) if ret is not None else v
            for k, hv in s.heap.items():
                if k in heap:
                    heap[k] = vjoin(heap[k], hv)
                else:
                    heap[k] = hv if first else hv
            for k in set(ts) | set(s.ts):
                if k[1] == "*":
                    ts[k] = s.ts.get(k, ts.get(k))
                    continue
                a = ts.get(k) if k in ts else (None if first else (IDENT if k[0][0] != "A" else None))
                b = s.ts.get(k) if k in s.ts else (IDENT if k[0][0] != "A" else None)
                if a is None:
                    ts[k] = b
                elif b is None:
                    ts[k] = a
                else:
                    ts[k] = ts_join(a, b)
            first = False
        summ.ret = ret
        summ.noreturn = not self.exits
        summ.mut = self.mut
        for (loc, fld), v in heap.items():
            weak = not all((loc, fld) in s.heap for s, _ in self.exits)
            summ.stores[(loc, fld)] = (v, weak)
        summ.types = {l: t for l, t in self.types.items()}
        summ.ts = {k: v for k, v in ts.items() if v is not None}
        return summ

    # ---- statements
    def exec_body(self, body, st):
        for s in body:
            if st.dead:
                return
            self.exec(s, st)

    def merge_into(self, st, branches):
        live = [b for b in branches if not b.dead]
        if not live:
            st.dead = True
            return
        env, heap, ts = {}, {}, {}
        keys = set()
        for b in live:
            keys |= set(b.env)
        for k in keys:
            v = None
            for b in live:
                if k in b.env:
                    v = b.env[k] if v is None else vjoin(v, b.env[k])
            env[k] = v
        keys = set()
        for b in live:
            keys |= set(b.heap)
        for k in keys:
            v = None
            if k[1].startswith("$pre:"):
                got = [b.heap[k] for b in live if k in b.heap]
                if len(got) == len([b for b in live if root_of(k[0])[0] in ("P", "G") or (k[0], "*") in b.ts or k in b.heap]):
                    dp = frozenset.intersection(*[x.deps for x in got])
                    heap[k] = Val(frozenset(), "scal", None, None, dp)
                continue
            for b in live:
                x = b.heap.get(k)
                if x is None:
                    if root_of(k[0])[0] in ("P", "G"):
                        x = self.field_default(k[0], k[1])
                    else:
                        continue
                v = x if v is None else vjoin(v, x)
            heap[k] = v
        keys = set()
        for b in live:
            keys |= set(b.ts)
        for k in keys:
            if k[1] == "*":
                ts[k] = True
                continue
            v = None
            for b in live:
                x = b.ts.get(k)
                if x is None:
                    if k[0][0] == "A" and (k[0], "*") not in b.ts:
                        continue
                    x = IDENT
                v = x if v is None else ts_join(v, x)
            ts[k] = v
        st.env, st.heap, st.ts, st.dead = env, heap, ts, False

    def field_default(self, loc, name):
        s = State()
        return self.field(s, loc, name)

    def exec(self, s, st):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is not None:
            m(s, st)

    def x_Expr(self, s, st):
        self.ev(s.value, st)

    def x_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.exits.append((st.copy(), v))
        st.dead = True

    def x_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        st.dead = True

    def x_Break(self, s, st):
        if self.loopstack:
            self.loopstack[-1][0].append(st.copy())
        st.dead = True

    def x_Continue(self, s, st):
        if self.loopstack:
            self.loopstack[-1][1].append(st.copy())
        st.dead = True

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                for l in b.locs:
                    self.write_mut(st, l, t, "del item")
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                for l in b.locs:
                    self.attr_store(st, l, t.attr, UNK, t, strong=False)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)

    def x_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s.value)

    def x_AnnAssign(self, s, st):
        if s.value is None:
            if isinstance(s.target, ast.Name):
                st.env.setdefault(s.target.id, UNK)
            return
        v = self.ev(s.value, st)
        self.assign(s.target, v, st, s.value)

    def x_AugAssign(self, s, st):
        rv = self.ev(s.value, st)
        t = s.target
        if isinstance(t, ast.Name):
            cur = st.env.get(t.id)
            if cur is None:
                return
            lt = self.locals_types.get(t.id)
            if lt and SCALAR_T.match(lt) or cur.kind == "scal":
                st.env[t.id] = cur.with_deps(self.depset(st, rv))
                return
            if lt and lt.rstrip().endswith("*") or (self.f.ann(t.id) or "").rstrip().endswith("*"):
                return
            inplace = cur.kind in ("arr", "cont") or (cur.kind == "?" and t.id in self.arrayish)
            if cur.kind == "cont" and cur.elts is not None:
                inplace = False
                st.env[t.id] = Val(frozenset([self.new(s, "augt", "cont")]), "cont")
            if inplace:
                for l in cur.locs:
                    self.write_mut(st, l, s, "augmented assignment")
                    if isinstance(s.op, ast.Add) and self.types.get(l) == "cont":
                        self.store_elems(st, l, self.elems(st, rv))
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            self.ev(t.slice, st)
            for l in b.locs:
                self.write_mut(st, l, s, "element write", rv)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            for l in b.locs:
                cur = self.field(st, l, t.attr)
                if cur.kind in ("arr", "cont"):
                    for x in cur.locs:
                        self.write_mut(st, x, s, "augmented assignment")
                else:
                    self.attr_store(st, l, t.attr, Val(frozenset(), "scal", None, None, rv.deps | cur.deps), s, strong=len(b.locs) == 1)

    def x_If(self, s, st):
        self.ev(s.test, st)
        a, b = st.copy(), st.copy()
        self.refine(s.test, a, True)
        self.refine(s.test, b, False)
        self.exec_body(s.body, a)
        self.exec_body(s.orelse, b)
        self.merge_into(st, [a, b])

    def refine(self, t, st, truth):
        """x is None / x is not None / not ..."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.refine(t.operand, st, not truth)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == truth:
                for v in t.values:
                    self.refine(v, st, truth)
            return
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
                isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            isnone = isinstance(t.ops[0], (ast.Is, ast.Eq))
            if isnone == truth:
                st.env[t.left.id] = NONE
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Attribute) and \
                isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            # an initialised object always carries its derived values
            isnone = isinstance(t.ops[0], (ast.Is, ast.Eq))
            if isnone == truth:
                b = self.ev(t.left.value, st)
                for l in b.locs:
                    if root_of(l)[0] == "P" and any(d.name == t.left.attr for d in self.an.derived_for(self.types.get(l))) and \
                            (l, t.left.attr) not in st.heap:
                        st.dead = True

    def runs(self, s):
        """the loop is known to run: it goes over a range or sequence an earlier statement refused to be empty"""
        if self.once is None:
            self.once = set()
            def nonempty(t):
                """expression dumps known to be > 0 when t is false"""
                if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
                    return {x for v in t.values for x in nonempty(v)}
                if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    x = ast.unparse(t.operand)
                    return {x, f"len({x})"}
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and \
                        (type(t.ops[0]).__name__, t.comparators[0].value) in (("Eq", 0), ("LtE", 0), ("Lt", 1)):
                    x = ast.unparse(t.left)
                    return {x} | ({x[4:-1]} if x.startswith("len(") else {x[:-9]} if x.endswith(".shape[0]") else set())
                return set()

            def walk(body):
                known = set()
                for x in body:
                    if isinstance(x, ast.For):
                        it = x.iter
                        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("range", "prange", "enumerate", "reversed", "list") and len(it.args) == 1:
                            it = it.args[0]
                        if ast.unparse(it) in known or isinstance(it, (ast.Tuple, ast.List)) and it.elts or \
                                isinstance(it, ast.Constant) and isinstance(it.value, int) and it.value > 0 and it is not x.iter:
                            self.once.add(id(x))
                    if isinstance(x, ast.If) and x.body and isinstance(x.body[-1], (ast.Return, ast.Raise)) and not x.orelse:
                        known |= nonempty(x.test)
                    else:
                        w = {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                        if w:
                            known = {k for k in known if not ({n.id for n in ast.walk(ast.parse(k, mode="eval")) if isinstance(n, ast.Name)} & w)}
                    for fld in ("body", "orelse", "finalbody"):
                        b = getattr(x, fld, None)
                        if isinstance(b, list):
                            walk(b)
            walk(self.f.node.body)
        return id(s) in self.once

    def loop(self, s, st, pre):
        brk, cont = [], []
        cur = st
        orelse_state = None
        acc = cur.copy()
        for it in range(4):
            body = acc.copy()
            self.loopstack.append(([], []))
            pre(body)
            self.exec_body(s.body, body)
            b, c = self.loopstack.pop()
            brk += b
            new = acc.copy()
            self.merge_into(new, [acc, body] + c)
            if new.dead:
                break
            if new.env == acc.env and new.heap == acc.heap and new.ts == acc.ts:
                acc = new
                break
            acc = new
        out = acc.copy()
        if self.runs(s):
            body = acc.copy()
            self.loopstack.append(([], []))
            pre(body)
            self.exec_body(s.body, body)
            b, c = self.loopstack.pop()
            brk += b
            self.merge_into(out, [body] + c)
        is_inf = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value)
        exits = []
        if not is_inf:
            self.exec_body(s.orelse, out)
            exits.append(out)
        self.merge_into(st, exits + brk)

    def x_For(self, s, st):
        it = self.ev(s.iter, st)
        # tuple-unrolled small literal iteration is not needed for aliasing
        el = self.elems(st, it)
        if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range":
            el = SCAL

        def pre(b):
            self.assign(s.target, el, b, None)
        self.loop(s, st, pre)

    def x_While(self, s, st):
        def pre(b):
            self.ev(s.test, b)
        self.loop(s, st, pre)

    def x_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, None)
        self.exec_body(s.body, st)

    def x_Try(self, s, st):
        start = st.copy()
        self.exec_body(s.body, st)
        hs = []
        for h in s.handlers:
            hst = start.copy()
            mid = st.copy()
            mid.dead = False
            self.merge_into(hst, [start, mid])
            if h.name:
                hst.env[h.name] = UNK
            self.exec_body(h.body, hst)
            hs.append(hst)
        if not st.dead:
            self.exec_body(s.orelse, st)
        self.merge_into(st, [st.copy()] + hs)
        if s.finalbody:
            if st.dead:
                t = start.copy()
                self.exec_body(s.finalbody, t)
            else:
                self.exec_body(s.finalbody, st)

    def x_FunctionDef(self, s, st):
        st.env[s.name] = Val(frozenset(), "fn", self.f.nested.get(s.name))

    def x_Assert(self, s, st):
        self.ev(s.test, st)

    def x_Import(self, s, st):
        pass

    # ---- assignment
    def assign(self, t, v, st, src):
        if isinstance(t, ast.Name):
            lt = self.locals_types.get(t.id)
            if lt:
                k, ty = self.kind_of_type(lt)
                if k == "scal":
                    st.env[t.id] = Val(frozenset(), "scal", None, None, self.depset(st, v))
                    return
                if k in ("arr", "obj", "cont"):
                    for l in v.locs:
                        if ty is not None and l not in self.types:
                            self.types[l] = ty
                    v = Val(v.locs, k if v.kind != "none" else "none", v.fn, v.elts, v.deps)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.elts is not None and len(v.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v.elts):
                    self.assign(x, y, st, None)
            else:
                el = self.elems(st, v)
                for x in t.elts:
                    if isinstance(x, ast.Starred):
                        x = x.value
                    self.assign(x, el, st, None)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            strong = len(b.locs) == 1
            for l in b.locs:
                self.attr_store(st, l, t.attr, v, t, strong, src)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            self.ev(t.slice, st)
            for l in b.locs:
                self.write_mut(st, l, t, "element write", v)
                ty = self.types.get(l)
                if ty == "cont" or (ty is None and v.kind in ("obj", "cont", "arr") and l[0] != "P"):
                    self.store_elems(st, l, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, src)

    def store_elems(self, st, loc, v):
        if v is None or not v.locs:
            return
        old = st.heap.get((loc, ELEM))
        if old is None and root_of(loc)[0] in ("P", "G"):
            old = self.field(st, loc, ELEM)
        st.heap[(loc, ELEM)] = v if old is None else vjoin(old, v)

    def attr_store(self, st, loc, attr, v, node, strong=True, src=None):
        cls = self.types.get(loc)
        if isinstance(cls, Class):
            setter = self.p.find_setter(cls, attr)
            if setter is not None and not self.p.field_type(cls, attr):
                self.call_fn(setter, [Val(frozenset([loc]), "obj"), v], {}, st, node)
                return
            ft = self.p.field_type(cls, attr)
            k, ty = self._kind_in(cls, ft)
            if k == "scal":
                v = Val(frozenset(), "scal", None, None, v.deps | frozenset([self.new(node, "sv")]))
            elif k != "?" and v.kind == "?":
                v = Val(v.locs, k, v.fn, v.elts, v.deps)
            if ty == "arr":
                for l in v.locs:
                    self.types.setdefault(l, "arr")
        if root_of(loc)[0] in ("P", "G"):
            self.mut.setdefault(("F", loc, attr), (self.f.qual, getattr(node, "lineno", 0), f"assignment to .{attr}"))
        if strong:
            st.heap[(loc, attr)] = v
        else:
            st.heap[(loc, attr)] = vjoin(self.field(st, loc, attr), v)
        for d in self.an.derived_for(cls):
            if attr == d.name:
                self.refresh(st, loc, d, self.depset(st, v))
            if attr in d.sources:
                self.source_bound(st, loc, d, attr, st.heap[(loc, attr)])

    def elems(self, st, v):
        if v.elts is not None:
            r = None
            for x in v.elts:
                r = x if r is None else vjoin(r, x)
            if r is not None:
                return r
        locs = frozenset()
        kind = None
        for l in v.locs:
            t = self.types.get(l)
            if t == "arr" or v.kind == "arr":
                locs |= {l}
                kind = "?" if kind in (None, "?") else "?"
            else:
                e = self.field(st, l, ELEM)
                locs |= e.locs
                kind = e.kind if kind in (None, e.kind) else "?"
        return Val(locs, kind or "?")

    # ---- expressions
    def ev(self, e, st):
        if e is None:
            return NONE
        m = getattr(self, "e_" + type(e).__name__, None)
        stack = self.depstack
        stack.append(set())
        try:
            if m is None:
                for c in ast.iter_child_nodes(e):
                    if isinstance(c, ast.expr):
                        self.ev(c, st)
                v = UNK
            else:
                v = m(e, st)
        finally:
            acc = stack.pop()
        if acc and not (v.fn is not None and not v.locs):
            v = v.with_deps(frozenset(acc))
        if stack:
            stack[-1] |= v.deps
            stack[-1] |= v.locs
        return v

    def e_Constant(self, e, st):
        return NONE if e.value is None else SCAL

    def e_JoinedStr(self, e, st):
        return SCAL

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        r = self.p.resolve(self.m, e.id)
        if self.f.parent is not None:
            par = self.f.parent
            while par is not None:
                if e.id in par.nested:
                    return Val(frozenset(), "fn", par.nested[e.id])
                if e.id in par.params:
                    return UNK
                par = par.parent
        if isinstance(r, (Function, Class, Module, Ext)):
            return Val(frozenset(), "fn", r)
        if isinstance(r, tuple):
            gv = r[1].globals.get(r[2])
            if isinstance(gv, ast.Constant):
                return SCAL
            if isinstance(gv, (ast.UnaryOp, ast.BinOp)):
                return SCAL
            return Val(frozenset([("G", r[1].name, r[2])]), "?")
        return UNK

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        if b.fn is not None:
            if isinstance(b.fn, (Module, Ext)):
                r = self.p.resolve_expr(self.m, e)
                if isinstance(r, (Function, Class, Module, Ext)):
                    return Val(frozenset(), "fn", r)
                if isinstance(b.fn, Ext):
                    return Val(frozenset(), "fn", Ext(b.fn.path + "." + e.attr))
                return UNK
            if isinstance(b.fn, Class):
                mth = self.p.find_method(b.fn, e.attr)
                if mth is not None:
                    return Val(frozenset(), "fn", mth)
                return UNK
        if b.kind == "arr":
            if e.attr in ARR_ALIAS_ATTR:
                return Val(b.locs, "arr")
            if e.attr in ("shape", "ndim", "size", "dtype", "strides", "nbytes", "itemsize"):
                return SCAL
        if e.attr in ("shape", "ndim", "dtype"):
            return SCAL
        out = None
        for l in b.locs:
            cls = self.types.get(l)
            v = None
            if cls == "arr":
                v = Val(frozenset([l]), "arr") if e.attr in ARR_ALIAS_ATTR else SCAL
            elif isinstance(cls, Class):
                if (l, e.attr) in st.heap:
                    v = st.heap[(l, e.attr)]
                elif self.p.field_type(cls, e.attr) is not None:
                    v = self.field(st, l, e.attr)
                else:
                    g = self.p.find_getter(cls, e.attr)
                    if g is not None:
                        v = self.call_fn(g, [Val(frozenset([l]), "obj")], {}, st, e)
                    else:
                        mth = self.p.find_method(cls, e.attr)
                        if mth is not None:
                            # bound method object
                            bl = self.new(e, "bound", "bound")
                            st.heap[(bl, "__self__")] = Val(frozenset([l]), "obj")
                            v = Val(frozenset([bl]), "fn", ("bound", mth))
                        else:
                            v = self.field(st, l, e.attr)
            else:
                v = self.field(st, l, e.attr)
                if not v.locs and not v.fn and e.attr in ARR_ALIAS_ATTR:
                    v = Val(frozenset([l]), "arr")
            out = v if out is None else vjoin(out, v)
        return out if out is not None else UNK

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        iv = self.ev(e.slice, st)
        if b.fn is not None and not b.locs:
            return UNK
        fancy = iv.kind in ("arr",) or isinstance(e.slice, (ast.List, ast.Compare, ast.ListComp))
        if b.elts is not None and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
            i = e.slice.value
            if -len(b.elts) <= i < len(b.elts):
                return b.elts[i]
        isslice = isinstance(e.slice, ast.Slice)
        scalar_idx = not (isslice or (isinstance(e.slice, ast.Tuple) and any(not self._scalaridx(x) for x in e.slice.elts)))
        out = None
        for l in b.locs:
            t = self.types.get(l)
            if t == "arr" or (t is None and b.kind == "arr"):
                if fancy:
                    v = Val(frozenset([self.new(e, "fancy", "arr")]), "arr")
                elif isinstance(e.slice, ast.Tuple) and scalar_idx:
                    v = SCAL if self._ndim(e.value) in (None, len(e.slice.elts)) else Val(frozenset([l]), "arr")
                elif scalar_idx and self._ndim(e.value) == 1:
                    v = SCAL
                else:
                    v = Val(frozenset([l]), "arr" if (isslice or not scalar_idx or self._ndim(e.value)) else "?")
            elif t == "cont":
                if isslice:
                    nl = self.new(e, "slice", "cont")
                    el = self.elems(st, Val(frozenset([l]), "cont"))
                    st.heap[(nl, ELEM)] = el
                    v = Val(frozenset([nl]), "cont")
                else:
                    v = self.field(st, l, ELEM)
            elif isinstance(t, Class):
                g = self.p.find_method(t, "__getitem__")
                if g is not None:
                    v = self.call_fn(g, [Val(frozenset([l]), "obj"), iv], {}, st, e)
                else:
                    v = UNK
            else:
                if isslice or not scalar_idx:
                    v = Val(frozenset([l]), "?")   # numpy view or list slice: unknown
                    v = Val(frozenset([l]), "arr") if (isinstance(e.slice, ast.Tuple)) else v
                else:
                    x = self.field(st, l, ELEM)
                    v = Val(x.locs, "?")
            out = v if out is None else vjoin(out, v)
        return out if out is not None else UNK

    def _scalaridx(self, x):
        return not isinstance(x, (ast.Slice, ast.List)) and not (isinstance(x, ast.Constant) and x.value in (None, Ellipsis))

    def _ndim(self, e):
        """static number of dimensions of a memoryview-typed name/field, if declared"""
        t = None
        if isinstance(e, ast.Name):
            t = self.locals_types.get(e.id) or self.f.ann(e.id)
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            if self.f.cls is not None and self.f.pos_params and e.value.id == self.f.pos_params[0]:
                t = self.p.field_type(self.f.cls, e.attr)
        elif isinstance(e, ast.Subscript):
            b = self._ndim(e.value)
            if b is None:
                return None
            ix = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            return b - sum(1 for x in ix if not isinstance(x, ast.Slice))
        if not t:
            return None
        mm = re.search(r"\[([:\s,\d]+)\]", t)
        if mm and ":" in mm.group(1):
            return mm.group(1).count(",") + 1
        mm = re.search(r"ndim\s*=\s*(\d)", t)
        if mm:
            return int(mm.group(1))
        return None

    def e_Slice(self, e, st):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, st)
        return SCAL

    def e_Tuple(self, e, st):
        vs = []
        star = False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                star = True
                vs.append(self.elems(st, self.ev(x.value, st)))
            else:
                vs.append(self.ev(x, st))
        loc = self.new(e, "tuple", "cont")
        j = None
        for v in vs:
            j = v if j is None else vjoin(j, v)
        if j is not None:
            st.heap[(loc, ELEM)] = j
        return Val(frozenset([loc]), "cont", None, None if star else tuple(vs))

    def e_List(self, e, st):
        v = self.e_Tuple(e, st)
        return Val(v.locs, "cont", None, None)

    e_Set = e_List

    def e_Dict(self, e, st):
        loc = self.new(e, "dict", "cont")
        j = None
        for x in e.values:
            v = self.ev(x, st)
            j = v if j is None else vjoin(j, v)
        for k in e.keys:
            if k is not None:
                self.ev(k, st)
        if j is not None:
            st.heap[(loc, ELEM)] = j
        return Val(frozenset([loc]), "cont")

    def _comp(self, e, elt, st):
        s2 = st.copy()
        for g in e.generators:
            it = self.ev(g.iter, s2)
            self.assign(g.target, self.elems(s2, it), s2, None)
            for c in g.ifs:
                self.ev(c, s2)
        v = self.ev(elt, s2)
        st.heap.update(s2.heap)
        st.ts.update(s2.ts)
        loc = self.new(e, "comp", "cont")
        st.heap[(loc, ELEM)] = v
        return Val(frozenset([loc]), "cont")

    def e_ListComp(self, e, st):
        return self._comp(e, e.elt, st)

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st):
        return self._comp(e, e.value, st)

    def e_IfExp(self, e, st):
        self.ev(e.test, st)
        a, b = st.copy(), st.copy()
        self.refine(e.test, a, True)
        self.refine(e.test, b, False)
        va, vb = self.ev(e.body, a), self.ev(e.orelse, b)
        env = st.env
        self.merge_into(st, [a, b])
        st.env = env
        return vjoin(va, vb)

    def e_BoolOp(self, e, st):
        r = None
        for x in e.values:
            v = self.ev(x, st)
            r = v if r is None else vjoin(r, v)
        return r

    def e_Compare(self, e, st):
        vs = [self.ev(e.left, st)] + [self.ev(c, st) for c in e.comparators]
        if any(v.kind == "arr" for v in vs) and not isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            return Val(frozenset([self.new(e, "cmp", "arr")]), "arr")
        return SCAL

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not) or v.kind == "scal":
            return SCAL
        if v.kind == "arr":
            return Val(frozenset([self.new(e, "un", "arr")]), "arr")
        return Val(frozenset(), "?")

    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        if a.kind == "scal" and b.kind == "scal":
            return SCAL
        if "arr" in (a.kind, b.kind):
            return Val(frozenset([self.new(e, "bin", "arr")]), "arr")
        if a.kind == "cont" and isinstance(e.op, ast.Add):
            loc = self.new(e, "cat", "cont")
            st.heap[(loc, ELEM)] = vjoin(self.elems(st, a), self.elems(st, b))
            return Val(frozenset([loc]), "cont")
        if a.kind == "cont" and isinstance(e.op, ast.Mult):
            loc = self.new(e, "rep", "cont")
            st.heap[(loc, ELEM)] = self.elems(st, a)
            return Val(frozenset([loc]), "cont")
        # operator overloading
        for v, nm in ((a, e.op),):
            for l in v.locs:
                c = self.types.get(l)
                if isinstance(c, Class):
                    dn = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "MatMult": "__matmul__"}.get(type(e.op).__name__)
                    g = dn and self.p.find_method(c, dn)
                    if g is not None:
                        return self.call_fn(g, [a, b], {}, st, e)
        return Val(frozenset(), "?")

    def e_Lambda(self, e, st):
        loc = self.new(e, "lambda", "fn")
        cap = None
        bound = {x.arg for x in e.args.args}
        for n in ast.walk(e.body):
            if isinstance(n, ast.Name) and n.id not in bound and n.id in st.env:
                v = st.env[n.id]
                cap = v if cap is None else vjoin(cap, v)
        if cap is not None and cap.locs:
            st.heap[(loc, "__closure__")] = Val(cap.locs, "?")
        return Val(frozenset([loc]), "fn")

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e.value)
        return v

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        loc = self.new(e, "gen", "cont")
        st.heap[(loc, ELEM)] = v
        self.exits.append((st.copy(), Val(frozenset([loc]), "cont")))
        return UNK

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        self.exits.append((st.copy(), v))
        return UNK

    # ---- calls
    def e_Call(self, e, st):
        self.an.ncalls += 1
        fn = e.func
        # casts / address-of
        if isinstance(fn, ast.Name) and fn.id not in st.env:
            if fn.id == "__cast__" and len(e.args) == 2:
                v = self.ev(e.args[1], st)
                t = e.args[0].value if isinstance(e.args[0], ast.Constant) else None
                k, ty = self.kind_of_type(str(t) if t else None)
                if k == "scal":
                    return SCAL
                if k in ("obj", "arr"):
                    for l in v.locs:
                        if ty is not None and l not in self.types:
                            self.types[l] = ty
                    return Val(v.locs, k, v.fn)
                return v
            if fn.id == "__addr__" and len(e.args) == 1:
                a = e.args[0]
                if isinstance(a, ast.Subscript):
                    b = self.ev(a.value, st)
                    self.ev(a.slice, st)
                    return Val(b.locs, "arr")
                if isinstance(a, ast.Name) and a.id in st.env and st.env[a.id].kind == "scal":
                    loc = self.new(e, "addr", "arr")
                    return Val(frozenset([loc]), "arr")
                return self.ev(a, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(("*", self.ev(a.value, st)))
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            kw[k.arg or "**"] = v
        star = any(isinstance(a, tuple) for a in args)
        flat = [self.elems(st, a[1]) if isinstance(a, tuple) else a for a in args]

        # method calls
        if isinstance(fn, ast.Attribute):
            base = self.ev(fn.value, st)
            nm = fn.attr
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and self.f.cls is not None:
                for k in self.p.mro(self.f.cls)[1:]:
                    if nm in k.methods:
                        sv = st.env.get(self.f.pos_params[0], UNK) if self.f.pos_params else UNK
                        r = self.call_fn(k.methods[nm], [sv] + flat, kw, st, e, star)
                        for o in self.overridden(k.methods[nm]):      # what the base method calls on self is this class's own
                            self.call_fn(o, [sv], {}, st, e, star)
                        return r
                return UNK
            if base.fn is not None and not base.locs:
                r = base.fn
                if isinstance(r, (Module, Ext)):
                    tgt = self.p.resolve_expr(self.m, fn)
                    if tgt is None and isinstance(r, Ext):
                        tgt = Ext(r.path + "." + nm)
                    return self.call_target(tgt, flat, kw, st, e, star)
                if isinstance(r, Class):
                    if nm == "__new__":
                        tgt = r
                        if flat and isinstance(flat[0].fn, Class):
                            tgt = flat[0].fn
                        return self.alloc(tgt, st, e)
                    mth = self.p.find_method(r, nm)
                    if mth is not None:
                        if mth.role == "classmethod":
                            return self.call_fn(mth, [Val(frozenset(), "fn", r)] + flat, kw, st, e, star)
                        return self.call_fn(mth, flat, kw, st, e, star)
                    return UNK
                return UNK
            return self.method_call(base, nm, flat, kw, st, e, star)
        v = self.ev(fn, st)
        if v.fn is not None:
            if isinstance(v.fn, tuple) and v.fn[0] == "bound":
                selfv = None
                for l in v.locs:
                    x = st.heap.get((l, "__self__"))
                    if x is not None:
                        selfv = x if selfv is None else vjoin(selfv, x)
                return self.call_fn(v.fn[1], [selfv or UNK] + flat, kw, st, e, star)
            if v.fn == ("lru",):
                loc = self.new(e, "memo", "fn")
                j = None
                for x in flat:
                    j = x if j is None else vjoin(j, x)
                if j is not None and j.locs:
                    st.heap[(loc, "__func__")] = Val(j.locs, "?")
                return Val(frozenset([loc]), "fn")
            return self.call_target(v.fn, flat, kw, st, e, star)
        if isinstance(fn, ast.Name):
            c = cfun(self.p, self.m, fn.id)
            if c is not None:
                for i in c.writes:
                    if i < len(flat):
                        for l in flat[i].locs:
                            self.write_mut(st, l, e, f"{c.name} ({c.rel})")
                return UNK
            return self.builtin(fn.id, flat, kw, st, e)
        # calling an opaque callable value held in an object (e.g. self._evaluate_cached(t))
        return UNK

    def method_call(self, base, nm, flat, kw, st, e, star=False):
        out = None
        done = False
        for l in base.locs:
            cls = self.types.get(l)
            if isinstance(cls, Class):
                # calling a callable field?
                mth = self.p.find_method(cls, nm)
                if mth is not None:
                    done = True
                    sv = Val(frozenset([l]), "obj")
                    args = flat if mth.role == "static" else ([sv] + flat)
                    if l[0] == "P" and l[1] == (self.f.pos_params[0] if self.f.pos_params else None) or True:
                        r = self.call_fn(mth, args, kw, st, e, star)
                    if stub(mth.node):
                        # declared here, defined by the classes derived from this one
                        for k in self.p.subclasses(cls):
                            o = k.methods.get(nm)
                            if o is not None and o is not mth and not stub(o.node):
                                r = vjoin(r, self.call_fn(o, args, kw, st, e, star))
                    out = r if out is None else vjoin(out, r)
                    continue
                # derived cache call: self._evaluate_cached(t) fills it
                for d in self.an.derived_for(cls):
                    if d.name == nm and d.kind == "cache":
                        self.upd(st, l, d, "*", {"E": "F"})
                        done = True
                fv = self.field(st, l, nm)
                if fv.locs or fv.fn:
                    done = True
                    # memoised bound function: result is shared with the cache
                    r = Val(frozenset([("F", l, nm + "()")]) if depth_of(l) < MAXDEPTH and root_of(l)[0] != "A" else frozenset(), "?")
                    out = r if out is None else vjoin(out, r)
                    continue
                g = self.p.find_getter(cls, nm)
                if g is not None:
                    done = True
                    continue
            # cache_clear on a derived field
        if nm in ("cache_clear",) and isinstance(e.func.value, ast.Attribute):
            ob = self.ev(e.func.value.value, st)
            for l in ob.locs:
                for d in self.an.derived_for(self.types.get(l)):
                    if d.name == e.func.value.attr:
                        self.refresh(st, l, d, frozenset(), True)
            return NONE
        if done:
            return out if out is not None else UNK
        locs = base.locs
        # array / container / unknown receiver
        if base.kind == "arr" or all(self.types.get(l) == "arr" for l in locs) and locs:
            if "out" in kw:
                for l in kw["out"].locs:
                    self.write_mut(st, l, e, "out= argument")
                return kw["out"]
            if nm in ARR_ALIAS_METH:
                return Val(locs, "arr")
            if nm in MUT_METH:
                for l in locs:
                    self.write_mut(st, l, e, f".{nm}()")
                return NONE
            if nm in ("tolist",):
                return Val(frozenset([self.new(e, "tolist", "cont")]), "cont")
            if nm in ("min", "max", "sum", "mean", "item", "tobytes", "all", "any", "argmin", "argmax", "dot", "ptp", "index"):
                return Val(frozenset(), "?")
            return Val(frozenset([self.new(e, "arrm", "arr")]), "arr")
        iscont = base.kind == "cont" or (locs and all(self.types.get(l) == "cont" for l in locs))
        if nm in MUT_METH and not (base.kind == "scal"):
            if not iscont and not locs:
                return UNK
            if not iscont:
                # unknown receiver: only unmistakable container/array mutators
                cands = [c for c in self.p._cha.get(nm, [])]
                if cands and nm in ("add", "insert", "remove", "clear", "update", "pop", "resize", "reverse"):
                    return UNK
            for l in locs:
                self.write_mut(st, l, e, f".{nm}()")
            i = CONT_STORE_METH.get(nm)
            if i is not None and i < len(flat):
                v = flat[i]
                if nm in ("extend", "update"):
                    v = self.elems(st, v)
                for l in locs:
                    self.store_elems(st, l, v)
            if nm in ("pop", "popleft", "setdefault", "popitem"):
                return self.elems(st, base)
            return NONE
        if iscont:
            if nm in ("get", "values", "keys", "items", "__getitem__"):
                return Val(base.locs, "cont") if nm in ("values", "items", "keys") else self.elems(st, base)
            if nm == "copy":
                nl = self.new(e, "ccopy", "cont")
                st.heap[(nl, ELEM)] = self.elems(st, base)
                return Val(frozenset([nl]), "cont")
            return UNK
        if nm == "copy" and locs:
            # unknown receiver .copy(): fresh
            return Val(frozenset([self.new(e, "copy")]), base.kind if base.kind != "?" else "?")
        if nm in ("reshape", "view", "ravel", "squeeze", "transpose") and locs:
            return Val(locs, "arr")
        if nm in ("astype", "flatten", "dot", "tolist"):
            return Val(frozenset([self.new(e, "m")]), "arr")
        # class-hierarchy fallback for distinctive mmcore methods
        cands = [c for c in self.p._cha.get(nm, []) if nm in c.methods]
        if cands and len(cands) <= 6 and locs:
            res = []
            for c in cands:
                s = self.an.summary(c.methods[nm])
                if s is None:
                    res = None
                    break
                res.append((c.methods[nm], s))
            if res:
                # intersection of effects: apply only if all candidates mutate the same positional parameter content
                muts = None
                for fn, s in res:
                    ps = fn.pos_params
                    mm = {ps.index(l[1]) for l in (root_of(x) for x in s.mut) if l[0] == "P" and l[1] in ps}
                    muts = mm if muts is None else muts & mm
                allargs = [base] + flat
                for i in muts or ():
                    if i < len(allargs):
                        for l in allargs[i].locs:
                            self.mut.setdefault(l, (self.f.qual, e.lineno, f"passed to {nm}() which modifies it"))
        self.an.unresolved += 1
        return UNK

    def alloc(self, cls, st, e, callsite=None):
        loc = self.new(e, "new " + cls.name, cls)
        # fields of a fresh object start empty
        for k in self.p.mro(cls):
            pass
        ds = self.an.derived_for(cls)
        if ds:
            st.ts[(loc, "*")] = True
            for d in ds:
                for k in d.keys():
                    st.ts[(loc, k)] = {x: frozenset("N") for x in "FESN"}
        ci = self.p.find_method(cls, "__cinit__")
        if ci is not None:
            self.call_fn(ci, [Val(frozenset([loc]), "obj")], {}, st, e)
        return Val(frozenset([loc]), "obj")

    def call_target(self, tgt, flat, kw, st, e, star=False):
        if isinstance(tgt, Function):
            return self.call_fn(tgt, flat, kw, st, e, star)
        if isinstance(tgt, Class):
            v = self.alloc(tgt, st, e)
            init = self.p.find_method(tgt, "__init__")
            if init is not None:
                self.call_fn(init, [v] + flat, kw, st, e, star)
            else:
                # dataclass / namedtuple-like: arguments become fields
                flds = [x for k in reversed(self.p.mro(tgt)) for x in k.fields]
                for l in v.locs:
                    for n, a in list(zip(flds, flat)) + list(kw.items()):
                        st.heap[(l, n)] = a
            return v
        if isinstance(tgt, Ext):
            return self.ext(tgt.path, flat, kw, st, e)
        if isinstance(tgt, tuple) and tgt and tgt[0] == "bound":
            return self.call_fn(tgt[1], flat, kw, st, e, star)
        return UNK

    def ext(self, path, flat, kw, st, e):
        nm = path.split(".")[-1]
        top = path.split(".")[0]
        if "out" in kw and kw["out"].locs:
            for l in kw["out"].locs:
                self.write_mut(st, l, e, f"out= of {nm}")
            return kw["out"]
        if top in ("numpy", "np", "cnp"):
            if nm in NP_MUT0 and flat:
                for l in flat[0].locs:
                    self.write_mut(st, l, e, f"np.{nm}", flat[1] if len(flat) > 1 else None)
                return NONE
            if nm == "array":
                cp = None
                for k in e.keywords:
                    if k.arg == "copy":
                        cp = k.value
                if cp is None or (isinstance(cp, ast.Constant) and cp.value is True):
                    return Val(frozenset([self.new(e, "np.array", "arr")]), "arr")
                return Val(self._arr_locs(flat[0]) if flat else frozenset(), "arr")
            if nm in NP_ALIAS:
                v = flat[0] if flat else UNK
                if v.kind in ("cont", "scal"):
                    return Val(frozenset([self.new(e, "np." + nm, "arr")]), "arr")
                return Val(v.locs, "arr")
            if nm in ("nan_to_num",):
                return Val(frozenset([self.new(e, "np", "arr")]), "arr")
            if nm in ("apply_along_axis",):
                return Val(frozenset([self.new(e, "np", "arr")]), "arr")
            if nm in ("dot", "sum", "min", "max", "mean", "prod", "linalg", "norm", "abs", "sqrt", "sin", "cos", "maximum", "minimum"):
                return Val(frozenset([self.new(e, "np")]), "?" if nm in ("dot", "sum", "min", "max", "mean", "prod", "norm") else
                           ("scal" if flat and all(a.kind == "scal" for a in flat) else "arr"))
            return Val(frozenset([self.new(e, "np." + nm, "arr")]), "arr")
        if path == "copy.deepcopy":
            t = None
            for l in (flat[0].locs if flat else ()):
                t = self.types.get(l, t)
            if isinstance(t, Class):
                g = self.p.find_method(t, "__deepcopy__")
                if g is not None:
                    return self.call_fn(g, [flat[0]], {}, st, e)
            return Val(frozenset([self.new(e, "deepcopy", t)]), flat[0].kind if flat else "?")
        if path == "copy.copy":
            v = flat[0] if flat else UNK
            if v.kind == "arr":
                return Val(frozenset([self.new(e, "copy", "arr")]), "arr")
            t = None
            for l in v.locs:
                t = self.types.get(l, t)
            loc = self.new(e, "copy", t)
            if isinstance(t, Class):
                flds = [x for k in self.p.mro(t) for x in k.fields]
                for l in v.locs:
                    for fl in flds:
                        st.heap[(loc, fl)] = self.field(st, l, fl)
            else:
                el = self.elems(st, v)
                st.heap[(loc, ELEM)] = el
            return Val(frozenset([loc]), v.kind)
        if nm in ("partial", "lru_cache", "cache", "wraps", "partialmethod"):
            loc = self.new(e, nm, "fn")
            j = None
            for a in list(flat) + list(kw.values()):
                j = a if j is None else vjoin(j, a)
            if j is not None and j.locs:
                st.heap[(loc, "__func__")] = Val(j.locs, "?")
            fnn = ("lru",) if nm in ("lru_cache", "cache") else None
            return Val(frozenset([loc]), "fn", fnn)
        if nm in ("memcpy", "memset", "memmove", "strcpy"):
            if flat:
                for l in flat[0].locs:
                    self.write_mut(st, l, e, nm, flat[1] if len(flat) > 1 else None)
            return SCAL
        if nm in ("malloc", "calloc", "PyMem_Malloc", "PyMem_Calloc"):
            return Val(frozenset([self.new(e, "malloc", "arr")]), "arr")
        if nm in ("realloc", "PyMem_Realloc"):
            return Val(frozenset([self.new(e, "realloc", "arr")]), "arr")
        if nm in ("free", "PyMem_Free"):
            return NONE
        if top == "collections" and nm in ("deque", "defaultdict", "OrderedDict", "Counter"):
            loc = self.new(e, nm, "cont")
            if flat:
                st.heap[(loc, ELEM)] = self.elems(st, flat[0])
            return Val(frozenset([loc]), "cont")
        if top == "itertools" or nm in ("chain", "product", "combinations"):
            loc = self.new(e, nm, "cont")
            j = None
            for a in flat:
                el = self.elems(st, a)
                j = el if j is None else vjoin(j, el)
            if j is not None:
                st.heap[(loc, ELEM)] = j
            return Val(frozenset([loc]), "cont")
        if top in ("math", "libc", "time", "os", "sys"):
            return SCAL
        if nm in ("heappush",) and flat:
            for l in flat[0].locs:
                self.write_mut(st, l, e, nm)
            return NONE
        if nm in ("heappop", "heapify") and flat:
            for l in flat[0].locs:
                self.write_mut(st, l, e, nm)
            return self.elems(st, flat[0])
        return Val(frozenset([self.new(e, "ext")]), "?")

    def _arr_locs(self, v):
        return v.locs if v.kind not in ("cont", "scal") else frozenset()

    def builtin(self, nm, flat, kw, st, e):
        if nm in PURE_BUILTIN:
            return SCAL
        if nm in ("min", "max"):
            r = None
            for a in flat:
                x = self.elems(st, a) if len(flat) == 1 else a
                r = x if r is None else vjoin(r, x)
            return r or UNK
        if nm in ("next",):
            return self.elems(st, flat[0]) if flat else UNK
        if nm in CONT_BUILTIN:
            loc = self.new(e, nm, "cont")
            if nm in ("zip",):
                els = [self.elems(st, a) for a in flat]
                tl = self.new(e, "ziptuple", "cont")
                j = None
                for x in els:
                    j = x if j is None else vjoin(j, x)
                if j is not None:
                    st.heap[(tl, ELEM)] = j
                st.heap[(loc, ELEM)] = Val(frozenset([tl]), "cont", None, tuple(els))
            elif nm == "enumerate":
                el = self.elems(st, flat[0]) if flat else UNK
                tl = self.new(e, "enumtuple", "cont")
                st.heap[(tl, ELEM)] = el
                st.heap[(loc, ELEM)] = Val(frozenset([tl]), "cont", None, (SCAL, el))
            elif nm in ("map", "filter"):
                j = None
                if nm == "filter" and len(flat) > 1:
                    j = self.elems(st, flat[1])
                if nm == "map" and flat and flat[0].fn is not None:
                    args = [self.elems(st, a) for a in flat[1:]]
                    fnv = flat[0].fn
                    if isinstance(fnv, tuple) and fnv[0] == "bound":
                        sv = None
                        for l in flat[0].locs:
                            sv = st.heap.get((l, "__self__"), sv)
                        j = self.call_fn(fnv[1], [sv or UNK] + args, {}, st, e)
                    else:
                        j = self.call_target(fnv, args, {}, st, e)
                if j is not None:
                    st.heap[(loc, ELEM)] = j
            else:
                if flat:
                    el = self.elems(st, flat[0])
                    st.heap[(loc, ELEM)] = el
            return Val(frozenset([loc]), "cont")
        if nm == "getattr" and flat:
            if len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                fake = ast.Attribute(value=e.args[0], attr=str(e.args[1].value), ctx=ast.Load())
                ast.copy_location(fake, e)
                return self.ev(fake, st)
            return UNK
        if nm == "setattr" and len(e.args) == 3 and isinstance(e.args[1], ast.Constant):
            for l in flat[0].locs:
                self.attr_store(st, l, str(e.args[1].value), flat[2], e, len(flat[0].locs) == 1)
            return NONE
        if nm in ("lru_cache", "partial"):
            return self.ext("functools." + nm, flat, kw, st, e)
        if nm in ("malloc", "memcpy", "free", "realloc", "calloc", "memset"):
            return self.ext("libc." + nm, flat, kw, st, e)
        if nm == "__lru__":
            return UNK
        return UNK

    # call with lru_cache(maxsize=None)(f): the callee expression is a Call whose value has fn ('lru',)
    def overridden(self, f):
        """argument-free methods that f calls on its object and this function's class overrides"""
        if not f.pos_params:
            return []
        out = {}
        for c in ast.walk(f.node):
            if (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name)
                    and c.func.value.id == f.pos_params[0] and not c.args and not c.keywords):
                a, b = self.p.find_method(self.f.cls, c.func.attr), f.cls and self.p.find_method(f.cls, c.func.attr)
                if a is not None and a is not b and a.node is not self.f.node:
                    out[a.name] = a
        return list(out.values())

    def call_fn(self, f, args, kw, st, e, star=False):
        if f.node is self.f.node:
            return UNK
        s = self.an.summary(f)
        if s is None:
            return UNK
        # bind
        amap = {}
        pos = f.pos_params
        if star:
            a = f.node.args
            j = None
            for x in args:
                j = x if j is None else vjoin(j, x)
            for i, pn in enumerate(pos):
                if i < len(args):
                    amap[pn] = args[i]
        else:
            for i, v in enumerate(args):
                if i < len(pos):
                    amap[pos[i]] = v
                elif f.node.args.vararg is not None:
                    key = "*" + f.node.args.vararg.arg
                    amap[key] = v if key not in amap else vjoin(amap[key], v)
        for k, v in kw.items():
            if k in f.params:
                amap[k] = v
        site = f"{getattr(e, 'lineno', 0)}:{getattr(e, 'col_offset', 0)}"
        cache = {}
        me = f"{self.f.qual}:{site}>"

        def tr(loc):
            """translate callee location into a set of caller locations"""
            if loc in cache:
                return cache[loc]
            if loc[0] == "P":
                if loc[1] in amap:
                    r = amap[loc[1]].locs
                elif loc[1].startswith("*"):
                    r = frozenset()
                else:
                    r = frozenset()
            elif loc[0] == "F":
                r = frozenset()
                for b in tr(loc[1]):
                    if loc[2] == ELEM and self.types.get(b) == "arr":
                        r |= {b}
                    else:
                        fv = self.field(st0, b, loc[2])
                        r |= fv.locs
                        if fv.kind == "scal":
                            r |= fv.deps
            elif loc[0] == "A":
                name = loc[1]
                core = name.rsplit(">", 1)[-1]
                nl = ("A", me + core)
                t = s.types.get(loc)
                if t is not None:
                    self.types.setdefault(nl, t)
                r = frozenset([nl])
            else:
                r = frozenset([loc])
            cache[loc] = r
            return r

        st0 = st.copy()

        def trv(v):
            if v is None:
                return UNK
            locs = frozenset()
            for l in v.locs:
                locs |= tr(l)
            el = tuple(trv(x) for x in v.elts) if v.elts is not None else None
            deps = set()
            for l in v.deps:
                deps |= tr(l)
                if l[0] == "P" and l[1] in amap:
                    deps |= amap[l[1]].deps
            return Val(locs, v.kind, v.fn, el, frozenset(deps))

        # effects
        for l, w in s.mut.items():
            if root_of(l)[0] == "A":
                continue
            if l[0] == "F" and (l[1], l[2]) in s.stores:
                # attribute rebinding: recorded via stores below
                for b in tr(l[1]):
                    if root_of(b)[0] in ("P", "G"):
                        self.mut.setdefault(("F", b, l[2]), (self.f.qual, getattr(e, "lineno", 0), f"via {f.qual.split('.')[-1]}: {w[2]}"))
                continue
            for b in tr(l):
                if b not in self.mut:
                    self.mut[b] = (self.f.qual, getattr(e, "lineno", 0), f"via {f.qual}: {w[2]}")
        # field stores
        for (l, fld), (v, weak) in s.stores.items():
            bs = tr(l)
            for b in bs:
                nv = trv(v)
                if weak or len(bs) > 1:
                    old = self.field(st0, b, fld) if (root_of(b)[0] != "A" or (b, fld) in st.heap) else None
                    st.heap[(b, fld)] = nv if old is None else vjoin(old, nv)
                else:
                    st.heap[(b, fld)] = nv
        # typestate
        for (l, dn), t in s.ts.items():
            if dn == "*":
                for b in tr(l):
                    st.ts[(b, "*")] = True
                continue
            bs = tr(l)
            for b in bs:
                if l[0] == "A":
                    st.ts[(b, dn)] = t
                    continue
                cur = st.ts.get((b, dn), IDENT)
                new = {k: frozenset().union(*[t.get(x, frozenset([x])) for x in vs]) for k, vs in cur.items()}
                if len(bs) > 1:
                    new = ts_join(cur, new)
                st.ts[(b, dn)] = new
        # buffers mutated by the callee that belong to tracked objects through other access paths
        if self.an.specs:
            for l in s.mut:
                if root_of(l)[0] == "A" or (l[0] == "F" and (l[1], l[2]) in s.stores):
                    continue
                r, pth = path_of(l)
                for b in tr(l):
                    # avoid double counting of effects the typestate already saw (self-rooted paths)
                    if l[0] == "F" and isinstance(s.types.get(l[1]), Class) and self.an.derived_for(s.types.get(l[1])):
                        continue
                    self.touch_content(st, b, self.depset(st, Val(frozenset([b]))))
        if s.noreturn:
            st.dead = True
        if isinstance(e, ast.Call) or True:
            for l in list(s.types):
                pass
        return trv(s.ret)
