"""Ownership of manually managed memory (C05).

Path-sensitive, per function, over the CFG: every malloc/calloc/realloc (and every helper that returns such memory) is a site that is
live, freed, null, or moved (to the caller or to a field whose class frees it).  Views made of raw memory (<double[:n]>p) and pointers
derived from it carry the site.  Fields that own memory and the view fields made of it are found from the classes themselves.
Summaries carry through calls: which pointer parameters a callee frees, whether it returns memory it allocated, and which owned
field of which argument it may reallocate or free."""
from __future__ import annotations
import ast
from .cfg import CFG, own_exprs
from .cextern import cfun
from .program import Function, Class

MAXS = 48
ALLOC = {"malloc", "calloc"}
VIEWERS = {"asarray", "ascontiguousarray", "frombuffer", "asanyarray"}


def is_ptr(t):
    return bool(t) and "*" in t and "[" not in t


def is_view(t):
    return bool(t) and "[" in t and ":" in t


class Site:
    __slots__ = ("id", "line", "what")

    def __init__(self, i, line, what):
        self.id, self.line, self.what = i, line, what


class Summary:
    def __init__(self):
        self.frees = set()          # parameter indices freed on some path
        self.frees_all = set()      # ... on every normal path
        self.ret_alloc = False
        self.rets_view = None       # path of owned field whose view is returned
        self.resets = set()         # (param index, owned field) reallocated or freed
        self.keeps = set()          # view parameters an object goes on referring to


class Heap:
    def __init__(self, prog, scope):
        self.prog = prog
        self.scope = scope
        self.sum = {}
        self.findings = {}
        self.count = {"sites": 0, "uses": 0, "exits": 0, "paths": 0}
        self.failed = []
        self.funcs = [f for f in prog.functions() if f.module.is_cy or f.module.path.endswith(".pxd")]
        self.byname = {}
        for f in self.funcs:
            self.byname.setdefault(f.name, []).append(f)
        self.owned, self.viewf = {}, {}
        self.owned_fields()

    # ---------------------------------------------------------------- classes
    def field_type(self, c, a):
        return self.prog.field_type(c, a)

    def owned_fields(self):
        """class qual -> pointer fields; and view fields that are made of them"""
        stores = []
        for f in self.funcs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                            c = self.cls_of(f, t.value.id)
                            if c is not None:
                                stores.append((f, t, n.value, c, self.field_type(c, t.attr)))
        byname = {}
        for f, t, v, c, ty in stores:
            if is_ptr(ty):
                self.owned.setdefault(self.home(c, t.attr).qual, {}).setdefault(t.attr, f)
                while isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "__cast__":
                    v = v.args[1]
                if isinstance(v, ast.Name):
                    byname.setdefault((f, v.id), set()).add(t.attr)
        for f, t, v, c, ty in stores:
            if is_view(ty) and self.casts_ptr(v):
                p = v.args[0]
                own = {p.attr} if isinstance(p, ast.Attribute) else byname.get((f, p.id), set()) if isinstance(p, ast.Name) else set()
                for o in own & self.owner_fields(c):
                    self.viewf.setdefault(self.home(c, t.attr).qual, {})[t.attr] = o

    def casts_ptr(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "__cyarray__"

    def home(self, c, a):
        for k in self.prog.mro(c):
            if a in k.fields:
                return k
        return c

    def cls_of(self, f, name):
        if f.cls is not None and f.pos_params and name == f.pos_params[0] and f.role != "static":
            return f.cls
        t = self.types(f).get(name)
        c = self.prog.class_named(f.module, t) if t else None
        return c if isinstance(c, Class) else None

    def types(self, f):
        k = ("t", f)
        if k not in self.sum:
            T = {a.arg: f.ann(a.arg) for a in f.arg_nodes() if f.ann(a.arg)}
            for n in ast.walk(f.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and isinstance(n.annotation, ast.Constant):
                    T[n.target.id] = str(n.annotation.value)
            self.sum[k] = T
        return self.sum[k]

    def owner_fields(self, c):
        return {a for k in self.prog.mro(c) for a in self.owned.get(k.qual, ())}

    def view_fields(self, c):
        return {a: o for k in self.prog.mro(c) for a, o in self.viewf.get(k.qual, {}).items()}

    # -------------------------------------------------------------- summaries
    def summary(self, f):
        if f in self.sum:
            return self.sum[f]
        self.sum[f] = Summary()
        try:
            w = Walk(self, f)
            w.run()
            self.sum[f] = w.S
            self.findings[f] = w.found
        except RecursionError:
            raise
        except Exception as e:   # one function the analysis cannot follow is reported as such, not guessed about
            self.failed.append((f.qual, f"{type(e).__name__}: {e}"))
        return self.sum[f]

    def targets(self, f, fn):
        if isinstance(fn, ast.Name):
            r = self.prog.resolve(f.module, fn.id)
            return [r] if isinstance(r, Function) else []
        if isinstance(fn, ast.Attribute):
            r = self.prog.resolve_expr(f.module, fn)
            if isinstance(r, Function):
                return [r]
            if isinstance(fn.value, ast.Name):
                c = self.cls_of(f, fn.value.id)
                if c is not None:
                    out = []
                    m = self.prog.find_method(c, fn.attr)
                    if m is not None:
                        out.append(m)
                    for s in self.prog.subclasses(c):
                        if fn.attr in s.methods and s.methods[fn.attr] not in out:
                            out.append(s.methods[fn.attr])
                    return out
        return []


# abstract state: immutable triple of frozensets turned into dicts for a step
class St:
    __slots__ = ("env", "site", "facts", "old", "via")

    def __init__(self):
        self.env = {}     # path -> ('site', id) | ('view', id) | ('null',) | ('obj', key)
        self.site = {}    # id -> status
        self.facts = {}   # condition text -> truth
        self.old = {}     # view path -> reason (stale view fields)
        self.via = {}

    def copy(self):
        s = St()
        s.env, s.site, s.facts, s.old = dict(self.env), dict(self.site), dict(self.facts), dict(self.old)
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.site.items()), frozenset(self.facts.items()), frozenset(self.old.items()))


class Walk:
    def __init__(self, H, f):
        self.H, self.f = H, f
        self.S = Summary()
        self.found = []
        self.seen = set()
        self.T = H.types(f)
        self.sites = {}
        self.assigned = {}
        self.frees_paths = None
        self.fresh_objs = set()
        self.testnames = {}
        self.hint = None

    def flag(self, kind, line, text):
        k = (kind, text)
        if k not in self.seen:
            self.seen.add(k)
            self.found.append((kind, line, text))

    # ------------------------------------------------------------------ driver
    def interesting(self):
        H = self.H
        if any(is_view(t) for p, t in self.T.items() if p in self.f.pos_params) and any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) for n in ast.walk(self.f.node)):
            return True
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name):
                    if n.func.id in ("malloc", "calloc", "realloc", "free"):
                        return True
                    c = cfun(H.prog, self.f.module, n.func.id)
                    if c is not None and (c.allocs or c.frees):
                        return True
                for t in H.targets(self.f, n.func):
                    if t is self.f:
                        continue
                    s = H.summary(t)
                    if s.frees or s.ret_alloc or s.resets or s.rets_view or s.keeps:
                        return True
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                c = H.cls_of(self.f, n.value.id)
                if c is not None and (n.attr in H.owner_fields(c) or n.attr in H.view_fields(c)):
                    return True
        return False

    def run(self):
        if not self.interesting():
            return
        f = self.f
        cfg = CFG(f.node)
        st = St()
        for i, p in enumerate(f.pos_params):
            if is_ptr(self.T.get(p)):
                st.env[p] = ("site", f"param {p}")
                st.site[f"param {p}"] = "param"
        IN = {cfg.entry.id: {st.key(): st}}
        work = [cfg.entry]
        n_it = 0
        ends = []
        while work:
            n_it += 1
            if n_it > 6000:
                raise RuntimeError("too many steps")
            n = work.pop(0)
            for key, s in list(IN[n.id].items()):
                done = self.__dict__.setdefault("done", set())
                if (n.id, key) in done:
                    continue
                done.add((n.id, key))
                outs = self.step(n, s.copy())
                for b, l in n.succ:
                    for o in outs:
                        o2 = self.edge(n, l, o.copy())
                        if o2 is None:
                            continue
                        d = IN.setdefault(b.id, {})
                        k = o2.key()
                        if k not in d:
                            if len(d) >= MAXS:
                                continue
                            d[k] = o2
                            if b not in work:
                                work.append(b)
        self.H.count["paths"] += sum(len(v) for v in IN.values())
        frees = []
        for n in (cfg.exit, cfg.raise_):
            for s in IN.get(n.id, {}).values():
                if not getattr(n, "_deadret", False):
                    self.at_exit(s, n is cfg.raise_)
                    if n is cfg.exit:
                        frees.append({i for i, p in enumerate(self.f.pos_params) if s.site.get(f"param {p}") == "freed"})
        for x in frees:
            self.S.frees |= x
        if frees:
            self.S.frees_all = set.intersection(*frees)
        # C functions without an exceptional edge into raise_ still leave by raise statements (linked by CFG)

    # -------------------------------------------------------------------- edges
    def edge(self, n, l, s):
        if n.kind == "test" and l in (True, False):
            t = n.ast.test
            return self.assume(t, l, s)
        return s

    def assume(self, t, val, s):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume(t.operand, not val, s)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And)
            if conj == val:
                for x in t.values:
                    s = self.assume(x, val, s)
                    if s is None:
                        return None
                return s
            return s
        p, isnull = self.nulltest(t)
        if p is not None:
            isn = isnull == val
            v = s.env.get(p)
            if v == ("null",):
                return s if isn else None
            if v and v[0] == "site":
                if isn:
                    if " from realloc (line" in v[1]:
                        return None     # a failed resize keeps the old block: allocation failure is not considered
                    if s.site.get(v[1]) in ("live",):
                        s.site[v[1]] = "null"
                    elif s.site.get(v[1]) == "held":
                        s.site[v[1]] = "null"
                elif s.site.get(v[1]) == "null":
                    return None
            return s
        if any(isinstance(x, ast.Call) for x in ast.walk(t)):
            return s
        names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
        if any(isinstance(x, (ast.Attribute, ast.Subscript)) for x in ast.walk(t)):
            return s
        k = ast.unparse(t)
        if s.facts.get(k, val) != val:
            return None
        s.facts[k] = val
        self.testnames[k] = names
        return s

    def nulltest(self, t):
        """(path, True when the test being true means null)"""
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b = t.left, t.comparators[0]
            for x, y in ((a, b), (b, a)):
                if isinstance(y, ast.Name) and y.id == "NULL" or isinstance(y, ast.Constant) and y.value is None:
                    p = self.path(x)
                    if p is not None:
                        if isinstance(t.ops[0], (ast.Eq, ast.Is)):
                            return p, True
                        if isinstance(t.ops[0], (ast.NotEq, ast.IsNot)):
                            return p, False
        p = self.path(t)
        if p is not None and is_ptr(self.T.get(p)):
            return p, False
        return None, None

    def path(self, e):
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            return f"{e.value.id}.{e.attr}"
        return None

    # --------------------------------------------------------------------- steps
    def step(self, n, s):
        a = n.ast
        if n.kind in ("entry", "exit", "raise", "join"):
            return [s]
        if n.kind == "for":
            self.ev(a.iter, s)
            for x in ast.walk(a.target):
                if isinstance(x, ast.Name):
                    self.kill(x.id, s)
            return [s]
        if n.kind in ("test", "with", "except"):
            for e in own_exprs(n):
                if e is not None:
                    self.ev(e, s)
            return [s]
        if isinstance(a, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return [s]
        self.hint = None
        if isinstance(a, ast.Assign):
            self.hint = self.path(a.targets[0])
            v = self.ev(a.value, s)
            for t in a.targets:
                self.store(t, v, a.value, s, a.lineno)
        elif isinstance(a, ast.AnnAssign):
            self.hint = self.path(a.target)
            v = self.ev(a.value, s) if a.value is not None else None
            if a.value is not None:
                self.store(a.target, v, a.value, s, a.lineno)
        elif isinstance(a, ast.AugAssign):
            self.ev(a.value, s)
            b = self.ev(a.target, s)
            if isinstance(a.target, ast.Name) and not (b and b[0] == "site"):
                self.kill(a.target.id, s)
        elif isinstance(a, ast.Return):
            v = self.ev(a.value, s) if a.value is not None else None
            self.returned(v, s, a)
        elif isinstance(a, ast.Delete):
            for t in a.targets:
                p = self.path(t)
                if p:
                    self.kill(p, s)
        else:
            for e in own_exprs(n):
                for c in ast.iter_child_nodes(e) if isinstance(e, ast.stmt) else [e]:
                    if isinstance(c, ast.expr):
                        self.ev(c, s)
        return [s]

    def kill(self, p, s):
        s.env.pop(p, None)
        for q in [q for q in s.env if q.startswith(p + ".")]:
            del s.env[q]
        for q in [q for q in s.old if q == p or q.startswith(p + ".")]:
            del s.old[q]
        for k in [k for k in s.facts if p in self.testnames.get(k, ())]:
            del s.facts[k]

    def returned(self, v, s, a):
        if v is None:
            return
        if v[0] == "site":
            if s.site.get(v[1]) == "live":
                s.site[v[1]] = "moved"
                self.S.ret_alloc = True
            elif s.site.get(v[1]) == "freed":
                self.flag("H2", a.lineno, f"{self.name(v[1])} is returned after it was freed")
        elif v[0] == "view":
            stt = s.site.get(v[1])
            if stt == "freed":
                self.flag("H2", a.lineno, f"a view of {self.name(v[1])} is returned after it was freed")
            elif stt in ("held", "moved") and v[1].startswith("field "):
                self.S.rets_view = v[1]
                if self.visible():
                    self.flag("H5", a.lineno, f"{ast.unparse(a.value)} hands out a view of memory that {v[1][6:]} owns and may free or move while the view is in use")
        elif v[0] == "tuple":
            for x in v[1]:
                self.returned(x, s, a)

    def visible(self):
        k = getattr(self.f.sa, "kind", "def")
        return k in ("def", "cpdef")

    def name(self, sid):
        return sid.rsplit(" (line", 1)[0]

    # -------------------------------------------------------------------- stores
    def store(self, t, v, vexpr, s, line):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, None, vexpr, s, line)
            return
        if isinstance(t, ast.Name):
            self.kill(t.id, s)
            s.env.pop("$new " + t.id, None)
            if v is not None and v[0] == "new":
                s.env["$new " + t.id] = v
                return
            if v is not None:
                if v[0] == "obj" and isinstance(vexpr, ast.Name):
                    pass
                s.env[t.id] = v
            elif isinstance(vexpr, ast.Name) and self.H.cls_of(self.f, t.id) is not None:
                s.env[t.id] = ("obj", self.obj(vexpr.id, s))
            return
        if isinstance(t, ast.Attribute):
            p = self.path(t)
            if p is None:
                self.escape(v, s)
                return
            c = self.H.cls_of(self.f, t.value.id)
            if c is None:
                self.escape(v, s)
                return
            o = self.obj(t.value.id, s)
            q = f"{o}.{t.attr}"
            if t.attr in self.H.owner_fields(c):
                cur = s.env.get(q)
                curid = cur[1] if cur and cur[0] == "site" else None
                if cur is None:
                    fresh = s.env.get("$new " + o) is not None
                    curid = self.field_site(c, o, t.attr, s) if not fresh and self.f.name not in ("__init__", "__cinit__") else None
                if v is not None and v[0] == "site":
                    stt = s.site.get(v[1])
                    if curid is not None and curid != v[1] and s.site.get(curid) == "held":
                        self.flag("H1", line, f"{t.attr} is pointed at other memory while it still owns a block that nothing frees")
                    if stt == "held" and v[1] != curid:
                        self.flag("H3", line, f"{t.attr} is made to own memory that {v[1]} owns already: both are freed")
                    elif stt == "moved" and not v[1].startswith("field ") and s.env.get("$owner " + v[1]) not in (None, ("own", q)):
                        self.flag("H3", line, f"{self.name(v[1])} is given to two owners")
                    elif stt == "freed":
                        self.flag("H2", line, f"{t.attr} is pointed at memory that was freed")
                    if stt in ("live", "null"):
                        s.site[v[1]] = "moved"
                    s.env["$owner " + v[1]] = ("own", q)
                    s.env[q] = v
                elif v == ("null",) or isinstance(vexpr, ast.Name) and vexpr.id == "NULL":
                    if curid is not None and s.site.get(curid) == "held":
                        self.flag("H1", line, f"{t.attr} is cleared while it still owns a block that nothing frees")
                    s.env[q] = ("null",)
                else:
                    s.env[q] = v if v is not None else ("site", "unknown")
                    s.site.setdefault("unknown", "moved")
                return
            if t.attr in self.H.view_fields(c):
                s.old.pop(q, None)
                if v is not None:
                    s.env[q] = v
                    if v[0] == "view" and s.site.get(v[1]) == "held" and v[1].startswith("field ") and not v[1].startswith(f"field {o}."):
                        self.flag("H4", line, f"{t.attr} of one object is a view of memory another object owns ({v[1][6:]})")
                else:
                    s.env.pop(q, None)
                return
            if v is not None and v[0] == "view" and v[1].startswith("field ") and s.site.get(v[1]) == "held":
                if not v[1].startswith(f"field {o}."):
                    self.flag("H4", line, f"{t.attr} keeps a view of memory another object owns ({v[1][6:]})")
                return
            if isinstance(vexpr, ast.Name) and vexpr.id in self.f.pos_params and is_view(self.T.get(vexpr.id)) and s.env.get(vexpr.id) is None:
                self.S.keeps.add(self.f.pos_params.index(vexpr.id))
            if v is not None and v[0] == "site":
                self.escape(v, s)
            return
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value, s)
            self.ev(t.slice, s)
            self.use(b, s, t.lineno, ast.unparse(t.value))
            if v is not None and v[0] == "site":
                self.escape(v, s)

    def escape(self, v, s):
        if v is not None and v[0] == "site" and s.site.get(v[1]) == "live":
            s.site[v[1]] = "moved"

    def obj(self, name, s):
        v = s.env.get(name)
        if v is not None and v[0] == "obj":
            return v[1]
        return name

    def field_site(self, c, o, a, s):
        sid = f"field {o}.{a}"
        s.site.setdefault(sid, "held")
        s.env.setdefault(f"{o}.{a}", ("site", sid))
        return sid

    # ------------------------------------------------------------------- values
    def use(self, v, s, line, text):
        if v is None:
            return
        self.H.count["uses"] += 1
        if v[0] in ("site", "view") and s.site.get(v[1]) == "freed":
            self.flag("H2", line, f"{text} is used after {self.name(v[1])} was freed or moved by realloc")
        elif v[0] == "stale":
            self.flag("H2", line, f"{text} is used although {v[1]}")

    def ev(self, e, s):
        if e is None:
            return None
        if isinstance(e, ast.Name):
            if e.id == "NULL":
                return ("null",)
            return s.env.get(e.id)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name):
                c = self.H.cls_of(self.f, e.value.id)
                o = self.obj(e.value.id, s)
                q = f"{o}.{e.attr}"
                if c is not None and e.attr in self.H.owner_fields(c):
                    if q not in s.env:
                        self.field_site(c, o, e.attr, s)
                    return s.env[q]
                if c is not None and e.attr in self.H.view_fields(c):
                    if q in s.old:
                        return ("stale", s.old[q])
                    if q in s.env:
                        return s.env[q]
                    own = self.H.view_fields(c)[e.attr]
                    if f"{o}.{own}" not in s.env:
                        self.field_site(c, o, own, s)
                    x = s.env[f"{o}.{own}"]
                    return ("view", x[1]) if x[0] == "site" else None
            b = self.ev(e.value, s)
            if b and b[0] in ("view", "site", "stale"):
                self.use(b, s, e.lineno, ast.unparse(e.value))
                if e.attr in ("T", "base"):
                    return b
            return None
        if isinstance(e, ast.Call):
            return self.call(e, s)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, s)
            self.ev(e.slice, s)
            self.use(b, s, e.lineno, ast.unparse(e.value))
            if b and b[0] == "view":
                sl = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
                if any(isinstance(x, ast.Slice) or isinstance(x, ast.Constant) and x.value is Ellipsis for x in sl):
                    return b
                return None
            return None
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, s), self.ev(e.right, s)
            for x in (a, b):
                if x and x[0] == "site":
                    return x
            return None
        if isinstance(e, (ast.Tuple, ast.List)):
            return ("tuple", tuple(self.ev(x, s) for x in e.elts))
        if isinstance(e, ast.IfExp):
            self.ev(e.test, s)
            a, b = self.ev(e.body, s), self.ev(e.orelse, s)
            return a or b
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, s)
            self.store(e.target, v, e.value, s, e.lineno)
            return v
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return None
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, s)
        return None

    def new(self, line, what, s, target=None):
        sid = f"{self.hint or 'memory'} from {what} (line {line})"
        if s.site.get(sid) == "live":
            self.flag("H1", line, f"{what} in a loop replaces a block that was not freed")
        s.site[sid] = "live"
        self.H.count["sites"] += 1
        return ("site", sid)

    def free(self, v, s, line, text, how="freed"):
        if v is None:
            return
        if v[0] == "stale":
            return
        if v[0] == "view":
            self.flag("H3", line, f"free of {text}, which is a view and not the start of an allocation it owns")
            return
        if v[0] != "site":
            return
        stt = s.site.get(v[1])
        if stt == "freed":
            self.flag("H3", line, f"{text} is freed twice")
        elif stt == "moved" and not v[1].startswith("field "):
            ow = s.env.get("$owner " + v[1])
            self.flag("H3", line, f"{text} is freed although {ow[1] if ow else 'it was handed over and something else'} owns it now")
        elif stt == "null":
            return
        if stt == "foreign":
            self.flag("H3", line, f"{text} is freed although it was not obtained from malloc")
        s.site[v[1]] = "freed"

    def call(self, e, s):
        fn = e.func
        if isinstance(fn, ast.Name):
            k = fn.id
            if k == "__cast__":
                t = str(e.args[0].value)
                v = self.ev(e.args[1], s)
                if "[" in t and v and v[0] == "site":
                    self.use(v, s, e.lineno, ast.unparse(e.args[1]))
                    return ("view", v[1])
                return v if v and (v[0] != "view" or "[" in t or t == "object") else None
            if k == "__cyarray__":
                v = self.ev(e.args[0], s)
                for a in e.args[1:]:
                    self.ev(a, s)
                self.use(v, s, e.lineno, ast.unparse(e.args[0]))
                return ("view", v[1]) if v and v[0] == "site" else None
            if k == "__addr__":
                x = e.args[0]
                if isinstance(x, ast.Subscript):
                    b = self.ev(x.value, s)
                    self.ev(x.slice, s)
                    self.use(b, s, e.lineno, ast.unparse(x.value))
                    if b and b[0] in ("view", "site"):
                        return ("site", b[1]) if b[0] == "site" else ("inner", b[1])
                    return ("foreign", ast.unparse(x.value))
                self.ev(x, s)
                return None
            if k == "__sizeof__":
                return None
            if k in ALLOC:
                for a in e.args:
                    self.ev(a, s)
                return self.new(e.lineno, k, s)
            if k == "realloc":
                p = self.ev(e.args[0], s)
                for a in e.args[1:]:
                    self.ev(a, s)
                self.release(e.args[0], p, s, e.lineno, "realloc")
                return self.new(e.lineno, "realloc", s)
            if k == "free":
                p = self.ev(e.args[0], s)
                self.release(e.args[0], p, s, e.lineno, "free")
                return None
            c = cfun(self.H.prog, self.f.module, k)
            if c is not None and not self.H.targets(self.f, fn):
                for i, a in enumerate(e.args):
                    v = self.ev(a, s)
                    self.use(v, s, e.lineno, ast.unparse(a))
                    if i in c.frees:
                        if v and v[0] in ("foreign", "inner"):
                            self.flag("H3", e.lineno, f"{c.name} ({c.rel}) frees or reallocates {ast.unparse(a)}, which belongs to an array object")
                        else:
                            self.release(a, v, s, e.lineno, c.name)
                return self.new(e.lineno, k, s) if c.allocs else None
        recv = None
        if isinstance(fn, ast.Attribute):
            b = self.ev(fn.value, s)
            if b and b[0] in ("view", "site", "stale", "tuple") and b[0] != "tuple":
                self.use(b, s, e.lineno, ast.unparse(fn.value))
                if fn.attr in ("reshape", "view", "ravel", "transpose"):
                    for a in e.args:
                        self.ev(a, s)
                    return b
            if fn.attr == "__new__":
                for a in e.args:
                    self.ev(a, s)
                return ("new", e.lineno)
            recv = fn.value
        vals = [self.ev(a.value if isinstance(a, ast.Starred) else a, s) for a in e.args]
        kvals = [(k, self.ev(k.value, s)) for k in e.keywords]
        for a, v in list(zip(e.args, vals)) + [(k.value, v) for k, v in kvals]:
            if v and v[0] in ("site", "view", "stale"):
                self.use(v, s, e.lineno, ast.unparse(a))
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("np", "numpy") and fn.attr in VIEWERS and vals:
            return vals[0] if vals[0] and vals[0][0] == "view" else None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("np", "numpy") and fn.attr == "array" and vals and vals[0] and vals[0][0] == "view":
            for k, _ in kvals:
                if k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False:
                    return vals[0]
            return None
        tg = self.H.targets(self.f, fn)
        if isinstance(fn, ast.Name):
            c = self.H.prog.resolve(self.f.module, fn.id)
            if isinstance(c, Class):
                m = self.H.prog.find_method(c, "__init__")
                tg = [m] if m is not None else []
                recv = ast.Name(id="<new>", ctx=ast.Load())
        out = None
        for t in tg:
            sm = self.H.summary(t)
            ismeth = t.cls is not None and t.role not in ("static", "classmethod")
            params = list(range(len(t.pos_params)))
            args = list(zip(e.args, vals))
            if ismeth and (isinstance(fn, ast.Attribute) or t.name == '__init__'):
                args = [(recv, None)] + args
            for i in sm.frees:
                if i < len(args):
                    a, v = args[i]
                    if v and v[0] == "site":
                        if len(tg) == 1:
                            self.release(a, v, s, e.lineno, t.name)
            for i, fld in sm.resets:
                if i < len(args) and isinstance(args[i][0], ast.Name):
                    self.reset(self.obj(args[i][0].id, s), self.H.cls_of(self.f, args[i][0].id), fld, s, f"{t.name} moved the memory behind it", callee=True)
            for i in sm.keeps:
                if i < len(args):
                    a, v = args[i]
                    if v and v[0] == "view" and (v[1].startswith("field ") and s.site.get(v[1]) == "held" or s.site.get(v[1]) == "live"):
                        self.flag("H4", e.lineno, f"{t.name} keeps a view of {self.name(v[1]).replace('field ', 'memory owned by ')}")
            if sm.ret_alloc:
                out = self.new(e.lineno, t.name, s)
            elif sm.rets_view and ismeth and isinstance(recv, ast.Name):
                fld = sm.rets_view.rsplit(".", 1)[1]
                o = self.obj(recv.id, s)
                c = self.H.cls_of(self.f, recv.id)
                if c is not None:
                    if f"{o}.{fld}" not in s.env:
                        self.field_site(c, o, fld, s)
                    x = s.env[f"{o}.{fld}"]
                    out = ("view", x[1]) if x[0] == "site" else None
        return out

    def release(self, a, v, s, line, how):
        """free/realloc of the value of expression a"""
        text = ast.unparse(a)
        if v and v[0] in ("foreign", "inner"):
            self.flag("H3", line, f"{how} of {text}, which was not obtained from malloc")
            return
        self.free(v, s, line, text)
        p = self.path(a)
        if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name):
            c = self.H.cls_of(self.f, a.value.id)
            if c is not None and a.attr in self.H.owner_fields(c):
                o = self.obj(a.value.id, s)
                if a.value.id in self.f.pos_params:
                    self.S.resets.add((self.f.pos_params.index(a.value.id), a.attr))
                self.reset(o, c, a.attr, s, f"{a.attr} was freed or moved by {how}")

    def reset(self, o, c, fld, s, why, callee=False):
        """the block behind o.fld is gone: views of it (fields and locals) dangle"""
        q = f"{o}.{fld}"
        if c is None:
            return
        if callee:
            # the callee left the fields of the object consistent; only views taken before the call dangle
            cur = s.env.get(q)
            sid = cur[1] if cur and cur[0] == "site" else f"field {o}.{fld}"
            for p, v in list(s.env.items()):
                if v[0] in ("view", "site") and v[1] == sid and p != q and not p.startswith("$"):
                    s.env[p] = ("stale", why) if "." not in p or p.split(".")[0] != o else None
                    if s.env[p] is None:
                        del s.env[p]
            s.env.pop(q, None)
            s.site.pop(sid, None)
            if o in self.f.pos_params:
                self.S.resets.add((self.f.pos_params.index(o), fld))
            return
        for a, own in self.H.view_fields(c).items():
            if own != fld:
                continue
            x = s.env.get(f"{o}.{a}")
            if x is None or x[0] == "view":
                s.old[f"{o}.{a}"] = why
                s.env.pop(f"{o}.{a}", None)

    # ---------------------------------------------------------------------- exit
    def at_exit(self, s, exc):
        self.H.count["exits"] += 1
        if self.f.name in ("__dealloc__",):
            return
        for sid, stt in s.site.items():
            if stt == "live":
                line = int(sid.rsplit("line ", 1)[1].rstrip(")")) if "line " in sid else 0
                self.flag("H1", line, f"{self.name(sid)} is not freed on {'a path that raises' if exc else 'some path'}")
        for q, why in s.old.items():
            self.flag("H4", 0, f"{q} still is a view of the old block at the end: {why}")
        for q, v in s.env.items():
            if "." in q and not q.startswith("$") and v[0] == "site" and s.site.get(v[1]) == "freed":
                o, a = q.split(".", 1)
                c = self.H.cls_of(self.f, o)
                if c is not None and a in self.H.owner_fields(c):
                    self.flag("H3", 0, f"{q} still points at a block that was freed")


def dealloc_rule(H):
    """(class, field, where): an owning field no __dealloc__ of the class frees"""
    for c in H.prog.classes() if hasattr(H.prog, "classes") else [k for m in H.prog.modules.values() for k in m.classes.values()]:
        own = H.owned.get(c.qual)
        if not own:
            continue
        for a, f in sorted(own.items()):
            alloc = None
            for g in H.funcs:
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == a for t in n.targets):
                        for x in ast.walk(n.value):
                            if isinstance(x, ast.Name) and x.id in ("malloc", "calloc", "realloc"):
                                alloc = (g, n.lineno)
            if alloc is None:
                continue
            d = next((k.methods.get("__dealloc__") for k in H.prog.mro(c) if "__dealloc__" in k.methods), None)
            ok = False
            if d is not None:
                me = d.pos_params[0] if d.pos_params else "self"
                for n in ast.walk(d.node):
                    if isinstance(n, ast.Call) and n.args:
                        t = n.args[0]
                        if isinstance(n.func, ast.Name) and n.func.id == "free" and isinstance(t, ast.Attribute) and t.attr == a:
                            ok = True
                        for g in H.targets(d, n.func):
                            if H.summary(g).frees and isinstance(t, ast.Attribute) and t.attr == a:
                                ok = True
                            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "free" and isinstance(x.args[0], ast.Attribute) and x.args[0].attr == a for x in ast.walk(g.node)):
                                ok = True
            yield c, a, alloc, ok
