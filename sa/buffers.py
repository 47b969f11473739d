"""Abstract interpretation of numeric buffers: extents (as polynomials over sizes) and which elements have been written.

One structured pass per function.  Values: integers as polynomials (sa/poly.py), arrays as views onto abstract buffers.
A buffer that starts uninitialised (np.empty, malloc, C arrays) carries the set of regions written so far (intersection over
paths; loops over ranges are taken to run, an element index that is a loop variable covers the whole range).  Everything that
is not understood makes the buffer 'unknown' and generates no finding.

Per function the result is a summary over its parameters: regions written on every path, regions read before they are written,
largest index used unconditionally per dimension; call sites instantiate it.

Findings: (kind, line, text)   kind in U1 read-before-write, U2 partly written buffer handed out, B1 index beyond extent,
B2 negative index without wraparound, B3 view larger than the allocation behind it."""
from __future__ import annotations
import ast
import os
import re

from .poly import P
from .program import Function, Class, Ext, annot_str

INTISH = re.compile(r"^(unsigned |signed )?(int|long|short|size_t|Py_ssize_t|bint|char|uint32_t|long long|Py_ssize_t)$")
MAXENUM = 64


EXT = {}       # atom "min(a,b)" -> (op, a, b)


def extremum(op, a, b):
    d = (a - b).const()
    if d is not None:
        return (a if d < 0 else b) if op == "min" else (a if d > 0 else b)
    x, y = sorted([str(a), str(b)])
    n = f"{op}({x},{y})"
    EXT[n] = (op, a, b)
    return P.a(n)


def over_choice(diff):
    """index - extent of the form  a - min(a, b) - 1  or  max(a, b) - a - 1: the index follows one operand where the extent follows the other"""
    for m in diff.atoms():
        if m not in EXT or any("#" in a or "@" in a for a in diff.atoms()):
            continue
        op, a, b = EXT[m]
        c = diff.t.get((m,), 0)
        if any(len(k) > 1 and m in k for k in diff.t):
            continue
        for x in (a, b):
            if op == "min" and c == -1:
                k = (diff + P.a(m) - x).const()
            elif op == "max" and c == 1:
                k = (diff - P.a(m) + x).const()
            else:
                continue
            if k is not None and k >= -1:
                return True
    return False


class Buf:
    n = 0

    def __init__(self, name, shape, init, origin, line):
        Buf.n += 1
        self.id, self.name, self.shape, self.init, self.origin, self.line = Buf.n, name, shape, init, origin, line
        self.ptr = False


class View:
    __slots__ = ("buf", "dims", "fixed")

    def __init__(self, buf, dims=None, fixed=None):
        self.buf = buf
        self.dims = dims if dims is not None else [(i, P.c(0), s) for i, s in enumerate(buf.shape)]
        self.fixed = fixed or {}

    def __eq__(self, o):
        return isinstance(o, View) and o.buf is self.buf and o.dims == self.dims and o.fixed == self.fixed

    def whole(self):
        return not self.fixed and len(self.dims) == len(self.buf.shape)


class State:
    __slots__ = ("env", "wr", "ver")

    def __init__(self):
        self.env, self.wr, self.ver = {}, {}, 0

    def copy(self):
        s = State()
        s.env, s.wr, s.ver = dict(self.env), {k: v for k, v in self.wr.items()}, self.ver
        return s


ANY = "any"      # everything possibly written: no judgement


class Summary:
    def __init__(self):
        self.params = {}      # name -> Buf
        self.writes = {}      # name -> list of regions | ANY          (on every path)
        self.maybe = {}       # name -> list of regions | ANY          (on some path; holds when the status result is consulted)
        self.status = False   # returns something a caller can test
        self.reads = {}       # name -> list of (region, line)
        self.reqs = []        # (name, dim, P, line)
        self.ret = None       # list of P | None
        self.ret_uninit = False   # an allocator: hands out memory nobody has written yet
        self.opaque = False
        self.stub = False


class Engine:
    def __init__(self, prog):
        self.prog = prog
        self.sums = {}
        self.busy = set()
        self.findings = {}
        self.failed = []
        self.checks = {"read": 0, "hand": 0, "index": 0}

    def summary(self, f):
        k = id(f)
        if k in self.sums:
            return self.sums[k]
        if k in self.busy or len(self.busy) > 40:
            s = Summary()
            s.opaque = True
            return s
        self.busy.add(k)
        it = Interp(self, f)
        try:
            s = it.run()
        except RecursionError:
            raise
        except Exception as x:        # a construct the interpreter does not know: no claim about this function
            s, it.out = Summary(), []
            s.opaque = True
            self.failed.append((f.qual, repr(x)))
        if not s.opaque:
            for p in optional_buffers(f):
                # the function once more, for callers that supply p themselves
                it2 = Interp(self, f)
                it2.supplied = frozenset((p,))
                try:
                    s2 = it2.run()
                except RecursionError:
                    raise
                except Exception as x:
                    self.failed.append((f.qual, repr(x)))
                    continue
                for r in s2.reqs:
                    if r[0] == p and r not in s.reqs:
                        s.reqs.append(r)
        self.busy.discard(k)
        self.sums[k] = s
        self.findings[f.qual] = it.out
        return s


def none_test(t):
    """(name, verdict when the name holds a value) for `p is None` / `p is not None`"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
        if isinstance(t.ops[0], (ast.Is, ast.Eq)):
            return t.left.id, False
        if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
            return t.left.id, True
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        r = none_test(t.operand)
        return r and (r[0], not r[1])
    return None


def optional_buffers(f):
    """buffer parameters the function allocates itself when the caller passes None"""
    bufs = {a.arg for a in f.arg_nodes() if ann_dims(annot_str(a.annotation))}
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.If):
            r = none_test(n.test)
            if r and r[0] in bufs and r[0] not in out:
                out.append(r[0])
    return out


def how_first(it):
    """the point is reached on the first pass: no condition and no early exit between it and the outermost loop"""
    if any(a == "while" for a in it.open) or it.loopcond[0] != it.cond:
        return False
    return not any(isinstance(n, (ast.Break, ast.Continue, ast.Return)) for n in ast.walk(it.loops[0]))


def is_stub(f):
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
    return not b or all(isinstance(s, ast.Raise) for s in b)


def directive(f, name):
    """effective value of a cython directive for f"""
    for d in f.node.decorator_list:
        if isinstance(d, ast.Call) and ast.unparse(d.func).endswith(name) and d.args and isinstance(d.args[0], ast.Constant):
            return bool(d.args[0].value)
    mm = re.search(r"^#\s*cython:.*\b" + name + r"\s*=\s*(True|False)", f.module.src, re.M)
    if mm:
        return mm.group(1) == "True"
    return project_directives().get(name, True)


_PROJECT = {}


def project_directives():
    """compiler_directives of the project's build.py"""
    from . import core
    if core.REPO not in _PROJECT:
        out = {}
        try:
            tree = ast.parse(open(os.path.join(core.REPO, "build.py")).read())
        except (OSError, SyntaxError):
            tree = ast.Module(body=[], type_ignores=[])
        for n in ast.walk(tree):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and "directive" in t.id for t in n.targets):
                kv = [(k.arg, k.value) for k in n.value.keywords] if isinstance(n.value, ast.Call) else \
                    [(k.value, v) for k, v in zip(n.value.keys, n.value.values) if isinstance(k, ast.Constant)] if isinstance(n.value, ast.Dict) else []
                out.update({k: v.value for k, v in kv if isinstance(v, ast.Constant)})
        _PROJECT[core.REPO] = out
    return _PROJECT[core.REPO]


def ann_dims(t):
    """declared buffer type -> number of dims, or None"""
    if not t:
        return None
    t = t.replace(" ", "")
    m = re.search(r"ndarray\[.*ndim=(\d)", t)
    if m:
        return int(m.group(1))
    m = re.match(r"^[\w.]+\[([:,1]+)\]$", t)
    if m:
        return m.group(1).count(",") + 1 if ":" in m.group(1) else None
    if re.match(r"^(double|float|int|long|DTYPE_t)\*$", t):
        return 1
    return None


def vexpr_array(e):
    """an array from elsewhere: an attribute, an element or the answer of a call"""
    return isinstance(e, (ast.Attribute, ast.Subscript)) or isinstance(e, ast.Call) and not (isinstance(e.func, ast.Name) and e.func.id in ("__cast__", "__addr__", "__cyarray__"))


class Interp:
    def __init__(self, eng, f):
        self.e, self.f, self.prog = eng, f, eng.prog
        self.out = []
        self.S = Summary()
        self.cond = 0
        self.bounds = {}      # loop atom -> (lo, hi)
        self.loops = []       # stack of loop bodies (ast)
        self.exits = []       # states at return
        self.rets = []        # shapes returned
        self.types = {}
        self.nloop = 0
        self.supplied = frozenset()
        self.free = None
        self.wrap = directive(f, "wraparound") or not f.module.is_cy
        self.cy = f.module.is_cy
        self.breaks = []
        self.nret = 0
        self.starts, self.open, self.loopcond = {}, [], []
        self.touched = set()  # buffers handed to a call
        self.pending = []     # buffers returned untouched: allocator helpers
        self.allw = {}        # buffer -> every region written anywhere
        self.discard = None   # call whose result is thrown away

    # ------------------------------------------------------------- run
    def run(self):
        f = self.f
        if is_stub(f):
            self.S.stub = True
            return self.S
        for n in ast.walk(f.node):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.types[n.target.id] = annot_str(n.annotation)
        st = State()
        for a in f.arg_nodes():
            t = annot_str(a.annotation)
            self.types.setdefault(a.arg, t)
            nd = ann_dims(t)
            if nd:
                b = Buf(a.arg, [P.a(f"{a.arg}.shape{i}") for i in range(nd)], True, "param", f.node.lineno)
                b.ptr = t.replace(" ", "").endswith("*")
                self.S.params[a.arg] = b
                st.env[a.arg] = View(b)
                st.wr[b.id] = frozenset()
                self.S.reads[a.arg] = []
        end = self.block(f.node.body, st)
        if end is not None:
            self.exits.append(end)
        for st in self.exits:
            for p, v in st.env.items():
                if "." in p and isinstance(v, View) and v.buf.origin == "alloc" and not v.buf.ptr and st.wr.get(v.buf.id):
                    self.need_full(v, st, v.buf.line, "kept")
        for b, line in self.pending:
            if b.id in self.touched or b.id in self.allw or self.nloop or any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(f.node)):
                self.flag("U2", line, f"{b.name} is returned with every element possibly unwritten")
            else:
                self.S.ret_uninit = True
        for nme, b in self.S.params.items():
            ws = [s.wr.get(b.id, frozenset()) for s in self.exits]
            self.S.maybe[nme] = ANY if any(w == ANY for w in ws) else list(self.allw.get(b.id, ()))
            if not ws:
                self.S.writes[nme] = []
            elif any(w == ANY for w in ws):
                real = [w for w in ws if w != ANY]
                self.S.writes[nme] = ANY if not real else ANY
            else:
                r = ws[0]
                for w in ws[1:]:
                    r = meet(r, w)
                self.S.writes[nme] = list(r) if r != ANY else ANY
        self.S.status = self.nret > 0
        if self.rets and all(r is not None for r in self.rets) and all(r == self.rets[0] for r in self.rets):
            self.S.ret = self.rets[0]
        return self.S

    def flag(self, kind, line, text):
        x = (kind, line, text)
        if x not in self.out:
            self.out.append(x)

    # ------------------------------------------------------------- statements
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        k = type(s).__name__
        m = getattr(self, "s_" + k, None)
        if m:
            return m(s, st)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.use(self.ev(c, st), st, s.lineno)
        return st

    def s_Pass(self, s, st):
        return st

    def s_FunctionDef(self, s, st):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(st.env.get(n.id), View):
                st.wr[st.env[n.id].buf.id] = ANY
        return st

    def s_ClassDef(self, s, st):
        return st

    def s_Expr(self, s, st):
        self.discard = s.value
        self.ev(s.value, st)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.store(t, v, s.value, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is None:
            t = annot_str(s.annotation) or ""
            if isinstance(s.target, ast.Name):
                m = re.match(r"^(double|float)\[(.+)\]$", t.replace(" ", ""))
                if m and ":" not in m.group(2) and not self.loops:
                    try:
                        d = [self.val(ast.parse(x, mode="eval").body, st) for x in m.group(2).split("][")]
                    except SyntaxError:
                        d = [None]
                    b = Buf(s.target.id, d, False, "alloc", s.lineno)
                    b.ptr = True
                    st.env[s.target.id] = View(b)
                    st.wr[b.id] = frozenset()
            return st
        v = self.ev(s.value, st)
        self.store(s.target, v, s.value, st)
        return st

    def s_AugAssign(self, s, st):
        self.use(self.ev(s.value, st), st, s.lineno)
        t = s.target
        if isinstance(t, ast.Subscript):
            v = self.sub(t, st, load=True, aug=True)
            self.sub_store(t, st)
            return st
        p = self.path(t, st)
        cur = st.env.get(p) if p else None
        if isinstance(cur, View):
            self.read_view(cur, st, s.lineno)
            self.write_view(cur, st)
            return st
        if p:
            a, b = self.val(t, st), self.val(s.value, st)
            r = None
            if a is not None and b is not None:
                if isinstance(s.op, ast.Add):
                    r = a + b
                elif isinstance(s.op, ast.Sub):
                    r = a - b
                elif isinstance(s.op, ast.Mult):
                    r = a * b
            self.setpath(p, r, st)
        return st

    def s_Delete(self, s, st):
        return st

    def s_Return(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            if not isinstance(v, View) or v.buf.origin != "param":
                self.nret += 1
            self.rets.append(self.shape_of(v))
            self.use(v, st, s.lineno, esc=True)
        self.exits.append(st)
        return None

    def s_Raise(self, s, st):
        return None

    def s_Break(self, s, st):
        return None

    def s_Continue(self, s, st):
        if self.breaks:
            self.breaks[-1].append(st)
        return None

    def s_If(self, s, st):
        from .cfg import const_truth
        v = const_truth(s.test)
        if v is None and self.supplied:
            r = none_test(s.test)
            if r and r[0] in self.supplied:
                v = r[1]
        self.use(self.ev(s.test, st), st, s.lineno)
        if v is not None:
            return self.block(s.body if v else s.orelse, st)
        self.cond += 1
        a = self.block(s.body, st.copy())
        b = self.block(s.orelse, st.copy())
        self.cond -= 1
        return self.join(a, b)

    def s_While(self, s, st):
        self.use(self.ev(s.test, st), st, s.lineno)
        self.havoc(s, st)
        self.cond += 1
        self.loops.append(s)
        self.open.append("while")
        self.loopcond.append(-1)
        self.breaks.append([])
        a = self.block(s.body, st.copy())
        for c in self.breaks.pop():
            a = self.join(a, c)
        self.loops.pop()
        self.open.pop()
        self.loopcond.pop()
        self.cond -= 1
        if a is None:
            a = st
            for x in list(a.wr):
                if self.written_in(s, x, a):
                    a.wr[x] = ANY
        self.havoc(s, a)
        return self.block(s.orelse, a)

    def s_For(self, s, st):
        rng = None
        it = s.iter
        if isinstance(it, ast.Call) and ((isinstance(it.func, ast.Name) and it.func.id in ("range", "prange", "xrange")) or (isinstance(it.func, ast.Attribute) and it.func.attr in ("prange",))):
            a = [self.val(x, st) for x in it.args]
            for x in it.args:
                self.ev(x, st)
            if len(a) == 1:
                rng = (P.c(0), a[0])
            elif len(a) == 2:
                rng = (a[0], a[1])
            elif len(a) == 3 and a[2] is not None and a[2].const() is not None:
                stp = a[2].const()
                if stp == 1:
                    rng = (a[0], a[1])
                elif stp == -1 and a[0] is not None and a[1] is not None:
                    rng = (a[1] + P.c(1), a[0] + P.c(1))
        else:
            self.use(self.ev(it, st), st, s.lineno)
        self.havoc(s, st)
        for n in ast.walk(s.target):
            if isinstance(n, ast.Name):
                st.env[n.id] = None
        if rng and isinstance(s.target, ast.Name) and rng[0] is not None and rng[1] is not None and s.target.id not in assigned(s.body):
            self.nloop += 1
            at = f"{s.target.id}#{self.nloop}"
            self.bounds[at] = (rng[0], rng[1] - P.c(1))
            down = len(it.args) == 3 and a[2] is not None and a[2].const() == -1
            self.starts[at] = self.bounds[at][1 if down else 0]
            self.open.append(at)
            st.env[s.target.id] = P.a(at)
        else:
            self.open.append(None)
        self.loops.append(s)
        self.loopcond.append(self.cond)
        self.breaks.append([])
        a = self.block(s.body, st.copy())
        for c in self.breaks.pop():
            a = self.join(a, c)
        self.loops.pop()
        self.open.pop()
        self.loopcond.pop()
        if a is None:
            a = st
            for x in list(a.wr):
                if self.written_in(s, x, a):
                    a.wr[x] = ANY
        self.havoc(s, a)
        for n in ast.walk(s.target):
            if isinstance(n, ast.Name):
                a.env[n.id] = None
        return self.block(s.orelse, a)

    def s_With(self, s, st):
        for i in s.items:
            if not (isinstance(i.context_expr, ast.Name) and i.context_expr.id in ("nogil", "gil")):
                self.use(self.ev(i.context_expr, st), st, s.lineno)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        pre = st.copy()
        a = self.block(s.body, st)
        if a is not None:
            a = self.block(s.orelse, a)
        self.cond += 1
        for h in s.handlers:
            p2 = pre.copy()
            for x in list(p2.wr):
                p2.wr[x] = ANY
            b = self.block(h.body, p2)
            a = self.join(a, b)
        self.cond -= 1
        if s.finalbody:
            if a is None:
                p2 = pre.copy()
                self.block(s.finalbody, p2)
                return None
            a = self.block(s.finalbody, a)
        return a

    def s_Match(self, s, st):
        self.use(self.ev(s.subject, st), st, s.lineno)
        r = st.copy()
        self.cond += 1
        for c in s.cases:
            r = self.join(r, self.block(c.body, st.copy()))
        self.cond -= 1
        return r

    def written_in(self, s, bid, st):
        return True

    def havoc(self, s, st):
        names = assigned(s.body)
        for p in list(st.env):
            root = re.split(r"[.\[]", p)[0]
            if p in names or (p != root and (p in names or root in names)):
                v = st.env[p]
                if not isinstance(v, View):
                    st.env[p] = None
                else:
                    st.env[p] = None
        for p in names:
            if p not in st.env:
                st.env[p] = None
        if any(isinstance(x, ast.Call) for x in ast.walk(s)):
            st.ver += 0

    # ------------------------------------------------------------- joins
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = State()
        r.ver = max(a.ver, b.ver) + (1 if a.ver != b.ver else 0)
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k, "-"), b.env.get(k, "-")
            if isinstance(x, View) and isinstance(y, View):
                if x == y:
                    r.env[k] = x
                elif x.buf.origin == "param" and y.buf.origin == "alloc":
                    r.env[k] = y
                elif y.buf.origin == "param" and x.buf.origin == "alloc":
                    r.env[k] = x
                else:
                    r.env[k] = None
                    a.wr[x.buf.id] = ANY
                    b.wr[y.buf.id] = ANY
            elif isinstance(x, View) and y in ("-",) or isinstance(y, View) and x in ("-",):
                r.env[k] = x if isinstance(x, View) else y
            elif isinstance(x, P) and x == y:
                r.env[k] = x
            else:
                r.env[k] = None
        for k in set(a.wr) | set(b.wr):
            if k not in a.wr:
                r.wr[k] = b.wr[k]
            elif k not in b.wr:
                r.wr[k] = a.wr[k]
            else:
                r.wr[k] = meet(a.wr[k], b.wr[k])
        return r

    # ------------------------------------------------------------- values
    def path(self, e, st):
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute):
            b = self.path(e.value, st)
            return b + "." + e.attr if b else None
        if isinstance(e, ast.Subscript):
            b = self.path(e.value, st)
            if b is None or isinstance(st.env.get(b), View):
                return None
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                return f"{b}[{e.slice.value}]"
        return None

    def setpath(self, p, v, st):
        for q in list(st.env):
            if q != p and (q.startswith(p + ".") or q.startswith(p + "[")):
                del st.env[q]
        if v is None and "." in p:
            st.ver += 1
            st.env[p] = P.a(f"{p}@{st.ver}")
            return
        st.env[p] = v

    def bump(self, root, st):
        """object root may have been changed"""
        st.ver += 1
        for q in list(st.env):
            if q.startswith(root + "."):
                v = st.env[q]
                if isinstance(v, View):
                    st.wr[v.buf.id] = ANY
                del st.env[q]
        st.env["$" + root] = P.c(st.ver)

    def atom(self, p, st):
        root = re.split(r"[.\[]", p)[0]
        v = st.env.get("$" + root)
        if v is not None and v.const():
            return P.a(f"{p}@{v.const()}")
        return P.a(p)

    def val(self, e, st):
        """polynomial value of an integer expression, or None"""
        if isinstance(e, ast.Constant):
            return P.c(e.value) if isinstance(e.value, int) and not isinstance(e.value, bool) else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.val(e.operand, st)
            return None if v is None else -v
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.UAdd):
            return self.val(e.operand, st)
        if isinstance(e, ast.BinOp):
            a, b = self.val(e.left, st), self.val(e.right, st)
            if a is None or b is None:
                return None
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                return a * b
            if isinstance(e.op, ast.FloorDiv):
                if a.const() is not None and b.const():
                    return P.c(a.const() // b.const())
                return P.a(f"({a})//({b})")
            return None
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name) and fn.id == "__cast__" and len(e.args) == 2:
                t = e.args[0].value
                if isinstance(t, str) and INTISH.match(t.strip()):
                    return self.val(e.args[1], st)
                return None
            if isinstance(fn, ast.Name) and fn.id == "__sizeof__":
                t = e.args[0]
                return P.a(f"sizeof({t.value if isinstance(t, ast.Constant) else ast.unparse(t)})")
            if isinstance(fn, ast.Name) and fn.id == "int" and len(e.args) == 1:
                return self.val(e.args[0], st)
            if isinstance(fn, ast.Name) and fn.id == "len" and len(e.args) == 1:
                v = self.peek(e.args[0], st)
                if isinstance(v, View):
                    return v.dims[0][2] if v.dims else None
                p = self.path(e.args[0], st)
                return self.atom(p + ".shape0", st) if p and self.stable(p) else None
            if isinstance(fn, ast.Name) and fn.id in ("min", "max", "min_int", "max_int") and len(e.args) == 2 and not e.keywords:
                a, b = self.val(e.args[0], st), self.val(e.args[1], st)
                if a is None or b is None:
                    return None
                if a == b:
                    return a
                return extremum(fn.id[:3], a, b)
            return None
        if isinstance(e, ast.Subscript):
            # x.shape[k]
            if isinstance(e.value, ast.Attribute) and e.value.attr == "shape" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                v = self.peek(e.value.value, st)
                if isinstance(v, View):
                    k = e.slice.value
                    return v.dims[k][2] if -len(v.dims) <= k < len(v.dims) else None
                p = self.path(e.value.value, st)
                if p and self.stable(p) and e.slice.value >= 0:
                    return self.atom(f"{p}.shape{e.slice.value}", st)
                return None
            p = self.path(e, st)
            if p:
                if p in st.env:
                    v = st.env[p]
                    return v if isinstance(v, P) else None
                root = re.split(r"[.\[]", p)[0]
                t = self.types.get(root)
                if root in st.env and st.env[root] is None:
                    return None
                if t and re.match(r"^(int|long|size_t)\[\d+\]$", t.replace(" ", "")) or (root in self.f.params and "." in p):
                    return self.atom(p, st)
            return None
        if isinstance(e, ast.Name):
            if e.id in st.env:
                v = st.env[e.id]
                return v if isinstance(v, P) else None
            if e.id in self.f.params:
                return P.a(e.id)
            g = self.prog.resolve(self.f.module, e.id)
            if isinstance(g, tuple) and g[0] == "global":
                x = g[1].globals.get(g[2])
                if isinstance(x, ast.Constant) and isinstance(x.value, int) and not isinstance(x.value, bool):
                    return P.c(x.value)
            return None
        if isinstance(e, ast.Attribute):
            p = self.path(e, st)
            if p and p in st.env:
                v = st.env[p]
                return v if isinstance(v, P) else None
            if p:
                root = p.split(".")[0]
                if root in self.f.params and root not in assigned_cache(self.f.node):
                    return self.atom(p, st)
                if root in st.env or root not in self.types:
                    return None
            return None
        return None

    def stable(self, p):
        root = re.split(r"[.\[]", p)[0]
        return root in self.f.params and root not in assigned_cache(self.f.node)

    def peek(self, e, st):
        """view denoted by e, without effects"""
        p = self.path(e, st)
        if p is not None and isinstance(st.env.get(p), View):
            return st.env[p]
        if isinstance(e, ast.Subscript):
            b = self.peek(e.value, st)
            if isinstance(b, View):
                return self.index(b, e.slice, st)[0]
        return None

    # ------------------------------------------------------------- indexing
    def index(self, v, sl, st):
        """-> (view | None, comps) ; view with remaining dims, comps = orig dim -> P"""
        items = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
        if any(isinstance(x, ast.Constant) and x.value is Ellipsis for x in items):
            i = [k for k, x in enumerate(items) if isinstance(x, ast.Constant) and x.value is Ellipsis][0]
            pad = len(v.dims) - (len(items) - 1)
            items = items[:i] + [ast.Slice()] * max(pad, 0) + items[i + 1:]
        if len(items) > len(v.dims):
            return None, None
        fixed = dict(v.fixed)
        dims = []
        for (d, off, ln), x in zip(v.dims, items):
            if isinstance(x, ast.Slice):
                if x.step is not None and not (isinstance(x.step, ast.Constant) and x.step.value == 1):
                    dims.append((d, None, None))
                    continue
                lo = P.c(0) if x.lower is None else self.val(x.lower, st)
                if lo is not None and lo.const() is not None and lo.const() < 0 and ln is not None:
                    lo = ln + lo
                hi = ln if x.upper is None else self.val(x.upper, st)
                if hi is not None and hi.const() is not None and hi.const() < 0 and ln is not None:
                    hi = ln + hi
                if hi is not None and ln is not None and hi.const() is not None and ln.const() is not None and hi.const() > ln.const():
                    hi = ln
                noff = None if off is None or lo is None else off + lo
                dims.append((d, noff, None if hi is None or lo is None else hi - lo))
            elif isinstance(x, ast.Constant) and x.value is None:
                return None, None
            else:
                i = self.val(x, st)
                if i is not None and i.const() is not None and i.const() < 0 and self.wrap and not v.buf.ptr:
                    i = None if ln is None else ln + i
                fixed[d] = None if i is None or off is None else off + i
        dims += v.dims[len(items):]
        return View(v.buf, dims, fixed), items

    def bnd(self, p, hi):
        """extreme value of p over its loop atoms, None when not determined"""
        for _ in range(12):
            ats = [a for a in p.atoms() if a in self.bounds]
            if not ats:
                return p
            # innermost first: the atom created last
            a = max(ats, key=lambda x: int(x.rsplit("#", 1)[1]))
            sp = p.split(a)
            if sp is None:
                return None
            c1, c0 = sp
            lo_, hi_ = self.bounds[a]
            if c1.nonneg():
                p = c1 * (hi_ if hi else lo_) + c0
            elif c1.nonpos():
                p = c1 * (lo_ if hi else hi_) + c0
            else:
                return None
        return None

    def region(self, view):
        """per original dim (mn, mx) polys or None"""
        out = []
        dd = {d: (off, ln) for d, off, ln in view.dims}
        for d in range(len(view.buf.shape)):
            if d in view.fixed:
                i = view.fixed[d]
                if i is None:
                    out.append(None)
                    continue
                mn, mx = self.bnd(i, False), self.bnd(i, True)
                if mn is None or mx is None:
                    out.append(None)
                else:
                    out.append((mn, mx, i))
            else:
                off, ln = dd[d]
                if off is None or ln is None:
                    out.append(None)
                else:
                    mn, mx = self.bnd(off, False), self.bnd(off + ln - P.c(1), True)
                    out.append((mn, mx, None) if mn is not None and mx is not None else None)
        return tuple(out)

    # ------------------------------------------------------------- reads and writes
    def check_bounds(self, v, items, st, line, what):
        """indices of an access lie within the extent"""
        for d, (mn, mx) in v:
            pass

    def bounds_of(self, base, view, line, st, text):
        for (d, off, ln), in zip(base.dims):
            if d not in view.fixed or d in base.fixed:
                continue
            i = view.fixed[d]
            if i is None:
                continue
            if off is not None:
                i = i - off
            mx, mn = self.bnd(i, True), self.bnd(i, False)
            pos = [x[0] for x in base.dims].index(d)
            if mx is not None:
                self.check_req(base, pos, mx, line, text)
            if any(z is not None and z.const() is not None and z.const() < 0 for z in (mn, mx)) and self.cy and (not self.wrap or base.buf.ptr):
                self.flag("B2", line, f"{base.buf.name} is indexed with {mn if mn is not None else mx} where negative indices are not translated")

    def check_req(self, base, pos, mx, line, text):
        """index mx is used in dimension pos of view base"""
        d, off, ln = base.dims[pos]
        self.e.checks["index"] += 1
        if ln is not None:
            diff = mx - ln
            if diff.nonneg() and not any("@" in a for a in diff.atoms()):
                if not (self.cond and diff.const() is None):
                    self.flag("B1", line, f"{text}: index {mx} of {base.buf.name} with extent {ln}")
            elif not self.cond and over_choice(diff):
                self.flag("B1", line, f"{text}: index {mx} of {base.buf.name} with extent {ln}, which can be smaller")
            elif not self.cond and base.buf.origin == "alloc" and self.outgrows(diff):
                self.flag("B1", line, f"{text}: index {mx} of {base.buf.name} grows with {self.outgrows(diff)}, its extent {ln} does not")
        if base.buf.origin == "param" and base.buf.name in self.S.params and self.S.params[base.buf.name] is base.buf and off is not None and not self.cond:
            q = mx + off
            q = self.bnd(q, True)
            if q is not None and not any("#" in a or "@" in a for a in q.atoms()) and not q.const() == 0:
                r = (base.buf.name, d, q, line)
                if r not in self.S.reqs:
                    self.S.reqs.append(r)

    def outgrows(self, diff):
        """an integer parameter no test of the function looks at, on which the excess depends with a positive factor: large enough, it exceeds"""
        if self.free is None:
            ints = {a.arg for a in self.f.arg_nodes() if INTISH.match(annot_str(a.annotation) or "")}
            for n in ast.walk(self.f.node):
                if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                    ints -= {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
                elif isinstance(n, (ast.Name,)) and not isinstance(n.ctx, ast.Load):
                    ints.discard(n.id)
                elif isinstance(n, (ast.Compare, ast.BoolOp)):
                    ints -= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
                elif isinstance(n, ast.Try):
                    ints = set()
            self.free = ints
        for p in sorted(self.free):
            c = diff.t.get((p,), 0)
            if c > 0 and diff.atoms() == {p} and set(diff.t) <= {(), (p,)}:      # other sizes in play could be a contract between the arguments
                return p
        return None

    def read_view(self, v, st, line, aug=False, expr=None):
        b = v.buf
        if b.init and b.origin != "param":
            return
        w = st.wr.get(b.id, ANY)
        if w == ANY:
            return
        reg = self.region(v)
        self.read_region(b, reg, st, line, aug)
        if self.loops and how_first(self):
            m = self.first_missing(v, aug)
            if m is not None:
                if b.origin == "param":
                    r = (m, line)
                    if r not in self.S.reads.setdefault(b.name, []):
                        self.S.reads[b.name].append(r)
                else:
                    self.flag("U1", line, f"{b.name}{fmt(m)} is read before anything was written there (first iteration)")

    def at_start(self, p, keep=None):
        """p with the counters of the loops being executed at their first value"""
        for _ in range(12):
            ats = [a for a in p.atoms() if a in self.open and a != keep]
            if not ats:
                return p
            a = max(ats, key=lambda x: int(x.rsplit("#", 1)[1]))
            x = p.subst({a: self.starts[a]})
            if x is None:
                return None
            p = x
        return None

    def first_missing(self, v, aug):
        """the element a read needs on the very first pass through the enclosing loops, if nothing earlier in the text can have written it"""
        b = v.buf
        if b.init and b.origin != "param" or any(d not in v.fixed or v.fixed[d] is None for d in range(len(b.shape))):
            return None
        idx = [v.fixed[d] for d in range(len(b.shape))]
        opn = [a for a in self.open if a is not None]
        for a in opn:               # every enclosing loop provably runs its first pass
            lo, hi = self.at_start(self.bounds[a][0]), self.at_start(self.bounds[a][1])
            if lo is None or hi is None:
                return None
            dep = {x for z in self.bounds[a] for x in z.atoms()} & set(opn)
            n = (hi - lo).const()
            if n is None and dep or n is not None and n < 0:
                return None
        keep, vals = None, [None]
        last = opn[-1] if opn else None
        if last and self.open[-1] == last and any(last in i.atoms() for i in idx) and not self.loop_writes(b, None, aug, loops=self.loops[-1:], syntactic=b.name):
            lo, hi = self.at_start(self.bounds[last][0]), self.at_start(self.bounds[last][1])
            if lo.const() is not None and hi.const() is not None and hi.const() - lo.const() < 16:
                keep, vals = last, list(range(lo.const(), hi.const() + 1))
        for val in vals:
            def at(p):
                p = self.at_start(p, keep)
                return p.subst({keep: P.c(val)}) if p is not None and keep else p
            pt = [at(i) for i in idx]
            if any(p is None or any("#" in a or "@" in a for a in p.atoms()) for p in pt):
                return None
            hit = False
            for reg in self.allw.get(b.id, ()):
                ok = True
                for p, c in zip(pt, reg):
                    if c is None:
                        continue
                    raw = c[2] if len(c) > 2 else None
                    if raw is not None:
                        q = at(raw)
                        lo, hi = (self.bnd(q, False), self.bnd(q, True)) if q is not None else (None, None)
                    else:
                        lo, hi = c[0], c[1]
                    if lo is None or hi is None:
                        continue
                    x, y = (p - lo).const(), (hi - p).const()
                    if x is not None and x < 0 or y is not None and y < 0:
                        ok = False
                        break
                if ok:
                    hit = True
                    break
            if not hit:
                return tuple((p, p) for p in pt)
        return None

    def read_region(self, b, reg, st, line, aug=False, how="read"):
        if b.init and b.origin != "param":
            return
        w = st.wr.get(b.id, ANY)
        if w == ANY:
            return
        self.e.checks["read"] += 1
        if any(c is None for c in reg) and not (not w and how != "read"):
            if w or self.loop_writes(b, st, aug):
                return
        if any(overlap(reg, r) for r in w):
            more = self.beyond(reg, w) if how != "read" and b.origin != "param" and not self.loops else None
            if more:
                self.flag("U1", line, f"{b.name}{fmt(reg)} is read where only {more} was written ({how})")
            return
        if self.loop_writes(b, st, aug, reg=reg):
            return
        if b.origin == "param":
            r = (tuple(None if c is None else c[:2] for c in reg), line)
            if r not in self.S.reads.setdefault(b.name, []):
                self.S.reads[b.name].append(r)
            return
        self.flag("U1", line, f"{b.name}{fmt(reg)} is read before anything was written there" + ("" if how == "read" else f" ({how})"))

    def beyond(self, reg, w):
        """a read that spans a variable number of rows while all that was written there are rows at constant positions"""
        over = [r for r in w if overlap(reg, r)]
        if any(c is None for r in over for c in r) or any(c is None for c in reg):
            return None
        for d, c in enumerate(reg):
            if c[0].const() is None or (c[1] - c[0]).const() is not None:
                continue
            if all(r[d][0].const() is not None and r[d][1].const() is not None for r in over):
                return fmt(max(over, key=lambda r: r[d][1].const()))
        return None

    def loop_writes(self, b, st, aug, loops=None, syntactic=None, reg=None):
        """does an enclosing loop write the buffer elsewhere (so an earlier iteration may have)"""
        if syntactic is not None:
            for lp in loops:
                for n in ast.walk(lp):
                    if isinstance(n, ast.Name) and n.id == syntactic.split(".")[0]:
                        p = n
                        ok = False
                        for m in ast.walk(lp):
                            if isinstance(m, ast.Subscript) and isinstance(m.value, (ast.Name, ast.Subscript, ast.Attribute)) and n in ast.walk(m.value):
                                if not isinstance(m.ctx, ast.Store) or is_aug(lp, m):
                                    ok = True
                                else:
                                    return True
                        if not ok:
                            return True
            return False
        for lp in self.loops:
            for n in ast.walk(lp):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    if isinstance(getattr(n, "_augparent", None), ast.AugAssign):
                        continue
                    r = n.value
                    while isinstance(r, ast.Subscript):
                        r = r.value
                    p = self.path(r, st)
                    v = st.env.get(p) if p else None
                    if isinstance(v, View) and v.buf is b and not is_aug(lp, n):
                        if reg is not None and v.whole():
                            ix = lit_index(n)
                            if ix is not None and len(ix) == len(reg) and any(c is not None and c[0].const() is not None and c[1].const() is not None and not (c[0].const() <= i <= c[1].const()) for i, c in zip(ix, reg)):
                                continue
                        return True
                    if v is None and p is not None and not isinstance(v, View) and p in assigned(lp.body):
                        return True
                elif isinstance(n, ast.Call):
                    for a in n.args:
                        p = self.path(a, st)
                        v = st.env.get(p) if p else self.peek(a, st)
                        if isinstance(v, View) and v.buf is b and not self.only_reads(n, a, st):
                            return True
        return False

    def only_reads(self, call, arg, st):
        """no callee of this call can write the array it is given here"""
        tg, recv = self.targets(call.func, st)
        if not tg or any(isinstance(a, ast.Starred) for a in call.args):
            return False
        i = call.args.index(arg)
        for t in tg:
            s = self.e.summary(t)
            ps = t.pos_params
            if t.is_method() and isinstance(call.func, ast.Attribute) and recv is not None:
                ps = ps[1:]
            if s.stub:
                continue
            if s.opaque or i >= len(ps) or s.maybe.get(ps[i], ANY) != []:
                return False
        return True

    def write_view(self, v, st):
        b = v.buf
        w = st.wr.get(b.id)
        if w is None or w == ANY:
            return
        reg = self.region(v)
        st.wr[b.id] = w | {reg}
        self.allw.setdefault(b.id, set()).add(reg)

    def write_region(self, b, reg, st):
        w = st.wr.get(b.id)
        if w is None or w == ANY:
            return
        st.wr[b.id] = w | {reg}
        self.allw.setdefault(b.id, set()).add(reg)

    def use(self, v, st, line, esc=False):
        """a value is consumed"""
        if isinstance(v, View):
            self.need_full(v, st, line, esc)
        elif isinstance(v, tuple):
            for x in v:
                self.use(x, st, line, esc)

    def need_full(self, v, st, line, esc):
        b = v.buf
        w = st.wr.get(b.id, frozenset() if b.origin == "fresh" else ANY)
        if b.init and b.origin != "param" or w == ANY or b.ptr:
            return
        if b.origin == "param":
            if not any(True for _ in w):
                self.S.reads.setdefault(b.name, []).append((tuple(None if c is None else c[:2] for c in self.region(v)), line))
            return
        if self.loops and not esc and self.loop_writes(b, st, False):
            return
        self.e.checks["hand"] += 1
        miss = self.missing(v, w)
        if miss and esc is True and not w and v.whole() and b.origin in ("alloc", "fresh"):
            self.pending.append((b, line))
            return
        if miss and esc == "kept":
            self.flag("U2", line, f"{b.name} is kept with {miss} possibly unwritten")
            return
        if miss:
            self.flag("U2", line, f"{b.name} is {'returned' if esc else 'used'} with {miss} possibly unwritten")

    def missing(self, v, w):
        b = v.buf
        reg = self.region(v)
        if any(c is None for c in reg):
            return None if w else "all of it"
        if not w:
            return "every element"
        return cover(list(b.shape), list(reg), [r for r in w], [])

    # ------------------------------------------------------------- expressions
    def shape_of(self, v):
        if isinstance(v, View) and v.buf.origin != "param":
            if not v.fixed and all(s is not None and not any("#" in a or "@" in a for a in s.atoms()) for _, _, s in v.dims):
                return [s for _, _, s in v.dims]
        return None

    def alloc(self, e, st):
        """allocation expression -> (shape, init) or None"""
        if not isinstance(e, ast.Call):
            return None
        fn = e.func
        nm = None
        if isinstance(fn, ast.Attribute):
            r = self.prog.resolve_expr(self.f.module, fn)
            if isinstance(r, Ext) and r.path.startswith(("numpy.", "cimport.numpy")):
                nm = r.path.rsplit(".", 1)[1]
            elif isinstance(fn.value, ast.Name) and fn.value.id in ("np", "cnp", "numpy"):
                nm = fn.attr
        elif isinstance(fn, ast.Name):
            if fn.id in ("malloc", "calloc"):
                nm = fn.id
            else:
                r = self.prog.resolve(self.f.module, fn.id)
                if isinstance(r, Ext) and r.path.startswith("numpy."):
                    nm = r.path.rsplit(".", 1)[1]
        if nm in ("empty", "zeros", "ones", "full", "ndarray"):
            sh = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg == "shape"), None)
            if sh is None:
                return None
            init = nm not in ("empty", "ndarray")
            if isinstance(sh, (ast.Tuple, ast.List)):
                return [self.val(x, st) for x in sh.elts], init
            if isinstance(sh, ast.Attribute) and sh.attr == "shape":
                v = self.peek(sh.value, st)
                if isinstance(v, View):
                    return [x[2] for x in v.dims], init
                return None
            v = self.val(sh, st)
            if v is None:
                if isinstance(sh, (ast.Name, ast.Attribute, ast.BinOp)):
                    return ([None], init) if isinstance(sh, ast.BinOp) and not isinstance(sh.op, ast.Add) else None
                return [None], init
            return ([v], init) if not (isinstance(sh, ast.Name) and v.atoms() == {sh.id} and not INTISH.match(self.types.get(sh.id) or "")) else None
        if nm in ("empty_like", "zeros_like", "ones_like", "full_like"):
            v = self.peek(e.args[0], st) if e.args else None
            init = nm != "empty_like"
            if isinstance(v, View):
                return [x[2] for x in v.dims], init
            return None
        if nm in ("malloc",) and len(e.args) == 1:
            v = self.val(e.args[0], st)
            if v is not None:
                sz = [a for a in v.atoms() if a.startswith("sizeof(")]
                if len(sz) == 1:
                    v = v.divide_atom(sz[0])
                    return ("ptr", [v] if v is not None else [None], False)
            return ("ptr", [None], False)
        if nm == "calloc":
            return ("ptr", [self.val(e.args[0], st)], True)
        return None

    def unwrap(self, e):
        while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "__cast__":
            e = e.args[1]
        return e

    def ev(self, e, st):
        """evaluate for effects; -> View | tuple of values | None"""
        if e is None:
            return None
        k = type(e).__name__
        if k in ("Constant", "Lambda"):
            if k == "Lambda":
                for n in ast.walk(e):
                    if isinstance(n, ast.Name) and isinstance(st.env.get(n.id), View):
                        st.wr[st.env[n.id].buf.id] = ANY
            return None
        if k == "Name":
            v = st.env.get(e.id)
            return v if isinstance(v, View) else None
        if k == "Attribute":
            p = self.path(e, st)
            if p and isinstance(st.env.get(p), View):
                return st.env[p]
            b = self.ev(e.value, st)
            if isinstance(b, View):
                if e.attr in ("shape", "ndim", "size", "dtype", "strides"):
                    return None
                if e.attr in ("base", "data"):
                    return b
                st.wr[b.buf.id] = ANY
            return None
        if k == "Subscript":
            return self.sub(e, st, load=True)
        if k == "Tuple" or k == "List":
            return tuple(self.ev(x, st) for x in e.elts)
        if k == "Call":
            return self.call(e, st)
        if k == "IfExp":
            self.use(self.ev(e.test, st), st, e.lineno)
            self.cond += 1
            a, b = self.ev(e.body, st), self.ev(e.orelse, st)
            self.cond -= 1
            for x in (a, b):
                if isinstance(x, View):
                    st.wr[x.buf.id] = ANY
            return None
        if k == "Compare":
            opn = [e.left] + e.comparators
            for o in opn:
                v = self.ev(o, st)
                if not any(isinstance(x, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for x in e.ops):
                    self.use(v, st, e.lineno)
            return None
        if k in ("ListComp", "SetComp", "GeneratorExp", "DictComp"):
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and isinstance(st.env.get(n.id), View):
                    st.wr[st.env[n.id].buf.id] = ANY
            return None
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.use(self.ev(c, st), st, e.lineno)
            elif isinstance(c, ast.keyword):
                self.use(self.ev(c.value, st), st, e.lineno)
        return None

    def declared(self, e):
        """declared type of a name or of an attribute of a typed object"""
        if isinstance(e, ast.Name):
            return self.types.get(e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            c = self.f.cls if e.value.id == "self" else self.prog.class_named(self.f.module, self.types.get(e.value.id) or "") if self.types.get(e.value.id) else None
            return self.prog.field_type(c, e.attr) if c is not None else None
        return None

    def negative(self, e, st):
        """B2 where the base is not modelled: an index that is negative for every iteration"""
        if not self.cy or self.wrap:
            return
        t = (self.declared(e.value) or "").replace(" ", "")
        if not (ann_dims(t) or t in ("list", "tuple", "bytes")):
            return
        self.e.checks["index"] += 1
        for x in (e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]):
            i = None if isinstance(x, (ast.Slice, ast.Constant)) else self.val(x, st)
            i = None if i is None else self.bnd(i, True)
            if i is not None and i.const() is not None and i.const() < 0:
                self.flag("B2", e.lineno, f"{ast.unparse(e.value)} is indexed with {ast.unparse(x)} where negative indices are not translated")

    def sub(self, e, st, load=True, aug=False):
        b = self.ev_base(e.value, st)
        self.ev_idx(e.slice, st)
        if not isinstance(b, View):
            self.negative(e, st)
        if isinstance(b, View):
            v, items = self.index(b, e.slice, st)
            if v is None:
                if load and not isinstance(e.slice, ast.Slice):
                    st.wr[b.buf.id] = ANY
                return None
            self.bounds_of(b, v, e.lineno, st, "read" if load and not aug else "write")
            if not v.dims:
                if load:
                    self.read_view(v, st, e.lineno, aug)
                return None
            if aug:
                self.read_view(v, st, e.lineno, aug)
            return v
        return None

    def ev_base(self, e, st):
        if isinstance(e, ast.Subscript):
            b = self.ev_base(e.value, st)
            self.ev_idx(e.slice, st)
            if isinstance(b, View):
                v, _ = self.index(b, e.slice, st)
                if v is not None:
                    self.bounds_of(b, v, e.lineno, st, "access")
                return v
            return None
        return self.ev(e, st)

    def ev_idx(self, s, st):
        if isinstance(s, ast.Slice):
            for x in (s.lower, s.upper, s.step):
                if x is not None:
                    self.use(self.ev(x, st), st, x.lineno if hasattr(x, "lineno") else 0)
            return
        if isinstance(s, ast.Tuple):
            for x in s.elts:
                self.ev_idx(x, st)
            return
        v = self.ev(s, st)
        self.use(v, st, getattr(s, "lineno", 0))

    def sub_store(self, t, st):
        b = self.ev_base(t.value, st)
        if isinstance(b, View):
            v, items = self.index(b, t.slice, st)
            if v is None:
                st.wr[b.buf.id] = ANY
                return
            self.bounds_of(b, v, t.lineno, st, "write")
            self.write_view(v, st)

    def store(self, t, v, vexpr, st):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v if isinstance(v, tuple) and len(v) == len(t.elts) else None
            ve = vexpr.elts if isinstance(vexpr, (ast.Tuple, ast.List)) and len(vexpr.elts) == len(t.elts) else [None] * len(t.elts)
            vals = [self.val(x, st) if x is not None else None for x in ve]
            if vs is None and isinstance(v, View):
                st.wr[v.buf.id] = ANY
            for i, x in enumerate(t.elts):
                self.store1(x, vs[i] if vs else None, vals[i], st, t.lineno)
            return
        if isinstance(t, ast.Starred):
            return
        self.store1(t, v, self.val(vexpr, st) if vexpr is not None else None, st, t.lineno, vexpr)

    def store1(self, t, v, pv, st, line, vexpr=None):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store1(x, None, None, st, line)
            return
        if isinstance(t, ast.Subscript):
            if isinstance(v, View):
                self.use(v, st, line)
            b = self.ev_base(t.value, st)
            if isinstance(b, View):
                self.ev_idx(t.slice, st)
                self.sub_store(t, st)
                return
            p = self.path(t, st)
            if p:
                self.setpath(p, pv, st)
            elif isinstance(t.value, (ast.Name, ast.Attribute)):
                q = self.path(t.value, st)
                if q:
                    for r in list(st.env):
                        if r.startswith(q + "[") and not isinstance(st.env[r], View):
                            st.env[r] = None
            if isinstance(v, tuple):
                self.use(v, st, line)
            return
        p = self.path(t, st)
        if p is None:
            if isinstance(v, View):
                st.wr[v.buf.id] = ANY
            return
        if isinstance(v, View):
            if isinstance(t, ast.Name):
                nd = ann_dims(self.types.get(t.id))
                if nd and nd != len(v.dims) and not (self.types[t.id].replace(" ", "").endswith("*")):
                    self.flag("B4", line, f"{t.id} has {nd} dimension(s), the array assigned to it has {len(v.dims)}")
            if v.buf.origin == "fresh":
                v.buf.origin = "alloc"
                v.buf.name = p
                st.wr.setdefault(v.buf.id, frozenset())
            for q in list(st.env):
                if q != p and (q.startswith(p + ".") or q.startswith(p + "[")):
                    del st.env[q]
            st.env[p] = v
            return
        if isinstance(v, tuple):
            for x in v:
                if isinstance(x, View):
                    st.wr[x.buf.id] = ANY
        nd = ann_dims(self.types.get(t.id) or "") if pv is None and v is None and isinstance(t, ast.Name) and not self.loops and vexpr_array(vexpr) else None
        if nd and not self.types[t.id].replace(" ", "").endswith("*"):
            for q in list(st.env):
                if q != p and (q.startswith(p + ".") or q.startswith(p + "[")):
                    del st.env[q]
            b = Buf(p, [P.a(f"{t.id}.shape{i}@@{line}") for i in range(nd)], True, "other", line)
            st.wr[b.id] = frozenset()
            st.env[p] = View(b)
            return
        if pv is None and v is None and isinstance(t, ast.Name) and INTISH.match(self.types.get(t.id) or "") and not self.loops:
            pv = P.a(f"{t.id}@@{line}")         # some integer: comparable with itself only
        self.setpath(p, pv, st)

    # ------------------------------------------------------------- calls
    def fresh(self, shape, init, line, ptr=False):
        b = Buf("buffer", shape, init, "fresh", line)
        b.ptr = ptr
        return View(b)

    def targets(self, fn, st):
        """callees: (list of Function, receiver path)"""
        if isinstance(fn, ast.Name):
            if fn.id in st.env:
                return None, None
            r = self.prog.resolve(self.f.module, fn.id)
            if isinstance(r, Function):
                return [r], None
            return None, None
        if isinstance(fn, ast.Attribute):
            r = self.prog.resolve_expr(self.f.module, fn)
            if isinstance(r, Function) and r.cls is None:
                return [r], None
            c = None
            if isinstance(fn.value, ast.Name):
                n = fn.value.id
                if n == "self" and self.f.cls is not None:
                    c = self.f.cls
                elif self.types.get(n):
                    c = self.prog.class_named(self.f.module, self.types[n])
            elif isinstance(fn.value, ast.Attribute) and isinstance(fn.value.value, ast.Name) and fn.value.value.id == "self" and self.f.cls is not None:
                t = self.prog.field_type(self.f.cls, fn.value.attr)
                c = self.prog.class_named(self.f.module, t) if t else None
            if c is None:
                return None, None
            out = []
            m = self.prog.find_method(c, fn.attr)
            if m is not None:
                out.append(m)
            for s in self.prog.subclasses(c):
                if fn.attr in s.methods and s.methods[fn.attr] not in out:
                    out.append(s.methods[fn.attr])
            return (out or None), self.path(fn.value, st)
        return None, None

    def call(self, e, st):
        fn = e.func
        # casts, addresses, views onto raw memory
        if isinstance(fn, ast.Name):
            if fn.id == "__cast__":
                return self.ev(e.args[1], st)
            if fn.id == "__addr__":
                x = e.args[0]
                if isinstance(x, ast.Subscript):
                    b = self.ev_base(x.value, st)
                    self.ev_idx(x.slice, st)
                    if isinstance(b, View):
                        v, items = self.index(b, x.slice, st)
                        if v is not None:
                            self.bounds_of(b, v, e.lineno, st, "address")
                        if v is not None and len(b.dims) == 1 and len(items) == 1 and not isinstance(items[0], ast.Slice):
                            i = v.fixed.get(b.dims[0][0])
                            d, off, ln = b.dims[0]
                            if i is not None and ln is not None and off is not None:
                                return View(b.buf, [(d, i, ln - (i - off))], {k: z for k, z in b.fixed.items()})
                        if v is not None and len(b.dims) == 2 and not v.dims and b.dims[0][0] in v.fixed:
                            d1, off1, ln1 = b.dims[1]
                            i1 = v.fixed[d1]
                            ln = None
                            if i1 is not None and off1 is not None and (i1 - off1).const() == 0:
                                d0, off0, ln0 = b.dims[0]
                                i0 = v.fixed[d0]
                                # a pointer to a row: elements up to the end of the whole array are legal
                                pass
                        st.wr[b.buf.id] = ANY
                        return None
                    return None
                v = self.ev(x, st)
                if isinstance(v, View):
                    st.wr[v.buf.id] = ANY
                p = self.path(x, st)
                if p:
                    self.setpath(p, None, st)
                    st.env[p] = None
                return None
            if fn.id == "__cyarray__":
                v = self.ev(e.args[0], st)
                dims = [self.val(x, st) if not (isinstance(x, ast.Constant) and x.value is None) else None for x in e.args[1:]]
                if isinstance(v, View) and len(v.dims) == 1:
                    d, off, ln = v.dims[0]
                    if all(x is not None for x in dims) and ln is not None and dims:
                        pr = P.c(1)
                        for x in dims:
                            pr = pr * x
                        diff = pr - ln
                        if diff.t and diff.nonneg() and not any("@" in a for a in diff.atoms()):
                            self.flag("B3", e.lineno, f"a view of {pr} elements is laid over {v.buf.name} of {ln} elements")
                    if len(dims) == 1:
                        return View(v.buf, [(d, off, dims[0])], dict(v.fixed))
                    st.wr[v.buf.id] = ANY
                if dims:
                    return self.fresh(dims, True, e.lineno)
                return None
            if fn.id in ("free",):
                for a in e.args:
                    self.ev(a, st)
                return None
            if fn.id == "realloc":
                self.ev(e.args[0], st)
                v = self.val(e.args[1], st)
                if v is not None:
                    sz = [a for a in v.atoms() if a.startswith("sizeof(")]
                    v = v.divide_atom(sz[0]) if len(sz) == 1 else None
                return self.fresh([v], True, e.lineno, True)
            if fn.id in ("memcpy", "memmove", "memset"):
                dst = self.ev(e.args[0], st)
                if fn.id != "memset":
                    src = self.ev(e.args[1], st)
                n = self.val(e.args[2], st) if len(e.args) > 2 else None
                if n is not None:
                    sz = [a for a in n.atoms() if a.startswith("sizeof(")]
                    n = n.divide_atom(sz[0]) if len(sz) == 1 else None
                for v, wr in ((dst, True),) + (((src, False),) if fn.id != "memset" else ()):
                    if isinstance(v, View):
                        if len(v.dims) == 1 and n is not None:
                            m = self.bnd(n - P.c(1), True)
                            if m is not None:
                                self.check_req(v, 0, m, e.lineno, fn.id)
                            if wr:
                                self.write_view(View(v.buf, [(v.dims[0][0], v.dims[0][1], n)], v.fixed), st)
                        elif wr:
                            st.wr[v.buf.id] = ANY
                return None
            if fn.id in ("len", "isinstance", "print", "type", "id", "hasattr"):
                for a in e.args:
                    self.ev(a, st)
                return None
        a = self.alloc(e, st)
        if a is not None:
            for x in e.args[1:]:
                self.use(self.ev(x, st), st, e.lineno)
            if a[0] == "ptr":
                return self.fresh(a[1], a[2], e.lineno, True)
            b = self.fresh(a[0], a[1], e.lineno)
            if any(s is None for s in a[0]):
                pass
            return b if not a[1] or all(s is not None for s in a[0]) else b
        # numpy helpers on views
        if isinstance(fn, ast.Attribute):
            r = self.prog.resolve_expr(self.f.module, fn)
            npf = r.path.rsplit(".", 1)[1] if isinstance(r, Ext) and r.path.startswith("numpy.") else (fn.attr if isinstance(fn.value, ast.Name) and fn.value.id in ("np", "cnp") else None)
            if npf in ("asarray", "ascontiguousarray", "asanyarray") and e.args:
                return self.ev(e.args[0], st)
            if npf is not None:
                first = None
                for i, x in enumerate(e.args):
                    v = self.ev(x, st)
                    if i == 0:
                        first = v
                    if npf in ("copyto", "put", "fill_diagonal", "add", "subtract", "multiply", "divide") and isinstance(v, View) and (i == 0 and npf in ("copyto", "put", "fill_diagonal") or i == 2):
                        st.wr[v.buf.id] = ANY
                        continue
                    if isinstance(v, tuple):
                        self.use(v, st, e.lineno)
                    else:
                        self.use(v, st, e.lineno, esc=False)
                for kw in e.keywords:
                    v = self.ev(kw.value, st)
                    if kw.arg == "out":
                        for x in (v if isinstance(v, tuple) else (v,)):
                            if isinstance(x, View):
                                self.write_view(x, st)
                    else:
                        self.use(v, st, e.lineno)
                if npf in ("array", "copy") and isinstance(first, View):
                    return self.fresh([x[2] for x in first.dims], True, e.lineno)
                if npf in ("array",) and e.args:
                    sh = lit_shape(e.args[0])
                    if sh:
                        return self.fresh([P.c(x) for x in sh], True, e.lineno)
                return None
            base = self.peek(fn.value, st)
            if base is None and fn.attr == "copy" and not e.args and not e.keywords:
                nd = ann_dims(self.declared(fn.value) or "")
                p = self.path(fn.value, st) if nd else None
                if p and self.stable(p):
                    return self.fresh([self.atom(f"{p}.shape{i}", st) for i in range(nd)], True, e.lineno)
            if isinstance(base, View):
                if fn.attr == "copy":
                    self.use(base, st, e.lineno)
                    return self.fresh([x[2] for x in base.dims], True, e.lineno)
                if fn.attr == "fill":
                    for x in e.args:
                        self.use(self.ev(x, st), st, e.lineno)
                    self.write_view(base, st)
                    return None
                if fn.attr in ("dot", "sum", "min", "max", "mean", "tolist", "any", "all", "prod"):
                    self.use(base, st, e.lineno)
                else:
                    st.wr[base.buf.id] = ANY
        tg, recv = self.targets(fn, st)
        args = []
        if not (isinstance(fn, ast.Name)):
            self.ev(fn.value if isinstance(fn, ast.Attribute) else fn, st)
        for x in e.args:
            args.append((None, x, self.ev(x.value if isinstance(x, ast.Starred) else x, st), isinstance(x, ast.Starred)))
        for kw in e.keywords:
            args.append((kw.arg, kw.value, self.ev(kw.value, st), kw.arg is None))
        ret = None
        if tg and not any(a[3] for a in args):
            ret = self.apply(tg, recv, e, args, st)
        else:
            for _, x, v, _s in args:
                for y in (v if isinstance(v, tuple) else (v,)):
                    if isinstance(y, View):
                        st.wr[y.buf.id] = ANY
                        if y.buf.origin == "param":
                            pass
        # receivers and object arguments may be changed by the call
        if recv:
            self.bump(recv.split(".")[0], st)
        elif isinstance(fn, ast.Attribute):
            p = self.path(fn.value, st)
            if p and not isinstance(self.prog.resolve_expr(self.f.module, fn), (Ext, Function)):
                self.bump(p.split(".")[0], st)
        for _, x, v, _s in args:
            if isinstance(x, ast.Name) and not isinstance(v, View) and any(q.startswith(x.id + ".") for q in st.env):
                self.bump(x.id, st)
        return ret

    def apply(self, tg, recv, e, args, st):
        line = e.lineno
        sums = []
        for t in tg:
            s = self.e.summary(t)
            if s.stub:
                continue
            sums.append((t, s))
        if not sums:
            for _, x, v, _s in args:
                if isinstance(v, View):
                    st.wr[v.buf.id] = ANY
            return None
        wr_acc = {}
        ret = []
        tested = self.discard is not e

        def wrs(s):
            return s.maybe if tested and s.status else s.writes
        for t, s in sums:
            ps = t.pos_params
            if t.is_method() and (isinstance(e.func, ast.Attribute)) and recv is not None:
                selfp, ps = ps[0], ps[1:]
            else:
                selfp = None
            amap = {}
            i = 0
            for kw, x, v, _s in args:
                if kw is None:
                    if i < len(ps):
                        amap[ps[i]] = (x, v)
                    i += 1
                else:
                    amap[kw] = (x, v)
            sub = {}

            def atomval(a):
                if a in sub:
                    return sub[a]
                r = None
                m = re.match(r"^(.*)\.shape(\d+)$", a)
                if m and m.group(1) in amap:
                    v = amap[m.group(1)][1]
                    k = int(m.group(2))
                    if isinstance(v, View) and k < len(v.dims):
                        r = v.dims[k][2]
                    else:
                        p = self.path(amap[m.group(1)][0], st)
                        if p and self.stable(p):
                            r = self.atom(f"{p}.shape{k}", st)
                elif a in amap:
                    r = self.val(amap[a][0], st)
                elif a in t.params and a in t.defaults():
                    d = t.defaults()[a]
                    r = P.c(d.value) if isinstance(d, ast.Constant) and isinstance(d.value, int) else None
                elif selfp and a.startswith(selfp + ".") and recv:
                    q = recv + a[len(selfp):]
                    v = st.env.get(q, "-")
                    r = v if isinstance(v, P) else (self.atom(q, st) if v == "-" and self.stable(q) else None)
                else:
                    m = re.match(r"^(\w+)((?:\[\d+\])|(?:\..*))$", a)
                    if m and m.group(1) in amap:
                        p = self.path(amap[m.group(1)][0], st)
                        if p:
                            q = p + m.group(2)
                            v = st.env.get(q, "-")
                            r = v if isinstance(v, P) else (self.atom(q, st) if v == "-" and self.stable(q) else None)
                sub[a] = r
                return r

            def inst(p):
                if p is None:
                    return None
                d = {}
                for a in p.atoms():
                    if a in EXT:
                        op, x, y = EXT[a]
                        x, y = inst(x), inst(y)
                        d[a] = None if x is None or y is None else extremum(op, x, y)
                        if d[a] is None:
                            return None
                        continue
                    if a.startswith(("min(", "max(", "(")):
                        return None
                    d[a] = atomval(a)
                    if d[a] is None:
                        return None
                return p.subst(d)

            if s.ret is not None:
                ret.append([inst(x) for x in s.ret])
            else:
                ret.append(None)
            for (pn, d, q, ln) in s.reqs:
                if pn not in amap or not isinstance(amap[pn][1], View):
                    continue
                v = amap[pn][1]
                if d >= len(v.dims) or len(v.dims) != len(s.params[pn].shape):
                    continue
                qq = inst(q)
                if qq is None:
                    continue
                m = self.bnd(qq, True)
                if m is not None:
                    self.check_req(v, d, m, line, f"{t.qual} (line {ln}) needs it")
            for pn, (x, v) in amap.items():
                views = [v] if isinstance(v, View) else [y for y in v if isinstance(y, View)] if isinstance(v, tuple) else []
                if not views:
                    continue
                for v in views:
                    self.touched.add(v.buf.id)
                    if s.opaque or pn not in s.params or not isinstance(amap[pn][1], View) or len(v.dims) != len(s.params[pn].shape) or wrs(s).get(pn, ANY) == ANY:
                        if pn in s.params and isinstance(amap[pn][1], View) and len(v.dims) == len(s.params[pn].shape) and not s.opaque:
                            self.callee_reads(t, s, pn, v, inst, st, line)
                        wr_acc.setdefault(v.buf.id, []).append((v, ANY))
                        continue
                    self.callee_reads(t, s, pn, v, inst, st, line)
                    regs = []
                    for r in wrs(s)[pn]:
                        comps = []
                        for c in r:
                            if c is None:
                                comps.append(None)
                            else:
                                a, b = inst(c[0]), inst(c[1])
                                comps.append(None if a is None or b is None else (a, b))
                        regs.append(self.lift(v, comps))
                    wr_acc.setdefault(v.buf.id, []).append((v, frozenset(regs)))
        n = len(sums)
        for bid, lst in wr_acc.items():
            if any(r == ANY for _, r in lst):
                st.wr[bid] = ANY
                continue
            if len(sums) == 1:
                for v, r in lst:
                    for x in r:
                        self.write_region(v.buf, x, st)
            else:
                acc = lst[0][1]
                for _, r in lst[1:]:
                    acc = meet(acc, r)
                for x in (acc if acc != ANY else ()):
                    self.write_region(lst[0][0].buf, x, st)
                if acc == ANY:
                    st.wr[bid] = ANY
        if ret and all(r is not None for r in ret) and all(r == ret[0] for r in ret) and all(x is not None for x in ret[0]):
            return self.fresh(ret[0], not all(s.ret_uninit for _, s in sums), line)
        return None

    def callee_reads(self, t, s, pn, v, inst, st, line):
        b = v.buf
        if b.init and b.origin != "param":
            return
        for r, ln in s.reads.get(pn, []):
            comps = []
            for c in r:
                if c is None:
                    comps.append(None)
                else:
                    x, y = inst(c[0]), inst(c[1])
                    comps.append(None if x is None or y is None else (x, y))
            self.read_region(b, self.lift(v, comps), st, line, how=f"by {t.qual}")

    def lift(self, v, comps):
        """region of the callee's parameter -> region of the buffer behind view v"""
        out = []
        pos = {d: i for i, (d, _, _) in enumerate(v.dims)}
        base = self.region(v)
        for d in range(len(v.buf.shape)):
            if d in pos:
                c = comps[pos[d]]
                off = v.dims[pos[d]][1]
                if c is None or off is None:
                    out.append(None)
                else:
                    mn, mx = self.bnd(c[0] + off, False), self.bnd(c[1] + off, True)
                    out.append((mn, mx, None) if mn is not None and mx is not None else None)
            else:
                out.append(base[d])
        return tuple(out)


# ----------------------------------------------------------------- regions
def fmt(reg):
    def one(c):
        if c is None:
            return "?"
        return str(c[0]) if c[0] == c[1] else f"{c[0]}..{c[1]}"
    return "[" + ", ".join(one(c) for c in reg) + "]"


def overlap(a, b):
    for x, y in zip(a, b):
        if x is None or y is None:
            continue
        # provably disjoint?
        d1 = y[0] - x[1]
        d2 = x[0] - y[1]
        for d in (d1, d2):
            c = d.const()
            if c is not None and c > 0:
                return False
    return True


def norm(r):
    return tuple(None if c is None else (c[0], c[1], c[2] if len(c) > 2 else None) for c in r)


def meet(a, b):
    if a == ANY or b == ANY:
        return ANY
    if a == b:
        return a
    # keep what both wrote; unknown positions on either side make the result unknown
    ka = {tuple(None if c is None else (c[0], c[1]) for c in r): r for r in a}
    kb = {tuple(None if c is None else (c[0], c[1]) for c in r): r for r in b}
    out = {ka[k] for k in ka if k in kb}
    ra, rb = [ka[k] for k in ka if k not in kb], [kb[k] for k in kb if k not in ka]
    # a region of one side contained in the union of the other: split constant boxes into elements
    ea, eb = elements(a), elements(b)
    if ea is None or eb is None:
        if (ra and rb):
            return ANY
        if ea is None and not rb and any(None in r for r in ra) or eb is None and not ra and any(None in r for r in rb):
            return frozenset(out)
        return frozenset(out)
    both = ea & eb
    for el in both:
        out.add(tuple((P.c(i), P.c(i), None) if isinstance(i, int) else i for i in el))
    return frozenset(out)


def elements(w):
    out = set()
    for r in w:
        comps = []
        for c in r:
            if c is None:
                return None
            lo, hi = c[0].const(), c[1].const()
            if lo is not None and hi is not None and hi - lo < MAXENUM:
                comps.append(list(range(lo, hi + 1)))
            else:
                comps.append([(c[0], c[1], None)])
        acc = [()]
        for cs in comps:
            acc = [x + (y,) for x in acc for y in cs]
            if len(acc) > 512:
                return None
        out |= set(acc)
    return out


def cover(shape, need, regs, at):
    """None when regs cover need; otherwise a description of a missing position. Unknown means covered."""
    if not shape:
        return None if regs else "element [" + ", ".join(at) + "]"
    if not regs:
        return "element [" + ", ".join(at + ["..."] * 1) + "]" if at else "no element"
    s, n = shape[0], need[0]
    lo, hi = n[0].const(), n[1].const()
    if any(r[0] is None for r in regs):
        # a write at an unknown position: judge the other dims with it taken as covering
        pass
    if lo is not None and hi is not None and hi - lo < MAXENUM:
        for i in range(lo, hi + 1):
            sub = []
            for r in regs:
                c = r[0]
                if c is None:
                    sub.append(r[1:])
                    continue
                a, b = c[0].const(), c[1].const()
                if a is not None and a > i or b is not None and b < i:
                    continue
                sub.append(r[1:])
            m = cover(shape[1:], need[1:], sub, at + [str(i)])
            if m:
                return m
        return None
    # symbolic extent
    full, starts, ends = [], {}, {}
    segs = []
    unknown = False
    for r in regs:
        c = r[0]
        if c is None:
            full.append(r[1:])
            continue
        a = (c[0] - n[0]).const()
        b = (n[1] - c[1]).const()
        if (a is None or a <= 0) and (b is None or b <= 0):
            full.append(r[1:])
        elif a is not None and b is not None:
            segs.append((max(a, 0), max(b, 0), r[1:]))
        elif a is not None and b is None:
            x = (c[1] - n[0]).const()
            if x is not None:
                for i in range(max(a, 0), min(x, MAXENUM) + 1):
                    starts.setdefault(i, []).append(r[1:])
            else:
                segs.append((max(a, 0), 0, r[1:]))
        elif b is not None:
            x = (n[1] - c[0]).const()
            if x is not None:
                for i in range(max(b, 0), min(x, MAXENUM) + 1):
                    ends.setdefault(i, []).append(r[1:])
            else:
                segs.append((0, max(b, 0), r[1:]))
        else:
            full.append(r[1:])
    mid = full + [x[2] for x in segs]
    if not mid:
        # only a few single positions of a symbolic extent; an extent taken over from an argument may be that small
        if len(starts) > 1 and not ends and lo == 0 and n[1].atoms() and all(".shape" in a for a in n[1].atoms()):
            for i in range(max(starts) + 1):
                m = cover(shape[1:], need[1:], starts.get(i, []), at + [str(i)])
                if m:
                    return m
            return None
        return "element [" + ", ".join(at + ["(beyond the first)"]) + "]" if (starts or ends) else "no element"
    m = cover(shape[1:], need[1:], mid, at + [":"])
    if m:
        return m
    A = max([x[0] for x in segs], default=0)
    B = max([x[1] for x in segs], default=0)
    for i in range(A):
        sub = full + starts.get(i, []) + [x[2] for x in segs if x[0] <= i]
        m = cover(shape[1:], need[1:], sub, at + [str(i)])
        if m:
            return m
    for i in range(B):
        sub = full + ends.get(i, []) + [x[2] for x in segs if x[1] <= i]
        m = cover(shape[1:], need[1:], sub, at + [f"last-{i}" if i else "last"])
        if m:
            return m
    return None


def lit_index(n):
    """constant subscripts of a (possibly chained) store target, or None"""
    out = []
    while isinstance(n, ast.Subscript):
        it = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
        for x in reversed(it):
            if not (isinstance(x, ast.Constant) and isinstance(x.value, int)):
                return None
            out.insert(0, x.value)
        n = n.value
    return out


def lit_shape(e):
    if isinstance(e, (ast.List, ast.Tuple)):
        if not e.elts or any(isinstance(x, ast.Starred) for x in e.elts):
            return None
        subs = [lit_shape(x) if isinstance(x, (ast.List, ast.Tuple)) else [] for x in e.elts]
        if all(isinstance(x, (ast.List, ast.Tuple)) for x in e.elts):
            if any(s != subs[0] or s is None for s in subs):
                return None
            return [len(e.elts)] + subs[0]
        if all(isinstance(x, ast.Constant) for x in e.elts):
            return [len(e.elts)]
        return None
    return None


def is_aug(root, n):
    for x in ast.walk(root):
        if isinstance(x, ast.AugAssign) and x.target is n:
            return True
    return False


_AC = {}


def assigned(body):
    k = id(body)
    if k in _AC and _AC[k][0] is body:
        return _AC[k][1]
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                try:
                    t = ast.unparse(n)
                except Exception:
                    continue
                out.add(t)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "__addr__" and isinstance(n.args[0], ast.Name):
                out.add(n.args[0].id)
    _AC[k] = (body, out)
    return out


def assigned_cache(fnode):
    return assigned(fnode.body)
