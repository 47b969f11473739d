"""Reference integrity: every name, import, attribute and call shape in the code refers to something that exists.

Rules
  N1 undefined-name       a name that no scope binds
  N2 undefined-local      a local read where, on some path through if/else/try/match branches, nothing has bound it
  I1 missing-import       'from mmcore.x import y' / 'mmcore.x.y' where y does not exist
  A1 missing-attribute    attribute of self / a typed object / a module that nothing defines
  C1 call-shape           call of a resolved mmcore function with too few/many arguments or an unknown keyword
Unknown (dynamic, unresolved) always means no report."""
from __future__ import annotations
import ast
import builtins
import importlib
import re

from .cfg import CFG, own_exprs
from .program import Function, Class, Module, Ext

BUILTINS = {"__cast__", "__addr__", "__sizeof__", "__cyarray__"} | set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__builtins__",
                                "__debug__", "__class__", "__qualname__", "__module__", "__annotations__", "__dict__"}
CY = {"NULL", "sizeof", "__cast__", "__cyarray__", "__addr__", "__sizeof__", "__deref__", "__new__", "__import__", "nogil", "gil", "cython", "typeid", "Py_ssize_t", "unicode", "basestring",
      "bint", "size_t", "xrange", "long", "reduce", "cmp", "new"}


# ------------------------------------------------------------------ scopes
_BN = {}


def bound_names(body):
    k = id(body)
    if k in _BN and _BN[k][0] is body:
        return _BN[k][1]
    r = _bound_names(body)
    if len(body) != 1:
        _BN[k] = (body, r)
    return r


def _bound_names(body):
    """names bound in a function scope (not nested functions); also returns global/nonlocal decls"""
    out, glob = set(), set()

    def tgt(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)

    def expr(e):
        """walrus targets; do not enter lambdas; comprehensions leak walrus only"""
        for x in ast.walk(e):
            if isinstance(x, ast.NamedExpr):
                out.add(x.target.id)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
            return
        if isinstance(n, ast.Nonlocal):
            glob.update(n.names)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split(".")[0])
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            if isinstance(n.target, ast.Name):
                out.add(n.target.id)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            tgt(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                out.add(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        elif type(n).__name__ in ("MatchAs", "MatchStar"):
            if n.name:
                out.add(n.name)
        elif type(n).__name__ == "MatchMapping":
            if n.rest:
                out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.expr,)):
                expr(c)
            else:
                walk(c)
    for s in body:
        walk(s)
    return out - glob, glob


def module_names(prog, m, _seen=None):
    """(names, open) defined at module level; open=True if a star import of unknown content is present"""
    _seen = _seen or set()
    if m.name in _seen:
        return set(), False
    _seen.add(m.name)
    cache = prog.__dict__.setdefault("_modnames", {})
    if m.name in cache:
        return cache[m.name]
    names = set(m.functions) | set(m.classes) | set(m.globals) | set(m.imports)
    names |= {k for k in m.cdecls if "." not in k}
    opn = False
    trees = [m.tree.body]
    if m.name in prog.pxds:
        trees.append(prog.pxds[m.name][0].body)
    for body in trees:
        b, _ = bound_names(body)
        names |= b
    # "global x" inside functions binds module names
    for f in list(m.functions.values()) + [g for c in m.classes.values() for g in c.methods.values()]:
        for x in ast.walk(f.node):
            if isinstance(x, ast.Global):
                names |= set(x.names)
    for s in m.star:
        if s in prog.modules:
            n2, o2 = module_names(prog, prog.modules[s], _seen)
            names |= {x for x in n2 if not x.startswith("_")}
            allv = prog.modules[s].globals.get("__all__")
            names |= {x for x in n2}
            opn = opn or o2
        else:
            d = ext_dir(s)
            if d is None:
                opn = True
            else:
                names |= {x for x in d}
    # sub-modules of a package
    pre = m.name + "."
    if m.package == m.name:
        names |= {k[len(pre):].split(".")[0] for k in prog.modules if k.startswith(pre)}
    # cimport of C libraries, ctypedefs, structs in pxd text
    if m.is_cy or m.name in prog.pxds:
        srcs = [m.src] + ([prog.pxds[m.name][1]] if m.name in prog.pxds else [])
        for src in srcs:
            for x in re.findall(r"^\s*(?:cdef|ctypedef)\s+(?:extern\s+)?(?:packed\s+)?(?:struct|enum|union|fused|cppclass|class)\s+([A-Za-z_]\w*)", src, re.M):
                names.add(x)
            for x in re.findall(r"^\s*ctypedef\s+.*?\b([A-Za-z_]\w*)\s*$", src, re.M):
                names.add(x)
            for x in re.findall(r"^\s*DEF\s+([A-Za-z_]\w*)", src, re.M):
                names.add(x)
            for x in re.findall(r"\(\s*\*\s*([A-Za-z_]\w*)\s*\)", src):
                names.add(x)
            # extern functions and enum members (any identifier declared in a cdef extern / enum block)
            for blk in re.findall(r"^\s*(?:cdef\s+extern\b.*|c?p?def\s+enum\b.*|ctypedef\s+enum\b.*):[^\n]*\n((?:[ \t]+.*\n|\s*\n)+)", src, re.M):
                names |= set(re.findall(r"[A-Za-z_]\w*", blk))
    cache[m.name] = (names, opn)
    return cache[m.name]


_EXT = {}
SAFE_EXT = {"numpy", "math", "scipy", "itertools", "functools", "operator", "collections", "typing", "json", "os", "sys", "copy", "struct", "random", "time",
            "abc", "enum", "dataclasses", "warnings", "heapq", "bisect", "string", "re", "io", "pickle", "uuid", "types", "cmath", "numbers", "statistics", "fractions",
            "decimal", "datetime", "pathlib", "multiprocessing", "threading", "concurrent", "contextlib", "inspect", "weakref", "array", "ctypes", "hashlib", "base64",
            "zlib", "gzip", "tempfile", "typing_extensions", "logging", "textwrap", "pprint", "traceback", "queue", "builtins", "__future__"}


def ext_obj(path):
    """live object for an external dotted path, or None if unavailable; KeyError if it does not exist"""
    if path in _EXT:
        v = _EXT[path]
        if isinstance(v, KeyError):
            raise v
        return v
    top = path.split(".")[0]
    if top not in SAFE_EXT:
        _EXT[path] = None
        return None
    try:
        o = importlib.import_module(top)
    except Exception:
        _EXT[path] = None
        return None
    cur = top
    for p in path.split(".")[1:]:
        cur += "." + p
        if hasattr(o, p):
            o = getattr(o, p)
            continue
        try:
            o = importlib.import_module(cur)
        except ModuleNotFoundError:
            if type(o).__name__ == "module" or isinstance(o, type):
                if type(o).__name__ == "module" and hasattr(o, "__getattr__") and top != "numpy":
                    _EXT[path] = None
                    return None
                _EXT[path] = KeyError(path)
                raise _EXT[path]
            _EXT[path] = None
            return None
        except Exception:
            _EXT[path] = None
            return None
    _EXT[path] = o
    return o


def ext_dir(path):
    try:
        o = ext_obj(path)
    except KeyError:
        return None
    if o is None:
        return None
    return getattr(o, "__all__", None) or [x for x in dir(o) if not x.startswith("_")]


class FnScope:
    """all names visible in a function"""

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.chain = []
        g = f
        while g is not None:
            b, gl = bound_names(g.node.body)
            a = g.node.args
            ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            if a.vararg:
                ps.add(a.vararg.arg)
            if a.kwarg:
                ps.add(a.kwarg.arg)
            self.chain.append((b | ps, gl, ps))
            g = g.parent
        self.modnames, self.open = module_names(prog, f.module)

    def has(self, n):
        if self.open:
            return True
        for b, _, _ in self.chain:
            if n in b:
                return True
        return n in self.modnames or n in BUILTINS or (self.f.module.is_cy and n in CY)


def name_loads(node):
    """(Name node, extra-bound set) for every loaded name below node; handles comprehension and lambda scopes; not nested defs"""
    out = []

    def go(n, bound):
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id not in bound:
                out.append(n)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = set(bound)
            for i, g in enumerate(n.generators):
                go(g.iter, b if i else bound)
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        b.add(x.id)
                for c in g.ifs:
                    go(c, b)
            if isinstance(n, ast.DictComp):
                go(n.key, b)
                go(n.value, b)
            else:
                go(n.elt, b)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
                go(d, bound)
            a = n.args
            b = set(bound) | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            if a.vararg:
                b.add(a.vararg.arg)
            if a.kwarg:
                b.add(a.kwarg.arg)
            go(n.body, b)
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                go(d, bound)
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
                go(d, bound)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases:
                go(d, bound)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                go(n.value, bound)
            if not isinstance(n.target, ast.Name):
                go(n.target, bound)
            return
        for c in ast.iter_child_nodes(n):
            go(c, bound)
    go(node, frozenset())
    return out


# ------------------------------------------------------------------ N1
def undefined_names(prog, f):
    sc = FnScope(prog, f)
    out = []
    n = 0
    for s in f.node.body:
        for x in name_loads(s):
            n += 1
            if not sc.has(x.id):
                out.append((x.id, x.lineno))
    for d in f.defaults().values():
        for x in name_loads(d):
            n += 1
            if x.id not in sc.modnames and x.id not in BUILTINS and not sc.open and not (f.cls is not None) and f.parent is None and not (f.module.is_cy and x.id in CY):
                out.append((x.id, x.lineno))
    return out, n


# ------------------------------------------------------------------ N2
def _declared_c(f):
    """C-typed locals (cdef T x without value): scalars are zero-garbage but never UnboundLocalError; buffers/objects are"""
    d = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            t = getattr(n, "sa_ctype", None)
            if t is not None or f.module.is_cy:
                d.setdefault(n.target.id, (t or "", n.value is not None))
    return d


def _test_key(t):
    """normalised text of a test and its polarity"""
    pol = True
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, pol = t.operand, not pol
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        neg = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
        op = type(t.ops[0])
        if op in neg:
            t = ast.Compare(left=t.left, ops=[neg[op]()], comparators=t.comparators)
            pol = not pol
    return ast.unparse(t), pol


def names_in(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def unbound_locals(prog, f):
    """locals read while unassigned on some branch path. Loops are taken to run at least once (zero-trip is a runtime
    quantity), exception edges are taken, correlated tests (same text, operands not reassigned) are respected, and a
    variable is only reported if it is assigned somewhere before on another branch."""
    g = CFG(f.node)
    locs, _ = bound_names(f.node.body)
    a = f.node.args
    ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        ps.add(a.vararg.arg)
    if a.kwarg:
        ps.add(a.kwarg.arg)
    locs -= ps
    cd = _declared_c(f) if f.module.is_cy else {}
    if f.module.is_cy:
        # inside a Cython function, C scalars/structs/pointers are handled by the uninitialised-memory check
        locs -= {k for k in cd}
    if not locs:
        return [], 0

    def binds(n):
        out = set()
        k, s = n.kind, n.ast
        if k == "for":
            return {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        if k == "with":
            for i in s.items:
                if i.optional_vars is not None:
                    out |= {x.id for x in ast.walk(i.optional_vars) if isinstance(x, ast.Name)}
        elif k == "except":
            if s.name:
                out.add(s.name)
        elif k == "stmt":
            b, _ = bound_names([s]) if not isinstance(s, ast.Delete) else (set(), 0)
            out |= b
            if isinstance(s, ast.AnnAssign) and s.value is None:
                out -= names_in(s.target)
        if k == "test":
            for x in ast.walk(s.test):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
        return out
    B = {n.id: binds(n) for n in g.nodes}
    # state: set of (frozenset of (testkey, polarity)) facts -> too big; keep path-sensitive small disjunction
    # state = frozenset of (assigned frozenset, facts frozenset); capped, then merged by intersection
    CAP = 64

    def norm(st):
        st = set(st)
        # drop states dominated: a state with the same facts but smaller assigned set subsumes
        if len(st) > CAP:
            asg = frozenset.intersection(*[x[0] for x in st])
            # too many paths: keep the union (optimistic => silent) rather than guessing
            asg = frozenset.union(*[x[0] for x in st])
            return frozenset([(asg, frozenset())])
        return frozenset(st)

    def transfer(n, st):
        b = B[n.id]
        if n.kind == "for":
            return st     # target bound on the iter edge
        if not b:
            return st
        # flag idiom:  found = True / x = None
        new = set()
        s = n.ast
        if n.kind == "stmt" and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            v, nm = s.value, s.targets[0].id
            if isinstance(v, ast.Constant):
                new.add((nm, bool(v.value), frozenset([nm])))
                new.add((nm + " is None", v.value is None, frozenset([nm])))
            elif isinstance(v, (ast.List, ast.Tuple, ast.Dict, ast.ListComp, ast.BinOp, ast.Compare)):
                new.add((nm + " is None", False, frozenset([nm])))
        out = set()
        for asg, facts in st:
            fa = frozenset(x for x in facts if not (x[2] & b)) if facts else facts
            out.add((asg | b, fa | new))
        return norm(out)

    def edge(n, l, st):
        if n.kind == "for":
            b = B[n.id]
            if l == "iter":
                return norm({(asg | b | {"#it%d" % n.id}, frozenset(x for x in fa if not (x[2] & b))) for asg, fa in st})
            if l == "done":
                # assume at least one iteration
                k = {(asg, fa) for asg, fa in st if "#it%d" % n.id in asg}
                return norm(k) if k else None
        if n.kind == "test" and l in (True, False):
            if isinstance(n.ast, ast.While):
                if l is False:
                    k = {(asg, fa) for asg, fa in st if "#it%d" % n.id in asg}
                    return norm(k) if k else None
                return norm({(asg | {"#it%d" % n.id}, fa) for asg, fa in st})
            atoms = []
            t = n.ast.test
            if isinstance(t, ast.BoolOp) and (isinstance(t.op, ast.And) and l is True or isinstance(t.op, ast.Or) and l is False):
                atoms = [(v, l) for v in t.values]
            else:
                atoms = [(t, l)]
            out = set()
            fs = []
            for v, pol in atoms:
                k, p = _test_key(v)
                fs.append((k, p == pol, frozenset(names_in(v))))
            for asg, facts in st:
                ok = True
                for k, p, nm in fs:
                    if any(y[0] == k and y[1] != p for y in facts):
                        ok = False
                if ok:
                    out.add((asg, facts | frozenset(fs)))
            return norm(out) if out else None
        return st

    # an if/elif chain without else whose every branch binds the name is read as exhaustive
    chain = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.If) and n.orelse and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            t, br = n, []
            while True:
                br.append(t.body)
                if len(t.orelse) == 1 and isinstance(t.orelse[0], ast.If):
                    t = t.orelse[0]
                    continue
                break
            if not t.orelse:
                bs = [bound_names(x)[0] for x in br if not (x and isinstance(x[-1], (ast.Raise, ast.Return, ast.Continue, ast.Break)))]
                if bs:
                    chain.setdefault(id(t), set()).update(set.intersection(*bs))
    edge0 = edge

    def edge(n, l, st):
        st = edge0(n, l, st)
        if st is not None and n.kind == "test" and l is False and id(n.ast) in chain:
            st = norm({(asg | chain[id(n.ast)], fa) for asg, fa in st})
        return st

    def merge(a, b):
        return norm(a | b)
    try:
        IN = g.forward(frozenset([(frozenset(), frozenset())]), transfer, merge, edge)
    except RuntimeError:
        return [], 0
    out, nobs = [], 0
    seen = set()
    allb = set()
    for n in g.nodes:
        allb |= B[n.id]
    for n in g.nodes:
        if n.id not in IN:
            continue
        st = IN[n.id]
        ex = own_exprs(n)
        for e in ex:
            if n.kind == "for" and e is n.ast.target:
                continue
            for x in name_loads(e):
                if x.id in locs:
                    nobs += 1
                    if x.id in seen:
                        continue
                    if n.kind in ("stmt", "test", "with") and x.id in B[n.id] and any(isinstance(y, ast.NamedExpr) and y.target.id == x.id for y in ast.walk(e)):
                        continue
                    bad = [s for s in st if x.id not in s[0]]
                    if isinstance(n.ast, ast.AugAssign):
                        pass
                    if bad and x.id in allb:
                        seen.add(x.id)
                        out.append((x.id, x.lineno))
            if isinstance(n.ast, ast.AugAssign) and n.kind == "stmt" and isinstance(n.ast.target, ast.Name) and n.ast.target.id in locs:
                x = n.ast.target
                nobs += 1
                if x.id not in seen and any(x.id not in s[0] for s in st):
                    seen.add(x.id)
                    out.append((x.id, n.ast.lineno))
    return out, nobs


# ------------------------------------------------------------------ I1
def bad_imports(prog, m):
    out, n = [], 0
    for node in ast.walk(m.tree):
        if isinstance(node, ast.ImportFrom):
            mod = prog._absmod(m, node.module, node.level)
            if getattr(node, "sa_cimport", False):
                if not mod.startswith("mmcore"):
                    continue
            if mod in prog.modules:
                names, opn = module_names(prog, prog.modules[mod])
                for a in node.names:
                    if a.name == "*":
                        continue
                    n += 1
                    if not opn and a.name not in names and mod + "." + a.name not in prog.modules and not a.name.startswith("__"):
                        out.append((mod, a.name, node.lineno))
            elif mod.startswith("mmcore"):
                for a in node.names:
                    n += 1
                    if not any(k.startswith(mod + ".") for k in prog.modules) and not _c_ext_exists(prog, mod):
                        out.append((mod, a.name, node.lineno))
            else:
                for a in node.names:
                    if a.name == "*":
                        continue
                    n += 1
                    try:
                        ext_obj(mod + "." + a.name)
                    except KeyError:
                        out.append((mod, a.name, node.lineno))
    return out, n


def _c_ext_exists(prog, mod):
    import os
    import glob
    p = os.path.join(prog.root, mod.replace(".", "/"))
    return bool(glob.glob(p + "*.so") or os.path.isdir(p) or os.path.exists(p + ".pyx") or os.path.exists(p + ".pxd") or "renderer" in mod)


# ------------------------------------------------------------------ types for attribute checks
def class_attrs(prog, c):
    """(names, open): every attribute that exists on instances of c"""
    cache = prog.__dict__.setdefault("_cattrs", {})
    if c in cache:
        return cache[c]
    names, opn = set(dir(object)) | {"__dict__", "__weakref__", "__annotations__", "__name__", "__qualname__", "__module__"}, False
    for k in prog.mro(c):
        names |= set(k.methods) | set(k.getters) | set(k.setters) | set(k.fields) | set(k.class_consts)
        if k.slots:
            names |= set(k.slots)
        for b in k.node.bases if not k.bases else k.bases:
            r = prog.resolve_expr(k.module, b.value if isinstance(b, ast.Subscript) else b)
            if isinstance(r, Class):
                continue
            if isinstance(b, ast.Name) and b.id == "object":
                continue
            if isinstance(b, ast.Name) and b.id in ("Exception", "ValueError", "dict", "list", "tuple", "set", "str", "int", "float", "RuntimeError", "TypeError"):
                names |= set(dir(getattr(builtins, b.id)))
                continue
            if isinstance(r, Ext) and r.path in ("abc.ABC", "typing.Generic", "typing.Protocol", "typing_extensions.Protocol"):
                continue
            opn = True
        if "__getattr__" in k.methods or "__getattribute__" in k.methods:
            opn = True
        if getattr(k.node, "keywords", None):
            pass
        bodies = [k.node.body]
        for body in bodies:
            for s in body:
                b, _ = bound_names([s])
                names |= b
        for f in list(k.methods.values()) + list(k.getters.values()) + list(k.setters.values()):
            pp = f.pos_params
            self_ = pp[0] if pp and f.role not in ("static",) else None
            for x in ast.walk(f.node):
                if k.kind == "py" and isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and (x.value.id == self_ or f.name == "__new__"):
                    names.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and x.args and isinstance(x.args[0], ast.Name):
                    if len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                        names.add(x.args[1].value)
                    elif x.args[0].id == self_:
                        opn = True
                if isinstance(x, ast.Attribute) and x.attr == "__dict__":
                    opn = opn or isinstance(x.value, ast.Name) and x.value.id == self_
        for d in getattr(k.node, "decorator_list", []):
            nm = d.func if isinstance(d, ast.Call) else d
            t = ast.unparse(nm)
            if t.split(".")[-1] not in ("dataclass", "total_ordering", "final", "runtime_checkable", "cclass"):
                opn = True
            if t.split(".")[-1] == "dataclass":
                names |= {"__dataclass_fields__"}
        pre = k.name + "."
        names |= {x[len(pre):] for x in k.module.cdecls if x.startswith(pre)}
    # attributes stored on instances from outside the class (obj.attr = ...) for typed variables: conservative
    ext = prog.__dict__.setdefault("_extstores", None)
    if ext is None:
        ext = set()
        for m in prog.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id in ("self", "cls")):
                    ext.add(x.attr)
        prog._extstores = ext
    names_ext = names | ext
    if getattr(c, "kind", "py") in ("cdef", "struct"):
        names_ext = names
    cache[c] = (names_ext, opn)
    return cache[c]


class LocalTypes:
    """flow-insensitive types of local names: Class if every binding agrees"""

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.t = {}
        self.bad = set()
        m = f.module
        if f.cls is not None and f.role not in ("static", "classmethod") and f.pos_params:
            self.t[f.pos_params[0]] = f.cls
        for p in f.params:
            if p in self.t:
                continue
            an = f.ann(p)
            c = prog.class_named(m, an) if an else None
            if c is not None and (c.kind == "cdef" and m.is_cy):
                self.t[p] = c          # C-level type: enforced
        for n in ast.walk(f.node):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and m.is_cy:
                c = prog.class_named(m, annot_txt(n.annotation))
                if c is not None:
                    self._set(n.target.id, c)
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            ty = None
                            if x is t and isinstance(n.value, ast.Call):
                                r = prog.resolve_expr(m, n.value.func)
                                if isinstance(r, Class) and not self.shadow(n.value.func):
                                    ty = r
                                elif isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "__new__" or isinstance(n.value.func, ast.Name) and n.value.func.id == "__new__":
                                    ty = None
                            if x.id in self.t and ty is None and m.is_cy and self.isc(x.id):
                                continue
                            self._set(x.id, ty)
            elif isinstance(n, (ast.For, ast.With, ast.AugAssign, ast.NamedExpr, ast.comprehension)):
                tg = n.target if hasattr(n, "target") else None
                tgs = [tg] if tg is not None else [i.optional_vars for i in n.items if i.optional_vars is not None]
                for t in tgs:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and not (m.is_cy and self.isc(x.id)):
                            self.bad.add(x.id)

    def isc(self, n):
        """declared with a C class type"""
        if not hasattr(self, "_c"):
            self._c = set()
            for x in ast.walk(self.f.node):
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    self._c.add(x.target.id)
            for p in self.f.params:
                if self.f.ann(p):
                    self._c.add(p)
        return n in self._c

    def shadow(self, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and e.id in (bound_names(self.f.node.body)[0] | set(self.f.params))

    def _set(self, n, ty):
        if n in self.bad:
            return
        if ty is None:
            self.bad.add(n)
            self.t.pop(n, None)
            return
        if n in self.t and self.t[n] is not ty:
            self.bad.add(n)
            self.t.pop(n, None)
            return
        self.t[n] = ty

    def get(self, n):
        return None if n in self.bad else self.t.get(n)

    def etype(self, e, depth=0):
        """class of an expression, or None"""
        prog, f = self.prog, self.f
        if depth > 4:
            return None
        if isinstance(e, ast.Name):
            return self.get(e.id)
        if isinstance(e, ast.Attribute):
            b = self.etype(e.value, depth + 1)
            if b is None or b.kind == "struct":
                return None
            g = prog.find_getter(b, e.attr)
            if g is not None:
                return None
            t = prog.field_type(b, e.attr)
            if t:
                for k in prog.mro(b):
                    if e.attr in k.fields:
                        c = prog.class_named(k.module, t)
                        return c if c is not None and b.kind == "cdef" else None
            return attr_class(prog, b, e.attr)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "__cast__":
                c = prog.class_named(f.module, e.args[0].value)
                return c if c is not None and c.kind == "cdef" else None
            r = resolve_in_fn(prog, f, e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if isinstance(r, Class):
                return r if "__new__" not in r.methods else None
            fn = r if isinstance(r, Function) else None
            if fn is None and isinstance(e.func, ast.Attribute):
                b = self.etype(e.func.value, depth + 1)
                if b is not None:
                    fn = prog.find_method(b, e.func.attr)
            if fn is not None and fn.sa.ret:
                c = prog.class_named(fn.module, fn.sa.ret)
                return c if c is not None and c.kind == "cdef" else None
        return None


def attr_class(prog, c, attr):
    """class of self.<attr> when every store to an attribute of that name in the class family constructs the same class"""
    cache = prog.__dict__.setdefault("_attrcls", {})
    key = (c, attr)
    if key in cache:
        return cache[key]
    cache[key] = None
    fam = set(prog.mro(c)) | set(prog.subclasses(c))
    idx = prog.__dict__.get("_attrstores")
    if idx is None:
        idx = prog._attrstores = {}
        for m in prog.modules.values():
            for x in ast.walk(m.tree):
                tg = []
                if isinstance(x, ast.Assign):
                    tg = [(t, x.value) for t in x.targets]
                elif isinstance(x, (ast.AnnAssign, ast.AugAssign)):
                    tg = [(x.target, x.value if isinstance(x, ast.AnnAssign) else None)]
                elif isinstance(x, (ast.For, ast.comprehension)):
                    tg = [(x.target, None)]
                elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                    tg = [(x.optional_vars, None)]
                for t, v in tg:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                            r = prog.resolve_expr(m, v.func) if isinstance(v, ast.Call) and y is t else None
                            idx.setdefault(y.attr, []).append(r if isinstance(r, Class) and "__new__" not in r.methods else None)
    ts = set(idx.get(attr, []))
    n = len(idx.get(attr, []))
    if n and len(ts) == 1 and not any(attr in k.class_consts or attr in k.methods or attr in k.setters or attr in k.fields for k in fam):
        cache[key] = next(iter(ts))
    return cache[key]


def annot_txt(a):
    return str(a.value) if isinstance(a, ast.Constant) else ast.unparse(a)


def local_imports(prog, f):
    """names bound by imports inside the function (not module scope)"""
    out = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            mod = prog._absmod(f.module, n.module, n.level)
            for a in n.names:
                out[a.asname or a.name] = ("attr", mod, a.name)
    return out


def resolve_in_fn(prog, f, e, locs=None):
    """resolve a dotted expression used inside f, honouring locals and local imports"""
    b = e
    while isinstance(b, ast.Attribute):
        b = b.value
    if not isinstance(b, ast.Name):
        return None
    g = f
    while g is not None:
        li = local_imports(prog, g)
        if b.id in li and isinstance(e, ast.Name):
            imp = li[b.id]
            if imp[0] == "mod":
                return prog.modules.get(imp[1]) or Ext(imp[1])
            return prog._resolve_in(imp[1], imp[2], set())
        if b.id in bound_names(g.node.body)[0] | set(g.params) or g.node.args.vararg and g.node.args.vararg.arg == b.id or g.node.args.kwarg and g.node.args.kwarg.arg == b.id:
            if b.id in li:
                return None
            if b.id in g.nested and isinstance(e, ast.Name):
                n = sum(1 for x in ast.walk(g.node) if isinstance(x, ast.Name) and x.id == b.id and isinstance(x.ctx, ast.Store))
                d = sum(1 for x in ast.walk(g.node) if isinstance(x, ast.FunctionDef) and x.name == b.id)
                return g.nested[b.id] if n == 0 and d == 1 else None
            return None
        g = g.parent
    return prog.resolve_expr(f.module, e)


def _is_int(f, e, d=0):
    """an expression that is an int whatever the input (length or extent)"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len":
        return True
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == "shape" and not isinstance(e.slice, (ast.Slice, ast.Tuple)):
        return True
    if isinstance(e, ast.Name) and d < 3 and e.id not in f.params:
        ds = []
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Global, ast.Nonlocal, ast.NamedExpr, ast.AugAssign, ast.With, ast.ExceptHandler, ast.AnnAssign)) and any(isinstance(y, ast.Name) and y.id == e.id and isinstance(y.ctx, ast.Store) for y in ast.walk(x)) and not isinstance(x, ast.With):
                return False
            if isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == e.id for y in ast.walk(x.target)):
                return False
            if isinstance(x, ast.withitem) and x.optional_vars is not None and any(isinstance(y, ast.Name) and y.id == e.id for y in ast.walk(x.optional_vars)):
                return False
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name) and t.id == e.id:
                        ds.append(x.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(x.value, (ast.Tuple, ast.List)) and len(t.elts) == len(x.value.elts):
                        ds += [v for a, v in zip(t.elts, x.value.elts) if isinstance(a, ast.Name) and a.id == e.id]
                        if any(isinstance(y, ast.Name) and y.id == e.id for a in t.elts if not isinstance(a, ast.Name) for y in ast.walk(a) if isinstance(getattr(y, "ctx", None), ast.Store)):
                            return False
                    elif any(isinstance(y, ast.Name) and y.id == e.id and isinstance(y.ctx, ast.Store) for y in ast.walk(t)):
                        return False
        return bool(ds) and all(_is_int(f, v, d + 1) for v in ds)
    return False


def bad_attributes(prog, f):
    lt = LocalTypes(prog, f)
    out, n = [], 0
    guarded = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
            guarded.add(x.args[1].value)
    skip = set()
    for s in ast.walk(f.node):
        if isinstance(s, ast.Try):
            if any(h.type is None or "AttributeError" in ast.unparse(h.type) or ast.unparse(h.type) in ("Exception", "BaseException") for h in s.handlers):
                for b in s.body:
                    skip |= {id(y) for y in ast.walk(b)}
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s is not f.node:
            skip |= {id(y) for y in ast.walk(s)}
        if isinstance(s, ast.arg) or isinstance(s, ast.AnnAssign):
            an = s.annotation
            if an is not None:
                skip |= {id(y) for y in ast.walk(an)}
        if isinstance(s, ast.FunctionDef) and s.returns is not None:
            skip |= {id(y) for y in ast.walk(s.returns)}
    for x in ast.walk(f.node):
        if not isinstance(x, ast.Attribute) or id(x) in skip or x.attr in guarded:
            continue
        if isinstance(x.value, (ast.Name, ast.Attribute, ast.Call)):
            c = lt.etype(x.value)
            if c is not None:
                if isinstance(x.ctx, ast.Store) and c.kind == "py":
                    continue
                if x.attr.startswith("__") and x.attr.endswith("__"):
                    continue
                names, opn = class_attrs(prog, c)
                n += 1
                if not opn and x.attr not in names and not _narrowed(prog, f, x):
                    # an attribute defined by a subclass only: a mixin/abstract base
                    if any(x.attr in class_attrs(prog, k)[0] or class_attrs(prog, k)[1] for k in prog.subclasses(c)):
                        continue
                    out.append((f"{c.name}.{x.attr}", x.lineno))
                continue
        if x.attr in ("shape", "append", "tolist", "ndim", "T", "copy", "evaluate", "interval", "sort", "sum") and isinstance(x.ctx, ast.Load) and _is_int(f, x.value):
            out.append((f"int.{x.attr}", x.lineno))
            continue
        r = resolve_in_fn(prog, f, x.value)
        if isinstance(r, Module):
            names, opn = module_names(prog, r)
            n += 1
            if not opn and x.attr not in names and r.name + "." + x.attr not in prog.modules and not (x.attr.startswith("__")):
                out.append((f"{r.name}.{x.attr}", x.lineno))
        elif isinstance(r, Ext) and isinstance(x.ctx, ast.Load):
            if f.module.is_cy and (_cimported(prog, f.module, x)):
                continue
            n += 1
            try:
                ext_obj(r.path + "." + x.attr)
            except KeyError:
                out.append((f"{r.path}.{x.attr}", x.lineno))
        elif isinstance(r, Class):
            names, opn = class_attrs(prog, r)
            n += 1
            if x.attr.startswith("__"):
                continue
            if not opn and x.attr not in names and isinstance(x.ctx, ast.Load) and r.kind != "struct":
                out.append((f"{r.name}.{x.attr}", x.lineno))
    return out, n


def _narrowed(prog, f, x):
    """the same variable is tested with isinstance()/type() somewhere in the function"""
    v = x.value.id if isinstance(x.value, ast.Name) else None
    for y in ast.walk(f.node):
        if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ("isinstance", "type", "issubclass") and y.args and isinstance(y.args[0], ast.Name) and y.args[0].id == v:
            return True
    return False


def _cimported(prog, m, x):
    b = x
    while isinstance(b, ast.Attribute):
        b = b.value
    if not isinstance(b, ast.Name):
        return True
    trees = [m.tree] + ([prog.pxds[m.name][0]] if m.name in prog.pxds else [])
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, (ast.Import, ast.ImportFrom)) and getattr(n, "sa_cimport", False):
                for a in n.names:
                    if (a.asname or a.name.split(".")[0]) == b.id:
                        return True
    return False


# ------------------------------------------------------------------ C1
def bad_calls(prog, f):
    out, n = [], 0
    lt = None
    for x in ast.walk(f.node):
        if not isinstance(x, ast.Call):
            continue
        if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
            star = True
        else:
            star = False
        fn, off = None, 0
        if isinstance(x.func, ast.Attribute):
            if lt is None:
                lt = LocalTypes(prog, f)
            c = lt.etype(x.func.value)
            if c is not None:
                fn = prog.find_method(c, x.func.attr)
                if fn is not None:
                    # virtual: every override must be compatible -> use only if no override differs
                    off = 0 if fn.role == "static" else 1
                    for k in prog.subclasses(c):
                        if k is not c and x.func.attr in k.methods and k.kind == "py":
                            if k.methods[x.func.attr].node.args and ast.dump(k.methods[x.func.attr].node.args) != ast.dump(fn.node.args):
                                fn = None
                                break
                    if fn is not None and _narrowed(prog, f, x.func):
                        fn = None
        if fn is None:
            if isinstance(x.func, (ast.Name, ast.Attribute)):
                r = resolve_in_fn(prog, f, x.func)
                if isinstance(r, Class):
                    fn, off, ok = ctor_of(prog, r)
                    if not ok:
                        continue
                elif isinstance(r, Function):
                    fn = r
                    if r.cls is not None:
                        if r.role == "static":
                            off = 0
                        elif r.role == "classmethod":
                            off = 1
                        else:
                            off = 0
                        if isinstance(x.func, ast.Name):
                            continue
        if fn is None or fn.role in ("getter", "setter"):
            continue
        if fn.node.decorator_list and any(not (isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "abstractmethod", "njit")) and not _cy_deco(d) and not _transparent(d) for d in fn.node.decorator_list):
            continue
        e = shape_error(fn, off, x, star, prog)
        n += 1
        if e:
            out.append((fn.qual, e, x.lineno))
    return out, n


def _cy_deco(d):
    t = ast.unparse(d.func if isinstance(d, ast.Call) else d)
    return t.startswith("cython.")


def _transparent(d):
    t = ast.unparse(d.func if isinstance(d, ast.Call) else d)
    return t.split(".")[-1] in ("lru_cache", "cache", "abstractmethod", "wraps", "staticmethod", "classmethod")


def ctor_of(prog, c):
    for k in prog.mro(c):
        if any(ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1] == "dataclass" for d in getattr(k.node, "decorator_list", [])):
            return None, 0, False
        for b in k.bases:
            r = prog.resolve_expr(k.module, b.value if isinstance(b, ast.Subscript) else b)
            if not isinstance(r, Class) and not (isinstance(b, ast.Name) and b.id == "object") and not (isinstance(r, Ext) and r.path in ("abc.ABC", "typing.Generic", "typing.Protocol")):
                if "__init__" not in k.methods:
                    return None, 0, False
        if "__new__" in k.methods:
            return None, 0, False
        ini, cini = k.methods.get("__init__"), k.methods.get("__cinit__")
        if ini is not None:
            return ini, 1, True
        if cini is not None:
            return cini, 1, True
    return None, 0, False


def shape_error(fn, off, call, star, prog):
    a = fn.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][off:]
    npos_only = max(0, len(a.posonlyargs) - off)
    nd = len(a.defaults)
    req = pos[: len(pos) - nd] if nd else list(pos)
    if nd > len(pos):
        req = []
    given = len([x for x in call.args if not isinstance(x, ast.Starred)])
    kws = [k.arg for k in call.keywords if k.arg]
    kwo = [x.arg for x in a.kwonlyargs]
    kreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    if not a.vararg and given > len(pos):
        return f"takes at most {len(pos)} positional argument(s), {given} given"
    if not a.kwarg:
        for k in kws:
            if k not in pos[npos_only:] and k not in kwo:
                return f"unexpected keyword '{k}'"
    for k in kws:
        if k in pos[:given]:
            return f"argument '{k}' given twice"
    if not star:
        miss = [p for p in req[given:] if p not in kws]
        if miss:
            # Cython optional args in pxd (=*) show up as defaults there
            return f"missing argument(s) {', '.join(miss)}"
        missk = [p for p in kreq if p not in kws]
        if missk:
            return f"missing keyword argument(s) {', '.join(missk)}"
    return None
