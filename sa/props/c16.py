"""C16 - the same question gets the same answer: results are a function of the arguments and of the receiver's defining state."""
import ast
import json
import os
from ..alias import Analyzer, root_of, path_of, show, ELEM, is_memoised
from ..program import Class, Ext, Function, Module
from ..refs import resolve_in_fn, bound_names
from ..core import Result, require, VERIF
from .c18 import inscope
from .c03 import LAZY, public

EXPLANATION = ("Effect and purity analysis: every function's reads of ambient sources (randomness, clock, environment, object identity), writes to "
               "module-, class-, closure- and function-level state, results shared through memo tables, defaults and globals, hidden receiver state written by "
               "queries, order-dependent iteration over identity-hashed sets, and unsynchronised writes in parallel loops.")
RULES = ["D1 ambient: reads a random source, clock, process id or environment", "D2 global-write: writes module-, class- or function-level state other than a memo whose stored value depends on nothing but its key",
         "D3 shared-default: a mutable default argument is changed, stored or returned", "D4 hash-order: iteration order of a set of strings or identity-hashed objects reaches the code",
         "D5 unsound-memo: memoised on a mutable argument or on a receiver", "D6 shared-result: a public function returns a mutable module-level or memoised object",
         "D7 identity-key: id() or an address is kept beyond the call or ordered", "D8 hidden-state: a query writes receiver state that later calls read",
         "D9 class-state: a mutable class attribute is changed through an instance", "D10 race: a parallel loop writes a location its index does not separate",
         "D11 closure-state: an escaping closure rebinds a variable it keeps between calls", "D12 process-state: changes numpy/warnings/decimal/locale/cwd settings",
         "D13 leftovers: a solver entry point grows a receiver container it did not first reset"]
ASSUMPTIONS = ["calls that cannot be resolved have no ambient effect", "caller-supplied callables are functions of their arguments",
               "the lazily built structures judged by C01 (acceleration trees, memo tables of a curve) are derived from defining state"]

AMBIENT = ("random", "time", "uuid", "secrets", "datetime", "threading", "numpy.random", "os.environ", "os.getpid", "os.urandom", "os.getenv", "os.times",
           "libc.time", "socket", "getpass", "tempfile", "gc")
AMBIENT_C = {"rand", "srand", "random", "drand48", "clock", "clock_gettime", "gettimeofday"}
AMBIENT_OK = {"mmcore.geom.materials.ColorRGB.random",                      # documented as random
              "mmcore.numeric.algorithms.sweep_line.skiplist.geometric"}   # randomised level heights: order and content of the list do not depend on them
PROCESS = {"numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions", "warnings.simplefilter", "warnings.filterwarnings", "locale.setlocale", "os.chdir",
           "os.putenv", "random.seed", "numpy.random.seed", "sys.setrecursionlimit", "decimal.setcontext", "numpy.setbufsize"}
# registries whose purpose is to be changed
SW = "mmcore.numeric.algorithms.sweep_line."
REGISTRY = {"mmcore.numeric.fdm.Memo._data",
            "mmcore.geom.curves.bspline_utils.bscache_stats",     # call counters, diagnostics only
            SW + "point.Point.ID", SW + "segment.Segment.ID",      # serial numbers; only their relative order is used
            SW + "segment.Segment.pSweep"}                        # set by initializeStructures before it is read
# entry points of solver objects: a second call starts from scratch
ENTRIES = (SW + "sweep_intersector:SweepIntersector.findIntersections", "mmcore.numeric.intersection.csx._ncsx:NURBSCurveSurfaceIntersector.intersect",
           "mmcore.geom.implicit.tree.tree2d:ImplicitTree2D.build", "mmcore.geom.implicit.tree.tree3d:ImplicitTree3D.build",
           "mmcore.numeric.gauss_map:GaussMap.subdivide", "mmcore.numeric.gauss_map:GaussMap.compute")
ID_OK = {"mmcore.geom.curves.bspline_utils.bscache"}      # key of the diagnostics registry
GROW = {"append", "extend", "add", "insert", "appendleft", "update", "setdefault", "push", "__setitem__"}
SHARED_OK = set()


def mutable_value(v, prog=None, m=None):
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(v, ast.Call):
        t = ast.unparse(v.func)
        last = t.split(".")[-1]
        if last in ("tuple", "frozenset", "float", "int", "str", "bool", "namedtuple", "TypeVar", "field", "partial", "compile", "getLogger", "Lock", "getenv", "MappingProxyType",
                    "float64", "finfo", "sqrt", "object", "property", "Struct", "slice", "range"):
            return False
        return True
    if isinstance(v, ast.BinOp):
        return mutable_value(v.left) or mutable_value(v.right)
    if isinstance(v, ast.Subscript):
        return mutable_value(v.value)
    return False


def local_deps(fn, expr, params, cut=()):
    """names and opaque sources an expression is computed from (transitively through assignments of local names), incl. control"""
    assigns = {}
    for n in ast.walk(fn):
        tg = []
        if isinstance(n, ast.Assign):
            tg = [(t, n.value) for t in n.targets]
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None:
            tg = [(n.target, n.value)]
        elif isinstance(n, ast.For):
            tg = [(n.target, n.iter)]
        elif isinstance(n, ast.comprehension):
            tg = [(n.target, n.iter)]
        elif isinstance(n, ast.NamedExpr):
            tg = [(n.target, n.value)]
        for t, v in tg:
            for x in ast.walk(t):
                if isinstance(x, ast.Name):
                    assigns.setdefault(x.id, []).append(v)
    out, seen, work = set(), set(), [expr]

    def walk(e):
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)) and ast.unparse(e) in cut:
            return
        p = []
        x = e
        while isinstance(x, (ast.Attribute, ast.Subscript)):
            if isinstance(x, ast.Attribute):
                p.append(x.attr)
            elif isinstance(x.slice, ast.Constant):
                p.append(f"[{x.slice.value}]")
            else:
                p.append("[?]")
                walk(x.slice)
            x = x.value
        if isinstance(x, ast.Name):
            if isinstance(x.ctx, ast.Load) or True:
                if x.id in params:
                    pth = tuple(reversed(p))
                    if "[?]" in pth:
                        pth = pth[:pth.index("[?]")]
                    out.add((x.id,) + pth)
                if x.id not in seen:
                    seen.add(x.id)
                    work.extend(assigns.get(x.id, []))
            return
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
            if x.func.id in ("id", "hash"):
                out.add("<identity>")
            if x.func.id in ("len", "type") and len(x.args) == 1 and isinstance(x.args[0], (ast.Name, ast.Attribute)):
                t = ast.unparse(x.args[0]).split(".")
                if t[0] in params:
                    out.add(tuple(t) + (f"<{x.func.id}>",))
                    return
        for c in ast.iter_child_nodes(x):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension)):
                if isinstance(c, ast.keyword):
                    walk(c.value)
                elif isinstance(c, ast.comprehension):
                    walk(c.iter)
                    for t in c.ifs:
                        walk(t)
                else:
                    walk(c)
    while work:
        walk(work.pop())
    return out


def key_parts(fn, key):
    """source texts whose values the key determines"""
    out, work = set(), [key]
    while work:
        e = work.pop()
        out.add(ast.unparse(e))
        if isinstance(e, ast.Tuple):
            work.extend(e.elts)
        elif isinstance(e, ast.Name):
            vs = [n.value for n in ast.walk(fn) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id]
            if len(vs) == 1 and isinstance(vs[0], (ast.Tuple, ast.Name, ast.Attribute)):
                work.append(vs[0])
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("tuple", "str", "int", "float", "frozenset") and len(e.args) == 1:
            work.append(e.args[0])
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("tobytes", "tolist"):
            work.append(e.func.value)
    return out


def global_writes(prog, f):
    """direct writes in f to module / class / function level objects: [(target text, node, key expr, value expr)]"""
    out = []
    params = set(f.params)
    local = bound_names(f.node.body)[0] | params
    par = f.parent
    while par is not None:
        local |= bound_names(par.node.body)[0] | set(par.params)
        par = par.parent
    aliases = {}
    gl = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Global):
            gl |= set(n.names)
    local -= gl

    def base(e):
        """('mod', text) when e denotes a module-level object, class or function"""
        if isinstance(e, ast.Name):
            if e.id in aliases:
                return aliases[e.id]
            if e.id in local:
                if e.id == "cls" and f.role == "classmethod" or e.id == "cls" and f.params[:1] == ["cls"]:
                    return ("class", f.cls.qual) if f.cls else None
                return None
            r = prog.resolve(f.module, e.id)
            if isinstance(r, tuple):
                return ("global", f"{r[1].name}.{r[2]}")
            if isinstance(r, Class):
                return ("class", r.qual)
            if isinstance(r, Function):
                return ("function", r.qual)
            if isinstance(r, Module):
                return ("module", r.name)
            if e.id in f.module.globals:
                return ("global", f"{f.module.name}.{e.id}")
            return None
        if isinstance(e, ast.Attribute):
            b = base(e.value)
            if b is not None:
                return (b[0], b[1] + "." + e.attr)
            if e.attr == "__class__" or isinstance(e.value, ast.Call) and ast.unparse(e.value.func) == "type":
                return ("class", (f.cls.qual if f.cls else "?") + "." + e.attr)
            return None
        if isinstance(e, ast.Subscript):
            return base(e.value)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type" and f.cls is not None and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == (f.pos_params or [""])[0]:
            return ("class", f.cls.qual)
        return None

    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.Name, ast.Attribute, ast.Subscript)):
            b = base(n.value)
            if b is not None and b[0] == "global":
                aliases[n.targets[0].id] = b
    for n in ast.walk(f.node):
        tg = []
        if isinstance(n, ast.Assign):
            tg = [(t, n.value) for t in n.targets]
        elif isinstance(n, ast.AugAssign):
            tg = [(n.target, n.value)]
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            tg = [(n.target, n.value)]
        elif isinstance(n, ast.Delete):
            tg = [(t, None) for t in n.targets]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args:
            b = base(n.args[0])
            if b is not None:
                out.append((b, n, None, n.args[-1]))
        for t, v in tg:
            for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                if isinstance(x, ast.Name) and x.id in gl:
                    out.append((("global", f"{f.module.name}.{x.id}"), n, None, v))
                elif isinstance(x, ast.Attribute):
                    b = base(x.value)
                    if b is not None and (b[0] != "global" or True):
                        out.append(((b[0], b[1] + "." + x.attr), n, None, v))
                elif isinstance(x, ast.Subscript):
                    b = base(x.value)
                    if b is not None:
                        out.append((b, n, x.slice, v if isinstance(n, ast.Assign) else None))
    return out


def run(prog, tier):
    res = Result()
    require(prog, "mmcore.geom.nurbs:NURBSCurve.evaluate", "mmcore.geom.nurbs:NURBSSurface.copy")
    A = Analyzer(prog, {})
    with open(os.path.join(VERIF, "sa", "spec", "c03_pure.json")) as fh:
        s3 = json.load(fh)
    pure, fields3 = s3["pure"], set(s3["fields"])
    gmut = {}
    for m in prog.modules.values():
        if inscope(m.name):
            for n, v in m.globals.items():
                if v is not None and mutable_value(v):
                    gmut[(m.name, n)] = v
    reads = {}
    for f in prog.functions():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                reads.setdefault(x.attr, set()).add(f.qual)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("getattr", "hasattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                reads.setdefault(x.args[1].value, set()).add(f.qual)
    memoset = set()
    for f in prog.functions():
        if inscope(f.module.name):
            for b, n, key, val in global_writes(prog, f):
                if key is not None and val is not None and not {v for v in local_deps(f.node, val, f.params, key_parts(f.node, key)) if v != "<identity>"}:
                    memoset.add(b[1])
    for f in prog.functions():
        if not inscope(f.module.name):
            continue
        q = f.qual
        res.functions.add(q)
        # ---- D1 / D12 ambient sources
        res.ob()
        for x in ast.walk(f.node):
            if not isinstance(x, (ast.Name, ast.Attribute)) or not isinstance(x.ctx, ast.Load):
                continue
            r = resolve_in_fn(prog, f, x)
            if not isinstance(r, Ext):
                continue
            pth = r.path
            if pth in PROCESS:
                res.add("D12 process-state", q, pth, loc=f"{f.module.rel}:{x.lineno}")
            elif any(pth == a or pth.startswith(a + ".") for a in AMBIENT) or pth.rsplit(".", 1)[-1] in AMBIENT_C and pth.startswith("libc"):
                if q not in AMBIENT_OK and not _root_only(f, x):
                    res.add("D1 ambient", q, pth, loc=f"{f.module.rel}:{x.lineno}")
        # ---- D2 direct writes to global state
        for b, n, key, val in global_writes(prog, f):
            res.ob()
            if b[0] == "global" and any(b[1] == r or b[1].startswith(r + ".") for r in REGISTRY) or b[1] in REGISTRY:
                continue
            if key is not None and val is not None:
                cut = key_parts(f.node, key)
                kd, vd = local_deps(f.node, key, f.params), local_deps(f.node, val, f.params, cut)
                if "<identity>" in kd:
                    res.add("D7 identity-key", q, f"{b[1]} keeps an entry per object address", loc=f"{f.module.rel}:{n.lineno}")
                    continue
                unc = sorted({".".join(v) for v in vd if v != "<identity>"})
                mk = [e.id for e in (key.elts if isinstance(key, ast.Tuple) else [key]) if isinstance(e, ast.Name) and e.id in f.params and _mutable_param(prog, f, e.id)]
                if mk:
                    res.add("D5 unsound-memo", q, f"{b[1]} is keyed on the mutable argument {mk[0]}", loc=f"{f.module.rel}:{n.lineno}")
                    continue
                if not unc:
                    memoset.add(b[1])
                    continue
                res.add("D2 global-write", q, f"{b[1]} remembers a value that depends on more than its key ({', '.join(unc)})", loc=f"{f.module.rel}:{n.lineno}")
                continue
            res.add("D2 global-write", q, f"writes {b[1]}", loc=f"{f.module.rel}:{n.lineno}")
        s = A.summary(f)
        if s is None:
            continue
        # ---- D2 through methods/aliases/callees
        for l, w in s.mut.items():
            r, pth = path_of(l)
            if r[0] != "G" or w[0] != q or w[2].startswith("via "):
                continue
            res.ob()
            name = f"{r[1]}.{r[2]}"
            if name in REGISTRY or name in memoset:
                continue
            if any(b[1] == name for b, *_ in global_writes(prog, f)):
                continue
            res.add("D2 global-write", q, f"changes {name}", loc=f"{f.module.rel}:{w[1]}")
        for l, w in s.mut.items():
            r, pth = path_of(l)
            if r[0] == "G" and (w[0] != q or w[2].startswith("via ")):
                # handed a module-level object to a callee that writes its parameter
                nm = f"{r[1]}.{r[2]}"
                if nm in REGISTRY or nm in memoset or _callee_is_origin(prog, A, w, r):
                    continue
                if (r[1], r[2]) in gmut or r[2].endswith("()"):
                    res.ob()
                    res.add("D2 global-write", q, f"passes {nm} to a callee that changes it", loc=f"{f.module.rel}:{w[1]}", path=[w[2]])
        # ---- D6 shared result
        if public(f) and s.ret is not None:
            res.ob()
            for l in s.ret.locs:
                r, pth = path_of(l)
                if r[0] == "G" and ((r[1], r[2]) in gmut and (not pth or f"{r[1]}.{r[2]}" in memoset and s.ret.kind in ("arr", "cont", "obj")) or r[2].endswith("()") and s.ret.kind not in ("scal", "none")):
                    if r[2].endswith("()") and is_memoised(f) and not _mutable_result(f):
                        continue
                    res.add("D6 shared-result", q, f"returns {r[1]}.{r[2]} itself", loc=f.loc)
        # ---- D3 defaults
        for pn, dv in f.defaults().items():
            if not mutable_value(dv):
                continue
            res.ob()
            bad = None
            for l, w in s.mut.items():
                r, pth = path_of(l)
                if r == ("P", pn):
                    bad = f"default of {pn} is changed"
            for (l, fld), (v, weak) in s.stores.items():
                if fld[0] == "$":
                    continue
                if any(root_of(x) == ("P", pn) for x in v.locs) and root_of(l)[0] in ("P", "G", "A") and not (root_of(l)[0] == "A" and not _escapes(s, l)) and root_of(l) != ("P", pn):
                    bad = bad or f"default of {pn} is stored in {show(l)}.{fld}"
            if s.ret is not None and any(root_of(x) == ("P", pn) for x in s.ret.locs):
                bad = bad or f"default of {pn} is returned"
            if bad and not (f.name == "__deepcopy__" and pn == "memo"):
                res.add("D3 shared-default", q, bad, loc=f.loc)
        # ---- D5 memoised functions
        if is_memoised(f):
            res.ob()
            if f.cls is not None and f.role not in ("static", "classmethod"):
                res.add("D5 unsound-memo", q, "memoised per receiver", loc=f.loc)
            for a in f.arg_nodes():
                t = f.ann(a.arg)
                if t and (any(k in t for k in ("NDArray", "ndarray", "list", "List", "dict", "Dict", "set", "[:")) or isinstance(prog.class_named(f.module, t), Class)):
                    res.add("D5 unsound-memo", q, f"memoised on mutable argument {a.arg}", loc=f.loc)
        for x in ast.walk(f.node):   # inner memo wrappers, bound-method memos: self.m = lru_cache(...)(self._m) is C01's
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "id" and len(x.args) == 1:
                res.ob()
                if q in ID_OK or f.name in ("__hash__", "__repr__", "__str__", "func_hash") or f.role == "getter" and f.name.endswith("hash"):
                    continue
                if not _id_is_local(f, x):
                    res.add("D7 identity-key", q, "id() is stored or ordered beyond a local container", loc=f"{f.module.rel}:{x.lineno}")
        # ---- D4
        for x, why in hash_order(prog, f):
            res.add("D4 hash-order", q, why, loc=f"{f.module.rel}:{x.lineno}")
        # ---- D8 hidden receiver state
        if q in pure and 0 in pure[q] and f.cls is not None and f.pos_params:
            res.ob()
            me = ("P", f.pos_params[0])
            for l, w in s.mut.items():
                r, pth = path_of(l)
                if r != me:
                    continue
                names = [p for p in pth if p != ELEM]
                if not names or any(n in LAZY for n in names) or all(n in fields3 for n in names):
                    continue
                new = [n for n in names if n not in fields3]
                if any(reads.get(n) for n in new):
                    res.add("D8 hidden-state", q, f"a query writes {'.'.join(names)}, which later calls read", loc=f.loc, path=[f"{w[0]} line {w[1]}: {w[2]}"])
        # ---- D9
        if f.cls is not None and f.role not in ("static", "classmethod") and f.pos_params and f.name not in ("__init__", "__new__", "__cinit__"):
            me = ("P", f.pos_params[0])
            for l, w in s.mut.items():
                r, pth = path_of(l)
                if r != me or len(pth) < 1 or w[0] != q:
                    continue
                a0 = pth[0]
                kls = next((k for k in prog.mro(f.cls) if a0 in k.class_consts), None)
                if kls is None or len(pth) == 1 and w[2] != "element write" and "call" not in w[2] and "method" not in w[2]:
                    continue
                v = kls.class_consts[a0]
                if v is None or not mutable_value(v) or _is_dataclass(kls) or _instance_binds(prog, f.cls, a0):
                    continue
                res.ob()
                res.add("D9 class-state", q, f"{kls.name}.{a0} is shared by all instances and changed here", loc=f.loc)
        # ---- D10
        for x, why in races(f, prog, A):
            res.ob()
            if why:
                res.add("D10 race", q, why, loc=f"{f.module.rel}:{x.lineno}")
        # ---- D11
        if f.parent is not None:
            nl = {n for x in ast.walk(f.node) if isinstance(x, ast.Nonlocal) for n in x.names}
            st = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))} & nl
            if st:
                res.ob()
                if _fn_escapes(f.parent, f.name) and any(isinstance(x, ast.Name) and x.id in st and isinstance(x.ctx, ast.Load) for x in ast.walk(f.node)):
                    res.add("D11 closure-state", q, f"keeps {sorted(st)} between calls", loc=f.loc)
    for ent in ENTRIES:
        f = prog.find(ent)
        if f is None:
            continue
        res.ob()
        for fld, where in leftovers(prog, A, f):
            res.add("D13 leftovers", f.qual, f"{fld} still holds entries of the previous call", loc=where)
    res.info["module_level_mutables"] = len(gmut)
    res.info["memo_tables_proved_keyed"] = sorted(memoset)
    for k in sorted(gmut)[:10]:
        res.sample(f"module-level object {k[0]}.{k[1]}: no writer outside its module initialisation")
    return res


def _mutable_param(prog, f, name):
    t = f.ann(name)
    if f.cls is not None and f.pos_params[:1] == [name] and f.role not in ("static", "classmethod"):
        return True
    return bool(t) and (any(k in t for k in ("NDArray", "ndarray", "list", "List", "dict", "Dict", "set", "[:")) or isinstance(prog.class_named(f.module, t), Class))


def _root_only(f, x):
    return False


def _callee_is_origin(prog, A, w, r):
    """the callee itself writes that module-level object (reported there)"""
    t = w[2]
    while t.startswith("via "):
        t = t[4:]
        nm, _, t = t.partition(": ")
        g = prog.find(nm.replace("mmcore", "mmcore", 1)) if ":" in nm else None
        for f in prog.functions():
            if f.qual == nm or f.qual.split(".")[-1] == nm:
                s = A.summaries.get(id(f.node))
                if s is not None and any(root_of(l) == r for l in s.mut):
                    return True
    return False


def _mutable_result(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and n.value is not None and mutable_value(n.value):
            return True
    return False


def _escapes(s, l):
    r = root_of(l)
    if s.ret is not None and any(root_of(x) == r for x in s.ret.locs):
        return True
    for (b, fld), (v, w) in s.stores.items():
        if root_of(b)[0] in ("P", "G") and any(root_of(x) == r for x in v.locs):
            return True
    return False


def _is_dataclass(k):
    return any("dataclass" in ast.unparse(d) for d in k.node.decorator_list)


def _instance_binds(prog, cls, attr):
    for k in prog.mro(cls):
        for nm in ("__init__", "__new__", "__cinit__", "__setstate__"):
            g = k.methods.get(nm)
            if g is not None and g.pos_params:
                for x in ast.walk(g.node):
                    if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store):
                        return True
    return False


def _id_is_local(f, call):
    """id() only keys a container created in this call, or is compared for equality"""
    fn = f.node
    parents = {}
    for n in ast.walk(fn):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    locs = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Dict, ast.Set, ast.List, ast.DictComp, ast.SetComp, ast.ListComp)) or \
                isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ("dict", "set", "list", "defaultdict"):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    locs.add(t.id)
    p = call
    while p in parents:
        c, p = p, parents[p]
        if isinstance(p, ast.Compare):
            if any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in p.ops):
                return False
            if all(isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in p.ops):
                return True
            cont = p.comparators[-1]
            return isinstance(cont, ast.Name) and cont.id in locs
        if isinstance(p, ast.Subscript):
            return isinstance(p.value, ast.Name) and p.value.id in locs
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ("add", "get", "append", "setdefault", "pop", "discard", "remove"):
            return isinstance(p.func.value, ast.Name) and p.func.value.id in locs
        if isinstance(p, (ast.DictComp, ast.SetComp, ast.Dict)):
            q = parents.get(p)
            return isinstance(q, ast.Assign) and all(isinstance(t, ast.Name) for t in q.targets)
        if isinstance(p, ast.Assign):
            if len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                nm = p.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)]
                return all(_name_local(x, parents, locs) for x in uses)
            return False
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("print", "repr", "str", "hex", "frozenset", "tuple", "sorted"):
            if p.func.id == "sorted" and not (isinstance(parents.get(p), ast.Compare) and all(isinstance(o, (ast.Eq, ast.NotEq)) for o in parents[p].ops)):
                return False    # sorted ids may only be compared for equality (as multisets)
            continue
        if isinstance(p, (ast.Call, ast.Return)):
            return False
        if isinstance(p, ast.stmt):
            return True
    return True


def _name_local(x, parents, locs):
    p = x
    while p in parents:
        c, p = p, parents[p]
        if isinstance(p, ast.Compare):
            if any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in p.ops):
                return False
            if any(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
                return isinstance(p.comparators[-1], ast.Name) and p.comparators[-1].id in locs
            return True
        if isinstance(p, ast.Subscript) and p.value is not c:
            return isinstance(p.value, ast.Name) and p.value.id in locs
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute):
            return isinstance(p.func.value, ast.Name) and p.func.value.id in locs
        if isinstance(p, (ast.Call, ast.Return)):
            return False
        if isinstance(p, ast.stmt):
            return not isinstance(p, (ast.Assign, ast.AugAssign))
    return True


def _setlike(f, e, sets):
    if isinstance(e, ast.Set) or isinstance(e, ast.SetComp):
        return e
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
        return e
    if isinstance(e, ast.Name) and e.id in sets:
        return sets[e.id]
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
        return _setlike(f, e.left, sets) or _setlike(f, e.right, sets)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "symmetric_difference", "copy"):
        return _setlike(f, e.func.value, sets)
    return None


def hash_order(prog, f):
    """order-sensitive consumption of a set whose elements hash by identity or (strings) by a per-process seed"""
    sets, adds = {}, {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            s = _setlike(f, n.value, sets)
            if s is not None:
                sets[n.targets[0].id] = s
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "update") and isinstance(n.func.value, ast.Name) and n.args:
            adds.setdefault(n.func.value.id, []).append(n.args[0])
    out = []

    def bad_elts(s, name=None):
        els = []
        if isinstance(s, ast.Set):
            els += s.elts
        elif isinstance(s, ast.SetComp):
            els.append(s.elt)
        elif isinstance(s, ast.Call) and s.args:
            a = s.args[0]
            if isinstance(a, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                els.append(a.elt)
            elif isinstance(a, (ast.List, ast.Tuple, ast.Set)):
                els += a.elts
            elif isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == "keys":
                pass
        els += adds.get(name, []) if name else []
        for e in els:
            if isinstance(e, ast.Constant) and isinstance(e.value, (str, bytes)) or isinstance(e, ast.JoinedStr):
                return "strings"
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
                if e.func.id in ("str", "repr"):
                    return "strings"
                if e.func.id == "id":
                    return "addresses"
                r = prog.resolve(f.module, e.func.id)
                if isinstance(r, Class) and not any("__hash__" in k.methods for k in prog.mro(r)) and not _is_dataclass(r):
                    return f"{r.name} objects (identity hash)"
            if isinstance(e, ast.Attribute) and e.attr in ("tobytes", "name"):
                return "strings"
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "tobytes":
                return "bytes (seeded hash)"
        return None

    for n in ast.walk(f.node):
        it = None
        if isinstance(n, ast.For):
            it = n.iter
        elif isinstance(n, ast.comprehension):
            it = n.iter
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "enumerate", "iter", "zip", "next") and n.args:
            it = n.args[0]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and not n.args and isinstance(n.func.value, ast.Name) and n.func.value.id in sets:
            it = n.func.value
        if it is None:
            continue
        s = _setlike(f, it, sets)
        if s is None:
            continue
        b = bad_elts(s, it.id if isinstance(it, ast.Name) else None)
        if b:
            out.append((it if hasattr(it, "lineno") else n, f"iterates a set of {b}"))
    return out


def races(f, prog=None, A=None):
    """(node, reason|None) for every store inside a prange body"""
    out = []
    for lp in ast.walk(f.node):
        if not (isinstance(lp, ast.For) and isinstance(lp.iter, ast.Call) and "prange" in ast.unparse(lp.iter.func)):
            continue
        if not isinstance(lp.target, ast.Name):
            continue
        sep = {lp.target.id}
        ch = True
        while ch:
            ch = False
            for n in ast.walk(lp):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id not in sep:
                    if any(isinstance(x, ast.Name) and x.id in sep for x in ast.walk(n.value)) and isinstance(n.value, (ast.Name, ast.BinOp)):
                        sep.add(n.targets[0].id)
                        ch = True
        priv = set()
        for n in ast.walk(lp):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        priv.add(t.id)
        for n in ast.walk(lp):
            tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
            for t in tg:
                if isinstance(t, ast.Subscript):
                    b = t
                    idx = []
                    while isinstance(b, ast.Subscript):
                        idx.append(b.slice)
                        b = b.value
                    ok = any(isinstance(x, ast.Name) and x.id in sep for i in idx for x in ast.walk(i))
                    ok = ok or isinstance(b, ast.Name) and b.id in priv and any(isinstance(a, ast.Assign) and isinstance(a.value, ast.Call) for a in ast.walk(lp))
                    out.append((n, None if ok else f"{ast.unparse(t)} is written by every iteration of the parallel loop"))
                elif isinstance(t, ast.Attribute):
                    out.append((n, f"{ast.unparse(t)} is written by every iteration of the parallel loop"))
            if isinstance(n, ast.Call) and prog is not None and isinstance(n.func, ast.Name):
                g = resolve_in_fn(prog, f, n.func)
                if isinstance(g, Function):
                    for why in _callee_race(prog, A, g, n, sep):
                        out.append((n, why))
    return out


def _callee_race(prog, A, g, call, sep, d=0):
    """a buffer every iteration hands to g is written by g at a place the loop index does not select"""
    s = A.summary(g)
    if s is None or d > 3:
        return []
    pos = g.pos_params
    bind = {pos[i]: a for i, a in enumerate(call.args) if i < len(pos)}
    bind.update({k.arg: k.value for k in call.keywords if k.arg})
    psep = {p for p, a in bind.items() if any(isinstance(x, ast.Name) and x.id in sep for x in ast.walk(a))}
    shared = {p for p, a in bind.items() if p not in psep and isinstance(a, (ast.Name, ast.Attribute, ast.Subscript))}
    written = {root_of(l)[1] for l in s.mut if root_of(l)[0] == "P"} & shared
    out = []
    for p in sorted(written):
        ok = True
        for n in ast.walk(g.node):
            tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
            for t in tg:
                b, idx = t, []
                while isinstance(b, ast.Subscript):
                    idx.append(b.slice)
                    b = b.value
                if idx and isinstance(b, ast.Name) and b.id == p and not any(isinstance(x, ast.Name) and x.id in psep for i in idx for x in ast.walk(i)):
                    ok = False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and any(isinstance(a, ast.Name) and a.id == p for a in n.args):
                h = resolve_in_fn(prog, g, n.func)
                if isinstance(h, Function) and _callee_race(prog, A, h, n, psep, d + 1):
                    ok = False
        if not ok:
            out.append(f"{ast.unparse(bind[p])} is written by {g.name} in every iteration of the parallel loop")
    return out


def leftovers(prog, A, f, seen=None, reset=None):
    """receiver containers grown in place, in f or in the methods it calls on the receiver, before being rebound or cleared"""
    seen = seen if seen is not None else set()
    reset = reset if reset is not None else set()
    if f.qual in seen or not f.pos_params:
        return []
    seen.add(f.qual)
    me = f.pos_params[0]
    out = []

    def fld(e):
        while isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me:
            return e.attr
        return None

    def empties(test, name):
        """the true branch of the test knows the container to be empty"""
        t = ast.unparse(test)
        return t in (f"len({me}.{name}) == 0", f"not {me}.{name}", f"not len({me}.{name})")

    def expr(e, must):
        for n in ast.walk(e):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                continue
            nm = n.func.attr
            if isinstance(n.func.value, ast.Name) and n.func.value.id == me:
                g = prog.find_method(f.cls, nm)
                if g is not None and g.role not in ("static", "classmethod"):
                    sub = reset if must else set(reset)
                    out.extend(leftovers(prog, A, g, seen, sub))
                continue
            x = fld(n.func.value)
            if x is None:
                continue
            if nm == "clear":
                if must:
                    reset.add(x)
            elif nm in GROW and x not in reset:
                out.append((x, f"{f.module.rel}:{n.lineno}"))

    def block(body, must):
        for st in body:
            if isinstance(st, ast.If):
                expr(st.test, must)
                extra = {a for a in {y.attr for y in ast.walk(st.test) if isinstance(y, ast.Attribute)} if empties(st.test, a)}
                add = extra - reset
                reset.update(add)
                block(st.body, False)
                reset.difference_update(add)
                block(st.orelse, False)
            elif isinstance(st, (ast.For, ast.While)):
                expr(st.iter if isinstance(st, ast.For) else st.test, must)
                block(st.body, False)
                block(st.orelse, False)
            elif isinstance(st, ast.Try):
                block(st.body, must)
                for h in st.handlers:
                    block(h.body, False)
                block(st.orelse, False)
                block(st.finalbody, must)
            elif isinstance(st, ast.With):
                block(st.body, must)
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            else:
                if isinstance(st, ast.Assign):
                    expr(st.value, must)
                    for t in st.targets:
                        for u in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                            if isinstance(u, ast.Subscript) and fld(u) is not None and fld(u) not in reset and isinstance(u.value, (ast.Attribute,)) and not _arraylike(prog, f, fld(u)):
                                out.append((fld(u), f"{f.module.rel}:{u.lineno}"))
                            if isinstance(u, ast.Attribute) and fld(u) is not None:
                                (reset if must else _local_reset(reset)).add(u.attr)
                    continue
                for e in ast.iter_child_nodes(st):
                    if isinstance(e, ast.expr):
                        expr(e, must)
    block(f.node.body, True)
    return out


def _local_reset(reset):
    # a conditional rebinding still precedes the growth in the same branch; treated as a reset there
    return reset


def _arraylike(prog, f, name):
    return False


def _fn_escapes(parent, name):
    """nested function `name` is returned, stored or passed on by its parent (not merely called)"""
    for n in ast.walk(parent.node):
        if isinstance(n, ast.Return) and n.value is not None:
            for x in ast.walk(n.value):
                if isinstance(x, ast.Name) and x.id == name and not (isinstance(n.value, ast.Call) and n.value.func is x):
                    return True
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == name and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            return True
    return False
