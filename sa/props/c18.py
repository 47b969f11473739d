"""C18 - the code every public operation runs refers only to things that exist.

Reference analysis over the resolved program (sa/refs.py): scopes, imports, class attributes (MRO, .pxd fields, slots, stores),
installed third-party modules, call shapes, and path-sensitive definite assignment of local variables."""
import ast
from .. import refs
from ..program import Class
from ..core import Result, require

EXPLANATION = ("Name, import, attribute, call-shape and definite-assignment analysis of every function in scope: each reference is resolved through "
               "scopes, the import graph, the class hierarchy with .pxd fields, and the installed third-party modules; unresolved dynamic "
               "receivers generate no obligation.")
RULES = ["N1 undefined-name", "N2 possibly-unbound local (branch, exception and correlated-test sensitive; loops are taken to run)",
         "I1 missing import", "A1 missing attribute on a receiver of known class or module", "C1 call that does not fit the callee's signature",
         "K1 call of an attribute that is only ever bound to None or plain data",
         "K2 slice of a C-typed view assigned from an untyped object (Cython converts the object to one scalar)",
         "K3 Python object converted to a memoryview argument while the GIL is released",
         "K4 C number handed to a variadic C function that reads Python objects"]
ASSUMPTIONS = ["receivers of unknown class are not judged", "attributes may be created only by stores visible in the package",
               "an if/elif chain without else is taken to be exhaustive", "third-party names are looked up in the installed distribution"]
SCOPE = ("mmcore.geom", "mmcore.numeric", "mmcore.construction", "mmcore.ds", "mmcore.compat", "mmcore.topo.brep")
# not part of the build and imported by nothing
OUT = ("mmcore.numeric.intersection._parametric_parametric",)
# (function, local): reviewed, bound on every feasible path
UNBOUND_OK = {("mmcore.geom.polygon.is_point_in_polygon", "xinters")}  # min(p1y,p2y) < y <= max(p1y,p2y) implies p1y != p2y


def inscope(n):
    return (n.startswith(SCOPE)) and n not in OUT


def data_fields(prog):
    """{class qual: names every store of which (on the receiver, in that class) binds None, a literal or a display}, names stored on other receivers"""
    good, bad, ext = {}, {}, set()
    for f in prog.functions():
        me = f.pos_params[0] if f.cls is not None and f.pos_params and f.role != "static" and f.parent is None else None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1:
                ext.add(n.args[1].value if isinstance(n.args[1], ast.Constant) else "*")
            tg = [(t, n.value) for t in n.targets] if isinstance(n, ast.Assign) else [(n.target, n.value)] if isinstance(n, ast.AnnAssign) else []
            plain = set()
            for t, v in tg:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me and isinstance(v, (ast.Constant, ast.List, ast.Dict, ast.Tuple, ast.Set, ast.ListComp, ast.BinOp, ast.UnaryOp)):
                    good.setdefault(f.cls.qual, set()).add(t.attr)
                    plain.add(t)
            if isinstance(n, ast.stmt) and not hasattr(n, "body"):
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x not in plain:
                        if isinstance(x.value, ast.Name) and x.value.id == me:
                            bad.setdefault(f.cls.qual, set()).add(x.attr)
                        else:
                            ext.add(x.attr)
            elif isinstance(n, ast.For):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Attribute):
                        ext.add(x.attr)
    return good, bad, ext


def only_data(prog, data, cls, attr):
    good, bad, ext = data
    if attr in ext:
        return False
    fam = list(prog.mro(cls)) + list(prog.subclasses(cls))
    if any(attr in k.methods or attr in k.getters or attr in k.setters or attr in k.class_consts or attr in k.fields for k in fam):
        return False
    return any(attr in good.get(k.qual, ()) for k in fam) and not any(attr in bad.get(k.qual, ()) for k in fam)


NP_NEW = {"zeros", "ones", "empty", "array", "asarray", "copy", "concatenate", "vstack", "hstack", "linspace", "full", "arange", "stack", "cross", "dot"}


def view_from_object(prog, f):
    if not f.module.is_cy:
        return
    T = {a.arg: f.ann(a.arg) for a in f.arg_nodes() if f.ann(a.arg)}
    assigned = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and isinstance(n.annotation, ast.Constant):
            T[n.target.id] = str(n.annotation.value)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            assigned.add(n.id)

    def typ(e):
        if isinstance(e, ast.Name):
            return T.get(e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            if f.cls is not None and f.pos_params and e.value.id == f.pos_params[0]:
                return prog.field_type(f.cls, e.attr)
            c = prog.class_named(f.module, T[e.value.id]) if e.value.id in T else None
            return prog.field_type(c, e.attr) if isinstance(c, Class) else None
        return None

    for n in ast.walk(f.node):
        if not isinstance(n, ast.Assign):
            continue
        for t in n.targets:
            if not isinstance(t, ast.Subscript):
                continue
            ty = typ(t.value)
            if not (ty and "[" in ty and ":" in ty):
                continue
            sl = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
            if len(sl) >= ty.count(":") + (1 if "::" in ty else 0) * -1 and not any(isinstance(x, ast.Slice) for x in sl):
                continue
            v = n.value
            bad = None
            if isinstance(v, ast.Name) and v.id in f.params and v.id not in T and v.id not in assigned:
                bad = f"{ast.unparse(t)} is assigned the untyped parameter {v.id}"
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id in ("np", "numpy") and v.func.attr in NP_NEW:
                bad = f"{ast.unparse(t)} is assigned the array object {ast.unparse(v)[:40]}"
            elif isinstance(v, (ast.List, ast.ListComp, ast.Tuple)):
                bad = f"{ast.unparse(t)} is assigned a Python sequence"
            yield bad, n.lineno


def nogil_coercion(prog, f):
    """(problem or None, line) for every argument handed to a memoryview parameter while the GIL is released"""
    if not f.module.is_cy:
        return
    T = {a.arg: f.ann(a.arg) for a in f.arg_nodes() if f.ann(a.arg)}
    for n in ast.walk(f.node):
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and isinstance(n.annotation, ast.Constant):
            T[n.target.id] = str(n.annotation.value)
    mine = {a.arg for a in f.arg_nodes()} | {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    if getattr(f.node.sa, "nogil", False):
        return
    for w in ast.walk(f.node):
        if not (isinstance(w, ast.With) and any(isinstance(i.context_expr, ast.Name) and i.context_expr.id == "nogil" for i in w.items)):
            continue
        for c in ast.walk(w):
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name)):
                continue
            t = prog.resolve(f.module, c.func.id)
            if not hasattr(t, "arg_nodes"):
                continue
            for a, p in zip(c.args, t.arg_nodes()):
                ty = t.ann(p.arg)
                if not (ty and "[" in ty and ":" in ty):
                    continue
                bad = isinstance(a, ast.Name) and a.id in mine and not (T.get(a.id) and T[a.id] != "object")
                yield (f"{a.id} is a Python object converted to {ty} for {t.name} while the GIL is released" if bad else None), c.lineno


VARIADIC = {"PyTuple_Pack": 1, "PyObject_CallFunctionObjArgs": 1, "PyObject_CallMethodObjArgs": 2}
CNUM = {"double", "float", "int", "long", "size_t", "Py_ssize_t", "bint", "char", "short", "uint32_t", "int32_t", "unsigned int"}


def c_number(prog, f, e, T):
    """the C number type of an expression, or None"""
    if isinstance(e, ast.Name):
        return T.get(e.id) if T.get(e.id) in CNUM else None
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        k = f.cls if f.cls is not None and f.pos_params and e.value.id == f.pos_params[0] else prog.resolve(f.module, T[e.value.id]) if e.value.id in T else None
        for c in (prog.mro(k) if k is not None and hasattr(k, "methods") else ()):
            t = c.fields.get(e.attr)
            if t:
                return t if t in CNUM else None
        return None
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return "number"
    if isinstance(e, ast.BinOp):
        return c_number(prog, f, e.left, T) and c_number(prog, f, e.right, T)
    if isinstance(e, ast.UnaryOp):
        return c_number(prog, f, e.operand, T)
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name):
        t = T.get(e.value.id) or ""
        return t.split("[")[0] if "[" in t and t.split("[")[0] in CNUM and not isinstance(e.slice, ast.Slice) else None
    return None


def variadic_c(prog, f):
    """(problem or None, line): calls of C functions that take a variable number of Python objects; C converts nothing there"""
    if not f.module.is_cy:
        return
    T = {a.arg: f.ann(a.arg) for a in f.arg_nodes() if f.ann(a.arg)}
    for n in ast.walk(f.node):
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and isinstance(n.annotation, ast.Constant):
            T[n.target.id] = str(n.annotation.value)
    for c in ast.walk(f.node):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in VARIADIC and not any(isinstance(a, ast.Starred) for a in c.args):
            k = VARIADIC[c.func.id]
            bad = next((f"{ast.unparse(a)} is a C {t} where {c.func.id} reads a Python object" for a in c.args[k:] for t in [c_number(prog, f, a, T)] if t), None)
            if not bad and c.func.id == "PyTuple_Pack" and isinstance(c.args[0], ast.Constant) and c.args[0].value != len(c.args) - 1:
                bad = f"PyTuple_Pack reads {c.args[0].value} objects and gets {len(c.args) - 1}"
            yield bad, c.lineno


def run(prog, tier):
    res = Result()
    require(prog, "mmcore.geom.nurbs:NURBSCurve.evaluate", "mmcore.numeric.intersection.ssx:surface_intersection" if False else "mmcore.geom.nurbs:NURBSSurface.copy")
    cnt = {}
    data = data_fields(prog)
    for m in prog.modules.values():
        if not inscope(m.name):
            continue
        bad, n = refs.bad_imports(prog, m)
        res.ob(n)
        cnt["imports"] = cnt.get("imports", 0) + n
        for mod, a, line in bad:
            res.add("I1 missing-import", m.name, f"'{a}' does not exist in {mod}", loc=f"{m.rel}:{line}")
    for f in prog.functions():
        if not inscope(f.module.name):
            continue
        res.functions.add(f.qual)
        bad, n = refs.undefined_names(prog, f)
        res.ob(n)
        cnt["names"] = cnt.get("names", 0) + n
        for nm, line in bad:
            res.add("N1 undefined-name", f.qual, f"name '{nm}' is not defined anywhere", loc=f"{f.module.rel}:{line}")
        bad, n = refs.unbound_locals(prog, f)
        res.ob(n)
        cnt["local_reads"] = cnt.get("local_reads", 0) + n
        for nm, line in bad:
            if (f.qual, nm) not in UNBOUND_OK:
                res.add("N2 unbound-local", f.qual, f"local '{nm}' is read while unbound on some path", loc=f"{f.module.rel}:{line}")
        bad, n = refs.bad_attributes(prog, f)
        res.ob(n)
        cnt["attributes"] = cnt.get("attributes", 0) + n
        for nm, line in bad:
            res.add("A1 missing-attribute", f.qual, f"'{nm}' does not exist", loc=f"{f.module.rel}:{line}")
        bad, n = refs.bad_calls(prog, f)
        res.ob(n)
        cnt["calls"] = cnt.get("calls", 0) + n
        for callee, e, line in bad:
            res.add("C1 call-shape", f.qual, f"call of {callee}: {e}", loc=f"{f.module.rel}:{line}")
        if f.cls is not None and f.pos_params and f.role != "static":
            for e in ast.walk(f.node):
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == f.pos_params[0]:
                    res.ob()
                    if only_data(prog, data, f.cls, e.func.attr):
                        res.add("K1 not-callable", f.qual, f"'{e.func.attr}' is called but only ever holds None or data", loc=f"{f.module.rel}:{e.lineno}")
        for what, line in view_from_object(prog, f):
            res.ob()
            if what:
                res.add("K2 view-from-object", f.qual, what, loc=f"{f.module.rel}:{line}")
        for what, line in nogil_coercion(prog, f):
            res.ob()
            if what:
                res.add("K3 coercion-without-gil", f.qual, what, loc=f"{f.module.rel}:{line}")
        for what, line in variadic_c(prog, f):
            res.ob()
            if what:
                res.add("K4 object-argument", f.qual, what, loc=f"{f.module.rel}:{line}")
    res.info["counts"] = cnt
    res.sample("every Name load, import, typed attribute access and resolved call in " + ", ".join(SCOPE))
    return res
