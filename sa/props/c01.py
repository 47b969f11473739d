"""C01 - derived state never lags behind the data it is derived from.

For every (defining data -> derived state) pair of the table below, an interprocedural typestate
analysis tracks, per object, whether the derived state is F(resh), E(mpty), S(tale) or N(ever set)
after every write to the defining data and every refresh.  Obligation: every public function that can
write the defining data of an object leaves every derived state F or E on each normal exit; objects it
creates and returns are never S or N."""
import ast
from ast import walk
from ..alias import Analyzer, Derived as D, show, root_of
from ..core import Result, require

EXPLANATION = ("Interprocedural typestate (fresh/empty/stale/never-set) per object and (defining data, derived state) "
               "pair over points-to summaries of every function of the package (.py and .pyx). Every public function, "
               "setter or mutating dunder that can write defining data is an obligation per pair; a stale or never-set "
               "state on a normal exit is a violation naming function and pair.")

SPECS = {
    "mmcore.geom.nurbs.NURBSCurve": [
        D("_evaluate_cached", ["_control_points", "_knots", "_degree", "_periodic"], "cache"),
        D("_interval", ["_knots"], "value"),
        D("_greville_abscissae", ["_knots", "_degree"], "value")],
    "mmcore.geom.nurbs.NURBSSurface": [
        D("_interval", ["_knots_u", "_knots_v"], "value"),
        D("control_points_view", ["_control_points_arr"], "binding"),
        D("control_points_flat_view", ["_control_points_arr"], "binding")],
    "mmcore.geom.bvh.BoundingBox": [
        D("center", ["min_point", "max_point"], "value"),
        D("dims", ["min_point", "max_point"], "value"),
        D("_arr", ["min_point", "max_point"], "value")],
    "mmcore.geom.primitives.Sphere": [D("_bounds", ["ox", "oy", "oz", "_radius"], "value")],
    "mmcore.geom.primitives.ImplicitCylinder": [
        D("dx", ["ox", "ex"], "value"), D("dy", ["oy", "ey"], "value"), D("dz", ["oz", "ez"], "value"),
        D("_bounds", ["ox", "oy", "oz", "ex", "ey", "ez", "dx", "dy", "dz", "_radius"], "value")],
    "mmcore.geom.primitives.Tube": [
        D("dx", ["ox", "ex"], "value"), D("dy", ["oy", "ey"], "value"), D("dz", ["oz", "ez"], "value"),
        D("_bounds", ["ox", "oy", "oz", "ex", "ey", "ez", "dx", "dy", "dz", "_radius", "_thickness"], "value")],
    "mmcore.numeric.fdm.PDE": [D("H", ["_dim"], "value")],
    "mmcore.geom.curves.curve.Curve": [
        D("_tree", ["_interval", "trim", "_offset"], "cache"),
        D("_evaluate_length_cached", ["_offset"], "cache")],
}
LAZY = {"_tree", "_evaluate_length_cached"}        # built on first use: an object without one is as good as new
MEMOS = {d.name for ds in SPECS.values() for d in ds if d.kind != "value"}
RULES = [f"{c.rsplit('.', 1)[1]}.{d.name} <- {{{', '.join(sorted(d.sources))}}} ({d.kind})" for c, ds in SPECS.items() for d in ds] + [
    "R2 foreign memo: a memo stored on an object is made from a method of that object"]
ASSUMPTIONS = [
    "a refresh recomputes the derived state correctly from the current defining data (its arithmetic is not judged)",
    "writes made by callers through live views handed out by getters (control_points, knots) are outside the property",
    "calls the analysis cannot resolve do not write the listed fields",
]
ANCHORS = ["mmcore.geom.nurbs:NURBSCurve.set_degree", "mmcore.geom.nurbs:NURBSCurve.control_points@setter",
           "mmcore.geom.nurbs:NURBSCurve.insert_knot", "mmcore.geom.nurbs:NURBSSurface.insert_knot_u",
           "mmcore.geom.bvh:BoundingBox.expand", "mmcore.geom.primitives:Sphere.radius@setter"]

_MUT_DUNDER = {"__setstate__", "__setitem__", "__delitem__", "__iadd__", "__isub__", "__imul__", "__itruediv__", "__ior__", "__iand__"}


def public(f):
    if f.sa.kind == "cdef":
        return False
    n = f.name
    if n.startswith("__") and n.endswith("__"):
        return n not in ("__cinit__", "__dealloc__", "__new__")
    return not n.startswith("_")


def memo_of(e):
    """lru_cache(...)(x.m) / cache(x.m): the (x, m) it memoises"""
    if isinstance(e, ast.Call) and len(e.args) == 1 and isinstance(e.args[0], ast.Attribute) and isinstance(e.args[0].value, ast.Name):
        g = e.func
        while isinstance(g, ast.Call):
            g = g.func
        n = g.attr if isinstance(g, ast.Attribute) else getattr(g, "id", "")
        if n in ("lru_cache", "cache"):
            return e.args[0].value.id, e.args[0].attr
    return None


def own_memos(prog, res):
    """a memo belongs to one object: it is made from a method of the object it is stored on"""
    sites, names = [], set()
    for f in prog.functions():
        for a in walk(f.node):
            if isinstance(a, ast.Assign):
                for t in a.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                        sites.append((f, a, t))
                        if memo_of(a.value):
                            names.add(t.attr)
    for f, a, t in sites:
        if t.attr not in names:
            continue
        res.ob()
        m = memo_of(a.value)
        if m is not None and m[0] != t.value.id or m is None and (isinstance(a.value, ast.Attribute) and a.value.attr in names or
                isinstance(a.value, ast.Call) and getattr(a.value.func, "id", "") == "getattr" and len(a.value.args) > 1 and
                isinstance(a.value.args[1], ast.Constant) and a.value.args[1].value in names):
            res.add("R2 foreign memo", f.qual, f"{ast.unparse(t)} = {ast.unparse(a.value)}: answers from another object's data", loc=f"{f.module.rel}:{a.lineno}")


def run(prog, tier):
    res = Result()
    require(prog, *ANCHORS)
    A = Analyzer(prog, SPECS)
    n = 0
    mutators = []
    for f in prog.functions():
        s = A.summary(f)
        n += 1
        if not public(f):
            continue
        for (l, dn), t in sorted(s.ts.items(), key=str):
            if dn == "*":
                continue
            states = t["F"]
            if f.name == "__init__" and dn in MEMOS:       # memos and views of a new object: __setstate__ and the like rebuild them
                continue
            if dn in LAZY and f.name in ("__init__", "__setstate__"):        # a newly made object: nothing has been built from it yet
                continue
            if dn in LAZY:
                states = states - {"N"} or frozenset("E")
            if l[0] != "A" and states == frozenset("F") and not any(x != frozenset(k) for k, x in t.items()):
                continue
            res.ob()
            res.functions.add(f.qual)
            mutators.append(f"{f.qual}: {show(l)}.{dn} -> {''.join(sorted(states))}")
            bad = sorted(states & (frozenset("SN") if l[0] == "A" else frozenset("S")))
            if bad:
                who = "object it returns" if l[0] == "A" else show(l)
                res.add("R1 stale-derived-state", f.qual, f"{who}: {dn} may be {'stale' if 'S' in bad else 'unset'} on exit",
                        loc=f.loc, path=[f"typestate of {dn}: F -> {{{', '.join(sorted(states))}}}"])
    own_memos(prog, res)
    for m in mutators:
        res.sample(m, 25)
    res.info["functions"] = n
    res.info["pairs"] = len(RULES)
    res.info["unresolved_calls"] = A.unresolved
    res.info["resolved_calls"] = A.ncalls
    return res
