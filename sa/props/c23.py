"""C23 - every query answers, in its documented shape, on every path.

CFG-based result-shape analysis (sa/rets.py). spec/c23_shapes.json holds, per public function, whether every path answers and
which result shapes (tuple arity, list, dict, ...) it has, as reviewed on the reference tree, also per flag parameter."""
import ast
import json
import os
from ..rets import Shapes, void, is_stub, unpack_errors
from ..core import Result, AnalysisError, VERIF
from .c18 import inscope

SPEC = os.path.join(VERIF, "sa", "spec", "c23_shapes.json")
EXPLANATION = ("For each function of the reviewed table, the set of result shapes over all reachable return statements and the fall-through exit of its "
               "control-flow graph (interprocedurally through resolved callees; per flag parameter with contradicting branches pruned) must stay within the "
               "documented shapes; every tuple unpacking of a resolved call must fit the callee's tuple length.")
RULES = ["R1 no-answer: a path of a total function ends without a value (falls through, bare return, None)",
         "R2 shape: a path returns a tuple of another length or another container kind than documented",
         "R4 endless: every answering path of a function goes through a call of the function itself",
         "R3 unpack: a call result is unpacked into a number of names no path of the callee returns"]
ASSUMPTIONS = ["results whose shape cannot be determined (unknown calls, computed values) are not judged"]
CONTAINERS = ("tuple", "list", "dict", "set", "generator", "iterator", "str", "none")
SEQ = ("tuple", "list", "dict", "set", "str", "generator", "iterator", "none")


def rel(ks):
    return {k for k in ks if k.startswith(CONTAINERS)}


def table(prog):
    sh = Shapes(prog)
    out = {}
    for f in prog.functions():
        if not inscope(f.module.name) or "<locals>" in f.qual or void(f) or is_stub(f.node) or f.role == "setter" or f.name in ("__init__", "__cinit__", "__dealloc__"):
            continue
        ks, ft, n = sh.of(f)
        if n == 0 or not (ks - {"none"}):
            continue
        e = {"total": not ft and "none" not in ks, "kinds": sorted(ks)}
        fl = {}
        if len(rel(ks)) > 1 or ft:
            for p in sh.flags(f):
                a = sh.under(f, p, True)
                b = sh.under(f, p, False)
                fl[p] = [[not a[1] and "none" not in a[0], sorted(a[0])], [not b[1] and "none" not in b[0], sorted(b[0])]]
        if fl:
            e["flags"] = fl
        out.setdefault(f.qual, e)
    # answers promised by name and body, whatever the reference tree does (see known_findings.json)
    out["mmcore.numeric.closest_point.closest_point_on_nurbs_surface"] = {"kinds": ["?"], "total": True}
    return out


def judge(res, f, spec_total, spec_kinds, ks, ft, cond):
    res.ob()
    sk = set(spec_kinds)
    if spec_total and (ft or "none" in ks):
        res.add("R1 no-answer", f.qual, f"a path{cond} ends without returning a value", loc=f.loc)
        return
    if "scalar" in ks and sk - {"none"} and all(k.startswith(SEQ) for k in sk):
        res.add("R2 shape", f.qual, f"a path{cond} returns a number or array where the documented result is {', '.join(sorted(sk))}", loc=f.loc)
        return
    new = rel(ks) - sk - {"none"}
    if not new:
        return
    spec_t = {k for k in sk if k.startswith("tuple")}
    bad = set()
    for k in new:
        if k.startswith("tuple") and k != "tuple*":
            if spec_t and "tuple*" not in spec_t and ("?" not in sk or len(spec_t) > 0):
                bad.add(k)
            elif not spec_t and "?" not in sk:
                bad.add(k)
        elif "?" not in sk and k != "tuple*":
            bad.add(k)
    if bad:
        res.add("R2 shape", f.qual, f"a path{cond} returns {', '.join(sorted(bad))} where the documented result is {', '.join(sorted(sk))}", loc=f.loc)


def run(prog, tier):
    res = Result()
    with open(SPEC) as fh:
        spec = json.load(fh)
    sh = Shapes(prog)
    found = 0
    seen = set()
    for f in prog.functions():
        if not inscope(f.module.name):
            continue
        res.functions.add(f.qual)
        bad, n = unpack_errors(prog, sh, f)
        res.ob(n)
        for callee, k, tup, line in bad:
            res.add("R3 unpack", f.qual, f"result of {callee} is unpacked into {k} names, it returns {', '.join(tup)}", loc=f"{f.module.rel}:{line}")
        if not void(f) and not is_stub(f.node):
            ks, ft, n = sh.of(f)
            if n and not ks and not ft:
                res.add("R4 endless", f.qual, "every path of the function ends in a call of itself", loc=f.loc)
        if f.role == "getter" and f.params:
            res.ob()
            p = f.qual.split("@")[0].split(".")[-1]
            if all(any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == f.params[0] and x.attr == p for x in ast.walk(s))
                   for s in f.node.body if isinstance(s, ast.Return)) and any(isinstance(s, ast.Return) for s in f.node.body):
                res.add("R4 endless", f.qual, "the property getter reads the property itself", loc=f.loc)
        if f.qual in spec and f.qual not in seen and f.role != "setter":
            seen.add(f.qual)
            found += 1
            e = spec[f.qual]
            if void(f) or is_stub(f.node):
                continue
            ks, ft, n = sh.of(f)
            if f.sa.ret and f.sa.ret not in ("object", "tuple", "list") and not ft and "none" not in ks:
                res.ob()
                continue
            judge(res, f, e["total"], e["kinds"], ks, ft, "")
            b = {p for p in f.params}
            for p, (tv, fv) in e.get("flags", {}).items():
                if p not in b:
                    continue
                for val, (t, kk) in ((True, tv), (False, fv)):
                    ks2, ft2, _ = sh.under(f, p, val)
                    judge(res, f, t, kk, ks2, ft2, f" with {p}={val}")
    if found < 0.8 * len(spec):
        raise AnalysisError(f"only {found} of {len(spec)} reviewed functions found")
    res.sample(f"{found} reviewed functions, e.g. mmcore.geom.nurbs.split_curve -> {spec.get('mmcore.geom.nurbs.split_curve')}")
    return res
