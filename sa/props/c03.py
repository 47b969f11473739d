"""C03 - queries leave their arguments unchanged.

Interprocedural mod-ref (effect) analysis.  The reviewed table spec/c03_pure.json lists, per public function
and method, the parameters (by position, 0 = self for methods) that a call only reads; out-buffers and mutators
are not listed.  Obligation per (function, parameter): no write, in the function or in anything it calls, can
reach a location rooted at that parameter, except the lazily built acceleration structures of LAZY."""
import ast
import json
import os
from ..alias import Analyzer, root_of, show, path_of, ELEM
from ..program import Class
from ..core import Result, require, VERIF

SPEC = os.path.join(VERIF, "sa", "spec", "c03_pure.json")
EXPLANATION = ("Interprocedural mod-ref analysis over points-to summaries: for each listed (public function, input parameter) "
               "the set of locations possibly written during the call, transitively through callees and Cython "
               "memoryviews/pointers, must not intersect the locations rooted at that parameter.")
RULES = ["R1 input-mutated: an element, field or container of a read-only parameter is written during the call"]
ASSUMPTIONS = ["calls that cannot be resolved do not write their arguments",
               "lazily built acceleration structures (bounding-volume tree, boundary curve, memo tables) are not observable state",
               "parameters not listed (out-buffers, receivers of mutators) may be written"]
LAZY = {"_tree", "_boundary", "_evaluate_cached", "_evaluate_length_cached", "_length_evaluator", "_bvh_uv_root", "_edges",
        "_polygon", "_cache", "_derivatives"}
SCOPE = ("mmcore.geom", "mmcore.numeric", "mmcore.construction", "mmcore.topo.brep", "mmcore.compat", "mmcore.ds")
_SKIP = {"__init__", "__cinit__", "__new__", "__dealloc__", "__setstate__", "__setitem__", "__delitem__", "__iadd__", "__isub__",
         "__imul__", "__itruediv__", "__setattr__"}


def public(f):
    if f.sa.kind == "cdef" and f.role != "static":
        return False
    if "<locals>" in f.qual or f.role == "setter" or f.name in _SKIP:
        return False
    n = f.name
    return n.startswith("__") and n.endswith("__") or not n.startswith("_")


def inscope(f):
    return f.module.name.startswith(SCOPE) and not f.module.name.startswith("mmcore.topo.mesh")


def effects(f, s, fields=None):
    """{param name: [(location, evidence)]} written by the call"""
    out = {}
    for l, w in s.mut.items():
        r, p = path_of(l)
        if r[0] != "P":
            continue
        if any(x in LAZY for x in p):
            continue
        names = [x for x in p if x != ELEM]
        if fields is not None and any(x not in fields for x in names):
            continue
        out.setdefault(r[1], []).append((l, w))
    return out


def run(prog, tier):
    res = Result()
    require(prog, "mmcore.geom.nurbs:NURBSCurve.evaluate", "mmcore.geom.nurbs:split_curve", "mmcore.numeric.vectors:scalar_unit")
    with open(SPEC) as fh:
        spec = json.load(fh)
    fields = set(spec["fields"])
    A = Analyzer(prog, {})
    byq = {}
    for f in prog.functions():
        if f.role != "setter":
            byq.setdefault(f.qual, []).append(f)
    for q, idx in spec["pure"].items():
        for f in byq.get(q, []):
            s = A.summary(f)
            res.functions.add(q)
            eff = effects(f, s, fields)
            pos = f.pos_params
            for i in idx:
                if i >= len(pos):
                    continue
                res.ob()
                for l, w in sorted(eff.get(pos[i], []), key=str)[:1]:
                    res.add("R1 input-mutated", q, f"input parameter #{i} is written", loc=f"{f.loc}",
                            path=[f"{pos[i]}: location {show(l)}", f"{w[0]} line {w[1]}: {w[2]}"])
    res.info["listed_functions"] = len(spec["pure"])
    for q in list(spec["pure"])[:400:40]:
        res.sample(f"{q}: read-only parameters {spec['pure'][q]}")
    res.info["unresolved_calls"] = A.unresolved
    return res


def generate():
    from ..program import Program
    P = Program("/repo")
    A = Analyzer(P, {})
    pure = {}
    mutated = {}
    fields = set()
    for f in P.functions():
        s = A.summary(f)
        for l in s.mut:
            fields |= {x for x in path_of(l)[1] if x != ELEM}
        for (b, fl) in s.stores:
            if fl[0] != "$" and fl != ELEM:
                fields.add(fl)
        if not inscope(f) or not public(f):
            continue
        eff = effects(f, s)
        idx = []
        for i, p in enumerate(f.pos_params):
            if p in eff:
                mutated.setdefault(f.qual, {})[p] = [(show(l), w) for l, w in eff[p]][:3]
            elif ("P", p) in s.types or f.ann(p) is None or f.cls is not None and i == 0:
                idx.append(i)
        if idx:
            pure[f.qual] = idx
    return pure, mutated, sorted(fields - LAZY)
