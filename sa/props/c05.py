"""C05 - manually managed memory is freed exactly once and never used, or referred to, afterwards (sa/heap.py)."""
from .. import heap
from ..core import Result, require, AnalysisError
from .c18 import inscope

EXPLANATION = ("Path-sensitive ownership analysis of every Cython function that allocates, frees, resizes or refers to raw memory: allocation sites (malloc, calloc, realloc, "
               "C helpers that return fresh memory) are live, freed, null or moved on each path; views and derived pointers carry the site they refer to; fields that own memory "
               "and fields that are views of it are derived from the classes; calls apply summaries (frees, returns fresh memory, moves an owned block, keeps a view).")
RULES = ["H1 leak: memory is still live and owned by nobody when a path ends, or its only owner is overwritten",
         "H2 use-after-free: memory, or a view of it, is used on a path on which it was freed or moved by realloc",
         "H3 bad-free: freed twice, freed although another owner frees it, owned twice, or freed although it does not come from malloc",
         "H4 stale-view: a field keeps referring to a block that was freed, moved or is owned by another object",
         "H5 exposed-view: a public function hands out a view of memory its object frees or moves",
         "H6 never-freed: a class allocates a field that no __dealloc__ frees"]
ASSUMPTIONS = ["allocation failure, and exceptions raised by NumPy or the interpreter between an allocation and its release, are not considered",
               "a pointer stored in a container or handed to an unknown callee is taken over by it"]
KIND = {r[:2]: r.split(":")[0] for r in RULES}


def run(prog, tier):
    res = Result()
    require(prog, "mmcore.geom.nurbs:NURBSSurface")
    H = heap.Heap(prog, None)
    for f in H.funcs:
        H.summary(f)
    for f in H.funcs:
        if not inscope(f.module.name):
            continue
        res.functions.add(f.qual)
        for kind, line, text in H.findings.get(f, []):
            res.add(KIND[kind], f.qual, text, loc=f"{f.module.rel}:{line or f.node.lineno}")
    for c, a, (g, line), ok in heap.dealloc_rule(H):
        res.ob()
        if not ok:
            res.add(KIND["H6"], c.qual, f"{a} is allocated by {g.name} and never freed", loc=f"{g.module.rel}:{line}")
    res.ob(H.count["sites"] + H.count["uses"] + H.count["exits"])
    res.info["owning_fields"] = {k: sorted(v) for k, v in H.owned.items()}
    res.info["view_fields"] = {k: dict(v) for k, v in H.viewf.items()}
    res.info["allocation_site_states"] = H.count["sites"]
    res.info["uses_checked"] = H.count["uses"]
    res.info["path_states"] = H.count["paths"]
    res.info["functions_not_judged"] = [list(x) for x in H.failed]
    if H.count["sites"] < 10 or not H.owned:
        raise AnalysisError("no managed memory found")
    res.sample({"summaries": {f.qual: sorted(s.resets) for f, s in H.sum.items() if isinstance(s, heap.Summary) and s.resets}})
    return res
