"""C06 - subscripts stay inside the arrays they index (sa/buffers.py)."""
from ..core import Result, require, AnalysisError
from .c04 import collect
from .c18 import inscope
from ..repeats import past

EXPLANATION = ("Extents of every array created or received (np.zeros/empty/ones, malloc, memoryview slices, C arrays, parameters) and every index expression are "
               "polynomials over the sizes in play; loop variables stand for their ranges. An access whose largest index reaches the extent, for every value of "
               "the sizes, is a violation, as is an argument smaller than what the callee indexes on every path, a negative constant index where negative "
               "indices are not translated, a view over more elements than were allocated, and an array with another number of dimensions than the memoryview it is assigned to.")
RULES = ["B1 beyond-extent: an index reaches or exceeds the extent of the array, here or in a callee the array is handed to",
         "B2 negative-index: a negative index on an array whose accesses do not translate it", "B3 view-larger: a view spans more elements than the allocation behind it",
         "B4 dimensions: an array is assigned to a memoryview with another number of dimensions"]
ASSUMPTIONS = ["sizes are non-negative and otherwise unrelated unless the code relates them", "an index the polynomial domain cannot express is not judged",
               "accesses under a condition are judged only when the excess is a constant"]
KINDS = {r[:2]: r.split(":")[0] for r in RULES}


def run(prog, tier):
    res = Result()
    require(prog, "mmcore.geom.nurbs:NURBSSurface", "mmcore.numeric.vectors:solve2x2")
    e = collect(prog, res, KINDS)
    for f in prog.functions():
        if inscope(f.module.name) and "<locals>" not in f.qual:
            bad, n = past(f.node)
            res.ob(n)
            for node, t in bad:
                res.add("B1 beyond-extent", f.qual, t, loc=f"{f.module.rel}:{node.lineno}")
    res.ob(e.checks["index"])
    if e.checks["index"] < 500:
        raise AnalysisError("too few subscripts found")
    return res
