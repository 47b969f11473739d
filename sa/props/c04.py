"""C04 - no answer is computed from memory that was never written (sa/buffers.py)."""
import re
from .. import buffers
from ..core import Result, require, AnalysisError
from .c18 import inscope

EXPLANATION = ("Abstract interpretation of every function: arrays made by np.empty / malloc / C declarations start with no element written; writes are recorded as "
               "regions whose bounds are polynomials over sizes, intersected over paths and carried through calls by summaries (what a callee writes on every path, "
               "what it reads first, what it writes only when its status says so).")
RULES = ["U1 read-before-write: an element is read (or added to) at a point where no path has written it",
         "U2 unwritten-result: an array is returned or handed to a caller while a path leaves elements of it unwritten",
         "S1 stale-index: a subscript uses the variable of a counting loop that has already run to its end"]
ASSUMPTIONS = ["a loop over a range is taken to run", "elements written under an index the polynomial domain cannot express count as written",
               "calls that cannot be resolved may write everything they are given"]
KINDS = {"U1": RULES[0].split(":")[0], "U2": RULES[1].split(":")[0]}
CACHE = {}


def engine(prog):
    e = CACHE.get(id(prog))
    if e is None:
        e = CACHE[id(prog)] = buffers.Engine(prog)
        for f in prog.functions():
            if inscope(f.module.name):
                e.summary(f)
    return e


def collect(prog, res, kinds):
    e = engine(prog)
    for f in prog.functions():
        if not inscope(f.module.name):
            continue
        res.functions.add(f.qual)
        for kind, line, text in e.findings.get(f.qual, []):
            if kind in kinds:
                res.add(kinds[kind], f.qual, re.sub(r" \(line \d+\)", "", text), loc=f"{f.module.rel}:{line}")
    res.info["functions_not_judged"] = [list(x) for x in e.failed]
    return e


def run(prog, tier):
    from ..stale import stale_indices
    res = Result()
    require(prog, "mmcore.geom.nurbs:NURBSSurface", "mmcore.numeric.vectors:solve2x2")
    e = collect(prog, res, KINDS)
    res.ob(e.checks["read"] + e.checks["hand"])
    for f in prog.functions():
        if inscope(f.module.name):
            for name, line, text in stale_indices(f):
                res.add(RULES[2].split(":")[0], f.qual, f"{text} uses {name} after its loop has ended", loc=f"{f.module.rel}:{line}")
    res.info["reads_of_fresh_buffers_checked"] = e.checks["read"]
    res.info["handovers_checked"] = e.checks["hand"]
    if e.checks["read"] + e.checks["hand"] < 100:
        raise AnalysisError("too few buffer uses found")
    s = e.summary(prog.find("mmcore.numeric.vectors:solve2x2")) if prog.find("mmcore.numeric.vectors:solve2x2") else None
    if s is not None:
        res.sample({"summary of solve2x2": {k: ([buffers.fmt(r) for r in v] if v != "any" else "any") for k, v in s.writes.items()}})
    return res
