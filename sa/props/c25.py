"""C25 - formulas of geometry combine quantities of like dimension (sa/dims.py on sa/absint.py)."""
from __future__ import annotations
import json
import os
from ..core import Result, AnalysisError
from ..options import Options
from ..absint import Engine
from ..dims import Dims
from .c18 import inscope

EXPLANATION = ("Every function is interpreted over the dimensions of its values: points and distances are lengths, what evaluate(), derivative(), derivative_u(), second_derivative_uv() ... give is a "
               "length over a power of the parameter, formulas (fundamental forms, curvatures, Newton steps, projections, intersections of planes, rays, circles and triangles) start from the reviewed "
               "dimensions of their arguments (sa/spec/dims.json). Every sum, difference, comparison, angle, choice, linear system and named result is an obligation: its parts change alike when the "
               "unit of length or the parametrisation changes.")
RULES = ["D1 unlike: a sum, difference, comparison, choice or angle of quantities of different dimension",
         "D2 argument: a call hands a quantity to a formula that expects another dimension there",
         "D3 result: a formula or derivative method gives another dimension than the quantity it is named after",
         "D4 system: the equations of a 2x2 system give its unknowns different dimensions"]
ASSUMPTIONS = ["a literal number fits any dimension, except that a number of ordinary size is not added to a length", "values whose dimension is not derivable are not judged",
               "finite differences: the module constant DEFAULT_H is a step of the parameter that is differentiated", "reviewed exceptions are listed, with the reason, in sa/spec/dims.json under _exempt"]
SPEC = os.path.join(os.path.dirname(os.path.dirname(__file__)), "spec", "dims.json")


def run(prog, tier):
    res = Result()
    spec = json.load(open(SPEC))
    d = Dims(spec, spec["_exempt"])
    e = Engine(prog, Options(prog, inscope), d, inscope)
    seen = set()
    for f in prog.functions():
        if inscope(f.module.name):
            r, outs = e.top(f)
            d.results(f, r, outs)
            seen.add(f.qual)
    for (q, line, col, what), ok in d.checks.items():
        res.functions.add(q)
    done = set()
    for (q, line, col, what), (f, node, text) in d.hits.items():
        rule = "D3 result" if what.startswith("result") else "D2 argument" if what.startswith("argument ") else "D4 system" if what.startswith(("unknown", "determinant")) else "D1 unlike"
        if (rule, f.qual, text) not in done:
            done.add((rule, f.qual, text))
            res.add(rule, f.qual, text, f"{f.module.rel}:{getattr(node, 'lineno', 0)}")
    res.obligations = len(d.checks)
    good = sum(1 for v in d.checks.values() if v)
    if good < 500:
        raise AnalysisError(f"only {good} combinations of known dimension were found")
    res.info.update(combinations=len(d.checks), consistent=good, specified=sum(1 for q in spec if q in seen))
    for k in sorted(d.checks, key=str)[::max(1, len(d.checks) // 12)][:12]:
        res.sample(f"{k[0]}:{k[1]} {k[3]}")
    return res
