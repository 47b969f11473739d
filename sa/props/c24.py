"""C24 - tests for small, singular, parallel and equal look at the magnitude (sa/signs.py on sa/absint.py)."""
from __future__ import annotations
from ..core import Result, AnalysisError
from ..options import Options
from ..absint import Engine
from ..signs import Signs
from .c18 import inscope

EXPLANATION = ("Every function is interpreted over the signs of its numbers (products, squares, sums, norms, dot products, determinants, differences, calls followed into their callees with the signs "
               "of their arguments). Every comparison with a tolerance or tiny number, every choice of a pivot or best determinant and every comparison of a magnitude is then an obligation: a "
               "quantity of either sign is not taken for small, parallel or singular because it is negative.")
RULES = ["M1 signed-small: a quantity that can be negative is tested '< tolerance' without its magnitude (or a determinant '> tolerance')",
         "M2 signed-pivot: the largest of several determinants is chosen with their signs",
         "M3 one-sided: a magnitude is compared with a quantity of the same sort, or next to one, whose magnitude was not taken"]
ASSUMPTIONS = ["upper minus lower end of an interval, box or range (told by name or index) is not negative", "values whose sign is not derivable are not judged",
               "a function that also tests the same quantity against a negative bound tells the signs apart itself"]


def run(prog, tier):
    res = Result()
    d = Signs()
    e = Engine(prog, Options(prog, inscope), d, inscope)
    for f in prog.functions():
        if inscope(f.module.name):
            e.top(f)
            res.functions.add(f.qual)
    names = {"M1": "M1 signed-small", "M2": "M2 signed-pivot", "M3": "M3 one-sided"}
    seen = set()
    for k, (rule, f, node, text) in d.hits.items():
        if inscope(f.module.name) and (rule, f.qual, text) not in seen:
            seen.add((rule, f.qual, text))
            res.add(names[rule], f.qual, text, f"{f.module.rel}:{getattr(node, 'lineno', 0)}")
    res.obligations = len(d.tests)
    pos = sum(1 for v in d.tests.values() if v == "+")
    if pos < 80 or len(d.tests) < 120:
        raise AnalysisError(f"only {len(d.tests)} tests of smallness were found, {pos} of a magnitude")
    res.info.update(tests=len(d.tests), of_a_magnitude=pos, of_unknown_sign=sum(1 for v in d.tests.values() if v is None))
    for k in sorted(d.tests, key=str)[:12]:
        res.sample(f"{k[0]}: {k[-1][:80]} -> {d.tests[k]}")
    return res
