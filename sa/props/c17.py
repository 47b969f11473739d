"""C17 - a failed computation is never used as an answer (sa/outcome.py)."""
from __future__ import annotations
import ast
import json
import os
from ..core import Result, AnalysisError, require
from ..outcome import Outcomes, analyse
from .c18 import inscope

EXPLANATION = ("The outcomes of every function (None, constant, value, tuple of these, out-parameters written) are computed path by path; every call of a function with a failing outcome "
               "is followed through the caller's tests: a component that may still be None is not used as a value, an out-argument is not read and a value is not used while the status or flag "
               "that came with it may still say the computation failed.")
RULES = ["F1 none-used: the result of a call that may be None is dereferenced, computed with or handed to code that needs a value",
         "F2 unwritten-read: an out-argument is read (or handed back) while the call's status may be a failure",
         "F3 flagged-used: a value is used while the flag returned with it may say it is not an answer",
         "F4 contract: a status function returns a constant its contract does not name, or reports success on a path that wrote nothing"]
ASSUMPTIONS = ["the contracts of the solvers' status codes (sa/spec/outcome.json, reviewed)", "callables handed in by the user return values",
               "a method called through a receiver of unknown class is not followed"]
SPEC = os.path.join(os.path.dirname(__file__), "..", "spec", "outcome.json")
RULE = {"none": "F1 none-used", "out": "F2 unwritten-read", "flag": "F3 flagged-used"}


def run(prog, tier):
    res = Result()
    sp = json.load(open(SPEC))
    never = {(a, b) for a, b, _ in sp["never"]}
    oc = Outcomes(prog, inscope, sp["contracts"])
    multi, gone = [], []
    for q, c in sp["contracts"].items():
        mod, _, name = q.rpartition(".")
        f = next((x for x in prog.functions() if x.qual == q), None)
        if f is None:
            gone.append(q)
            continue
        if "ok" in c:
            res.ob()
            o = oc.outcomes(f)
            for s, w in o:
                if not any(type(s) in (bool, int) and s == k for k in c["ok"] + c["fail"]):
                    res.add("F4 contract", q, f"returns {s!r}, which the contract does not name", f.loc)
                if any(type(k) is type(s) and s == k for k in c["ok"]) and not any(p in w or "?" + p in w for p in c["outs"]):
                    res.add("F4 contract", q, f"reports success ({s!r}) on a path that wrote none of {', '.join(c['outs'])}", f.loc)
            if not any(s == k for s, _ in o for k in c["fail"]):
                res.add("F4 contract", q, "never reports a failure", f.loc)
    for f in prog.functions():
        if not inscope(f.module.name):
            continue
        res.functions.add(f.qual)
        if oc.alternatives(f):
            multi.append(f.qual)
        sink = analyse(oc, f)
        for (kind, key), (_, text, node) in sink.hits.items():
            if (f.qual, key[0]) in never:
                continue
            res.add(RULE[kind], f.qual, text, f"{f.module.rel}:{getattr(node, 'lineno', 0)}")
    if len(multi) < 40 or len(oc.sites) < 60:
        raise AnalysisError(f"only {len(multi)} functions with a failing outcome and {len(oc.sites)} calls of them were found")
    res.obligations += len(oc.sites)
    if len(gone) > 3:
        raise AnalysisError("the functions of sa/spec/outcome.json are not in the current source: " + ", ".join(gone))
    res.info.update(contracts_not_found=gone, functions_with_a_failing_outcome=len(multi), call_sites=len(oc.sites))
    for s in sorted(oc.sites, key=str)[:12]:
        res.sample(f"{s[4]}:{s[2]} calls {s[1]}")
    return res
