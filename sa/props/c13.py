"""C13 - every computation ends: loops take a bounded number of rounds, recursions work on a smaller problem (sa/progress.py)."""
from __future__ import annotations
import ast
import json
import os
from ..core import Result, AnalysisError
from ..options import Options
from ..progress import Recursion, calls, fname, increment, key, loops_of, names, num, own_walk, GROW, base, mutating_names
from .c18 import inscope

EXPLANATION = ("Every while loop is read as a control-flow graph: from its ways out the measures that bound its rounds are collected (counters and lengths compared with a limit, containers "
               "emptied, links followed, intervals halved or marched through by arithmetic), and every feasible-looking cycle through the loop's head must move one of them toward its way out. "
               "Every recursive call must change something the base case looks at and move the depth the base case compares in the right direction.")
RULES = ["T1 unbounded: a way around a loop moves no counter, container, link or interval toward a way out (iterative refinements need a limit on the number of rounds)",
         "T2 stuck: a way around a loop reviewed to converge changes nothing its ways out depend on",
         "T3 same-problem: a recursive call repeats the arguments it was called with, or changes none the base case depends on",
         "T4 depth: the depth a recursion is limited by is not advanced, or no longer compared with anything",
         "T5 growing: a for loop appends to the list it runs over"]
ASSUMPTIONS = ["operations on containers and links do what their names say", "marching steps and halving factors have the sign they are documented with",
               "callables given by the caller end"]
SPEC = os.path.join(os.path.dirname(__file__), "..", "spec", "c13_progress.json")


def depth_params(r):
    """parameters handed to the recursion as themselves plus or minus a constant and compared in a test: {param: sign}"""
    out = {}
    for c, b in r.sites:
        for p, a in (b or {}).items():
            d = increment(a, p)
            if d and isinstance(a, ast.BinOp) and isinstance(a.op, (ast.Add, ast.Sub)) and p in r.sources(r.controls(c)):
                out[p] = d
    return out


def run(prog, tier):
    res = Result()
    sp = json.load(open(SPEC))
    O = Options(prog, inscope)

    def callee(f, c):
        return O.callee(f, c)[0]
    mut = mutating_names(prog.functions())
    nl = nr = 0
    done = set()
    depth_seen = set()
    for f in prog.functions():
        if not inscope(f.module.name) or id(f.node) in done:
            continue
        done.add(id(f.node))
        res.functions.add(f.qual)
        own = list(own_walk(f.node))
        if any(isinstance(x, ast.While) for x in own):
            _, ls = loops_of(f.node, callee, f)
            for l in ls:
                nl += 1
                weak = f.qual in sp["converges"]
                for v in l.variants():
                    res.ob()
                    c = None
                    for steps, wrong in l.rounds(v):
                        if weak:
                            steps = steps | l.weak_nodes(v, True)
                        c = l.cycle(steps)
                        if c:
                            break
                    if not c:
                        continue
                    t = ast.unparse(v[0] if v else l.w.test)
                    via = "" if c is True else ", ".join(str(x.ast.lineno) for x in c if hasattr(x.ast, "lineno"))
                    back = [n for n in (c if c is not True else []) if n.id in wrong]
                    # the fact must not depend on how the test is written
                    if back:
                        what = f"{wrong[back[0].id]} moves away from its limit"
                    elif weak:
                        what = "a round may change nothing the loop's exit depends on"
                    elif l.cycle(l.weak_nodes()):
                        what = "a round may change nothing the loop's exit depends on"
                    else:
                        what = "nothing bounds the number of rounds"
                    res.add("T2 stuck" if weak else "T1 unbounded", f.qual, what, f"{f.module.rel}:{l.w.lineno} while {t[:80]} (round through lines {via})")
        for x in own:
            if isinstance(x, ast.For) and key(x.iter):
                k = key(x.iter)
                res.ob()
                leaves = any(isinstance(y, (ast.Break, ast.Return, ast.Raise)) for s in x.body for y in ast.walk(s))
                if leaves or any(base(t) == k for s in x.body for y in ast.walk(s) if isinstance(y, ast.Assign) for t in y.targets):
                    continue
                for s in x.body:
                    for y in ast.walk(s):
                        if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in GROW - {"add", "insert", "put", "push"} and key(y.func.value) == k:
                            res.add("T5 growing", f.qual, f"appends to {k} while running over it", f"{f.module.rel}:{y.lineno}")
        if not any(isinstance(x, ast.Call) and fname(x) == f.name for x in own):
            continue
        r = Recursion(f, callee, mut)
        if not r.sites:
            continue
        short = f.qual.replace(".<locals>", "")
        want = sp["depth"].get(short, {})
        if want:
            depth_seen.add(short)
        for c, b in r.sites:
            nr += 1
            res.ob()
            loc = f"{f.module.rel}:{c.lineno}"
            if b is None:
                continue
            ct = r.controls(c)
            src = r.sources(ct)
            full = {p: b.get(p) for p in f.params}
            changed, const, given = set(), set(), set()
            for p, a in full.items():
                if a is None:
                    d = f.defaults().get(p)
                    if d is not None:
                        const.add(p)
                elif isinstance(a, ast.Constant):
                    const.add(p)
                    given.add(p)
                elif not r.same(a, p) or r.touched(p):
                    changed.add(p)
                elif p in r.assigned:
                    changed.add(p)
            me = f.params[0] if f.cls is not None and f.role != "static" and f.params else None
            if me and me not in changed and any(isinstance(x, ast.Attribute) and isinstance(getattr(x, "ctx", None), (ast.Store, ast.Del)) for x in own):
                continue
            # a mode switched to a fixed value: the test looks at the mode, or the value it looks at was made with it
            guarded = {p for p in const if any(p in {n.split(".")[0] for n in names(t)} for t in ct)} | given & src
            if not changed and not guarded:
                res.add("T3 same-problem", f.qual, "a recursive call repeats the arguments of the call it is made in", loc)
                continue
            if not ct:
                res.add("T3 same-problem", f.qual, "no test decides whether the function calls itself", loc)
                continue
            if not (changed & src) and not guarded and src & set(f.params):
                res.add("T3 same-problem", f.qual, "a recursive call changes nothing its base case depends on", loc)
                continue
            for p, d in want.items():
                if p not in f.params:
                    continue
                a = full.get(p)
                ok = a is not None and (increment(a, p) == d or not r.same(a, p) and p in names(a) and increment(a, p) is None or isinstance(a, ast.Name) and (p in r.assigned and a.id == p or derived(r, a.id, p)))
                if not ok:
                    res.add("T4 depth", f.qual, f"{p} is not advanced in a recursive call", loc)
                elif p not in src:
                    res.add("T4 depth", f.qual, f"{p} no longer decides whether the function calls itself", loc)
    if nl < 60 or nr < 60:
        raise AnalysisError(f"only {nl} while loops and {nr} recursive calls were found")
    res.info.update(while_loops=nl, recursive_calls=nr, depth_limited=sorted(depth_seen))
    res.sample(f"{nl} while loops, {nr} recursive calls; depth-limited: {', '.join(sorted(depth_seen))[:300]}")
    return res


def derived(r, n, p):
    return any(isinstance(x, ast.Assign) and any(base(t) == n for t in x.targets) and increment(x.value, p) for x in r.own)


def table(prog):
    O = Options(prog, inscope)
    out = {}
    for f in prog.functions():
        if inscope(f.module.name) and any(isinstance(x, ast.Call) and fname(x) == f.name for x in own_walk(f.node)):
            d = depth_params(Recursion(f, lambda f, c: O.callee(f, c)[0]))
            if d:
                out[f.qual.replace(".<locals>", "")] = d
    return out
