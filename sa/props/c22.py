"""C22 - invalid input is refused and errors reach the caller.

Rejection-condition analysis (sa/guards.py) against spec/c22_guards.json, plus effect rules for exceptions: no raise inside a
function declared noexcept, no new handler that swallows the library's own errors, only exceptions are raised."""
import ast
import json
import os
import re

from .. import guards as G
from ..core import Result, AnalysisError, VERIF
from ..program import Function, Class
from ..refs import resolve_in_fn, LocalTypes
from .c18 import inscope

SPEC = os.path.join(VERIF, "sa", "spec", "c22_guards.json")
EXPLANATION = ("For each reviewed entry point the condition under which it raises is computed from its control flow as a boolean formula over its inputs "
               "(locals substituted, comparisons linear-normalised, helpers inlined) and must equal the documented one, decided by truth table with "
               "linear-arithmetic pruning; exception flow is checked through noexcept declarations and handlers.")
RULES = ["G1 not-refused: an input the documented condition rejects is accepted", "G2 over-refused: an input the documented condition accepts is rejected",
         "X1 lost-raise: a raise inside (or reached from) a function declared noexcept", "X2 swallowed: a handler discards errors the library raises on purpose",
         "X3 non-exception: raise of something that is not an exception"]
ASSUMPTIONS = ["only conditions expressible over the entry point's inputs are in the table; a condition rewritten with terms outside the table's vocabulary is not judged"]
EXCS = {"ValueError", "TypeError", "ZeroDivisionError", "NotImplementedError", "RuntimeError", "Exception", "IndexError", "KeyError"}
TOK = re.compile(r"\$\d+|[A-Za-z_~][\w.]*|'[^']*'|\"[^\"]*\"")
NEUTRAL = {"len", "abs", "norm", "is", "None", "in", "not", "and", "or", "True", "False", "fabs", "np.abs", "min", "max"}
# (function, exception type): reviewed handlers that continue on purpose
SWALLOW_OK = {("mmcore.compat.step.step_writer.process_token", "ValueError"), ("mmcore.geom.implicit.tree.octree.OCNode.lamp@setter", "*"),
              ("mmcore.numeric.fdm.newtons_method", "np.linalg.LinAlgError"), ("mmcore.numeric.fdm.multi_newtons_method", "np.linalg.LinAlgError"),
              ("mmcore.numeric.intersection.ssx._terminator.surface_surface_boundary_intersection", "Exception"),
              ("mmcore.numeric.newton.newtons_method_with_constraints", "np.linalg.LinAlgError"),
              ("mmcore.numeric.newton.bounded.bounded_newtons_method", "np.linalg.LinAlgError"), ("mmcore.numeric.newton.bounded.bounded_newtons_method", "*"),
              ("mmcore.numeric.newton.constrained.newtons_method22", "np.linalg.LinAlgError"), ("mmcore.numeric.newton.constrained.sqp_method", "np.linalg.LinAlgError")}
# entry points whose documented refusals are raised by the helper they call; raises that are no contract over the inputs
PROPAGATED = {"mmcore.ds.cdll.cdll.CDLL.__getitem__", "mmcore.ds.cdll.cdll.CDLL.__delitem__", "mmcore.ds.cdll.cdll.CDLL.pop"}
NOT_CONTRACT = {"mmcore.numeric.closest_point.closest_point_on_surface", "mmcore.numeric.algorithms.sweep_line.segment.Segment.compare",
                "mmcore.geom.surfaces.compute_intersection_curvature", "mmcore.geom.nurbs.NURBSCurve.cdeserialize"}
BROAD = {"*", "Exception", "BaseException"}
NARROW = {"ValueError", "ZeroDivisionError", "ArithmeticError", "RuntimeError", "MemoryError", "NotImplementedError", "AssertionError", "np.linalg.LinAlgError",
          "LinAlgError", "numpy.linalg.LinAlgError", "TypeError"}
BUILTIN_EXC = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else __import__("builtins")) if n[0].isupper()}


def opaque(f):
    return any("~" in a for a in G.atoms(f))


def conds(gd, f):
    """{exception: (formula of the resolved sites, number of opaque sites, formula)}"""
    out = {}
    for e, c in gd.rejects(f):
        if e not in EXCS:
            continue
        cl, op = out.get(e, (False, 0))
        if c is False:
            continue
        if c is not True and opaque(c):
            out[e] = (cl, op + 1)
        else:
            out[e] = (G.OR(cl, c), op)
    return out


def table(prog):
    gd = G.Guards(prog)
    out = {}
    lin = {}
    for f in prog.functions():
        if not inscope(f.module.name) or "<locals>" in f.qual:
            continue
        if not any(isinstance(x, ast.Raise) for x in ast.walk(f.node)) and f.qual not in PROPAGATED or f.qual in NOT_CONTRACT or f.name.startswith("_") and not f.name.endswith("__"):
            continue
        for e, (c, op) in conds(gd, f).items():
            if c is False or c is True or len(G.atoms(c)) > 10 or any("DEBUG_MODE" in a or len(a) > 160 for a in G.atoms(c)):
                continue
            out.setdefault(f.qual, {})[e] = {"when": G.to_json(c), "opaque_sites": op}
            for a in G.atoms(c):
                if a in G.LIN:
                    o, d = G.LIN[a]
                    lin[a] = [o, {t: str(v) for t, v in d.items()}]
    return {"conditions": out, "linear": lin}


def plain(a):
    """an atom over inputs and their attributes only"""
    return "~" not in a and not re.search(r"([A-Za-z_][\w.]*)\(", re.sub(r"\b(len|abs|fabs|min|max|isinstance|np\.abs)\(", "(", a))


def vocab(f):
    s = set()
    for a in G.atoms(f):
        s |= set(TOK.findall(a))
    return s


def run(prog, tier):
    from fractions import Fraction
    res = Result()
    with open(SPEC) as fh:
        spec = json.load(fh)
    for k, (o, d) in spec["linear"].items():
        G.LIN.setdefault(k, (o, {t: Fraction(v) for t, v in d.items()}))
    gd = G.Guards(prog)
    fns = {}
    for f in prog.functions():
        if inscope(f.module.name):
            fns.setdefault(f.qual, f)
            res.functions.add(f.qual)
    missing = 0
    for q, es in sorted(spec["conditions"].items()):
        f = fns.get(q)
        if f is None:
            missing += 1
            continue
        cur = conds(gd, f)
        for e, sp in sorted(es.items()):
            S = G.from_json(sp["when"])
            C, op = cur.get(e, (False, 0))
            res.ob(2)
            a = G.implied(S, C)
            narrowed = False
            voc = vocab(S) | NEUTRAL | {f"${i}" for i in range(12)}
            foreign = not vocab(C) <= voc
            if C is False and raises_elsewhere(prog, f, e):
                foreign = True
            if foreign and C is not False and C is not True and op <= sp["opaque_sites"] and G.implied(C, S) is True and \
                    set(G.atoms(S)) <= set(G.atoms(C)) and all(plain(x) for x in G.atoms(C)):
                foreign, narrowed = False, True            # the documented condition and something else about the inputs
            if a is not True and a is not None and not foreign and op <= sp["opaque_sites"]:
                res.add("G1 not-refused", q, f"{e} is documented when {show(S)}; the code raises it only when {show(C)}", loc=f.loc,
                        path=[f"input class: {', '.join(('' if v else 'not ') + k for k, v in a.items())}"])
            b = G.implied(C, S)
            if b is not True and b is not None and not foreign and not narrowed:
                res.add("G2 over-refused", q, f"{e} is documented only when {show(S)}; the code also raises it when {show(C)}", loc=f.loc,
                        path=[f"input class: {', '.join(('' if v else 'not ') + k for k, v in b.items())}"])
            res.sample(f"{q}: {e} iff {show(S)}")
    if missing > 0.3 * len(spec["conditions"]):
        raise AnalysisError(f"{missing} of {len(spec['conditions'])} reviewed entry points not found")
    res.info["entry_points"] = len(spec["conditions"]) - missing
    # exception flow
    rz = Raisers(prog)
    nne = nh = nr = 0
    for f in prog.functions():
        if not inscope(f.module.name):
            continue
        exc = f.sa.exc
        if exc and exc[0] is None and exc[1] is False:
            nne += 1
            res.ob()
            for line, what in rz.escaping(f):
                res.add("X1 lost-raise", f.qual, f"declared noexcept, but {what}", loc=f"{f.module.rel}:{line}")
        own = own_nodes(f.node)
        for x in own:
            if isinstance(x, ast.Try):
                for h in x.handlers:
                    nh += 1
                    res.ob()
                    ts = [ast.unparse(t) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else ["*"]
                    for t in ts:
                        if t not in BROAD and t not in NARROW or (f.qual, t) in SWALLOW_OK:
                            continue
                        if any(isinstance(y, ast.Raise) for s in h.body for y in ast.walk(s)):
                            continue
                        w = rz.in_body(f, x.body, t)
                        if w:
                            res.add("X2 swallowed", f.qual, f"except {t} discards {w}", loc=f"{f.module.rel}:{h.lineno}")
                if any(isinstance(y, ast.Return) for s in x.finalbody for y in ast.walk(s)):
                    res.add("X2 swallowed", f.qual, "return inside finally discards every exception", loc=f"{f.module.rel}:{x.lineno}")
            if isinstance(x, ast.Raise) and x.exc is not None:
                nr += 1
                res.ob()
                e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
                if isinstance(e, ast.Name) and e.id in ("NotImplemented", "Ellipsis"):
                    res.add("X3 non-exception", f.qual, f"raises {e.id}", loc=f"{f.module.rel}:{x.lineno}")
                elif isinstance(e, (ast.Name, ast.Attribute)):
                    r = resolve_in_fn(prog, f, e)
                    if isinstance(r, Function) and isinstance(x.exc, ast.Call):
                        if not any(isinstance(y, ast.Return) and isinstance(y.value, ast.Call) for y in ast.walk(r.node)):
                            res.add("X3 non-exception", f.qual, f"raises the result of {r.qual}", loc=f"{f.module.rel}:{x.lineno}")
                        elif any(isinstance(y, ast.Return) and not exc_valued(y.value) for y in ast.walk(r.node)):
                            res.add("X3 non-exception", f.qual, f"raises the result of {r.qual}", loc=f"{f.module.rel}:{x.lineno}")
                elif isinstance(e, ast.Constant):
                    res.add("X3 non-exception", f.qual, "raises a constant", loc=f"{f.module.rel}:{x.lineno}")
    res.info["noexcept_functions"], res.info["handlers"], res.info["raises"] = nne, nh, nr
    return res


def exc_valued(e):
    return isinstance(e, ast.Name) or isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and ast.unparse(e.func).split(".")[-1].endswith(("Error", "Exception", "Warning", "Iteration"))


def show(f):
    if f in (True, False):
        return "always" if f else "never"
    if f[0] == "a":
        return f[1]
    if f[0] == "not":
        g = f[1]
        if g[0] == "and":
            return "(" + " or ".join(show(G.NOT(x)) for x in g[1:]) + ")"
        return f"not ({show(g)})"
    return "(" + " and ".join(show(x) for x in f[1:]) + ")"


def own_nodes(fn):
    st, out = list(fn.body), []
    while st:
        x = st.pop()
        out.append(x)
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return out


def raises_elsewhere(prog, f, e):
    """f still raises e through something the guard extraction does not resolve (helper called inside an expression)"""
    rz = Raisers(prog)
    return bool(rz.in_body(f, f.node.body, e))


class Raisers:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.lts = {}

    def callee(self, f, c):
        if isinstance(c.func, (ast.Name, ast.Attribute)):
            r = resolve_in_fn(self.prog, f, c.func)
            if isinstance(r, Function):
                return r
            if isinstance(r, Class):
                return self.prog.find_method(r, "__init__") or self.prog.find_method(r, "__cinit__")
            if isinstance(c.func, ast.Attribute) and r is None:
                lt = self.lts.get(f)
                if lt is None:
                    lt = self.lts[f] = LocalTypes(self.prog, f)
                k = lt.etype(c.func.value)
                if k is not None:
                    return self.prog.find_method(k, c.func.attr)
        return None

    def of(self, f, depth=3):
        """exception names f raises on purpose, transitively"""
        key = (f, depth)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = frozenset()
        out = set()
        for line, w, n in self.sites(f, f.node.body, depth):
            out.add(n)
        self.memo[key] = frozenset(out)
        return self.memo[key]

    def sites(self, f, body, depth):
        """(line, description, exception name) of raises not caught inside body"""
        st = [(s, ()) for s in body]
        while st:
            x, caught = st.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, ast.Try):
                c2 = caught
                if x.handlers:
                    c2 = caught + tuple(ast.unparse(t) for h in x.handlers for t in ((h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if h.type is not None else [ast.Name(id="*")])
                                        if not any(isinstance(y, ast.Raise) for s in h.body for y in ast.walk(s)))
                st += [(s, c2) for s in x.body]
                for h in x.handlers:
                    st += [(s, caught) for s in h.body]
                st += [(s, caught) for s in x.orelse + x.finalbody]
                continue
            if isinstance(x, ast.Raise) and x.exc is not None:
                e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
                n = ast.unparse(e)
                if not catches(caught, n):
                    yield x.lineno, f"it raises {n}", n
            elif isinstance(x, ast.Call) and depth > 0:
                g = self.callee(f, x)
                if g is not None and g is not f and not (g.sa.exc and g.sa.exc[0] is None and g.sa.exc[1] is False):
                    for n in self.of(g, depth - 1):
                        if not catches(caught, n):
                            yield x.lineno, f"it calls {g.qual}, which raises {n}", n
            for c in ast.iter_child_nodes(x):
                st.append((c, caught))

    def escaping(self, f):
        return [(l, w) for l, w, n in self.sites(f, f.node.body, 2) if n != "MemoryError"]

    def in_body(self, f, body, t):
        for l, w, n in self.sites(f, body, 3):
            if n == "NotImplementedError" and t != n and t not in BROAD:
                continue
            if t in BROAD or n == t or (t in ("RuntimeError",) and n == "NotImplementedError") or (t == "ArithmeticError" and n == "ZeroDivisionError"):
                return w.replace("it raises", "the").replace("it calls", "the error of")
        return None


def catches(caught, n):
    return any(c in BROAD or c == n for c in caught)
