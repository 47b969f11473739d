"""C14 - every option and every distinction the code offers takes effect (sa/options.py)."""
from __future__ import annotations
import ast
import json
import os
from ..core import Result, AnalysisError
from ..options import Options, is_option, clobbered, same_branches, TOL, LIMIT, _loads
from .. import siblings
from .c18 import inscope

EXPLANATION = ("Every option (parameter with a default, tolerance, iteration or depth limit) of every function in scope is followed through assignments and "
               "calls: it must reach a result, a test, a store or a call that uses it; it is not overwritten before it is read; a function that takes an option under the same name as its caller "
               "receives the caller's value; options are not bound to another option's parameter; options a constructor stores are read; conditions have branches that differ and compare different things.")
RULES = ["O1 dead-option: the value of an option reaches nothing", "O2 not-forwarded: a callee with an option of the same name falls back to its own default",
         "O3 overwritten: an option is assigned before it is read", "O4 replaced: a constant is handed on in place of the caller's option of the same name",
         "O5 cross-wired: an option is bound to a different parameter although the callee has one of its name", "O6 stored-unread: an option a constructor stores is never read",
         "O7 vacuous condition: both branches are the same, or a value is compared with itself",
         "O8 literal: a comparison uses the literal default of a tolerance or limit the caller can set",
         "O9 bypassed: what an option replaces (interval() where bounds were given) is asked for again elsewhere in the function",
         "O10 uneven: of two calls alike but for the operand they are about, one receives another option"]
ASSUMPTIONS = ["an option handed to code outside the package takes effect there", "options with the same name in caller and callee mean the same thing (reviewed exceptions in sa/spec/options.json)"]
SPEC = os.path.join(os.path.dirname(__file__), "..", "spec", "options.json")


def run(prog, tier):
    res = Result()
    sp = json.load(open(SPEC))
    ok = {k: {tuple(x[:-1]) for x in v} for k, v in sp.items()}
    O = Options(prog, inscope)
    nopt = ncall = ncond = 0
    loaded = set()
    for f in prog.functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                loaded.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                loaded.add(n.args[1].value)
    for f in prog.functions():
        if not inscope(f.module.name):
            continue
        res.functions.add(f.qual)
        short = f.qual.replace(".<locals>", "")
        if not O.abstract(f):
            for i, p in enumerate(f.params):
                if i == 0 and f.cls is not None and f.role != "static" or p not in f.defaults() and not TOL.search(p) or p.startswith("_") or f.name.startswith("__") and f.name != "__init__":
                    continue
                nopt += 1
                res.ob()
                if (short, p) in ok["unused"] or interface(prog, f, p):
                    continue
                c = clobbered(f, p)
                if c is not None:
                    res.add("O3 overwritten", f.qual, f"option {p} is assigned before it is read", f"{f.module.rel}:{c.lineno}")
                elif not O.effective(f, p) or LIMIT.search(p) and not O.limits(f, p):
                    res.add("O1 dead-option", f.qual, f"option {p} has no effect", f.loc)
        own = own_options(prog, f)
        d0 = f.defaults()
        for p, dv in d0.items():
            v = num(dv)
            if v is None or not TOL.search(p) or v == int(v) and abs(v) < 3:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Compare) and not _loads(n, p):
                    res.ob()
                    for x in [n.left] + n.comparators:
                        if num(x) == v and type(num(x)) is type(v) and (short, p) not in ok["unused"] and (short, "literal " + ast.unparse(x)) not in ok["stored"]:
                            res.add("O8 literal", f.qual, f"{ast.unparse(n)[:70]} compares with the default of {p} instead of {p}", f"{f.module.rel}:{n.lineno}")
        for call, g, b in O.calls(f):
            if g is None:
                continue
            for q in g.defaults():
                if q in own and q not in f.params and is_option(g, q) and TOL.search(q) and not (g.cls is not None and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id == f.pos_params[0]):
                    res.ob()
                    if (short, gname(g, call), q) in ok["forward"]:
                        continue
                    if q not in b:
                        res.add("O2 not-forwarded", f.qual, f"{gname(g, call)} is called without the object's {q}", f"{f.module.rel}:{call.lineno}")
            ncall += 1
            loc = f"{f.module.rel}:{call.lineno}"
            d = g.defaults()
            for q in g.params:
                if q not in f.params or not is_option(g, q) or q.startswith("_") or q == "name" or f.pos_params[:1] == [q] and f.cls is not None:
                    continue
                if not (is_option(f, q)):
                    continue
                res.ob()
                if (short, gname(g, call), q) in ok["forward"]:
                    continue
                if q not in b:
                    if q in d and not default_known(call, f, q):
                        res.add("O2 not-forwarded", f.qual, f"{gname(g, call)} is called without the caller's {q}", loc)
                elif isinstance(b[q], ast.Constant) or isinstance(b[q], ast.UnaryOp) and isinstance(b[q].operand, ast.Constant):
                    if not dominated(f, call, q):
                        res.add("O4 replaced", f.qual, f"{gname(g, call)} receives {ast.unparse(b[q])} in place of the caller's {q}", loc)
            for q, a in b.items():
                if isinstance(a, ast.Name) and a.id in f.params and a.id != q and is_option(f, a.id) and is_option(g, q) and (a.id in g.params and is_option(g, a.id) or q in f.params and is_option(f, q)):
                    x = b.get(a.id)
                    res.ob()
                    if (short, g.name, q) not in ok["forward"] and not (x is not None and _loads(x, a.id)):
                        res.add("O5 cross-wired", f.qual, f"{a.id} is handed to {gname(g, call)} as {q}", loc)
        if f.name == "__init__" and f.cls is not None:
            me = f.pos_params[0] if f.pos_params else "self"
            for s in ast.walk(f.node):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == me:
                    ps = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)} & {p for p in f.params if is_option(f, p)}
                    for p in ps:
                        res.ob()
                        a = s.targets[0].attr
                        if a not in loaded and (f.cls.qual, a) not in ok["stored"] and not elsewhere(f, p, s):
                            res.add("O6 stored-unread", f.qual, f"option {p} is stored as {a}, which nothing reads", f"{f.module.rel}:{s.lineno}")
        if f.parent is None:
            bad, k = bypassed(f)
            res.ob(k)
            for n, p, d in bad:
                res.add("O9 bypassed", f.qual, f"{d} is asked for again although {p} may stand in its place", f"{f.module.rel}:{n.lineno}")
            bad, k = uneven(f)
            res.ob(k)
            for n, x, y in bad:
                res.add("O10 uneven", f.qual, f"one operand's call receives {x}, the other's {y}", f"{f.module.rel}:{n.lineno}")
            for n in ast.walk(f.node):
                loc = f"{f.module.rel}:{getattr(n, 'lineno', f.node.lineno)}"
                if isinstance(n, (ast.If, ast.IfExp)):
                    ncond += 1
                    res.ob()
                    if same_branches(n) and (short, "branches") not in ok["vacuous"]:
                        res.add("O7 vacuous", f.qual, f"both branches of {ast.unparse(n.test)[:60]} are the same", loc)
                elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                    res.ob()
                    a, b = n.left, n.comparators[0]
                    if not isinstance(a, ast.Constant) and ast.dump(a) == ast.dump(b) and not any(isinstance(x, ast.Call) and called(x) in STATEFUL for x in ast.walk(a)) and (short, ast.unparse(n)) not in ok["vacuous"] \
                            and not (isinstance(n.ops[0], (ast.NotEq, ast.Eq)) and isinstance(a, (ast.Name, ast.Attribute, ast.Subscript))):       # x != x: the NaN test
                        res.add("O7 vacuous", f.qual, f"{ast.unparse(n)} compares a value with itself", loc)
    if nopt < 300 or ncall < 600:
        raise AnalysisError(f"too few options found ({nopt}, {ncall} calls)")
    res.info = {"options": nopt, "resolved calls": ncall, "conditions": ncond}
    return res


def none_test(t):
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and isinstance(t.left, ast.Name):
        return t.left.id, isinstance(t.ops[0], ast.Is)
    return None


def bypassed(f):
    """uses of the value an option stands in for, besides the place where the option is filled in"""
    ps = {a.arg for a in f.arg_nodes()}
    fill = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.IfExp):
            t = none_test(n.test)
            if t and t[0] in ps:
                d, o = (n.body, n.orelse) if t[1] else (n.orelse, n.body)
                if any(isinstance(x, ast.Name) and x.id == t[0] for x in ast.walk(o)):
                    fill.setdefault(t[0], []).append(d)
        elif isinstance(n, ast.If):
            t = none_test(n.test)
            if t and t[1] and t[0] in ps:
                for a in n.body:
                    if isinstance(a, ast.Assign) and any(isinstance(e, ast.Name) and e.id == t[0] for g in a.targets for e in (g.elts if isinstance(g, ast.Tuple) else [g])):
                        fill.setdefault(t[0], []).append(a.value)
    out, cnt = [], 0
    for p, ds in fill.items():
        inside = {id(x) for d in ds for x in ast.walk(d)}
        for d in ds:
            while isinstance(d, ast.Call) and len(d.args) == 1 and not d.keywords:
                d = d.args[0]
            if not (isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr not in ("copy", "tolist", "astype")
                    and any(isinstance(x, ast.Name) and x.id in ps for x in ast.walk(d))):
                continue
            cnt += 1
            for x in ast.walk(f.node):
                if id(x) not in inside and type(x) is type(d) and ast.dump(x) == ast.dump(d):
                    out.append((x, p, ast.unparse(d)))
    return out, cnt


def uneven(f):
    """sibling arguments that exchange operand 1 for 2 throughout, but one option differs"""
    out, cnt = [], 0
    opts = {a.arg for a in f.arg_nodes()}
    for n in ast.walk(f.node):
        es = n.args if isinstance(n, ast.Call) else n.elts if isinstance(n, (ast.Tuple, ast.List)) else [n.left, n.right] if isinstance(n, ast.BinOp) else []
        for a, b in zip(es, es[1:]):
            if not (isinstance(a, ast.Call) and isinstance(b, ast.Call)):
                continue
            la, lb = siblings.leaves(a), siblings.leaves(b)
            if la[0] != lb[0]:
                continue
            d = [(x, y) for (x, _), (y, _) in zip(la[1], lb[1]) if x != y]
            mv = [z for z in d if siblings.mirrored(*z) == ("1", "2")]
            if len(mv) < 2:
                continue
            cnt += 1
            rest = [z for z in d if z not in mv]
            if len(rest) == 1 and set(rest[0]) <= opts:
                out.append((n, *rest[0]))
    return out, cnt


def gname(g, call):
    return ast.unparse(call.func).split(".")[-1] if g.cls is not None and g.name in ("__init__", "__cinit__") else g.name


def num(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    return None


def own_options(prog, f):
    """options the constructor of the method's class stores under their own name"""
    if f.cls is None or not f.pos_params or f.role == "static":
        return set()
    out = set()
    for k in prog.mro(f.cls):
        c = k.methods.get("__init__") or k.methods.get("__cinit__")
        if c is None:
            continue
        for s in ast.walk(c.node):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == c.pos_params[0] \
                    and isinstance(s.value, ast.Name) and s.value.id == s.targets[0].attr and s.value.id in c.params:
                out.add(s.value.id)
    return out


STATEFUL = {"next", "pop", "popleft", "read", "readline", "random", "rand", "randint", "get", "perf_counter", "time", "send", "recv"}


def called(x):
    return x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ""


def elsewhere(f, p, s):
    """p also does something else in the constructor"""
    from ..options import uses
    inside = {id(n) for n in ast.walk(s)}
    return any(k != "name" and id(n) not in inside for k, n in uses(f.node, p))


def interface(prog, f, p):
    """the signature is given by an overridden or sibling method, or by a protocol: not every implementation needs every parameter"""
    if f.parent is not None:
        return p not in f.defaults()
    if f.cls is None:
        return False
    for k in prog.mro(f.cls)[1:]:
        m = k.methods.get(f.name)
        if m is not None and p in m.params:
            return True
    return any(k is not f.cls and f.name in k.methods and p in k.methods[f.name].params for k in prog.subclasses(f.cls))


def default_known(call, f, q):
    """the call sits where the caller's option is known to be the default: under a test of the option"""
    return dominated(f, call, q)


def dominated(f, call, q):
    """is the call inside a branch of a test of q?"""
    for n in ast.walk(f.node):
        if isinstance(n, (ast.If, ast.IfExp)) and _loads(n.test, q):
            for b in (n.body if isinstance(n.body, list) else [n.body]) + (n.orelse if isinstance(n.orelse, list) else [n.orelse]):
                if any(x is call for x in ast.walk(b)):
                    return True
    return False
