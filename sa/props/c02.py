"""C02 - results are independent of the objects they were computed from.

Reachability over points-to summaries.  For every function of the reviewed table (spec/c02_independent.json:
public functions and methods whose result is a mutable value that shares nothing with their arguments), no
location reachable from the returned value may be a mutable location of an argument, of self or of a module
global.  For every constructor of the table, no array handed in by the caller is stored without a copy."""
import ast
import json
import os
from ..alias import Analyzer, root_of, show, path_of, ELEM
from ..program import Class
from ..core import Result, require, VERIF

SPEC = os.path.join(VERIF, "sa", "spec", "c02_independent.json")
EXPLANATION = ("Points-to reachability: for each listed public function, every location reachable from its returned value "
               "(through fields, elements, memo tables and bound methods) must be allocated during the call; for each listed "
               "constructor, no stored field may reach an argument buffer. A reachable argument/self/global buffer is a "
               "violation naming the function and the access path.")
RULES = ["R1 result-shares-storage: returned value reaches a mutable location of an argument, self or a global",
         "R2 constructor-keeps-argument: a field of the new object reaches a buffer passed by the caller",
         "R3 parts-share-storage: two parts of one result (the halves of a split) reach the same mutable storage"]
ASSUMPTIONS = ["calls that cannot be resolved return fresh values",
               "np.asarray/memoryview casts share storage; np.array/np.copy/arithmetic allocate",
               "getters documented as live views (not in the table) are outside the property"]
SCOPE = ("mmcore.geom.", "mmcore.numeric.", "mmcore.construction", "mmcore.topo.brep")


def public(f):
    if f.sa.kind == "cdef" and f.role != "static":
        return False
    if "<locals>" in f.qual:
        return False
    n = f.name
    if n.startswith("_"):
        return n in ("__copy__", "__deepcopy__", "__call__", "__add__", "__sub__", "__mul__", "__truediv__", "__neg__",
                     "__pow__", "__and__", "__or__", "__getstate__", "__reduce__")
    return True


def inscope(f):
    return f.module.name.startswith(SCOPE) or f.module.name == "mmcore.construction"


def reach(s, v):
    seen = {}
    todo = []
    def push(v, p):
        for l in v.locs:
            todo.append((l, p))
        for i, x in enumerate(v.elts or ()):
            push(x, p + (ELEM,))
    push(v, ())
    while todo:
        l, p = todo.pop()
        if l in seen:
            continue
        seen[l] = p
        for (b, f), (val, w) in s.stores.items():
            if b == l and f[0] != "$" and val is not None:
                push(val, p + (f,))
    return seen


def mutable(f, s, loc):
    """is there positive evidence that `loc` is a mutable value?"""
    t = s.types.get(loc)
    if t in ("arr", "cont") or isinstance(t, Class):
        return True
    if loc[0] == "P":
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == loc[1]:
                return True
            if isinstance(n, ast.Attribute) and n.attr in ("shape", "ndim", "dtype") and isinstance(n.value, ast.Name) and n.value.id == loc[1]:
                return True
    return False


def shared(f, s, array_result=False):
    """array_result: the reviewed function always returns an array/geometry object, so whatever it returns directly is one"""
    out = {}
    if s.ret is None:
        return out
    for l, p in reach(s, s.ret).items():
        if root_of(l)[0] in "PG" and (mutable(f, s, l) or array_result and not p):
            out[show(l)] = "".join("[*]" if x == ELEM else "." + x for x in p)
    return out


def halves(f, s):
    """parts of a returned tuple that reach the same mutable storage allocated by the call"""
    out = {}
    if s.ret is None or not s.ret.elts or len(s.ret.elts) < 2:
        return out
    got = []
    for x in s.ret.elts:
        r = {}
        seen, todo = {}, [(l, ()) for l in x.locs]
        for i, y in enumerate(x.elts or ()):
            todo += [(l, (ELEM,)) for l in y.locs]
        while todo:
            l, p = todo.pop()
            if l in seen:
                continue
            seen[l] = p
            for (b, f_), (val, w) in s.stores.items():
                if b == l and f_[0] != "$" and val is not None:
                    todo += [(m, p + (f_,)) for m in val.locs]
        got.append(seen)
    for i in range(len(got)):
        for j in range(i):
            for l in got[i]:
                if l in got[j] and root_of(l)[0] == "A" and mutable(f, s, l):
                    out[show(l)] = (j, i, "".join("[*]" if x == ELEM else "." + x for x in got[i][l]))
    return out


def path_label(l):
    """what is shared, without line numbers"""
    import re
    return re.sub(r":\d+:\d+", "", l)


def kept(f, s, params=None):
    """constructor: caller buffers (of the listed parameter positions) reachable from fields of self"""
    out = {}
    pos = f.pos_params
    me = ("P", pos[0]) if pos else None
    names = None if params is None else {pos[i] for i in params if i < len(pos)}
    for (b, fld), (val, w) in s.stores.items():
        if b != me or val is None or fld[0] == "$":
            continue
        for l, p in reach(s, val).items():
            r = root_of(l)
            if r[0] == "P" and r != me and (names is None or r[1] in names):
                out[f".{fld}"] = show(l)
    return out


def result_mutable(s):
    if s.ret is None:
        return False
    return any(root_of(l)[0] == "A" and not l[1].endswith(("tuple", "lambda", "dict", "bound", "memo")) for l in reach(s, s.ret))


def candidates(prog, A):
    fns, ctors = [], []
    for f in prog.functions():
        if not inscope(f):
            continue
        s = A.summary(f)
        if f.cls is not None and f.name in ("__init__", "__cinit__"):
            if s.stores and not kept(f, s) and any(b == ("P", f.pos_params[0]) for b, _ in s.stores) and len(f.params) > 1:
                ctors.append(f)
            continue
        if public(f) and result_mutable(s) and not any(
                root_of(l)[0] in "PG" for l in reach(s, s.ret)):
            fns.append(f)
    return fns, ctors


def run(prog, tier):
    res = Result()
    require(prog, "mmcore.geom.nurbs:NURBSCurve.copy", "mmcore.geom.nurbs:NURBSSurface.copy", "mmcore.geom.nurbs:split_curve")
    with open(SPEC) as fh:
        spec = json.load(fh)
    A = Analyzer(prog, {})
    arrays = set(spec["array_result"])
    byq = {}
    for f in prog.functions():
        byq.setdefault(f.qual, []).append(f)
    for q in spec["functions"]:
        for f in byq.get(q, []):
            s = A.summary(f)
            res.ob()
            res.functions.add(q)
            bad = shared(f, s, q in arrays)
            for l, p in sorted(bad.items()):
                if l in spec.get("allow", {}).get(q, []):
                    continue
                res.add("R1 result-shares-storage", q, f"result{p} is {l}", loc=f.loc)
    for q in spec["disjoint_parts"]:
        for f in byq.get(q, []):
            s = A.summary(f)
            res.ob()
            for l, (i, j, p) in sorted(halves(f, s).items()):
                res.add("R3 parts-share-storage", q, f"parts {i} and {j} of the result share {path_label(l)}{p}", loc=f.loc)
    for q, params in spec["constructors"].items():
        for f in byq.get(q, []):
            s = A.summary(f)
            res.ob(len(params))
            res.functions.add(q)
            for fld, l in sorted(kept(f, s, params).items()):
                res.add("R2 constructor-keeps-argument", q, f"{fld} is argument {l}", loc=f.loc)
    res.info["listed_functions"] = len(spec["functions"])
    res.info["listed_constructors"] = len(spec["constructors"])
    for q in spec["functions"][:10]:
        res.sample(q)
    res.info["unresolved_calls"] = A.unresolved
    return res


def generate():
    """used once to draft the table that was then reviewed by hand (never at check time)"""
    from ..program import Program
    P = Program("/repo")
    A = Analyzer(P, {})
    fns, ctors = candidates(P, A)
    arr = sorted({f.qual for f in fns if A.summary(f).ret.kind in ("arr", "obj")})
    cs = {}
    for f in ctors:
        cs[f.qual] = [i for i, p in enumerate(f.pos_params) if i and A.summary(f).types.get(("P", p)) == "arr" or i and f.ann(p) is None]
    return sorted({f.qual for f in fns}), arr, cs
