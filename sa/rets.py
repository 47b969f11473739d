"""Result shapes: for every function, what its paths can return."""
from __future__ import annotations
import ast

from .cfg import CFG
from .program import Function, Class, Ext
from .refs import resolve_in_fn, LocalTypes, bound_names

LISTY = {"list", "sorted"}
ARR = {"numpy.array", "numpy.asarray", "numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full", "numpy.zeros_like", "numpy.empty_like", "numpy.copy",
       "numpy.concatenate", "numpy.vstack", "numpy.hstack", "numpy.stack", "numpy.ascontiguousarray", "numpy.linspace", "numpy.arange"}
BOOLF = {"isinstance", "bool", "all", "any", "callable", "hasattr"}


def _atoms(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return _atoms(t.operand)
    if isinstance(t, ast.BoolOp):
        return [a for v in t.values for a in _atoms(v)]
    return []


def _eval(t, assume):
    """truth value of a test under (flag, val), or None"""
    if isinstance(t, ast.Name):
        return assume[1] if t.id == assume[0] else None
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = _eval(t.operand, assume)
        return None if v is None else not v
    if isinstance(t, ast.BoolOp):
        vs = [_eval(v, assume) for v in t.values]
        if isinstance(t.op, ast.And):
            return False if False in vs else (True if all(v is True for v in vs) else None)
        return True if True in vs else (False if all(v is False for v in vs) else None)
    return None


def is_generator(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        st.extend(ast.iter_child_nodes(n))
    return False


def is_stub(fn):
    b = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not b or all(isinstance(s, (ast.Pass, ast.Raise)) for s in b)


class Shapes:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.active = set()
        self.cut = set()
        self.lt = {}

    def of(self, f):
        """(kinds: frozenset, fallthrough: bool, nreturns) ; kinds of None-returns are 'none'"""
        if f in self.memo:
            return self.memo[f]
        if f in self.active:
            self.cut.add(f)
            return (frozenset(), False, 0)
        self.active.add(f)
        try:
            r = self._of(f)
        finally:
            self.active.discard(f)
        self.cut.discard(f)
        if not self.cut:            # a result that depends on a function still being evaluated is not kept
            self.memo[f] = r
        return r

    def under(self, f, flag, val):
        """kinds when parameter `flag` (never reassigned) is truthy/falsy: contradicting branches are pruned"""
        return self._of(f, (flag, val))

    def flags(self, f):
        """parameters tested bare (if p / if not p) and never rebound"""
        b, _ = bound_names(f.node.body)
        out = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.If):
                for a in _atoms(x.test):
                    if a in f.params and a not in b:
                        out.add(a)
        return sorted(out)

    def _of(self, f, assume=None):
        if is_generator(f.node):
            return (frozenset(["generator"]), False, 1)
        g = CFG(f.node)
        if assume is None:
            R = g.reachable()
        else:
            def ok(a, b, l):
                if a.kind == "test" and isinstance(a.ast, ast.If) and l in (True, False):
                    return _eval(a.ast.test, assume) in (None, l)
                return True
            R = g.reachable(edge=ok)
        ks = set()
        n = 0
        for r in g.returns:
            if r not in R:
                continue
            n += 1
            ks |= self.kind(f, r.ast.value)
        ft = any(a in R for a, l in g.fallthrough)
        return (frozenset(ks), ft, n)

    def kind(self, f, e, depth=0):
        if e is None:
            return {"none"}
        if depth > 6:
            return {"?"}
        if isinstance(e, ast.Constant):
            v = e.value
            if v is None:
                return {"none"}
            if isinstance(v, bool):
                return {"bool"}
            if isinstance(v, (int, float)):
                return {"num"}
            if isinstance(v, str):
                return {"str"}
            return {"?"}
        if isinstance(e, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return {"tuple*"}
            return {f"tuple{len(e.elts)}"}
        if isinstance(e, (ast.List, ast.ListComp)):
            return {"list"}
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return {"dict"}
        if isinstance(e, (ast.Set, ast.SetComp)):
            return {"set"}
        if isinstance(e, ast.GeneratorExp):
            return {"generator"}
        if isinstance(e, ast.IfExp):
            return self.kind(f, e.body, depth + 1) | self.kind(f, e.orelse, depth + 1)
        if isinstance(e, ast.Compare):
            return {"bool"} if all(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops) else {"?"}
        if isinstance(e, ast.UnaryOp):
            return {"bool"} if isinstance(e.op, ast.Not) else {"scalar"}
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Div, ast.FloorDiv, ast.Pow, ast.MatMult)):
            return {"scalar"}           # a number or an array, not a sequence
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name) and fn.id == "__cast__":
                return {"?"}
            r = resolve_in_fn(self.prog, f, fn) if isinstance(fn, (ast.Name, ast.Attribute)) else None
            if isinstance(r, Function):
                ks, ft, n = self.of(r)
                if r.sa.ret and r.sa.ret not in ("object", "tuple", "list"):
                    return {"?"}
                return set(ks) | ({"none"} if ft else set())
            if isinstance(r, Class):
                return {"obj:" + r.name}
            if isinstance(r, Ext):
                if r.path in ARR:
                    return {"array"}
                return {"?"}
            if isinstance(fn, ast.Name) and r is None and fn.id not in bound_names(f.node.body)[0]:
                if fn.id in LISTY:
                    return {"list"}
                if fn.id == "tuple":
                    return {"tuple*"}
                if fn.id in BOOLF:
                    return {"bool"}
                if fn.id in ("float", "int", "len", "hash"):
                    return {"num"}
                if fn.id == "dict":
                    return {"dict"}
                if fn.id == "set":
                    return {"set"}
                if fn.id in ("zip", "map", "filter", "reversed", "iter", "enumerate"):
                    return {"iterator"}
            if isinstance(fn, ast.Attribute):
                lt = self.lt.get(f)
                if lt is None:
                    lt = self.lt[f] = LocalTypes(self.prog, f)
                c = lt.etype(fn.value)
                if c is not None:
                    m = self.prog.find_method(c, fn.attr)
                    if m is not None and not any(fn.attr in k.methods for k in self.prog.subclasses(c) if k is not c):
                        ks, ft, n = self.of(m)
                        if m.sa.ret and m.sa.ret not in ("object", "tuple", "list"):
                            return {"?"}
                        return set(ks) | ({"none"} if ft else set())
            return {"?"}
        if isinstance(e, ast.Name):
            # a local with only one kind of binding
            if e.id in f.params:
                return {"?"}
            ks = set()
            n = 0
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name) and t.id == e.id:
                            n += 1
                            ks |= self.kind(f, x.value, depth + 1)
                        elif any(isinstance(y, ast.Name) and y.id == e.id and isinstance(y.ctx, ast.Store) for y in ast.walk(t)):
                            return {"?"}
                elif isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == e.id for y in ast.walk(x.target)):
                    return {"?"}
                elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == e.id:
                    if x.value is None:
                        continue
                    n += 1
                    ks |= self.kind(f, x.value, depth + 1)
                elif isinstance(x, ast.NamedExpr) and x.target.id == e.id:
                    return {"?"}
                elif isinstance(x, (ast.Global, ast.Nonlocal)) and e.id in x.names:
                    return {"?"}
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == e.id:
                    return {"?"}
                elif isinstance(x, ast.ExceptHandler) and x.name == e.id:
                    return {"?"}
            if n == 0:
                return {"?"}
            if "none" in ks and len(ks) > 1 or n > 1 and len(ks) > 1:
                # flow decides; give up on which
                return {"?"}
            return ks
        return {"?"}


def void(f):
    r = f.sa.ret
    return r is not None and r.split()[-1:] == ["void"]


def unpack_errors(prog, sh, f):
    """a, b = g(...) where every result of g is a tuple of another length"""
    out, n = [], 0
    for x in ast.walk(f.node):
        pairs = []
        if isinstance(x, ast.Assign):
            pairs = [(t, x.value) for t in x.targets]
        elif isinstance(x, (ast.For, ast.comprehension)):
            continue
        for t, v in pairs:
            if not isinstance(t, (ast.Tuple, ast.List)) or any(isinstance(y, ast.Starred) for y in t.elts) or not isinstance(v, ast.Call):
                continue
            ks = sh.kind(f, v)
            tup = {k for k in ks if k.startswith("tuple") and k != "tuple*"}
            if not tup or "?" in ks or "tuple*" in ks:
                continue
            n += 1
            if f"tuple{len(t.elts)}" not in tup:
                out.append((ast.unparse(v.func), len(t.elts), sorted(tup), x.lineno))
    return out, n
