"""Dimensions: which power of the unit of length and of the parameters of a curve or surface a quantity carries.

('D', (l, t, u, v)) with Fractions; ('k', number) literals (fit anything); 'bot' nothing stored yet; None unknown.
Points and distances are L, derivatives of a curve L/T, L/T^2, of a surface L/U, L/V, L/U^2, L/UV, L/V^2."""
from __future__ import annotations
import ast
import re
from fractions import Fraction
from .absint import Domain, tup, _key
from .blend import blends_of

Z = (Fraction(0),) * 4
NAMES = "LTUV"


def D(l=0, t=0, u=0, v=0):
    return ("D", (Fraction(l), Fraction(t), Fraction(u), Fraction(v)))


ONE = D()
STEPS = {"H", "h", "DEFAULT_H"}
PLANE = ("T", (D(1), D(), D(), D()))
METHODS = {
    "evaluate": D(1), "evaluate_v2": D(1), "cevaluate": D(1), "evaluate_multi": D(1), "point_at": D(1),
    "derivative": D(1, -1), "second_derivative": D(1, -2), "third_derivative": D(1, -3),
    "derivative_u": D(1, 0, -1), "derivative_v": D(1, 0, 0, -1), "second_derivative_uu": D(1, 0, -2), "second_derivative_uv": D(1, 0, -1, -1),
    "second_derivative_vv": D(1, 0, 0, -2), "derivatives": ("T", (D(1, 0, -1), D(1, 0, 0, -1))),
}
OUTS = {        # void methods that fill their last arguments
    "cevaluate": (D(1),), "cderivative": (D(1, -1),), "csecond_derivative": (D(1, -2),), "cderivative_u": (D(1, 0, -1),), "cderivative_v": (D(1, 0, 0, -1),),
    "csecond_derivative_uu": (D(1, 0, -2),), "csecond_derivative_uv": (D(1, 0, -1, -1),), "csecond_derivative_vv": (D(1, 0, 0, -2),),
    "cevaluate_v2": (D(1),),
}
UV = ("T", (D(0, 0, 1), D(0, 0, 0, 1)))
SECOND = ("T", (D(1), D(1, 0, -1), D(1, 0, 0, -1), D(1, 0, -2), D(1, 0, 0, -2), D(1, 0, -1, -1)))
NORM = {"norm", "scalar_norm", "norm3d", "c_norm", "abs", "fabs", "absolute", "fabsf", "scalar_norm3d", "euclidean_norm", "hypot"}
DOT = {"dot", "scalar_dot", "inner", "vdot", "dot3d", "scalar_dot3d", "matmul", "dot_three_values", "dot_array_x_array"}
CROSS = {"cross", "scalar_cross", "scalar_cross3d", "outer"}
UNITF = {"unit", "scalar_unit", "scalar_normalize", "normalize"}
SAME = {"float", "asarray", "array", "copy", "ascontiguousarray", "float64", "ravel", "flatten", "reshape", "squeeze", "sum", "nansum", "mean", "cumsum", "sorted", "sort", "tolist",
        "amin", "amax", "nanmin", "nanmax", "atleast_1d", "atleast_2d", "list", "tuple", "__cast__", "item", "transpose", "diff", "average", "negative", "asanyarray", "copy", "neg"}
KEEP = {"asarray", "array", "list", "tuple", "copy", "ascontiguousarray", "tolist", "asanyarray"}
EQUAL = {"max", "min", "maximum", "minimum", "fmax", "fmin", "add", "subtract", "sub", "interval_add"}
FREE = {"sin", "cos", "tan", "exp", "log", "log10", "log2", "cosh", "sinh", "tanh", "arccos", "acos", "arcsin", "asin", "atan", "arctan", "expm1", "log1p"}
ANGLE = {"sin", "cos", "tan"}
TOL = re.compile(r"(^|_)[arxfghp]*tol(erance|s|sq)?\d?($|_)|^eps(ilon)?\d?$|^[a-z_]*_eps(ilon)?$|^EPS|SMALL|TINY|^[hH]$|step|delta", re.I)
LENGTH = re.compile(r"radius|radius\d|cent(er|re)|origin|control_points|(pt|point)s?\d?|[a-z]_(pt|point)")
VECF = NORM | DOT | CROSS | UNITF | {"det", "solve2x2", "solve", "inv", "gram_schmidt", "scalar_gram_schmidt", "lstsq", "second_derivatives"}


def isd(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "D"


def isk(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "k"


def show(v):
    if tup(v):
        return "(" + ", ".join(show(x) for x in v[1]) + ")"
    if not isd(v):
        return "?"
    n = [NAMES[i] + ("" if x == 1 else f"^{x}") for i, x in enumerate(v[1]) if x > 0]
    d = [NAMES[i] + ("" if x == -1 else f"^{-x}") for i, x in enumerate(v[1]) if x < 0]
    return ("*".join(n) or "1") + ("/" + "/".join(d) if d else "")


def tiny(v):
    return isk(v) and isinstance(v[1], float) and 0 < abs(v[1]) <= 1e-2


class Dims(Domain):
    cells = True

    def __init__(self, spec, exempt=()):
        self.spec, self.exempt = spec, exempt
        self.hits, self.checks = {}, {}

    # ------------------------------------------------------------ reporting
    def same(self, w, a, b, node, what, an=None, bn=None):
        """both known and equal (or one is a literal)"""
        if isd(a) and isd(b):
            key = (w.f.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), what)
            if a[1] != b[1]:
                if w.f.qual in self.exempt:
                    return False
                self.checks[key] = False
                t = f"{what}: '{ast.unparse(an)}' is {show(a)}, '{ast.unparse(bn)}' is {show(b)}" if an is not None else f"{what}: {show(a)} and {show(b)}"
                self.hits.setdefault(key, (w.f, node, t))
                return False
            self.checks.setdefault(key, True)
        return True

    def seed(self, f, p):
        s = self.spec.get(f.qual) or self.spec.get(f.name)
        if s and p in f.params:
            i = f.params.index(p)
            if i < len(s["params"]):
                return parse(s["params"][i])
        if LENGTH.fullmatch(p):
            return D(1)
        if re.fullmatch(r"(pln|plane)\d?", p):
            return PLANE
        if re.fullmatch(r"result|res|out(put)?|out_[a-z]+", p):
            return "bot"
        if p == "ray":
            return ("T", (D(1), D(1, -1)))
        return None

    def expected(self, f):
        """(dimension of the result, or of the last parameter) of a method named after what it returns"""
        if len(f.params) < 2:
            return None, None
        e = re.fullmatch(r"c_derivative_(u|v|uu|uv|vv)", f.name)
        if e and "evaluator" in f.module.name:
            return METHODS[("" if len(e.group(1)) == 1 else "second_") + "derivative_" + e.group(1)], f.params[-1]
        if f.cls is None:
            return None, None
        if f.name in METHODS and f.name != "derivatives":
            return METHODS[f.name], None
        if f.name in OUTS:
            return OUTS[f.name][0], f.params[-1]
        return None, None

    def results(self, f, ret, outs):
        """compare what a method gives with what its name promises"""
        want, p = self.expected(f)
        if want is not None and p:
            self.named(f, outs.get(p), want)

    def returned(self, w, v, node):
        if len(self.engine.active) != 1:
            return
        f = w.f
        s = self.spec.get(f.qual)
        if s and "returns" in s:
            self.agree(f, v, parse(s["returns"]), "result", node)
        want, p = self.expected(f)
        if want is not None and not p:
            self.named(f, v, want, node)

    def named(self, f, got, want, node=None):
        if tup(got):
            got = self.engine.flat(got)
        if isd(got) and got[1][0] == want[1][0] and not any(got[1][1:]) and any(want[1][1:]) and not any(isinstance(x, ast.Name) and x.id in STEPS for x in ast.walk(f.node)):
            return          # over a parameter that runs from 0 to 1
        if isd(got) and not f.name.lstrip("c").startswith("evaluate"):
            key = (f.qual, (node or f.node).lineno, 0, "result")
            self.checks[key] = got == want
            if got != want:
                self.hits.setdefault(key, (f, node or f.node, f"result: {f.name} gives {show(got)} where {show(want)} is expected"))

    def agree(self, f, got, want, what, node):
        if tup(want):
            for i, x in enumerate(want[1]):
                self.agree(f, got[1][i] if tup(got) and len(got[1]) == len(want[1]) else None, x, f"{what} {i + 1}", node)
            return
        if tup(got):
            got = self.engine.flat(got)
        if isd(got) and isd(want):
            key = (f.qual, node.lineno, 0, what)
            self.checks[key] = got == want
            if got != want and f.qual not in self.exempt:
                self.hits.setdefault(key, (f, node, f"{what}: {show(got)} where {show(want)} is expected"))

    def const(self, v):
        if type(v) in (int, float):
            return ("k", v)
        return None

    def join(self, a, b):
        if isk(a) and isk(b):
            return ("k", max(abs(a[1]), abs(b[1])) + 2)
        if isk(a):
            return b
        if isk(b):
            return a
        return None

    # ------------------------------------------------------------ arithmetic
    def mul(self, w, a, b, div=False):
        if isk(a) and isk(b):
            try:
                return ("k", a[1] / b[1] if div else a[1] * b[1])
            except (ZeroDivisionError, OverflowError):
                return None
        if tiny(a) or tiny(b):
            return None
        if a == "bot" or b == "bot":
            return "bot" if not div else None
        if isk(a) and a[1] == 0:
            return a
        if isk(b) and b[1] == 0:
            return b
        if isk(b):
            return a
        if isk(a):
            return ("D", tuple(-x for x in b[1])) if div and isd(b) else b if not div else None
        if isd(a) and isd(b):
            return ("D", tuple(x - y if div else x + y for x, y in zip(a[1], b[1])))
        return None

    def power(self, a, n):
        if isd(a):
            return ("D", tuple(x * n for x in a[1]))
        return None

    def binop(self, w, op, a, b, an, bn, node):
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            if tup(a) and tup(b):
                if isinstance(op, ast.Add) and isinstance(an, ast.Call) and isinstance(bn, ast.Call) and len(a[1]) == len(b[1]) and any(
                        isd(x) and isd(y) and x != y for x, y in zip(a[1], b[1])):
                    return ("T", a[1] + b[1])       # tuples, put together
                if len(a[1]) == len(b[1]):
                    return ("T", tuple(self.binop(w, op, x, y, an, bn, node) for x, y in zip(a[1], b[1])))
                return None
            if tup(a):
                return ("T", tuple(self.binop(w, op, x, b, an, bn, node) for x in a[1]))
            if tup(b):
                return ("T", tuple(self.binop(w, op, a, y, an, bn, node) for y in b[1]))
        if isinstance(op, (ast.Add, ast.Sub)):
            if isd(a) and isd(b):
                self.same(w, a, b, node, "sum" if isinstance(op, ast.Add) else "difference", an, bn)
                return a if a[1] == b[1] else None
            for x, y, yn in ((a, b, bn), (b, a, an)):
                if isd(x) and (isk(y) or y == "bot"):
                    if isk(y) and abs(y[1]) >= 0.5 and (x[1][0] != 0 or sum(map(abs, x[1])) > 1 or min(x[1]) < 0) and isinstance(yn, ast.Constant):
                        self.same(w, x, ONE, node, "sum" if isinstance(op, ast.Add) else "difference", an if yn is bn else bn, yn)
                    return x
                if isd(x) and y is None:
                    if isinstance(yn, ast.Name) and not TOL.search(yn.id) and yn.id in w.env and not isinstance(node, ast.AugAssign) and self.plain(w, yn.id):
                        w.env[yn.id] = x
                    return None if isinstance(yn, ast.Name) and TOL.search(yn.id) else x
            if isk(a) and isk(b):
                return ("k", 2)
            if a is None and b is None and isinstance(op, ast.Add) and isinstance(node, ast.BinOp):
                return self.blend(w, node)
            return None
        if isinstance(op, ast.Mult):
            return self.mul(w, a, b)
        if isinstance(op, ast.Div):
            return self.mul(w, a, b, True)
        if isinstance(op, ast.Pow):
            if isk(b) and isd(a):
                return self.power(a, Fraction(b[1]).limit_denominator(12))
            if tup(a) and isk(b):
                return ("T", tuple(self.binop(w, op, x, b, an, bn, node) for x in a[1]))
            if isk(a) and isk(b):
                return ("k", 2)
            return None
        if isinstance(op, ast.MatMult):
            return self.dot(w, a, b)
        if isinstance(op, ast.Mod):
            return a
        return None

    def blend(self, w, node):
        """(1 - t) * A + t * B: A and B are alike, whatever t is"""
        for n, _, t, lo, hi in blends_of(node):
            hi = [x for x in hi if ast.dump(x) != t]
            if len(lo) == len(hi) == 1:
                x, y = w.ev(lo[0]), w.ev(hi[0])
                if isd(x) and isd(y):
                    self.same(w, x, y, node, "sum", lo[0], hi[0])
        return None

    def plain(self, w, n):
        return n in w.f.params and not any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in ast.walk(w.f.node))

    def unop(self, w, op, v):
        if isk(v) and isinstance(op, ast.USub):
            return ("k", -v[1])
        return v if isinstance(op, (ast.USub, ast.UAdd)) else None

    def compare(self, w, op, a, b, an, bn, node):
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            if isd(a) and isd(b):
                self.same(w, a, b, node, "comparison", an, bn)

    def dot(self, w, a, b):
        if tup(a) and tup(b) and len(a[1]) == len(b[1]) and not any(tup(x) for x in a[1] + b[1]):
            r = "bot"
            for x, y in zip(a[1], b[1]):
                r = w.eng.join(r, self.mul(w, x, y))
            return r
        if tup(a) or tup(b):
            return None if any(tup(x) for v in (a, b) if tup(v) for x in v[1]) else self.mul(w, w.eng.flat(a), w.eng.flat(b))
        return self.mul(w, a, b)

    # ------------------------------------------------------------ calls
    def call(self, w, node, name, recv, args, kws, g):
        fn = node.func
        fl = w.eng.flat
        s = self.spec.get(w.f.qual)
        if s and "calls" in s:
            k = ast.unparse(fn)
            if k in s["calls"]:
                return parse(s["calls"][k])
        if name == "isclose" and len(args) >= 2:
            a, b = fl(args[0]), fl(args[1])
            if isd(a) and isd(b):
                self.same(w, a, b, node, "comparison", node.args[0], node.args[1])
            return None
        if name == "second_derivatives" and len(args) >= 3:
            return SECOND
        if isinstance(fn, ast.Attribute) and name in OUTS and len(args) >= 2 and not module(w, fn.value):
            outs = OUTS[name]
            for a, o in zip(node.args[-len(outs):], outs):
                w.assign(stored(a), o, None)
            return None
        if isinstance(fn, ast.Attribute) and name in METHODS and args and not module(w, fn.value):
            a = node.args[0]
            if len(args) == 1 and isinstance(a, ast.Name) and args[0] is None and a.id in w.env:
                if name in ("derivative_u", "derivative_v") or name.startswith("second_derivative_"):
                    w.env[a.id] = UV
                elif name in ("derivative", "second_derivative"):
                    w.env[a.id] = D(0, 1)
            if name in ("derivative_u", "derivative_v", "derivatives") or name.startswith("second_derivative_") or name in ("derivative", "second_derivative") or name.startswith("evaluate"):
                return METHODS[name]
        if name == "callback" and args and isinstance(fn, ast.Name) and name in w.f.params:
            return D(1)
        if name in NORM and args:
            v = args[0]
            if tup(v):
                v = fl(v)
            return v
        if name in ("scalar_norm_sq", "norm_sq", "square") and args:
            return self.power(fl(args[0]), 2)
        if name in DOT and args:
            aa = list(args) if len(args) > 1 else [recv] + list(args) if isinstance(fn, ast.Attribute) else list(args)
            if len(aa) >= 2:
                r = self.dot(w, aa[0], aa[1])
                if len(node.args) >= 3 and isinstance(node.args[2], ast.Name) and g is not None:
                    w.env[node.args[2].id] = r
                return r
        if name in CROSS and len(args) >= 2:
            r = self.mul(w, fl(args[0]), fl(args[1]))
            if len(node.args) >= 3 and isinstance(node.args[2], (ast.Name, ast.Subscript)):
                w.assign(stored(node.args[2]), r, None)
            return r
        if name in UNITF and args:
            if name in ("scalar_normalize", "normalize") and isinstance(node.args[0], ast.Name):
                w.env[node.args[0].id] = ONE
                return None
            return ONE
        if name in ("gram_schmidt", "scalar_gram_schmidt") and len(args) >= 2:
            return fl(args[1])
        if name in ("sqrt",) and args:
            return self.power(fl(args[0]), Fraction(1, 2)) if not isk(fl(args[0])) else ("k", 2)
        if name in ("pow", "power", "float_power") and len(args) == 2:
            return self.binop(w, ast.Pow(), args[0], args[1], node.args[0], node.args[1], node)
        if name == "cbrt" and args:
            return self.power(fl(args[0]), Fraction(1, 3))
        if name in FREE and args and g is None:
            v = fl(args[0])
            if isd(v) and name not in ("log", "log10", "log2"):
                if v[1][0] != 0:
                    self.same(w, v, ONE, node, "argument", node.args[0], ast.Constant(1))
                else:
                    self.same(w, ONE, ONE, node, "argument")
            return ONE
        if name in ("atan2", "arctan2") and len(args) == 2:
            self.same(w, fl(args[0]), fl(args[1]), node, "angle", node.args[0], node.args[1])
            return ONE
        if name == "det" and args:
            a = args[0]
            if tup(a) and len(a[1]) == 2 and all(tup(x) and len(x[1]) == 2 for x in a[1]):
                p, q = self.mul(w, a[1][0][1][0], a[1][1][1][1]), self.mul(w, a[1][0][1][1], a[1][1][1][0])
                self.same(w, p, q, node, "determinant")
                return p
            return None
        if name == "solve3x2" and len(args) >= 5:
            return ("T", (None, self.mul(w, fl(args[2]), fl(args[0]), True), self.mul(w, fl(args[2]), fl(args[1]), True), None, None))
        if name in ("solve2x2", "solve", "lstsq") and len(args) >= 2 and (name == "solve2x2" or isinstance(fn, ast.Attribute)):
            x = self.solve(w, node, self.matrix(w, node.args[0], args[0]), self.matrix(w, node.args[1], args[1]))
            if name == "solve2x2":
                if len(node.args) >= 3:
                    w.assign(stored(node.args[2]), x, None)
                return None
            return x
        if name in ("zeros", "empty", "zeros_like", "empty_like", "malloc", "calloc"):
            return "bot"
        if name in ("ones", "ones_like", "eye", "identity"):
            return ("k", 1)
        if name in EQUAL and len(args) >= 2 and (g is None or name not in ("add", "subtract", "sub")):
            vs = [fl(a) for a in args]
            if isinstance(fn, ast.Attribute) and not module(w, fn.value) and name in ("add",):
                return NotImplemented
            r = "bot"
            for i in range(1, len(vs)):
                self.same(w, vs[i - 1], vs[i], node, "choice", node.args[i - 1], node.args[i])
            for v in vs:
                r = w.eng.join(r, v)
            return r
        if name in EQUAL and len(args) == 1:
            return fl(args[0])
        if name in SAME:
            base = args[-1] if name == "__cast__" and args else args[0] if args else recv
            return base if name in KEEP or name in ("__cast__", "float") else fl(base)
        if name == "linspace" and len(args) >= 2:
            return w.eng.join(fl(args[0]), fl(args[1]))
        if name in ("int", "len", "range", "round", "floor", "ceil", "sign", "copysign", "fdm", "isnan"):
            return None
        s = self.spec.get(g.qual) if g is not None else None
        if s is None and g is None:
            s = self.spec.get(name)
        if s:
            for i, (a, v) in enumerate(zip(node.args, args)):
                if i < len(s["params"]):
                    if "~" in str(s["params"][i]):
                        continue        # any length
                    self.same(w, fl(v) if not tup(parse(s["params"][i])) else None, parse(s["params"][i]), node, f"argument {i + 1} of {name}", a, a)
            return parse(s["returns"]) if "returns" in s else NotImplemented
        return NotImplemented

    def matrix(self, w, node, v):
        if v is not None and v != "bot" and tup(v):
            return v
        k = _key(node)
        if k is None:
            return v
        cells = {x[len(k) + 1:-1]: y for x, y in w.env.items() if x.startswith(k + "[")}
        if {"0,0", "0,1", "1,0", "1,1"} <= cells.keys():
            return ("T", (("T", (cells["0,0"], cells["0,1"])), ("T", (cells["1,0"], cells["1,1"]))))
        if {"0", "1"} <= cells.keys() and "2" not in cells:
            return ("T", (cells["0"], cells["1"]))
        return v

    def solve(self, w, node, A, b):
        if tup(A) and tup(b) and len(A[1]) == len(b[1]) and all(tup(r) for r in A[1]):
            out = []
            for j in range(len(A[1][0][1])):
                xs = [self.mul(w, b[1][i], A[1][i][1][j], True) for i in range(len(b[1])) if j < len(A[1][i][1])]
                for x in xs[1:]:
                    self.same(w, xs[0], x, node, f"unknown {j + 1} of the equations")
                out.append(xs[0])
            return ("T", tuple(out))
        if not tup(A) and not tup(b):
            return self.mul(w, A, b, True) if False else None
        return None

    def subscript(self, w, node, base):
        if isinstance(node.slice, ast.Slice) and tup(base):
            return w.eng.flat(base)
        return super().subscript(w, node, base)

    def attr(self, w, node, base):
        if node.attr == "pi":
            return ("k", 3)
        if LENGTH.fullmatch(node.attr.lstrip("_")) or node.attr == "r":
            return D(1)
        return base if node.attr in ("T", "real") else None

    def step(self, f):
        """the parameter a finite-difference step of this function is taken in"""
        m = re.search(r"derivatives?(_[uv]{1,2})?$", f.name)
        if m is None or f.cls is None and f.parent is None and "evaluator" not in f.module.name:
            return None
        s = m.group(1)
        h = Fraction(1, 2)
        return {None: D(0, 1), "_u": D(0, 0, 1), "_v": D(0, 0, 0, 1), "_uu": D(0, 0, 1), "_vv": D(0, 0, 0, 1), "_uv": None if "evaluator" not in f.module.name else ("D", (Fraction(0), Fraction(0), h, h))}[s] if s or "s" != f.name[-1] else None

    def name(self, w, e):
        if e.id in STEPS:
            return self.step(w.f)
        return ("k", 3) if e.id in ("pi", "M_PI") else None

    def unknown(self, w, node, name, recv, args):
        return None


def module(w, e):
    """the receiver is a module, not an object"""
    return isinstance(e, ast.Name) and e.id in ("np", "numpy", "math", "vectors", "scipy", "integrate")


def stored(a):
    """the target written by an out-argument"""
    import copy
    if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ("__addr__", "__cast__") and a.args:
        a = a.args[-1]
        while isinstance(a, ast.Subscript):
            a = a.value
    while isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice):
        a = a.value
    b = copy.copy(a)
    if hasattr(b, "ctx"):
        b.ctx = ast.Store()
    return b


def parse(s):
    """'L/U^2' 'L/U*V' '1' '?' or a list"""
    if isinstance(s, list):
        return ("T", tuple(parse(x) for x in s))
    s = s.lstrip("~")
    if s in ("?", ""):
        return None
    r = dict.fromkeys(NAMES, Fraction(0))
    num, *den = s.split("/")
    for sg, part in [(1, num)] + [(-1, d) for d in den]:
        for x in part.split("*"):
            m = re.fullmatch(r"([LTUV1])(?:\^(-?\d+))?", x)
            if m.group(1) != "1":
                r[m.group(1)] += sg * int(m.group(2) or 1)
    return ("D", tuple(r[c] for c in NAMES))
