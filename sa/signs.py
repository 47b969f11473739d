"""Sign domain for sa/absint: which numbers are magnitudes (never negative) and which can have either sign.

'+' never negative, '-' never positive, 's' either sign, 'd' either sign and a determinant (a measure of degeneracy), ('k', number) constants."""
from __future__ import annotations
import ast
import re
from .absint import Domain, tup

TOLN = re.compile(r"(^|_)[arxfgph]*tol(erance|s|sq)?\d?($|_)|^eps(ilon)?\d?$|^[a-z_]*_eps(ilon)?$|^EPS|SMALL|TINY|^h$", re.I)
ZEROF = re.compile(r"zero|close|near|almost|equal|close_?to")
SIGNED = re.compile(r"(^|_)(det|denom|denominator|pivot|piv|dot|disc|ndot[a-z]|cross)\d?($|_)")
ABS = {"abs", "fabs", "fabsf", "absolute", "norm", "scalar_norm", "norm3d", "sqrt", "square", "scalar_norm_sq", "norm_sq", "len", "hypot", "cabs", "labs", "c_norm", "euclidean_norm", "exp",
       "cdist", "pdist", "ptp", "std", "var", "acos", "arccos"}
SAME = {"float", "int", "asarray", "array", "copy", "ascontiguousarray", "float64", "ravel", "flatten", "reshape", "squeeze", "sum", "nansum", "mean", "cumsum", "sorted", "sort", "tolist",
        "round", "min", "max", "amin", "amax", "fmin", "fmax", "minimum", "maximum", "nanmin", "nanmax", "atleast_1d", "atleast_2d", "list", "tuple", "__cast__", "item", "abs_sum", "transpose"}
DOTS = {"dot", "scalar_dot", "inner", "vdot", "dot3d", "scalar_dot3d", "dot_three_values", "matmul"}
DET = {"det", "determinant", "det2", "det3"}
DIRN = {"normal", "direction", "tangent", "axis", "rd", "ray_dir", "ray_direction", "normals", "grad", "gradient"}


def isk(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "k"


def dump(e):
    return ast.dump(e) if not isinstance(e, ast.Name) else e.id


def stem(n):
    m = re.match(r"^(.*?)(\d+)$", n)
    return (m.group(1), int(m.group(2))) if m else None


class Signs(Domain):
    def __init__(self):
        self.hits = {}
        self.tests = {}
        self.fsig = {}

    def const(self, v):
        if type(v) in (int, float):
            return ("k", v)
        return None

    def join(self, a, b):
        if isk(a) and isk(b):
            return "+" if a[1] >= 0 and b[1] >= 0 else "-" if a[1] <= 0 and b[1] <= 0 else None
        for x, y in ((a, b), (b, a)):
            if isk(x):
                if y == "+":
                    return "+" if x[1] >= 0 else None
                if y == "-":
                    return "-" if x[1] <= 0 else None
                if y in ("s", "d"):
                    return y
        if {a, b} == {"s", "d"}:
            return "s"
        if "s" in (a, b) or "d" in (a, b):
            return None
        return None

    def item(self, w, it, node, target):
        return super().item(w, it, node, target)

    # ------------------------------------------------------------ arithmetic
    def binop(self, w, op, a, b, an, bn, node):
        if tup(a) and tup(b) and len(a[1]) == len(b[1]) and isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            return ("T", tuple(self.binop(w, op, x, y, an, bn, node) for x, y in zip(a[1], b[1])))
        if tup(a) or tup(b):
            a, b = w.eng.flat(a), w.eng.flat(b)
        if isinstance(op, ast.Mult):
            if dump(an) == dump(bn):
                return "+"
            if isk(a) and isk(b):
                return ("k", a[1] * b[1])
            for x, y in ((a, b), (b, a)):
                if isk(x):
                    if x[1] == 0:
                        return ("k", 0)
                    return y if x[1] > 0 else {"+": "-", "-": "+"}.get(y, y)
            if {a, b} <= {"+", "-"}:
                return "+" if a == b else "-"
            if a in ("s", "d") and b in ("+", "-"):
                return a
            if b in ("s", "d") and a in ("+", "-"):
                return b
            if a in ("s", "d") and b in ("s", "d"):
                return "s"
            return None
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            if isk(b):
                if isk(a) and b[1]:
                    return ("k", a[1] / b[1])
                return (a if b[1] > 0 else {"+": "-", "-": "+"}.get(a, a)) if not isk(a) else None
            if isk(a):
                a = "+" if a[1] >= 0 else "-"
            if {a, b} <= {"+", "-"}:
                return "+" if a == b else "-"
            if a in ("s", "d") and b in ("+", "-"):
                return "s"
            return None
        if isinstance(op, ast.Pow):
            if isk(b) and b[1] == int(b[1]) and int(b[1]) % 2 == 0:
                return "+"
            if isk(b) and b[1] == 0.5:
                return "+"
            return a if a == "+" else None
        if isinstance(op, ast.Add):
            if isk(a) and isk(b):
                return ("k", a[1] + b[1])
            pa = a == "+" or isk(a) and a[1] >= 0
            pb = b == "+" or isk(b) and b[1] >= 0
            if pa and pb:
                return "+"
            if a in ("s", "d") and b in ("s", "d"):
                return "d" if a == b == "d" else "s"
            if isdot(an, bn) and a not in ("+",) and b not in ("+",):
                return "s"
            if a == "s" and b is None and isprod(bn) or b == "s" and a is None and isprod(an):
                return "s"
            if a == "bot" and b in ("s", "d"):
                return b
            if isk(a) and b in ("s", "d"):
                return b if a[1] == 0 else None
            if isk(b) and a in ("s", "d"):
                return a if b[1] == 0 else None
            return None
        if isinstance(op, ast.Sub):
            if isk(a) and isk(b):
                return ("k", a[1] - b[1])
            if dump(an) == dump(bn):
                return ("k", 0)
            if isk(b) or isk(a):
                return a if isk(b) and b[1] == 0 else None
            if isdot(an, bn):
                return "d"
            if a == "d" and b == "d":
                return "d"
            if a in ("s", "d") and b in ("s", "d"):
                return "s"
            if isinstance(node, ast.AugAssign):
                return None
            if len(w.eng.active) > 1 and base(an) in w.f.params and base(bn) in w.f.params:
                return None         # a helper: the order of its operands is the caller's
            if plain(bare(an)) and plain(bare(bn)) and not ordered(bare(an), bare(bn)) and not (a == "+" and b == "-"):
                return "s"
            return None
        if isinstance(op, ast.MatMult):
            return "+" if dump(an) == dump(bn) else "s"
        return None

    def unop(self, w, op, v):
        if isinstance(op, ast.USub):
            if isk(v):
                return ("k", -v[1])
            if tup(v):
                return ("T", tuple(self.unop(w, op, x) for x in v[1]))
            return {"+": "-", "-": "+"}.get(v, v)
        if isinstance(op, ast.UAdd):
            return v
        return None

    # ------------------------------------------------------------ calls
    def call(self, w, node, name, recv, args, kws, g):
        fn = node.func
        if name in ("max", "min", "sorted", "argmax", "argmin", "nanargmax", "nanargmin"):
            k = next((x.value for x in node.keywords if x.arg == "key"), None)
            if isinstance(k, ast.Lambda) and k.args.args:
                save = dict(w.env)
                w.env[k.args.args[0].arg] = None
                v = w.ev(k.body)
                w.env = save
                self.select(w, node, v, k.body)
            elif name.startswith(("arg", "nanarg")) and args:
                self.select(w, node, w.eng.flat(args[0]), node.args[0])
        if name in DOTS and g is not None and len(node.args) == 2:
            return "+" if dump(node.args[0]) == dump(node.args[1]) else "s"
        if g is not None and name not in DET:
            if name in ABS and name not in ("len",):
                return "+"
            return NotImplemented
        if name in ABS:
            return "+"
        if name in DET:
            return "d"
        if name == "cross" and args:
            return "s"
        if name in DOTS:
            aa = list(node.args)
            if isinstance(fn, ast.Attribute) and len(aa) == 1:
                aa = [fn.value] + aa
            if len(aa) >= 2 and dump(aa[0]) == dump(aa[1]):
                return "+"
            return "s"
        if name in ("zeros", "empty", "zeros_like", "empty_like", "malloc", "calloc"):
            return "bot" if name.startswith(("empty", "malloc")) else ("k", 0)
        if name in ("ones", "ones_like"):
            return ("k", 1)
        if name in ("max", "maximum", "fmax") and len(args) >= 2:
            if any(a == "+" or isk(a) and a[1] >= 0 for a in map(w.eng.flat, args)):
                return "+"
        if name in ("min", "minimum", "fmin") and len(args) >= 2:
            fs = [w.eng.flat(a) for a in args]
            if all(a == "+" or isk(a) and a[1] >= 0 for a in fs):
                return "+"
            return None
        if name in SAME:
            base = args[-1] if name == "__cast__" else args[0] if args else recv
            v = w.eng.flat(base)
            return base if name in ("asarray", "array", "list", "tuple", "copy", "ascontiguousarray", "tolist") and args else "+" if isk(v) and v[1] >= 0 else None if isk(v) else v
        if name == "diff":
            return None
        return NotImplemented

    def unknown(self, w, node, name, recv, args):
        return None

    # ------------------------------------------------------------ tests
    def refine(self, w, test, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(w, test.operand, not truth)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and truth or isinstance(test.op, ast.Or) and not truth:
                for x in test.values:
                    self.refine(w, x, truth)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, op, r = test.left, test.ops[0], test.comparators[0]
            for x, y, up in ((l, r, (ast.Lt, ast.LtE)), (r, l, (ast.Gt, ast.GtE))):
                # x < y
                lt = isinstance(op, up)
                if not lt and not isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    continue
                less = lt == truth
                from .absint import _key
                k = _key(x)
                if k is None or k not in w.env:
                    continue
                c = w.ev(y)
                if isk(c) and w.env[k] in ("s", "d", None):
                    if less and c[1] <= 0:
                        w.env[k] = "-"
                    elif not less and c[1] >= 0:
                        w.env[k] = "+"

    def compare(self, w, op, a, b, an, bn, node):
        a, b = w.eng.flat(a), w.eng.flat(b)
        for v, n, o, on, lt in ((a, an, b, bn, (ast.Lt, ast.LtE)), (b, bn, a, an, (ast.Gt, ast.GtE))):
            gt = (ast.Gt, ast.GtE) if lt[0] is ast.Lt else (ast.Lt, ast.LtE)
            if not isinstance(op, lt + gt):
                continue
            if self.small(o, on):
                key = (w.f.qual, id(node), dump(n))
                if v is None and (isinstance(n, ast.Name) and SIGNED.search(n.id) or isinstance(n, ast.Name) and n.id in w.f.params and ZEROF.search(w.f.name) or diagonal(n) or tiny(o) and component(w.f, n)):
                    v = "s"
                self.tests[key] = v
                if isinstance(op, gt) and v != "d":
                    continue
                if v in ("s", "d") and not self.twosided(w.f, n, node):
                    self.hits[key] = ("M1", w.f, node, f"'{ast.unparse(n)}' can be negative and is tested against '{ast.unparse(on)}'")
                elif v == "-":
                    self.hits[key] = ("M1", w.f, node, f"'{ast.unparse(n)}' is never positive and is tested against '{ast.unparse(on)}'")
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            self.one_sided(w, a, b, an, bn, node)
            for v, n, on in ((a, an, bn), (b, bn, an)):
                if v == "d" and isinstance(on, ast.Name) and re.search(r"best|max|piv|largest|dett|cur|big", on.id) and not isk(a) and not isk(b):
                    self.tests[w.f.qual, id(node), "sel"] = v
                    self.hits[w.f.qual, id(node), "sel"] = ("M2", w.f, node, "the larger determinant is chosen with its sign")

    def select(self, w, node, v, what):
        if v == "d":
            self.hits[w.f.qual, id(node), "sel"] = ("M2", w.f, node, f"chosen by '{ast.unparse(what)}', which can be negative")
        self.tests[w.f.qual, id(node), "sel"] = v

    def small(self, v, n):
        if isk(v):
            return 0 < v[1] <= 1e-3
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and TOLN.search(x.id) or isinstance(x, ast.Attribute) and TOLN.search(x.attr):
                if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                    return False
                return not isinstance(n, ast.BinOp) or isinstance(n.op, (ast.Mult, ast.Pow)) or isinstance(n.op, ast.Add) and self.small(None, n.left) and self.small(None, n.right)
        return False

    def boolop(self, w, node):
        """abs(v[0]) < t and v[1] < t"""
        cs = []
        for x in node.values:
            if isinstance(x, ast.Compare) and len(x.ops) == 1:
                cs += [(x.left, x.ops[0], x.comparators[0], x)]
        for l, o, r, c in cs:
            x = isabs(l)
            for l2, o2, r2, c2 in cs:
                if x is not None and c2 is not c and type(o) is type(o2) and dump(r) == dump(r2) and isabs(l2) is None and (
                        alike(x, l2) or isinstance(x, ast.BinOp) and isinstance(l2, ast.BinOp) and isinstance(x.op, ast.Sub) and isinstance(l2.op, ast.Sub)
                        and (alike(x.left, l2.left) or isinstance(x.left, ast.Name))):
                    self.hits[w.f.qual, id(c2), "chain"] = ("M3", w.f, c2, f"'{ast.unparse(c)}' looks at the magnitude, '{ast.unparse(c2)}' next to it does not")

    def one_sided(self, w, a, b, an, bn, node):
        """a magnitude compared with a quantity of the same sort that is not one"""
        for m, v, o, on in ((an, a, b, bn), (bn, b, a, an)):
            if isinstance(on, ast.UnaryOp) and isinstance(on.op, ast.USub):
                continue
            if o == "+" or isk(o) or isabs(on) is not None:
                continue
            x = isabs(m)
            if x is not None:
                key = (w.f.qual, id(node), "one")
                self.tests[key] = "+"
                xv = w.eng.flat(w.ev(x))
                if xv in ("s", "d") and o in ("s", "d") and isinstance(on, (ast.Name, ast.Subscript)) or alike(x, on):
                    self.hits[key] = ("M3", w.f, node, f"the magnitude of '{ast.unparse(x)}' is compared with '{ast.unparse(on)}', which can be negative")
            elif isinstance(m, ast.Name) and v == "+" and isinstance(on, ast.Subscript) and o is None:
                vs = [n.value for n in ast.walk(w.f.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None
                      and any(isinstance(t, ast.Name) and t.id == m.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
                if vs and any(isabs(x) is not None and alike(isabs(x), on) for x in vs):
                    self.hits[w.f.qual, id(node), "one"] = ("M3", w.f, node, f"the magnitude '{m.id}' is compared with '{ast.unparse(on)}', which can be negative")

    def twosided(self, f, n, node):
        """the function also tells the negative values apart"""
        d = dump(n)
        for c in ast.walk(f.node):
            if isinstance(c, ast.Compare):
                ns = [c.left] + c.comparators
                for i, op in enumerate(c.ops):
                    l, r = ns[i], ns[i + 1]
                    if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                        for x, y in ((l, r), (r, l)):
                            if dump(x) == d and (isinstance(y, ast.UnaryOp) and isinstance(y.op, ast.USub) or isinstance(y, ast.Constant) and y.value == 0 and c.lineno < node.lineno):
                                return True
        return False


def isdot(an, bn):
    """two products of unlike factors, no squares"""
    return isprod(an) and isprod(bn)


def isprod(e):
    while isinstance(e, (ast.UnaryOp,)):
        e = e.operand
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "float" and e.args:
        e = e.args[0]
    if not (isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult)):
        return False
    fs = factors(e)
    ds = [dump(x) for x in fs if not isinstance(x, ast.Constant)]
    if any(isinstance(x, (ast.BinOp,)) and isinstance(x.op, ast.Pow) for x in fs):
        return False
    return len(ds) >= 2 and len(set(ds)) == len(ds) and all(quantity(x) for x in fs)


def factors(e):
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        return factors(e.left) + factors(e.right)
    return [e]


def quantity(e):
    return isinstance(e, (ast.Name, ast.Attribute, ast.Subscript, ast.Constant, ast.BinOp, ast.Call))


def bare(e):
    while isinstance(e, ast.Call) and len(e.args) == 1 and (e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, "attr", "")) in ("array", "asarray", "float", "copy", "list", "tuple"):
        e = e.args[0]
    return e


def isabs(e):
    """x of abs(x)"""
    if isinstance(e, ast.Call) and len(e.args) == 1:
        n = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ""
        if n in ("abs", "fabs", "absolute", "fabsf"):
            return e.args[0]
    return None


def alike(x, y):
    """elements of one array, values of one function"""
    if isinstance(x, ast.Subscript) and isinstance(y, ast.Subscript):
        return base(x) is not None and base(x) == base(y)
    if isinstance(x, ast.Call) and isinstance(y, ast.Call):
        return dump(x.func) == dump(y.func) and isabs(x) is None and not (isinstance(x.func, ast.Name) and x.func.id in ABS)
    return False


def diagonal(e):
    if isinstance(e, ast.Subscript):
        ix = []
        while isinstance(e, ast.Subscript):
            ix += e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            e = e.value
        return len(ix) == 2 and not isinstance(ix[0], (ast.Constant, ast.Slice)) and dump(ix[0]) == dump(ix[1])
    return False


def tiny(v):
    return isk(v) and 0 < v[1] <= 1e-12


def component(f, e):
    """an element of a vector parameter"""
    return isinstance(e, ast.Name) and e.id in f.params or isinstance(e, ast.Subscript) and not isinstance(e.value, ast.Subscript) and base(e) in f.params


def base(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def plain(e):
    return isinstance(e, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)) and not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("len",))


def ordered(a, b):
    """a - b is not negative by the meaning of the names (upper minus lower end)"""
    if isinstance(a, ast.Subscript) and isinstance(b, ast.Subscript) and dump(a.value) == dump(b.value):
        from .absint import _const
        i, j = _const(a.slice), _const(b.slice)
        return i is not None and j is not None and (i > j >= 0 or i < 0 <= j)
    ta, tb = word(a), word(b)
    if UP.search(ta) and LO.search(tb):
        return True
    if LO.search(tb) and not LO.search(ta) or re.search(r"len|size|shape|count|time|best", ta + " " + tb):
        return True
    if isinstance(a, ast.Name) and isinstance(b, ast.Name):
        sa, sb = stem(a.id), stem(b.id)
        if sa and sb and sa[0] == sb[0]:
            return sa[1] > sb[1]
        if (a.id, b.id) in (("b", "a"), ("hi", "lo"), ("r", "l"), ("right", "left"), ("d", "c")):
            return True
    return False


LO = re.compile(r"min|low|start|(^|_)lo($|_)|begin", re.I)
UP = re.compile(r"max|high|upper|end|(^|_)hi($|_)", re.I)


def word(e):
    """the name of a scalar, or of an array whose element is addressed by a loop index"""
    if isinstance(e, ast.Subscript):
        return "" if isinstance(e.slice, ast.Constant) else word(e.value)
    if isinstance(e, ast.Call):
        return word(e.func)
    return e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else ""
