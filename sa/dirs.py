"""Role typing: which parameter direction (u/v), which end (lo/hi), which coordinate (x/y/z) and which operand (1/2) an expression belongs to.

Roles come from names (knots_u, u_max, x), from positions in values whose order is fixed (size[0] is the u size, interval()[1] the v range)
and are inferred for untagged locals.  An expression has, per domain, the set of roles of its parts."""
from __future__ import annotations
import ast
import re

DIR = re.compile(r"^(?:d|n|d[xyzp]d|new|sub|is|in|del|delta|old|max|min)?([uv])(\d+|i|s|k|j|n|min|max|mid|vals|lo|hi|start|end)?$")
END = {"start": 0, "begin": 0, "min": 0, "lo": 0, "low": 0, "lower": 0, "end": 1, "stop": 1, "max": 1, "hi": 1, "high": 1, "upper": 1}
ENDC = re.compile(r"^[a-z]{0,2}(min|max|start|end|lo|hi)\d?$")
XYZ = {"x": 0, "y": 1, "z": 2}
XYZC = re.compile(r"^[a-z]?([xyz])(\d|min|max|lo|hi|i)?$")
DOMS = ("dir", "end", "xyz", "op")


def name_roles(n):
    """{domain: role} of an identifier"""
    if n in ("k_v", "kv") or n.startswith("evaluate_v"):      # knot vector, second version
        return {}
    toks = [t for t in re.split(r"_+", n) if t]
    out = {}
    ds = set()
    for t in toks:
        m = DIR.match(t)
        if m:
            ds.add("uv".index(m.group(1)))
    if len(ds) == 1:
        out["dir"] = next(iter(ds))
    elif len(ds) == 2:
        out["dir"] = None
    es = set()
    for t in toks:
        if t in END:
            es.add(END[t])
        else:
            m = ENDC.match(t)
            if m:
                es.add(END[m.group(1)])
    if len(es) == 1:
        out["end"] = next(iter(es))
    xs = set()
    for t in toks:
        m = XYZC.match(t)
        if m:
            xs.add("xyz".index(m.group(1)))
    if len(xs) == 1:
        out["xyz"] = next(iter(xs))
    m = re.search(r"(?:^|[a-z])([12])(?:_|$)", n)
    if m and len(re.findall(r"\d", n)) == 1:
        out["op"] = int(m.group(1)) - 1
    return out


PAIR_DIR = {"degree", "_degree", "size", "_size", "span", "degrees", "shape_uv", "count", "num_ctrlpts"}
UVTOK = re.compile(r"^(?:.*_)?uv\d?$")
UVSTOK = re.compile(r"^(?:.*_)?uvs?\d?$")
BOXTOK = re.compile(r"^(?:.*_)?(?:bb|bbox|aabb|bounds|box)\d?$|^_bounds$")
PASS = {"float", "int", "abs", "fabs", "len", "round", "copy", "asarray", "array", "ascontiguousarray", "list", "tuple", "__addr__", "min", "max", "fmin", "fmax", "sqrt", "floor", "ceil",
        "float64", "tolist", "unique", "sorted", "__cast__", "norm", "scalar_norm", "norm3d", "unit", "scalar_unit", "normalize", "range", "xrange", "arange", "isclose"}
EMPTY = {}


def const_index(e):
    if isinstance(e, ast.Constant) and type(e.value) is int:
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and type(e.operand.value) is int:
        return -e.operand.value
    return None


def samples(it):
    """range over the number of samples in a plain array u, v, us, vs (parallel arrays are indexed alike)"""
    for x in ast.walk(it):
        if isinstance(x, ast.Attribute) and x.attr in ("shape", "size") and isinstance(x.value, ast.Name):
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" and isinstance(x.args[0], ast.Name):
            return True
    return False


def merge(*ds):
    out = {}
    for d in ds:
        for k, s in d.items():
            out[k] = out.get(k, frozenset()) | s
    return out


BOOK_U, BOOK_V = ("p", "n", "U", "nu", "r"), ("q", "m", "V", "nv", "s")


def book_alias(f):
    """{parameter: role} in functions that use The NURBS Book's names n,p,U / m,q,V next to u,v"""
    ps = {a.arg for a in f.arg_nodes()}
    if not ({"U", "V"} <= ps and {"u", "v"} <= ps):
        return EMPTY
    out = {}
    for a, b in zip(BOOK_U, BOOK_V):
        if a in ps and b in ps:
            out[a], out[b] = 0, 1
    return out


def param_roles(f):
    al = book_alias(f)
    out = []
    for p in f.pos_params:
        r = dict(name_roles(p))
        if p in al:
            r["dir"] = al[p]
        out.append(r)
    return out


class Roles:
    """role inference for one function"""

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.node = f.node
        ids = set()
        for n in ast.walk(self.node):
            if isinstance(n, ast.Name):
                ids.add(n.id)
            elif isinstance(n, ast.Attribute):
                ids.add(n.attr)
            elif isinstance(n, ast.arg):
                ids.add(n.arg)
        seen = {d: set() for d in DOMS}
        for i in ids:
            for d, r in name_roles(i).items():
                if r is not None:
                    seen[d].add(r)
        # a domain is in use when the function distinguishes at least two of its roles
        cls = f.cls.name if f.cls is not None else ""
        self.surfaceish = "urface" in cls or cls in ("Ruled", "RationalRuled", "BiLinear", "Monomial2D", "GaussMap", "Coons")
        self.curveish = bool(re.search(r"urve|Spline|Line$|Circle|Ellipse|Arc", cls))
        self.use = {d: len(seen[d]) >= 2 for d in DOMS}
        self.alias = book_alias(self.f)
        if self.alias:
            self.use["dir"] = True
        self.zero_based = any(re.search(r"(?:^|[a-z])0(?:_|$)", i) for i in ids)
        if not self.use["dir"] and self.surfaceish:
            self.use["dir"] = True
        self.local = {}
        self.grids = {}
        self.infer()
        self.find_grids()

    # ---------------------------------------------------------------- locals without a role of their own
    def infer(self):
        cand = {}
        bad = set()

        def note(t, v):
            if isinstance(t, ast.Name):
                cand.setdefault(t.id, []).append(v)
            elif isinstance(t, (ast.Tuple, ast.List)):
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                    for a, b in zip(t.elts, v.elts):
                        note(a, b)
                else:
                    for a in ast.walk(t):
                        if isinstance(a, ast.Name):
                            bad.add(a.id)
        for n in ast.walk(self.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    note(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                note(n.target, n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                bad.add(n.target.id)
            elif isinstance(n, (ast.For, ast.comprehension)):
                it = n.iter
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("range", "prange") and isinstance(n.target, ast.Name) and not samples(it):
                    cand.setdefault(n.target.id, []).append(it)
                else:
                    for a in ast.walk(n.target):
                        if isinstance(a, ast.Name):
                            bad.add(a.id)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                for a in ast.walk(n.optional_vars):
                    if isinstance(a, ast.Name):
                        bad.add(a.id)
        params = {a.arg for a in self.f.arg_nodes()}
        for _ in range(3):
            new = {}
            for x, vs in cand.items():
                if x in bad or x in params:
                    continue
                rs = [self.value_roles(v) for v in vs]
                r = {}
                for d in ("dir",):
                    sets = [q.get(d, frozenset()) for q in rs]
                    if sets and all(len(s) == 1 for s in sets) and len(frozenset().union(*sets)) == 1:
                        r[d] = sets[0]
                if r:
                    new[x] = r
            if new == self.local:
                break
            self.local = new

    def value_roles(self, v):
        return self.roles(v)

    # ---------------------------------------------------------------- expressions
    def kind_of(self, e):
        """'surface' | 'curve' | None for the receiver of .interval() / ._interval"""
        if isinstance(e, ast.Name):
            if self.f.cls is not None and self.f.pos_params and e.id == self.f.pos_params[0] and self.f.role != "static":
                return "surface" if self.surfaceish else "curve" if self.curveish else None
            n = e.id
        elif isinstance(e, ast.Attribute):
            n = e.attr
        else:
            return None
        if re.search(r"surf|^s[12]$", n):
            return "surface"
        if re.search(r"curve|crv|^c[12]$", n):
            return "curve"
        return None

    def interval_of(self, e):
        """receiver kind when e is x.interval() or x._interval"""
        if isinstance(e, ast.Call) and not e.args and isinstance(e.func, ast.Attribute) and e.func.attr == "interval":
            return self.kind_of(e.func.value)
        if isinstance(e, ast.Attribute) and e.attr == "_interval":
            return self.kind_of(e.value)
        return None

    def roles(self, e):
        if isinstance(e, ast.Name):
            r = {d: frozenset([x] if x is not None else [0, 1]) for d, x in name_roles(e.id).items() if self.use[d]}
            if e.id in self.alias:
                r["dir"] = frozenset([self.alias[e.id]])
            for d, s in self.local.get(e.id, EMPTY).items():
                r.setdefault(d, s)
            return r
        if isinstance(e, ast.Attribute):
            r = {d: frozenset([x] if x is not None else [0, 1]) for d, x in name_roles(e.attr).items() if self.use[d]}
            b = self.roles(e.value)
            for d, s in b.items():
                if d in ("op", "dir"):
                    r.setdefault(d, s)
            return r
        if isinstance(e, ast.Subscript):
            return self.sub_roles(e)
        if isinstance(e, ast.Starred):
            return self.roles(e.value)
        if isinstance(e, ast.UnaryOp):
            return self.roles(e.operand)
        if isinstance(e, ast.BinOp):
            a, b = self.roles(e.left), self.roles(e.right)
            if isinstance(e.op, (ast.Add, ast.Sub, ast.Mod, ast.FloorDiv, ast.Div, ast.Mult)):
                return merge(a, b)
            return a
        if isinstance(e, ast.Call):
            fn = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ""
            if fn in PASS:
                args = e.args[1:] if fn == "__cast__" else e.args
                r = merge(*[self.roles(a) for a in args]) if args else {}
                if isinstance(e.func, ast.Attribute) and not args:
                    return self.roles(e.func.value)
                return r
            if fn in ("zeros", "empty", "ones", "full", "linspace", "arange", "zeros_like", "empty_like", "ones_like") and e.args:
                args = e.args[:2] if fn == "linspace" else e.args[:1]
                if not any(isinstance(a, (ast.Tuple, ast.List)) for a in args):
                    return {d: s for d, s in merge(*[self.roles(a) for a in args]).items() if d == "dir"}
            if fn == "concatenate" and e.args and isinstance(e.args[0], (ast.Tuple, ast.List)):
                return {d: s for d, s in merge(*[self.roles(a) for a in e.args[0].elts]).items() if d == "dir"}
            r = {d: frozenset([x] if x is not None else [0, 1]) for d, x in name_roles(fn).items() if self.use[d] and d == "dir"}
            if not r and ("find_span" in fn or "multiplicity" in fn):
                r = {d: s for d, s in merge(*[self.roles(a) for a in e.args]).items() if d == "dir"}
            return r
        if isinstance(e, ast.IfExp):
            return merge(self.roles(e.body), self.roles(e.orelse))
        return {}

    def axes(self, e):
        """True when axis 0 of the array is the u direction and axis 1 the v direction"""
        if isinstance(e, ast.Attribute):
            return bool(re.search(r"control_points", e.attr)) and "flat" not in e.attr and "arr" not in e.attr and (
                self.kind_of(e.value) == "surface" or self.surfaceish and self.kind_of(e.value) != "curve")
        if isinstance(e, ast.Name):
            return e.id in self.grids
        return False

    def find_grids(self):
        self.grids = {}
        for n in ast.walk(self.node):
            t, v = None, None
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                t, v = n.targets[0], n.value
            elif isinstance(n, ast.AnnAssign):
                t, v = n.target, n.value
            if not isinstance(t, ast.Name) or not isinstance(v, ast.Call):
                continue
            fn = v.func.attr if isinstance(v.func, ast.Attribute) else v.func.id if isinstance(v.func, ast.Name) else ""
            if fn in ("zeros", "empty", "ones", "full") and v.args and isinstance(v.args[0], (ast.Tuple, ast.List)) and len(v.args[0].elts) >= 2:
                a, b = (one(self.roles(x), "dir") for x in v.args[0].elts[:2])
                if a is not None and b is not None and a != b:
                    self.grids.setdefault(t.id, set()).add((a, b))
        self.grids = {k: next(iter(v)) for k, v in self.grids.items() if len(v) == 1}

    def sub_roles(self, e):
        b = e.value
        idx = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        cs = [const_index(x) for x in idx]
        bn = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
        r = {d: s for d, s in self.roles(b).items()} if not isinstance(b, ast.Subscript) else dict(self.sub_roles(b))
        if self.use["dir"] and "dir" not in r:
            c = None
            if bn == "shape" and isinstance(b, ast.Attribute) and len(cs) == 1 and self.axes(b.value) and cs[0] in (0, 1):
                r["dir"] = frozenset([cs[0]])
                return r
            if bn in PAIR_DIR and len(cs) == 1 and cs[0] in (0, 1, -1, -2):
                c = cs[0]
            elif bn is not None and UVTOK.match(bn) and len(cs) == 1 and cs[0] in (0, 1, -1, -2):
                c = cs[0]
            elif bn is not None and UVSTOK.match(bn) and len(cs) == 2 and cs[1] in (0, 1, -1, -2):
                c = cs[1]
            elif self.interval_of(b) == "surface" and cs and cs[0] in (0, 1, -1, -2):
                c = cs[0]
            if c is not None:
                r["dir"] = frozenset([c % 2])
        if self.use["end"] and "end" not in r:
            c = None
            if self.interval_of(b) == "curve" and len(cs) == 1 and cs[0] in (0, 1, -1, -2):
                c = cs[0]
            elif isinstance(b, ast.Subscript) and self.interval_of(b.value) == "surface" and cs[0] in (0, 1, -1, -2):
                c = cs[0]
            elif self.interval_of(b) == "surface" and len(cs) == 2 and cs[1] in (0, 1, -1, -2):
                c = cs[1]
            elif bn is not None and BOXTOK.match(bn) and len(cs) >= 1 and cs[0] in (0, 1):
                c = cs[0]
            if c is not None:
                r["end"] = frozenset([c % 2])
        return r


def one(r, d):
    s = r.get(d)
    return next(iter(s)) if s and len(s) == 1 else None


ROLE = {"dir": "uv", "end": ("lower end", "upper end"), "xyz": "xyz", "op": "12"}


def show(d, r):
    return {"dir": f"the {'uv'[r] if d == 'dir' else ''} direction", "end": f"the {ROLE['end'][r] if d == 'end' else ''}", "xyz": f"the {'xyz'[r] if d == 'xyz' else ''} coordinate",
            "op": f"operand {r + 1}"}[d]
