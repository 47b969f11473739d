"""C08 - parameter directions, interval ends, coordinates and operands are never interchanged (role typing, sa/dirs.py)."""
import ast
import collections
import re

from ..core import Result, require, AnalysisError
from .. import siblings, operands, grids, repeats, blend
from ..dirs import Roles, name_roles, param_roles, one, const_index, DOMS
from .c18 import inscope

EXPLANATION = ("Role typing: every identifier, attribute, parameter and element of a value with a fixed order (size[0], uv[1], interval()[0], axis of a control grid) carries the direction (u/v), "
               "end (lower/upper), coordinate (x/y/z) or operand (1/2) it stands for; roles of untagged locals are inferred from what is assigned to them. Values may only flow between, index, "
               "be ordered with, or be passed next to values of the same role.")
RULES = ["D1 argument: an argument of one role is passed for a parameter of another (positional, keyword; methods by agreement of all definitions of the name)",
         "D2 assignment: a place of one role receives a value made only of the other",
         "D3 one-direction call: a routine that works on one direction (knots, degree, span, parameter) gets data of both",
         "D4 comparison: a parameter of one direction is ordered against one of the other",
         "D5 index: an array of one direction, or one axis of a control grid, is indexed with the other direction",
         "D6 order: a pair or triple lists its roles in the wrong order",
         "D7 component: component k of a result is computed from another component where its siblings use their own",
         "D8 operand: an operand is evaluated at the other operand's parameter",
         "D9 delegate: an operation named for one direction delegates to the operation of the other",
         "D10 mixture: a parameter, count or degree of one direction is combined with one of the other, or a value with itself",
         "D11 repeated: the same value of one role is given twice in a row where one of each belongs",
         "D12 metric: entry (i, j) of a first-fundamental-form matrix is the product of other derivatives",
         "D13 choice: a choice by direction index takes the other direction, or both alternatives are the same",
         "D15 sibling: of three statements, elements, terms or conditions of one shape that run through the coordinates, one uses another coordinate than its place; or one of a pair of "
         "statements keeps, in one place, the operand, direction or end that it exchanges everywhere else",
         "D16 operand: an expression that is about one operand (curve1, t1_range, axis1) takes something from the other",
         "D17 combination: four or eight calls or tuples that go through the combinations of choices take one twice, or a bound out of step; a squared difference of unlike components",
         "D18 repetition: one operand stands twice in a call, a conjunction or a pair of statements where its counterpart exists; the extents of an array in reversed order",
         "D19 blend: the weights of an interpolation, the length a vector is divided by, a projection or a frame take another operand, order or hand than they must",
         "D14 balance: an operation of one direction is called twice and that of the other never"]
ASSUMPTIONS = ["names and documented positions say what a value stands for; values without a role are not judged"]
NAMES = {"dir": ("u", "v"), "end": ("lower", "upper"), "xyz": ("x", "y", "z"), "op": ("1", "2")}
# (function, callee): reviewed exchanges
OK = {("mmcore.geom.surfaces.Coons.evaluate_v2", "evaluate_v2"),      # the second ruled surface of a Coons patch runs across the first
      }
LINE_SEARCH = re.compile(r"^alpha_|^a_(lo|hi)")     # brackets of a line search: the ends do trade places
PAR = re.compile(r"^[uv](\d|_?(min|max|mid|start|end|lo|hi))?$")      # parameters of a surface, as opposed to derivatives, counts, axes
BOTHU = re.compile(r"dot|norm|outer|inner|subtract|allclose|isclose")       # functions that may take the same value twice
SYMM = re.compile(r"dot|norm|inner|close|print|zip|hypot|min|max|len")      # order of the arguments does not matter, or is presentation
KIND = re.compile(r"size|degree|span|count|knot|shape|num")
ONEDIR = re.compile(r"find_span|basis|knot|mult|ders")
EVAL = re.compile(r"^c?(evaluate|derivative|second_derivative|normal|tangent|gradient|plane_at|point|curvature|fundamental|project|D\b).*")


def callee_of(prog, f, n):
    t = None
    if isinstance(n.func, ast.Name):
        t = prog.resolve(f.module, n.func.id)
    elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
        if f.cls is not None and f.pos_params and n.func.value.id == f.pos_params[0] and f.role != "static":
            t = prog.find_method(f.cls, n.func.attr)
        else:
            r = prog.resolve(f.module, n.func.value.id)
            if hasattr(r, "methods"):
                t = prog.find_method(r, n.func.attr)
            elif r is not None:
                t = prog.resolve_expr(f.module, n.func) or "external"
    if t is not None and hasattr(t, "methods"):
        t = prog.find_method(t, "__init__")
    return t if t is None or t == "external" or hasattr(t, "pos_params") else "external" if not hasattr(t, "attr") else None


class Checker:
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.cnt = collections.Counter()
        self.byname = collections.defaultdict(list)
        for f in prog.functions():
            if f.cls is not None:
                self.byname[f.name].append(f)
        self.cache = {}
        self.defs = {f.name for f in prog.functions()}

    def method_roles(self, name):
        """roles of the positional parameters every method of that name agrees on"""
        if name not in self.cache:
            out = None
            for f in self.byname.get(name, []):
                r = [dict(x) for x in param_roles(f)]
                if f.role != "static":
                    r = r[1:]
                if out is None:
                    out = r
                else:
                    out = [{d: x for d, x in a.items() if b.get(d) == x} for a, b in zip(out, r)]
            self.cache[name] = out
        return self.cache[name]

    def rec(self, rule, d, good, what, n):
        self.cnt[rule.split()[0], d] += 1
        self.res.ob()
        if not good:
            self.res.add(rule, self.f.qual, what, loc=f"{self.f.module.rel}:{getattr(n, 'lineno', self.f.node.lineno)}")

    def func(self, f):
        self.f = f
        self.R = R = Roles(self.prog, f)
        if not any(R.use.values()):
            return
        self.res.functions.add(f.qual)
        fdir = name_roles(f.name).get("dir")
        own = {n for n in ast.walk(f.node)}
        for n in own:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.assign(t, n.value, n)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.assign(n.target, n.value, n)
            elif isinstance(n, ast.AugAssign):
                self.flow(n.target, n.value, n, ("dir",))
            elif isinstance(n, ast.Compare):
                self.compare(n)
            elif isinstance(n, ast.Subscript):
                self.index(n)
            elif isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load):
                self.order(n)
            elif isinstance(n, ast.Call):
                self.call(n, fdir)
                self.args_order(n)
            elif isinstance(n, ast.BinOp):
                self.mixture(n)
            elif isinstance(n, ast.IfExp):
                self.choice(n)
        self.components(f)
        self.balance(f)
        if fdir is not None:
            for n in own:
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Attribute) and "knots" in n.value.attr and name_roles(n.value.attr).get("dir") is not None:
                    self.rec("D9 delegate", "dir", name_roles(n.value.attr)["dir"] == fdir, f"elements of {ast.unparse(n.value)} are read", n)
                elif isinstance(n, ast.Return) and n.value is not None and (simple(n.value) or isinstance(n.value, ast.Call)):
                    r = one(R.roles(n.value), "dir")
                    if r is not None:
                        self.rec("D9 delegate", "dir", r == fdir, f"returns {ast.unparse(n.value)[:60]}", n)

    # D14
    def balance(self, f):
        if set(re.findall(r"[uv]", "".join(t for t in f.name.split("_") if re.fullmatch(r"d?[uv]{1,2}\d?", t)))):
            return
        c = collections.Counter()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                fn = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
                if name_roles(fn).get("dir") is not None and len(fn) > 2 and other_dir(fn) in self.defs:
                    c[fn] += 1
        for fn, k in c.items():
            if k > 1 or c[other_dir(fn)]:
                self.rec("D14 balance", "dir", bool(c[other_dir(fn)]), f"{fn} is called {k} times, {other_dir(fn)} never", f.node)

    # D2
    def assign(self, t, v, n):
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                if swap(t, v):
                    return
                for a, b in zip(t.elts, v.elts):
                    self.assign(a, b, n)
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "interval":
                k = self.R.interval_of(v)
                pat = t.elts
                if len(pat) == 2 and all(isinstance(p, (ast.Tuple, ast.List)) for p in pat):
                    for i, p in enumerate(pat):
                        for j, x in enumerate(p.elts):
                            self.is_role(x, "dir", i, n)
                            self.is_role(x, "end", j, n)
                elif len(pat) == 2 and k in ("surface", "curve"):
                    for i, x in enumerate(pat):
                        self.is_role(x, "dir" if k == "surface" else "end", i, n)
            if isinstance(v, ast.Call) and ONEDIR.search(ast.unparse(v.func)):
                a = {one(self.R.roles(x), "dir") for x in t.elts}
                b = {one(self.R.roles(x), "dir") for x in v.args} - {None}
                if len(a) == 1 and None not in a and b:
                    self.rec("D2 assignment", "dir", a == b, f"{ast.unparse(t)} receive {ast.unparse(v)[:60]}", n)
            return
        self.flow(t, v, n, ("dir", "end"))
        self.copy(t, v, n)
        if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Tuple) and len(t.slice.elts) == 2:
            i, j = (const_index(x) for x in t.slice.elts)
            self.metric(v, i, j, n)

    # D12
    def metric(self, v, i, j, n):
        if isinstance(v, ast.Call) and len(v.args) == 2 and re.search("dot|inner", ast.unparse(v.func)) and i is not None and j is not None:
            x, y = (one(self.R.roles(a), "dir") for a in v.args)
            if x is not None and y is not None:
                self.rec("D12 metric", "dir", {i, j} == {x, y}, f"entry ({i}, {j}) is {ast.unparse(v)[:60]}", n)

    def is_role(self, x, d, want, n):
        r = one(self.R.roles(x), d)
        if r is not None:
            self.rec("D2 assignment", d, r == want, f"{ast.unparse(x)} is unpacked from the {NAMES[d][want]} part of an interval", n)

    def flow(self, t, v, n, doms):
        rt, rv = self.R.roles(t), self.R.roles(v)
        for d in doms:
            a, b = one(rt, d), rv.get(d)
            if a is None or not b:
                continue
            if d == "end" and (not simple(v) or LINE_SEARCH.match(ast.unparse(t))):
                continue
            self.rec("D2 assignment", d, a in b and (len(b) == 1 or d != "dir" or isinstance(t, ast.Subscript) or self.combined(t, v)), f"{ast.unparse(t)} receives {ast.unparse(v)[:60]}", n)

    def combined(self, t, v):
        """v legitimately combines both directions: a product of one with the other (cross terms of a 2x2 system, flat indices), a choice,
        an orthogonalisation of vectors"""
        x = one(self.R.roles(t), "dir")
        for n in ast.walk(v):
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Div, ast.FloorDiv, ast.Mod)):
                a, b = self.R.roles(n.left).get("dir"), self.R.roles(n.right).get("dir")
                if a and b and a | b == {0, 1}:
                    return True
                other = n.right if a and 1 - x in a else n.left
                if (a and 1 - x in a or b and 1 - x in b) and any(isinstance(c, ast.Call) for c in ast.walk(other)):
                    return True
            if isinstance(n, (ast.IfExp, ast.BoolOp, ast.Compare, ast.MatMult)):
                return True
        return False

    # D10
    def mixture(self, n):
        R, l, r = self.R, n.left, n.right
        if not isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            return
        ra, rb = R.roles(l), R.roles(r)
        x, y = one(ra, "dir"), one(rb, "dir")
        tx, ty = ast.unparse(l), ast.unparse(r)
        if simple(l) and simple(r) and tx == ty:
            if not isinstance(n.op, ast.Mult) and ({"dir", "end", "xyz"} & set(ra)) or isinstance(n.op, ast.Mult) and x is not None and KIND.search(tx):
                self.rec("D10 mixture", "dir", False, f"{ast.unparse(n)} combines a value with itself", n)
        if x is None or y is None:
            return
        if isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(l, ast.Name) and isinstance(r, ast.Name) and PAR.match(l.id) and PAR.match(r.id) and not {l.id, r.id} <= {"u", "v"}:
            self.rec("D10 mixture", "dir", x == y, ast.unparse(n), n)
        elif isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            kl, kr = set(KIND.findall(tx)), set(KIND.findall(ty))
            if kl and kr and (kl != kr or not isinstance(n.op, ast.Mult)) or (kl or kr) and isinstance(n.op, (ast.Add, ast.Sub)) and simple(l) and simple(r):
                self.rec("D10 mixture", "dir", x == y, ast.unparse(n), n)

    # D13
    def choice(self, n):
        self.rec("D13 choice", "dir", ast.unparse(n.body) != ast.unparse(n.orelse), ast.unparse(n)[:80], n)
        t = n.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and const_index(t.comparators[0]) in (0, 1) and isinstance(t.ops[0], (ast.Eq, ast.NotEq)):
            x, y = one(self.R.roles(n.body), "dir"), one(self.R.roles(n.orelse), "dir")
            if x is not None and y is not None:
                want = const_index(t.comparators[0]) ^ isinstance(t.ops[0], ast.NotEq)
                self.rec("D13 choice", "dir", (x, y) == (want, 1 - want), ast.unparse(n)[:80], n)

    # D6, D11 on the arguments of a call
    def args_order(self, n):
        fn = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
        if (self.f.qual, fn) in OK:
            return
        for a, b in zip(n.args, n.args[1:]):
            if not (simple(a) and simple(b)):
                continue
            ra, rb = self.R.roles(a), self.R.roles(b)
            x, y = one(ra, "dir"), one(rb, "dir")
            ta, tb = ast.unparse(a), ast.unparse(b)
            if x is not None and y is not None:
                if x != y and not SYMM.search(fn) and nodir(ta) == nodir(tb) and sum(nodir(ast.unparse(c)) == nodir(ta) for c in n.args) == 2:
                    self.rec("D6 order", "dir", x < y, f"{ast.unparse(n)[:70]}", n)
                if not BOTHU.search(fn):
                    self.rec("D11 repeated", "dir", ta != tb, f"{ast.unparse(n)[:80]}", n)
            elif one(ra, "end") is not None and one(rb, "end") is not None:
                self.rec("D11 repeated", "end", ta != tb, f"{ast.unparse(n)[:80]}", n)

    def copy(self, t, v, n):
        """coordinates: plain copies only"""
        if isinstance(t, (ast.Name, ast.Attribute)) and simple(v):
            a = one(self.R.roles(t), "xyz")
            if a is None:
                return
            b = one(self.R.roles(v), "xyz")
            c = last_index(v)
            if b is not None:
                self.rec("D2 assignment", "xyz", a == b, f"{ast.unparse(t)} receives {ast.unparse(v)[:60]}", n)
            elif c is not None and 0 <= c <= 2:
                self.rec("D2 assignment", "xyz", a == c, f"{ast.unparse(t)} receives {ast.unparse(v)[:60]}", n)
        elif isinstance(t, ast.Subscript) and isinstance(v, (ast.Name, ast.Attribute)):
            b = one(self.R.roles(v), "xyz")
            c = last_index(t)
            if b is not None and c is not None and 0 <= c <= 2:
                self.rec("D2 assignment", "xyz", b == c, f"{ast.unparse(t)} receives {ast.unparse(v)[:60]}", n)

    # D4
    def compare(self, n):
        l = n.left
        for op, r in zip(n.ops, n.comparators):
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and simple(l) and simple(r):
                ra, rb = self.R.roles(l), self.R.roles(r)
                x, y = one(ra, "dir"), one(rb, "dir")
                if x is not None and y is not None:
                    self.rec("D4 comparison", "dir", x == y or not (ra.get("end") or rb.get("end")), f"{ast.unparse(n)[:70]}", n)
            l = r
        if len(n.ops) == 2 and simple(n.left) and all(simple(c) for c in n.comparators):
            ds = [one(self.R.roles(c), "dir") for c in [n.left] + n.comparators]
            if None not in ds:
                self.rec("D4 comparison", "dir", len(set(ds)) == 1, f"{ast.unparse(n)[:70]}", n)

    # D5
    def index(self, n):
        R = self.R
        chain, b = [], n
        while isinstance(b, ast.Subscript):
            ix = b.slice.elts if isinstance(b.slice, ast.Tuple) else [b.slice]
            chain = ix + chain
            b = b.value
        if R.axes(b):
            order = R.grids.get(b.id, (0, 1)) if isinstance(b, ast.Name) else (0, 1)
            for want, x in zip(order, chain[:2]):
                if isinstance(x, ast.Slice):
                    continue
                r = one(R.roles(x), "dir")
                if r is not None:
                    self.rec("D5 index", "dir", r == want, f"the {NAMES['dir'][want]} axis in {ast.unparse(n)[:60]} is indexed with {ast.unparse(x)}", n)
            return
        if isinstance(n.slice, (ast.Slice, ast.Tuple)):
            return
        a, c = one(R.roles(n.value), "dir"), R.roles(n.slice).get("dir")
        if a is not None and c:
            self.rec("D5 index", "dir", c == {a}, f"{ast.unparse(n)[:60]}", n)

    # D6
    def order(self, n):
        if len(n.elts) == 2 and all(isinstance(r, (ast.List, ast.Tuple)) and len(r.elts) == 2 for r in n.elts):
            for i, r in enumerate(n.elts):
                for j, v in enumerate(r.elts):
                    self.metric(v, i, j, n)
        rs = [self.R.roles(x) for x in n.elts]
        for a, b, ra, rb in zip(n.elts, n.elts[1:], rs, rs[1:]):
            if simple(a) and simple(b) or isinstance(a, ast.Call) and isinstance(b, ast.Call):
                x, y, ta = one(ra, "dir"), one(rb, "dir"), nodir(ast.unparse(a))
                if len(n.elts) > 2 and None not in (x, y) and x != y and ta == nodir(ast.unparse(b)) and sum(nodir(ast.unparse(c)) == ta for c in n.elts) == 2:
                    self.rec("D6 order", "dir", x < y, f"({', '.join(ast.unparse(v) for v in n.elts)[:60]})", n)
                if any(one(ra, d) is not None and one(rb, d) is not None for d in ("dir", "end")):
                    self.rec("D11 repeated", "dir", ast.unparse(a) != ast.unparse(b), f"({', '.join(ast.unparse(v) for v in n.elts)[:60]})", n)
        if len(n.elts) == 2 and not any(neg(x) for x in n.elts):
            for d in ("dir", "end"):
                x, y = one(rs[0], d), one(rs[1], d)
                if x is None or y is None or x == y:
                    continue
                if d == "end":
                    p, q = one(rs[0], "xyz"), one(rs[1], "xyz")
                    e, g = one(rs[0], "dir"), one(rs[1], "dir")
                    if p != q or e != g or any(LINE_SEARCH.match(ast.unparse(v)) for v in n.elts):
                        continue
                self.rec("D6 order", d, x < y or self.in_swap(n), f"({', '.join(ast.unparse(v) for v in n.elts)[:60]})", n)
        if 2 <= len(n.elts) <= 3 and not any(neg(x) for x in n.elts):
            xs = [one(r, "xyz") for r in rs]
            if None not in xs and len(set(xs)) == len(xs):
                self.rec("D6 order", "xyz", xs == sorted(xs) or self.in_swap(n), f"({', '.join(ast.unparse(v) for v in n.elts)[:60]})", n)

    def in_swap(self, n):
        for s in ast.walk(self.f.node):
            if isinstance(s, ast.Assign) and s.value is n and any(isinstance(t, (ast.Tuple, ast.List)) and swap(t, n) for t in s.targets):
                return True
        return False

    # D1 D3 D8 D9
    def call(self, n, fdir):
        R = self.R
        fn = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
        if (self.f.qual, fn) in OK:
            return
        t = callee_of(self.prog, self.f, n)
        if any(isinstance(a, ast.Starred) for a in n.args) or t == "external":
            pr, t = None, None
        elif t is not None:
            pr = param_roles(t)
            if t.cls is not None and t.role != "static":
                pr = pr[1:]
        else:
            pr = self.method_roles(fn) if isinstance(n.func, ast.Attribute) else None
        if pr:
            for d in ("dir", "end", "xyz"):
                if len({p.get(d) for p in pr if p.get(d) is not None}) < 2:
                    continue
                for i, (a, p) in enumerate(zip(n.args, pr)):
                    x = one(R.roles(a), d)
                    if x is not None and p.get(d) is not None:
                        self.rec("D1 argument", d, x == p[d], f"{ast.unparse(a)[:50]} is passed to {fn} for its {NAMES[d][p[d]]} argument #{i}", n)
        for k in n.keywords:
            if k.arg:
                a, v = name_roles(k.arg), R.roles(k.value)
                for d in DOMS:
                    y = one(v, d)
                    if a.get(d) is not None and y is not None and (d != "op" or not R.zero_based):
                        self.rec("D1 argument", d, a[d] == y, f"{ast.unparse(k.value)[:50]} is passed to {fn} for {k.arg}", n)
        if t is not None and any(re.search("knot|degree|span", p) for p in t.pos_params) or ONEDIR.search(fn):
            pd = {p.get("dir") for p in pr} if pr else set()
            if not {0, 1} <= pd:
                rs = {x for a in list(n.args) + [k.value for k in n.keywords] for x in [one(R.roles(a), "dir")] if x is not None}
                if rs:
                    self.rec("D3 one-direction", "dir", len(rs) == 1, f"{fn} gets u and v data: {ast.unparse(n)[:90]}", n)
        if isinstance(n.func, ast.Attribute) and EVAL.match(fn) and not R.zero_based:
            r = one(R.roles(n.func.value), "op")
            ar = {x for a in n.args for x in [one(R.roles(a), "op")] if x is not None}
            if r is not None and len(ar) == 1:
                self.rec("D8 operand", "op", ar == {r}, f"{ast.unparse(n)[:70]}", n)
        self.partial(n, fn)
        q = name_roles(fn).get("dir")
        if q is not None and isinstance(n.func, ast.Attribute) and re.search("knot|split|insert|degree", fn):
            for a in n.args:
                x = one(R.roles(a), "dir")
                if x is not None and not name_roles(ast.unparse(a)).get("dir") in (0, 1) and not isinstance(a, ast.Subscript):
                    self.rec("D3 one-direction", "dir", x == q, f"{fn} gets {ast.unparse(a)[:50]}", n)
        if fdir is not None and q is not None:
            self.rec("D9 delegate", "dir", fdir == q, f"{fn} is called", n)
        if fdir is not None and ONEDIR.search(fn):
            for a in n.args:
                if isinstance(a, ast.Attribute) and "knots" in a.attr and name_roles(a.attr).get("dir") == 1 - fdir:
                    self.rec("D9 delegate", "dir", False, f"{fn} works on {ast.unparse(a)}", n)

    def partial(self, n, fn):
        """a partial derivative built by differences: the directions of the routine called and of the parameter that is shifted make up those in the name"""
        fd, cd = dirs_of(self.f.name), dirs_of(fn)
        if not fd or not cd and "deriv" in fn or "deriv" not in self.f.name or not ("deriv" in fn or "evaluate" in fn or fn in ("callback", "func", "f", "evaluator")):
            return
        if "deriv" in fn and (norm(fn) == norm(self.f.name) or norm(fn) == norm(self.f.name).replace("second", "")):
            left = list(fd)
            ok = all(c in left and not left.remove(c) for c in cd)
            self.rec("D9 delegate", "dir", ok and (not left or len(left) < len(fd)), f"{fn} is called", n)
            if not ok:
                return
        else:
            left = list(fd) if "deriv" not in fn else None
        if left is None or len(n.args) < 2 or len(left) != 1:
            return
        sh = [isinstance(a, ast.BinOp) for a in n.args[:2]]
        if sum(sh) == 1 and {one(self.R.roles(a), "dir") for a in n.args[:2]} == {0, 1}:
            self.rec("D9 delegate", "dir", sh["uv".index(left[0])], f"{ast.unparse(n)[:60]} shifts the other parameter", n)

    # D7
    def components(self, f):
        for node in ast.walk(f.node):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(node, fld, None)
                if not isinstance(b, list):
                    continue
                groups = collections.defaultdict(dict)
                self.pairs(b)
                for s in b:
                    if isinstance(s, (ast.Assign, ast.AugAssign)):
                        t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                        c = last_index(t)
                        if isinstance(t, ast.Subscript) and c in (0, 1, 2):
                            key = (ast.unparse(t.value), prefix(t), type(s).__name__)
                            if c == 0 or c not in groups[key]:
                                if c == 0:
                                    self.group(groups.pop(key, {}))
                                groups[key][c] = s
                for g in groups.values():
                    self.group(g)

    def pairs(self, body):
        """x[0] and x[1] filled side by side: when one of them gets its own direction, so does the other"""
        seen, wide = collections.defaultdict(dict), set()
        for s in body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript):
                t = s.targets[0]
                c, x = last_index(t), ast.unparse(t.value) + "[" + prefix(t)
                if c is not None and c > 1:
                    wide.add(x)
                if c in (0, 1):
                    seen[x][c] = s
        for x, g in seen.items():
            if set(g) == {0, 1} and x not in wide and not any(isinstance(v, ast.BinOp) for c in (0, 1) for v in ast.walk(g[c].value)):
                r = [one(self.R.roles(g[c].value), "dir") for c in (0, 1)]
                if None not in r and nodir(ast.unparse(g[0].value)) == nodir(ast.unparse(g[1].value)):
                    self.rec("D6 order", "dir", r == [0, 1], f"{x}[0], {x}[1] = {ast.unparse(g[0].value)[:30]}, {ast.unparse(g[1].value)[:30]}", g[1])

        byname = {}
        for s in body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(t, ast.Name):
                    byname[t.id] = s
                elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                    for a, v in zip(t.elts, s.value.elts):
                        if isinstance(a, ast.Name):
                            byname[a.id] = ast.copy_location(ast.Assign([a], v), s)
        for x, s in byname.items():
            m = re.fullmatch(r"((?:.*_)?[a-z]?)u(\d?(?:_.*)?)", x)
            o = byname.get(m.group(1) + "v" + m.group(2)) if m else None
            if o is not None:
                p, q = one(self.R.roles(s.value), "dir"), one(self.R.roles(o.value), "dir")
                if p is not None and q is not None:
                    self.rec("D2 assignment", "dir", (p, q) == (0, 1), f"{x} and its v counterpart receive {ast.unparse(s.value)[:40]} and {ast.unparse(o.value)[:40]}", s)

    def group(self, g):
        if set(g) != {0, 1, 2}:
            return
        I = [indices(g[k].value) for k in range(3)]
        for A in set(I[0]) & set(I[1]) & set(I[2]):
            agree = [I[k][A] == {k} for k in range(3)]
            if sum(agree) >= 2:
                k = agree.index(False) if not all(agree) else 0
                self.rec("D7 component", "xyz", all(agree), f"component {k} uses component {sorted(I[k][A])} of {A}, its siblings their own", g[k])


def dirs_of(n):
    if n.startswith("evaluate"):
        return ""
    return "".join(t for t in n.split("_") if re.fullmatch(r"[uv]{1,2}", t))


def norm(n):
    return re.sub(r"\d", "", "".join(t for t in n.split("_") if not re.fullmatch(r"[uv]{1,2}|c", t))).lstrip("c")


def other_dir(n):
    return re.sub(r"(^|_)([dn]?)([uv])(?=\d|_|$)", lambda m: m.group(1) + m.group(2) + "vu"["uv".index(m.group(3))], n)


def nodir(t):
    """text with directions (letters and 0/1 indices of pairs) blanked"""
    return re.sub(r"\[[01]\]", "[.]", re.sub(r"(?<![a-zA-Z])([dn]?)[uv](?=\d|_|$|\W)|(?<=_)[uv](?=\d|_|$|\W)|(?<=[a-z]_[dn])[uv](?=\d|_|$|\W)", r"\1.", t))


def strip_dir(n):
    return "_".join(t for t in n.split("_") if not name_roles(t).get("dir") in (0, 1))


def prefix(t):
    ix = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
    return ",".join(ast.unparse(x) for x in ix[:-1])


def indices(e):
    out = collections.defaultdict(set)
    for x in ast.walk(e):
        if isinstance(x, ast.Subscript):
            c = last_index(x)
            if c is not None:
                out[ast.unparse(x.value) + "[" + prefix(x)].add(c)
    return out


def last_index(v):
    if not isinstance(v, ast.Subscript):
        return None
    ix = v.slice.elts if isinstance(v.slice, ast.Tuple) else [v.slice]
    return const_index(ix[-1])


def neg(x):
    return isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub)


def simple(v):
    return isinstance(v, (ast.Name, ast.Attribute, ast.Subscript))


def swap(t, v):
    a, b = [ast.unparse(x) for x in t.elts], [ast.unparse(x) for x in v.elts]
    return a != b and sorted(a) == sorted(b)


def run(prog, tier):
    res = Result()
    require(prog, "mmcore.geom.nurbs:NURBSSurface", "mmcore.geom.nurbs:split_surface_u", "mmcore.geom.parametric:ParametricSurface")
    C = Checker(prog, res)
    for f in prog.functions():
        if inscope(f.module.name) and "<locals>" not in f.qual:
            C.func(f)
            bad, n = siblings.check(f.node)
            res.ob(n)
            for kind, node, t in bad:
                what = f"{', '.join(t)} where the siblings run through the coordinates" if kind == "triple" else f"{t[0]} stays in one place where it becomes {t[1]} elsewhere"
                res.add("D15 sibling", f.qual, what, loc=f"{f.module.rel}:{getattr(node, 'lineno', f.node.lineno)} {ast.unparse(node)[:100]}")
            for rule, mod in (("D16 operand", operands.check), ("D17 combination", grids.check), ("D17 combination", grids.squares), ("D17 combination", grids.extremes), ("D18 repetition", repeats.check), ("D19 blend", blend.check)):
                bad, n = mod(f.node)
                res.ob(n)
                seen = set()
                for node, t in bad:
                    if t not in seen:
                        seen.add(t)
                        res.add(rule, f.qual, t, loc=f"{f.module.rel}:{getattr(node, 'lineno', f.node.lineno)} {ast.unparse(node)[:100]}")
    for m in prog.modules.values():
        if inscope(m.name):
            for c in ast.walk(m.tree):
                if isinstance(c, ast.ClassDef):
                    bad, n = blend.oriented(c)
                    res.ob(n)
                    for node, t in bad:
                        res.add("D19 blend", f"{m.name}.{c.name}", t, loc=f"{m.rel}:{node.lineno}")
    res.info["instances"] = {f"{a} {d}": k for (a, d), k in sorted(C.cnt.items())}
    if sum(C.cnt.values()) < 800:
        raise AnalysisError(f"only {sum(C.cnt.values())} role instances found")
    res.sample({"instances": res.info["instances"]})
    return res
