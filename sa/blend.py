"""Blends, normalisations, projections and frames: the two weights of a linear interpolation belong to one parameter; a vector is divided by its
own length; what is projected out of a vector is its component along another one; T, N, B turn one way."""
from __future__ import annotations
import ast
import collections
import re

LENGTH = {"norm", "scalar_norm", "length", "vector_norm", "_norm"}
CROSS = {"cross", "scalar_cross", "scalar_cross_product", "cross_product"}
DOT = {"dot", "scalar_dot", "inner", "vdot"}


def called(c):
    return c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ""


def factors(e):
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        return factors(e.left) + factors(e.right)
    return [e]


def complement(e):
    """x of 1 - x"""
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub) and isinstance(e.left, ast.Constant) and e.left.value in (1, 1.0) and not isinstance(e.right, ast.Constant):
        return ast.dump(e.right)
    return None


def root(es):
    """the thing a weighted term is of: self.c1 of self.c1.evaluate(x)"""
    if len(es) != 1:
        return None
    e = es[0]
    while isinstance(e, (ast.Call, ast.Subscript)):
        e = e.func.value if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) else e.value if isinstance(e, ast.Subscript) else None
    return ast.unparse(e) if isinstance(e, (ast.Name, ast.Attribute)) else None


def blends(fn):
    """(node, parameter, low term, high term) of (1 - t) * A + t * B"""
    for n in ast.walk(fn):
        yield from blends_of(n)


def blends_of(n):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = factors(n.left), factors(n.right)
        for lo, hi in ((a, b), (b, a)):
            ks = [k for k, x in enumerate(lo) if complement(x)]
            if len(ks) == 1 and len(lo) == 2 and len(hi) == 2 and not any(complement(x) for x in hi):
                t = complement(lo[ks[0]])
                yield n, lo[ks[0]].right, t, [x for k, x in enumerate(lo) if k != ks[0]], hi


def scalar(e):
    return isinstance(e, ast.Name) and len(e.id) <= 2 or isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.value, ast.Name)


def weights(fn):
    cnt, out = 0, []
    for n, node, t, lo, hi in blends(fn):
        cnt += 1
        if any(ast.dump(x) == t for x in hi) or not scalar(node):
            continue
        shapes = [x for x in hi if scalar(x) and type(x) is type(node) and (not isinstance(x, ast.Subscript) or ast.dump(x.value) == ast.dump(node.value))]
        if len(shapes) == 1 and not isinstance(lo[0], ast.Constant):
            out.append((n, f"{ast.unparse(n)[:80]}: the weights belong to {ast.unparse(node)} and to {ast.unparse(shapes[0])}"))
    return out, cnt


def oriented(cls):
    """methods of a class that weight the same two members the other way round"""
    seen, cnt = collections.defaultdict(list), 0
    for n, node, t, lo, hi in blends(cls):
        rest = [x for x in hi if ast.dump(x) != t]
        a, b = root(lo), root(rest)
        if a and b and a != b and a.split(".")[0] == b.split(".")[0] and len(hi) == len(rest) + 1:
            cnt += 1
            seen[tuple(sorted((a, b)))].append(((a, b), n))
    out = []
    for k, xs in seen.items():
        c = collections.Counter(o for o, _ in xs)
        if len(c) == 2:
            (_, m), (o, k) = c.most_common()
            if m >= 2 and k == 1:
                out += [(n, f"{ast.unparse(n)[:90]}: {p[0]} and {p[1]} are weighted the other way round elsewhere") for p, n in xs if p == o]
    return out, cnt


def near(a, b):
    """equal but for one index or one operand number"""
    x, y = ast.unparse(a), ast.unparse(b)
    return x != y and re.sub(r"\d", "#", x) == re.sub(r"\d", "#", y) and type(a) is type(b)


def lengths(fn):
    cnt, out = 0, []
    for n in ast.walk(fn):
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Div):
            x, y = n.target, n.value
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div):
            x, y = n.left, n.right
        else:
            continue
        if isinstance(y, ast.Call) and called(y) in LENGTH and y.args:
            cnt += 1
            if near(x, y.args[0]):
                out.append((n, f"{ast.unparse(n)[:80]}: divided by the length of another vector"))
    return out, cnt


def projections(fn):
    """x -= y * dot(x, y)"""
    cnt, out = 0, []
    for n in ast.walk(fn):
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Sub):
            x, v = n.target, n.value
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub):
            x, v = n.left, n.right
        else:
            continue
        fs = factors(v)
        if len(fs) == 2:
            ds = [f for f in fs if isinstance(f, ast.Call) and called(f) in DOT and len(f.args) == 2]
            if len(ds) == 1:
                y = next(f for f in fs if f is not ds[0])
                p = {ast.dump(a).replace("Store()", "Load()") for a in ds[0].args}
                X, Y = ast.dump(x).replace("Store()", "Load()"), ast.dump(y)
                if len(p) == 2 and X in p:
                    cnt += 1
                    if X == Y or Y not in p:
                        out.append((n, f"{ast.unparse(n)[:80]}: the component along {ast.unparse(next(a for a in ds[0].args if ast.dump(a) != X))} is taken out along {ast.unparse(y)}"))
    return out, cnt


def turn(x):
    w = x.lower().strip("_").split("_")[0]
    return {"t": 0, "tangent": 0, "n": 1, "b": 2, "binormal": 2}.get(w)


def frames(fn):
    """N = B x T, B = T x N, T = N x B"""
    cnt, out = 0, []
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and called(n.value) in CROSS and len(n.value.args) == 2:
            a = n.value.args
            if all(isinstance(x, ast.Name) for x in a):
                k = [turn(x.id) for x in (n.targets[0], *a)]
                if sorted(map(str, k)) == ["0", "1", "2"]:
                    cnt += 1
                    if (k[1] - k[0]) % 3 != 1:
                        out.append((n, f"{ast.unparse(n)}: left-handed"))
        elif isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) in (3, 4) and all(isinstance(x, ast.Name) for x in n.elts[-3:]):
            k = [turn(x.id) for x in n.elts[-3:]]
            if sorted(map(str, k)) == ["0", "1", "2"]:
                cnt += 1
                if k[1] != (k[0] + 1) % 3:
                    out.append((n, f"{ast.unparse(n)}: tangent, normal and binormal out of order"))
    return out, cnt


def check(fn):
    out, cnt = [], 0
    for g in (weights, lengths, projections, frames):
        a, b = g(fn)
        out += a
        cnt += b
    return out, cnt
