"""Grids: four (eight) calls or tuples of one shape that go through the combinations of two (three) choices; squared differences."""
from __future__ import annotations
import ast
import collections

from .siblings import runs


def shape(e):
    return (type(e).__name__, ast.unparse(e.func) if isinstance(e, ast.Call) else "", len(e.args) if isinstance(e, ast.Call) else len(e.elts) if isinstance(e, (ast.Tuple, ast.List)) else -1)


def row(e):
    out = []
    for a in (e.args if isinstance(e, ast.Call) else e.elts):
        if isinstance(a, (ast.Tuple, ast.List)):
            out += row(a)
        else:
            out.append(ast.unparse(a))
    return out


def call_of(s):
    """the innermost call with several arguments a statement is about"""
    v = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return)) else s
    while isinstance(v, ast.Call) and len(v.args) == 1 and isinstance(v.args[0], (ast.Call, ast.Tuple, ast.List)):
        v = v.args[0]
    return v if isinstance(v, ast.Call) and len(v.args) > 1 and not any(isinstance(a, ast.Starred) for a in v.args) else None


def groups(fn):
    for r in runs(fn):
        for g in split([x for x in ((call_of(s), s) for s in r)]):
            yield g
    for n in ast.walk(fn):
        es = n.elts if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) else n.args if isinstance(n, ast.Call) else []
        if len(es) == 5 and ast.dump(es[0]) == ast.dump(es[4]):        # a closed polygon
            es = es[:4]
        if len(es) in (4, 8):
            if all(isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) > 1 for e in es):
                yield es
            elif all(call_of(e) is not None for e in es):
                yield [call_of(e) for e in es]


def split(xs):
    cur = []
    for c, s in xs:
        if c is not None and cur and shape(c) == shape(cur[0]):
            cur.append(c)
        else:
            if len(cur) > 1:
                yield cur
            cur = [c] if c is not None else []
    if len(cur) > 1:
        yield cur


def check(fn):
    out, n = [], 0
    seen = set()
    for g in groups(fn):
        if id(g[0]) in seen or len({shape(e) for e in g}) != 1:
            continue
        seen.add(id(g[0]))
        rows = [row(e) for e in g]
        if len({len(r) for r in rows}) != 1 or len(g) not in (4, 8):
            continue
        n += 1
        if len({tuple(r) for r in rows}) < len(rows):
            d = [r for r, c in collections.Counter(map(tuple, rows)).items() if c > 1][0]
            out.append((g[0], f"{', '.join(d)[:90]} is taken twice and another combination not at all"))
            continue
        cols = [collections.Counter(c) for c in zip(*rows)]
        if sum(len(c) == 2 and set(c.values()) == {len(g) // 2} for c in cols) < 2:
            continue
        for c in cols:
            if len(c) > 1 and len(set(c.values())) > 1:
                x = min(c, key=lambda v: c[v])
                out.append((g[0], f"{x} is taken {c[x]} time(s) of {len(g)} where the combinations are taken evenly"))
    return out, n


def squares(fn):
    """(p[i] - q[j]) squared with i != j"""
    n, out = 0, []
    for x in ast.walk(fn):
        d = x.left if isinstance(x, ast.BinOp) and (isinstance(x.op, ast.Pow) or isinstance(x.op, ast.Mult) and ast.dump(x.left) == ast.dump(x.right)) else None
        if isinstance(d, ast.BinOp) and isinstance(d.op, ast.Sub) and isinstance(d.left, ast.Subscript) and isinstance(d.right, ast.Subscript):
            i, j = d.left.slice, d.right.slice
            if isinstance(i, ast.Constant) and isinstance(j, ast.Constant):
                n += 1
                if i.value != j.value and ast.dump(d.left.value) != ast.dump(d.right.value):
                    out.append((x, f"{ast.unparse(d)} is squared: components {i.value} and {j.value}"))
    return out, n


def name_of(e):
    return e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")


def extremes(fn):
    """(min(a), max(a)): least first, and both of the same thing; the same call twice in one display"""
    n, out = 0, []
    for x in ast.walk(fn):
        es = x.elts if isinstance(x, (ast.Tuple, ast.List)) and isinstance(x.ctx, ast.Load) else x.args if isinstance(x, ast.Call) else []
        for a, b in zip(es, es[1:]):
            if not (isinstance(a, ast.Call) and isinstance(b, ast.Call)):
                continue
            p, q = name_of(a), name_of(b)
            if len(a.args) == len(b.args) == 1 and not isinstance(a.args[0], (ast.List, ast.Tuple, ast.GeneratorExp, ast.ListComp)) and p != q and p.replace("min", "max") == q.replace("min", "max"):
                n += 1
                u, v = ast.unparse(a.args[0]), ast.unparse(b.args[0])
                if u == v and "max" in p and len(es) == 2:
                    out.append((x, f"{ast.unparse(x)[:80]}: the greatest before the least"))
                elif u != v and len(u) == len(v) and sum(c != d for c, d in zip(u, v)) == 1:
                    out.append((x, f"{ast.unparse(x)[:80]}: least and greatest of different things"))
            elif len(a.args) > 1 and not isinstance(x, ast.Call) and len(es) <= 3 and ast.dump(a) == ast.dump(b) and len({ast.dump(i) for i in a.args}) > 1:
                n += 1
                out.append((x, f"{ast.unparse(a)[:80]} is listed twice in a row"))
    return out, n
