"""Sibling statements: runs of statements of one shape that differ only in the coordinate, direction, end or operand they are about.

Two statements have the same shape when their syntax trees differ in leaves only (names, attributes, integer subscripts).  In a run of three
whose targets are the three coordinates of one thing, every leaf position holds the same leaf three times, or walks through the coordinates
in step with the target (any constant offset, as in a cross product).  In a pair whose targets are a thing of one tag and its counterpart,
a leaf that turns into its counterpart in most places turns into it in all of them."""
from __future__ import annotations
import ast
import itertools
import re

FAMILIES = ("0123", "xyz", "XYZ", "ijk")
WORDS = (("min", "max"), ("start", "end"), ("lower", "upper"), ("lo", "hi"), ("low", "high"), ("left", "right"), ("first", "second"), ("begin", "end"))
MIRROR = ("12", "uv", "st", "ab", "pq", "lr", "UV")        # pairs that do not make grids (ends do: every corner takes one end of each direction)
PAIRS = (("0", "1"), ("1", "2"), ("u", "v"), ("U", "V"), ("a", "b"), ("l", "r"))


def leaves(s):
    """(shape, [(leaf text, path)]) of a statement"""
    shape, out = [], []

    def go(n, path):
        if isinstance(n, ast.Name):
            shape.append("N")
            out.append((n.id, path))
        elif isinstance(n, ast.Attribute):
            shape.append("A(")
            go(n.value, path)
            shape.append(")")
            out.append((n.attr, path))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, int) and not isinstance(n.value, bool):
                shape.append("C")
                out.append((str(n.value), path))
            else:
                shape.append("K")
                out.append((repr(n.value), path))
        elif isinstance(n, (ast.expr_context,)):
            pass
        elif isinstance(n, (ast.operator, ast.unaryop, ast.cmpop, ast.boolop)):
            shape.append(type(n).__name__)
        else:
            shape.append(type(n).__name__ + "(")
            inprod = isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult)
            for f, v in ast.iter_fields(n):
                for c in (v if isinstance(v, list) else [v]):
                    if isinstance(c, ast.AST):
                        if inprod:
                            go(c, path if path and path[-1] is not None and isinstance(path[-1], str) and path[-1].startswith("*") else path + (f"*{id(n)}",))
                        else:
                            go(c, path + (f if False else type(n).__name__,))
                    elif isinstance(c, str) and f in ("arg",):
                        shape.append(c)
            shape.append(")")
    go(s, ())
    return "".join(shape), out


def walk3(ls):
    """(family, (c0, c1, c2)) when three leaves differ in one character that runs through a family, None when they are equal, False otherwise"""
    a, b, c = ls
    if a == b == c:
        return None
    if not len(a) == len(b) == len(c):
        return False
    d = [i for i in range(len(a)) if not a[i] == b[i] == c[i]]
    if len(d) != 1:
        return False
    ch = (a[d[0]], b[d[0]], c[d[0]])
    for f in FAMILIES:
        if all(x in f for x in ch):
            return f, tuple(f.index(x) for x in ch)
    return False


def product_groups(lv):
    """leaf positions that are factors of one product"""
    g = {}
    for i, (_, p) in enumerate(lv):
        for x in p:
            if x.startswith("*"):
                g.setdefault(x, []).append(i)
    return list(g.values())


def triple(nodes):
    """the leaf that breaks the step of three siblings, or None"""
    sh = [leaves(s) for s in nodes]
    if not sh[0][0] == sh[1][0] == sh[2][0]:
        return None
    n = len(sh[0][1])
    cols = [[v[1][i][0] for v in sh] for i in range(n)]
    kinds = [walk3(c) for c in cols]
    if any(k is False for k in kinds):
        return None

    # the driver: a position that counts up; the others keep an offset to it (around the three coordinates)
    drive = {k[1] for k in kinds if k and k[1] in ((0, 1, 2), (1, 2, 3))}
    if len(drive) != 1:
        return None
    d0 = drive.pop()
    m = 3 if d0 == (0, 1, 2) and all(max(k[1]) < 3 for k in kinds if k) else 99

    def off(k):
        return tuple((k[1][i] - d0[i]) % m for i in range(3))
    if isinstance(nodes[0], (ast.Assign, ast.AugAssign, ast.AnnAssign)):
        tl = [leaves(target(s))[1] for s in nodes]
        tr = [walk3([x[i][0] for x in tl]) for i in range(len(tl[0]))]
        if {x[1] for x in tr if x} != {d0}:
            return None
    bad = [i for i, k in enumerate(kinds) if k and len(set(off(k))) == 2]
    if len(bad) != 1:
        return None
    i = bad[0]
    for g in product_groups(sh[0][1]):
        if i in g and len(g) <= 6:
            # the factors of a product may be listed in any order
            for p1 in itertools.permutations(g):
                for p2 in itertools.permutations(g):
                    ks = [walk3([cols[a][0], cols[b][1], cols[c][2]]) for a, b, c in zip(g, p1, p2)]
                    if all(k is None or k and len(set(off(k))) != 2 for k in ks):
                        return None
    return cols[i]


def lists(fn):
    """groups of sibling expressions: elements of a display, terms of a sum, operands of and / or"""
    inner = set()
    for n in ast.walk(fn):
        if id(n) in inner:
            continue
        if isinstance(n, (ast.Tuple, ast.List)):
            es = n.elts
        elif isinstance(n, ast.BoolOp):
            es = []

            def flat(x):
                for v in x.values:
                    if isinstance(v, ast.BoolOp) and type(v.op) is type(n.op):
                        inner.add(id(v))
                        flat(v)
                    else:
                        es.append(v)
            flat(n)
        elif isinstance(n, ast.Call):
            es = n.args
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            ts, x = [], n
            while isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub)):
                inner.add(id(x))
                ts.append(x.right)
                x = x.left
            es = ts[::-1]
            es.insert(0, x)
        else:
            continue
        for i in range(len(es) - 2):
            yield es[i], es[i:i + 3]


def counterpart(a, b):
    """a and b differ in one tag (c0 / c1, u_min / v_min)"""
    if a == b:
        return None
    if len(a) != len(b) or words(a, b):
        return words(a, b)
    d = [i for i in range(len(a)) if a[i] != b[i]]
    if len(d) == 1 and (a[d[0]], b[d[0]]) in PAIRS:
        return a[d[0]], b[d[0]]
    return None


def words(a, b):
    """a and b differ in one word of a pair of words"""
    for x, y in WORDS:
        for p, q in ((x, y), (y, x)):
            i = a.find(p)
            while i >= 0:
                if a[:i] + q + a[i + len(p):] == b:
                    return p, q
                i = a.find(p, i + 1)
    return None


def pair(s, t):
    (sa, la), (sb, lb) = leaves(s), leaves(t)
    if sa != sb:
        return None
    ta, tb = leaves(target(s)), leaves(target(t))
    tags = set()
    for (x, _), (y, _) in zip(ta[1], tb[1]):
        if x != y:
            c = counterpart(x, y)
            if c is None:
                return None
            tags.add(c)
    if not tags:
        return None
    va, vb = leaves(value(s)), leaves(value(t))
    to = {}
    for (x, _), (y, _) in zip(va[1], vb[1]):
        to.setdefault(x, []).append(y)
    for x, ys in to.items():
        if x.isdigit():
            continue
        moved = [y for y in ys if y != x]
        if moved and len(set(moved)) == 1 and counterpart(x, moved[0]) and 0 < ys.count(x) and len(moved) >= 2 * ys.count(x):
            return x, moved[0]
    return None


def token(s, i):
    """character i of a name is a mark of its own"""
    lo, hi = s[i - 1] if i else "_", s[i + 1] if i + 1 < len(s) else "_"
    if s[i].isdigit():
        return not lo.isdigit() and not hi.isdigit()
    return not hi.isalpha() and (not lo.isalpha() or len(s) <= 2)


def mirrored(a, b):
    """the pair of marks whose exchange makes a into b"""
    if len(a) != len(b) or a == b:
        return None
    d = [i for i in range(len(a)) if a[i] != b[i]]
    ps = {(a[i], b[i]) for i in d}
    if len(ps) == 1 and not a.isdigit():
        x, y = ps.pop()
        if (x + y in MIRROR or y + x in MIRROR) and all(token(a, i) for i in d):
            return tuple(sorted((x, y)))
    return None


def exchange(a, p):
    return "".join((p[1] if c == p[0] else p[0]) if c in p and token(a, i) else c for i, c in enumerate(a))


def stem(a, p):
    return "".join("#" if c in p and token(a, i) else c for i, c in enumerate(a))


GRID = re.compile(r"^_*[a-z]?_?(?:uv|[uvstxyzij])s?#")


def half(la, lb, p, names, same):
    """a leaf that stays although its counterpart exists, in a sibling that otherwise exchanges the marks of a pair"""
    if len(la) != len(lb):
        return None
    z = [(x, y) for (x, _), (y, _) in zip(la, lb)]
    moved = [(x, y) for x, y in z if mirrored(x, y)]
    if p is None:
        ps = {mirrored(x, y) for x, y in moved}
        if len(ps) != 1:
            return None
        p = ps.pop()
    moved = [(x, y) for x, y in moved if mirrored(x, y) == p]
    if not moved or any(x != y and (x, y) not in moved for x, y in z):
        return None
    ms = {stem(x, p) for x, _ in moved}
    for x, y in z:
        if x == y and exchange(x, p) != x and exchange(x, p) in names and not x.isdigit():
            s = stem(x, p)
            if (same or s not in ms) and not (GRID.match(s) and all(GRID.match(m) for m in ms)):
                return x, exchange(x, p)
    return None


def mirrors(fn):
    names = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute)} | {n.arg for n in ast.walk(fn) if isinstance(n, ast.arg)}
    n = 0
    for r in runs(fn):
        for i, s in enumerate(r):
            for t in r[i + 1:i + 6]:
                if type(t) is not type(s) or not simple(s) or not simple(t) or leaves(s)[0] != leaves(t)[0]:
                    continue
                ps = {mirrored(x, y) for (x, _), (y, _) in zip(leaves(target(s))[1], leaves(target(t))[1]) if x != y}
                if len(ps) != 1 or None in ps:
                    continue
                p = ps.pop()
                n += 1
                h = half(leaves(value(s))[1], leaves(value(t))[1], p, names, p == ("1", "2"))
                if h:
                    yield t, h
    for x in ast.walk(fn):
        if isinstance(x, ast.Call):
            es = x.args
        elif isinstance(x, (ast.Tuple, ast.List)):
            es = x.elts
        elif isinstance(x, ast.BinOp):
            es = [x.left, x.right]
        elif isinstance(x, ast.Compare):
            es = [x.left] + x.comparators
        else:
            continue
        for a, b in zip(es, es[1:]):
            la, lb = leaves(a), leaves(b)
            if la[0] == lb[0] and len(la[1]) > 1:
                n += 1
                h = half(la[1], lb[1], None, names, False)
                if h:
                    yield x, h


def target(s):
    return s.targets[0] if isinstance(s, ast.Assign) else s.target


def simple(s):
    return isinstance(s, ast.Assign) and len(s.targets) == 1 or isinstance(s, (ast.AugAssign, ast.AnnAssign))


def value(s):
    return s.value


def runs(fn):
    """lists of consecutive statements of a function"""
    for n in ast.walk(fn):
        for b in ("body", "orelse", "finalbody"):
            body = getattr(n, b, None)
            if isinstance(body, list):
                yield [s for s in body if not (isinstance(s, (ast.Pass, ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) or isinstance(s, ast.AnnAssign) and s.value is None
                                               or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]


def check(fn):
    out, n = [], 0
    for r in runs(fn):
        for i in range(len(r) - 2):
            if len({type(s) for s in r[i:i + 3]}) > 1:
                continue
            n += 1
            t = triple(r[i:i + 3])
            if t:
                out.append(("triple", r[i], t))
        for i in range(len(r) - 1):
            if type(r[i]) is type(r[i + 1]) and simple(r[i]) and simple(r[i + 1]):
                n += 1
                t = pair(r[i], r[i + 1])
                if t:
                    out.append(("pair", r[i + 1], t))
    for x, es in lists(fn):
        n += 1
        t = triple(es)
        if t:
            out.append(("triple", x, t))
    for x, t in mirrors(fn):
        out.append(("pair", x, t))
    return out, n
