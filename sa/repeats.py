"""Repeated operands: a call, a conjunction or a pair of statements where one operand stands in two places although its counterpart exists;
and the extents of an array listed in another order than they have."""
from __future__ import annotations
import ast
import collections
import re
from . import siblings as S

SELF = {"dot", "scalar_dot", "vdot", "inner", "outer", "matmul", "cross", "norm", "hypot", "multiply", "zip", "product", "isinstance", "arange", "range", "append", "extend", "index", "replace"}
ALLOC = {"zeros", "empty", "ones", "full", "list", "dict", "set", "array", "zeros_like", "empty_like", "copy", "uint32", "object", "deepcopy"}
ENDWORD = re.compile(r"(?:^|_)(min|max|start|end|lower|upper|left|right|lo|hi)(?:_|$)")
OPPOSITE = ("12", "uv", "ab", "st", "pq", "UV", "lr")


def called(c):
    return c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ""


def names_of(fn):
    return {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute)} | {n.arg for n in ast.walk(fn) if isinstance(n, ast.arg)}


def idents(e):
    return {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(e) if isinstance(x, (ast.Name, ast.Attribute))}


def opposite(i, names):
    for p in OPPOSITE:
        o = S.exchange(i, p)
        if o != i and o in names:
            return o
    return None


def twice(fn):
    """an argument given twice to one call although its counterpart exists; an operand of and/or that repeats another"""
    names, cnt, out = names_of(fn), 0, []
    for n in ast.walk(fn):
        if isinstance(n, ast.BoolOp):
            cnt += 1
            d = [ast.dump(v) for v in n.values]
            if len(set(d)) < len(d):
                out.append((n, f"{ast.unparse(n)[:90]} has an operand twice"))
        elif isinstance(n, ast.Call) and 2 <= len(n.args) <= 4 and called(n) not in SELF and "dot" not in called(n) and "norm" not in called(n) and not isinstance(n.func, ast.Subscript):
            a = [x for x in n.args if not isinstance(x, (ast.Constant, ast.Starred))]
            cnt += 1
            seen = set()
            for x in a:
                d = ast.dump(x)
                if d in seen and any(opposite(i, names) for i in idents(x)):
                    out.append((n, f"{ast.unparse(n)[:90]} is given {ast.unparse(x)[:40]} twice"))
                    break
                seen.add(d)
        elif isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
            a, b = n.elts
            if not isinstance(a, ast.Constant) and ast.dump(a) == ast.dump(b):
                cnt += 1
                if any(ENDWORD.search(i) for i in idents(a)):
                    out.append((n, f"{ast.unparse(n)[:90]}: one end stands twice"))
    return out, cnt


def closing(fn):
    """(i + 1) % len(p) where i stops before the last point; p[i + 1] where it does not"""
    cnt, out = 0, []
    for n in ast.walk(fn):
        if isinstance(n, ast.For):
            loops, body = [n], n.body
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            loops, body = n.generators, [n.elt]
        else:
            continue
        for c in loops:
            r = c.iter
            if not (isinstance(c.target, ast.Name) and isinstance(r, ast.Call) and called(r) == "range" and len(r.args) in (1, 2)):
                continue
            bound, i = r.args[-1], c.target.id
            for b in body:
                for m in ast.walk(b):
                    if isinstance(m, ast.BinOp) and isinstance(m.op, ast.Mod) and isinstance(m.left, ast.BinOp) and isinstance(m.left.op, ast.Add) and isinstance(m.left.left, ast.Name) and m.left.left.id == i \
                            and isinstance(m.left.right, ast.Constant) and m.left.right.value == 1:
                        cnt += 1
                        if isinstance(bound, ast.BinOp) and isinstance(bound.op, ast.Sub) and isinstance(bound.right, ast.Constant) and bound.right.value == 1 and ast.dump(bound.left) == ast.dump(m.right):
                            out.append((n, f"{ast.unparse(m)} never closes the loop: {i} stops before {ast.unparse(bound)}"))
    return out, cnt


def joined(fn):
    """`if p(x1) or p(x2): f(x1, x2)`; of two mirrored tests one asks about both operands and the other about one"""
    cnt, out = 0, []

    def mirrored(vs):
        if len(vs) != 2 or any(isinstance(v, ast.UnaryOp) for v in vs):
            return None
        la, lb = S.leaves(vs[0]), S.leaves(vs[1])
        d = [(x, y) for (x, _), (y, _) in zip(la[1], lb[1]) if x != y]
        return d[0] if la[0] == lb[0] and len(d) == 1 and S.mirrored(*d[0]) else None
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and all(isinstance(v, ast.Call) and called(v) in ("isinstance", "hasattr") for v in n.test.values):
            m = mirrored(n.test.values)
            if m:
                cnt += 1
                if isinstance(n.test.op, ast.Or) and any(isinstance(c, ast.Call) and called(c) not in ("isinstance", "hasattr") and set(m) <= idents(c) for s in n.body for c in ast.walk(s)):
                    out.append((n, f"{ast.unparse(n.test)[:80]}: one of the two is enough where both are used"))
    for r in S.runs(fn):
        ifs = [s for s in r if isinstance(s, ast.If)]
        for s, t in zip(ifs, ifs[1:]):
            x, y = [S.leaves(ast.Module(body=q.body, type_ignores=[])) for q in (s, t)]
            if x[0] != y[0]:
                continue
            k = [isinstance(q.test, ast.BoolOp) and mirrored(q.test.values) for q in (s, t)]
            d = [z for z in zip([a for a, _ in x[1]], [a for a, _ in y[1]]) if z[0] != z[1]]
            if any(k) and len(d) >= 2:
                cnt += 1
                lone, m = (t, k[0]) if k[0] and not k[1] else (s, k[1]) if k[1] and not k[0] else (None, None)
                if lone is not None and isinstance(lone.test, ast.Call) and called(lone.test) in ("isinstance", "hasattr"):
                    out.append((lone, f"{ast.unparse(lone.test)[:80]}: asks about one operand where the statement beside it asks about both"))
    return out, cnt


def same_value(fn):
    """two targets that are counterparts receive the same value of a call that could exchange its operands; a leaf that becomes its
    counterpart in one place and something else in another"""
    cnt, out = 0, []
    names = names_of(fn)
    for r in S.runs(fn):
        for s, t in zip(r, r[1:]):
            if type(s) is not type(t) or not S.simple(s) or not S.simple(t):
                continue
            v = S.value(s)
            if isinstance(S.target(s), ast.Name) and isinstance(S.target(t), ast.Name) and isinstance(v, ast.Call) and ast.dump(v) == ast.dump(S.value(t)) and called(v) not in ALLOC and S.target(s).id not in idents(v) | {S.target(t).id} and any(opposite(i, names) for i in idents(v)):
                out.append((t, f"{ast.unparse(t)[:80]}: the same value as {ast.unparse(S.target(s))}"))
                continue
            ls, lt = S.leaves(s), S.leaves(t)
            if ls[0] != lt[0]:
                continue
            ps = {S.mirrored(x, y) for (x, _), (y, _) in zip(S.leaves(S.target(s))[1], S.leaves(S.target(t))[1]) if x != y}
            if len(ps) != 1 or None in ps:
                continue
            p = "".join(ps.pop())
            va, vb = [x for x, _ in S.leaves(S.value(s))[1]], [x for x, _ in S.leaves(S.value(t))[1]]
            cnt += 1
            if va == vb and isinstance(v, ast.Call) and called(v) not in ALLOC and v.args and any(S.exchange(i, p) != i and S.exchange(i, p) in names for i in idents(v)) and not idents(v) & idents(S.target(s)):
                out.append((t, f"{ast.unparse(t)[:80]}: the same value as {ast.unparse(S.target(s))}"))
            if p not in ("12", "uv", "UV"):
                continue
            to = collections.defaultdict(list)
            for x, y in zip(va, vb):
                to[x].append(y)
            for x, ys in to.items():
                o = S.exchange(x, p)
                if o != x and ys.count(o) >= 2 and len(set(ys)) == 2 and x not in ys:
                    out.append((t, f"{x} becomes {o} in one place and {next(y for y in ys if y != o)} in another"))
    return out, cnt


def extents(fn):
    """(n1, n0) where n0, n1 = X.shape; (X.shape[1], X.shape[0])"""
    cnt, out, orders = 0, [], []
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and len(n.targets[0].elts) >= 2 and all(isinstance(e, ast.Name) for e in n.targets[0].elts):
            v = n.value
            while isinstance(v, ast.Subscript):
                v = v.value
            if isinstance(v, ast.Attribute) and v.attr in ("shape", "degree", "_degree"):
                orders.append([e.id for e in n.targets[0].elts][:2])
    axis = axis_of(fn)
    for n in ast.walk(fn):
        es = n.elts if isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load) else n.args if isinstance(n, ast.Call) and called(n) == "reshape" else []
        if len(es) < 2:
            continue
        a, b = es[:2]
        if isinstance(a, ast.Name) and isinstance(b, ast.Name) and any({a.id, b.id} == set(o) and len(set(o)) == 2 for o in orders):
            cnt += 1
            if [b.id, a.id] in orders and [a.id, b.id] not in orders:
                out.append((n, f"{ast.unparse(n)[:80]}: the extents of the second axis come before those of the first"))
        ka, kb = axis(a), axis(b)
        if ka and kb and ka[0] == kb[0]:
            cnt += 1
            if (ka[1], kb[1]) == (1, 0):
                out.append((n, f"{ast.unparse(n)[:80]}: the extent of the second axis comes before that of the first"))
    return out, cnt


def axis_of(fn):
    def go(e):
        if isinstance(e, ast.BinOp) and isinstance(e.right, ast.Constant):
            e = e.left
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr in ("shape", "degree") and isinstance(e.slice, ast.Constant):
            return ast.unparse(e.value), e.slice.value
        return None
    return go


def transposed(fn):
    return any(isinstance(n, ast.Attribute) and n.attr in ("T", "transpose", "swapaxes") or isinstance(n, ast.Name) and n.id in ("transpose", "swapaxes") for n in ast.walk(fn))


def check(fn):
    out, cnt = twice(fn)
    for g in (closing, joined, directions):
        a, b = g(fn)
        out += a
        cnt += b
    for g in (same_value, extents, axes, loops) if not transposed(fn) else (same_value,):
        a, b = g(fn)
        out += a
        cnt += b
    return out, cnt


def axes(fn):
    """an index that runs over one axis of an array stands at another axis, or is combined with the extent of another"""
    role, shaped = {}, {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and all(isinstance(e, ast.Name) for e in n.targets[0].elts):
            v = n.value
            if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice) and v.slice.lower is None:
                v = v.value
            if isinstance(v, ast.Attribute) and v.attr == "shape" and isinstance(v.value, ast.Name) and len(n.targets[0].elts) >= 2:
                for k, e in enumerate(n.targets[0].elts[:2]):
                    role.setdefault(e.id, set()).add(k)
                shaped[v.value.id] = len(n.targets[0].elts)
    role = {x: next(iter(k)) for x, k in role.items() if len(k) == 1 and x != "_"}
    if len(set(role.values())) < 2:
        return [], 0
    stores = collections.Counter(n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
    role = {x: k for x, k in role.items() if stores[x] == 1}
    extent = dict(role)

    def of(e):
        r = {role[x.id] for x in ast.walk(e) if isinstance(x, ast.Name) and x.id in role}
        return r

    def extent_of(e):
        if isinstance(e, ast.BinOp) and isinstance(e.right, ast.Constant) and isinstance(e.op, (ast.Add, ast.Sub)):
            e = e.left
        return role.get(e.id) if isinstance(e, ast.Name) else None
    loops = {}
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Call) and called(n.iter) in ("range", "prange") and n.iter.args:
            b = n.iter.args[0] if len(n.iter.args) == 1 else n.iter.args[1]
            loops.setdefault(n.target.id, set()).add(extent_of(b))
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and called(n.value) in ("zeros", "empty", "ones") and n.value.args:
            a = n.value.args[0]
            if isinstance(a, ast.Tuple) and len(a.elts) >= 2 and (extent_of(a.elts[0]), extent_of(a.elts[1])) == (0, 1):
                shaped[n.targets[0].id] = len(a.elts)
    for x, k in loops.items():
        if len(k) == 1 and None not in k:
            role[x] = next(iter(k))
    cnt, out = 0, []
    for n in ast.walk(fn):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and isinstance(n.value, ast.Name) and n.value.id in shaped:
            for k, e in enumerate(n.slice.elts[:2]):
                r = of(e) if not isinstance(e, ast.Slice) else set()
                if r:
                    cnt += 1
                    if r == {1 - k}:
                        out.append((n, f"{ast.unparse(n)[:80]}: axis {k} is indexed by what runs over axis {1 - k}"))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.Add)):
            x, y = names(n.left), names(n.right)
            if x is not None and y is not None:
                r = {role[i] for i in x | y if i in role}
                if len(x | y) >= 2 and all(i in role for i in x | y) and any(i in extent for i in x | y) and any(i not in extent for i in x | y):
                    cnt += 1
                    if len(r) == 2:
                        out.append((n, f"{ast.unparse(n)[:80]}: an index of one axis with the extent of the other"))
    return out, cnt


def names(e):
    """names of a linear expression"""
    if isinstance(e, ast.Constant):
        return set()
    if isinstance(e, ast.Name):
        return {e.id}
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        a, b = names(e.left), names(e.right)
        return None if a is None or b is None else a | b
    return None


def mark(x):
    """direction of the name of a count or an extent"""
    m = re.match(r"^(?:n|num|count|len|size|res|resolution)?_?([uv])_?(?:count|num|n|size|steps|samples|res|resolution|points|params|values|vals|span)?s?$", x) or re.match(r"^(?:n|num|count|nb|size|len)_?([uv])s?$", x)
    return m and m.group(1)


def counted(x):
    m = re.match(r"^(?:n|num|count|nb|size|len|res|resolution|steps|samples)_?([uv])s?$|^([uv])_?(?:count|num|n|size|steps|samples|res|resolution)$", x)
    return m and (m.group(1) or m.group(2))


def loops(fn):
    """an index that runs to the count of one direction is compared with the count of the other or indexes its values"""
    role = {}
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Call) and called(n.iter) in ("range", "prange") and n.iter.args:
            b = n.iter.args[0] if len(n.iter.args) == 1 else n.iter.args[1]
            r = {counted(i) for i in idents(b)} - {None}
            role.setdefault(n.target.id, set()).add(next(iter(r)) if len(r) == 1 else None)
    role = {i: next(iter(r)) for i, r in role.items() if len(r) == 1 and None not in r}
    cnt, out = 0, []
    if len(set(role.values())) < 2:
        return out, cnt
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = n.left, n.comparators[0]
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and not isinstance(n.slice, (ast.Tuple, ast.Slice)):
            a, b = n.slice, n.value
        else:
            continue
        x = {role[i] for i in idents(a) if i in role}
        y = {(mark if isinstance(n, ast.Subscript) else counted)(i) for i in idents(b)} - {None}
        if len(x) == len(y) == 1 and not any(isinstance(z, ast.BinOp) and isinstance(z.op, ast.Mult) for z in ast.walk(a)):
            cnt += 1
            if x != y:
                out.append((n, f"{ast.unparse(n)[:80]}: an index of the {x.pop()} direction with what belongs to the {y.pop()} direction"))
    return out, cnt


DIRECTED = re.compile(r"^(?:d|s|n|num|e|i|b)?_?([uv])_?(?:\d|min|max|s|start|end|mid|interval|range|count|bounds)?$")


def directed(e):
    return {m.group(1) for m in map(DIRECTED.match, idents(e)) if m}


def directions(fn):
    """f((v0, v1), (u0, u1)); [v, 0.0]"""
    cnt, out = 0, []
    for n in ast.walk(fn):
        if isinstance(n, ast.Call):
            for a, b in zip(n.args, n.args[1:]):
                if isinstance(a, (ast.Tuple, ast.List, ast.Call, ast.Subscript)) and type(a) is type(b):
                    x, y = directed(a), directed(b)
                    if len(x) == len(y) == 1 and x != y:
                        cnt += 1
                        if x == {"v"} and S.leaves(a)[0] == S.leaves(b)[0]:
                            out.append((n, f"{ast.unparse(a)[:40]}, {ast.unparse(b)[:40]}: the second direction before the first"))
        elif isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
            ks = [k for k, e in enumerate(n.elts) if isinstance(e, ast.Name) and len(e.id) == 1 and e.id in "uv"]
            if len(ks) == 1 and isinstance(n.elts[1 - ks[0]], ast.Constant):
                cnt += 1
                if n.elts[ks[0]].id != "uv"[ks[0]]:
                    out.append((n, f"{ast.unparse(n)}: {n.elts[ks[0]].id} stands in the place of {'uv'[ks[0]]}"))
    return out, cnt


def past(fn):
    """p[i + k] while i runs through all of p"""
    cnt, out = 0, []
    parents = {c: n for n in ast.walk(fn) for c in ast.iter_child_nodes(n)}
    for n in ast.walk(fn):
        if not isinstance(n, (ast.For, ast.ListComp, ast.GeneratorExp)):
            continue
        for c in ([n] if isinstance(n, ast.For) else n.generators):
            r = c.iter
            if not (isinstance(c.target, ast.Name) and isinstance(r, ast.Call) and called(r) == "range" and len(r.args) in (1, 2)):
                continue
            b = r.args[-1]
            if not (isinstance(b, ast.Call) and called(b) == "len" and len(b.args) == 1):
                continue
            x, i = ast.dump(b.args[0]), c.target.id
            cnt += 1
            for m in ast.walk(n):
                if isinstance(m, ast.Subscript) and ast.dump(m.value).replace("Store()", "Load()") == x and isinstance(m.slice, ast.BinOp) and isinstance(m.slice.op, ast.Add) and isinstance(m.slice.left, ast.Name) \
                        and m.slice.left.id == i and isinstance(m.slice.right, ast.Constant) and isinstance(m.slice.right.value, int) and m.slice.right.value > 0:
                    q, ok = m, False
                    while q in parents and parents[q] is not n:
                        p = parents[q]
                        if isinstance(p, (ast.If, ast.IfExp, ast.While)) and q is not p.test and i in idents(p.test) or isinstance(p, ast.Try) or isinstance(p, ast.BoolOp) and i in idents(p.values[0]) and q is not p.values[0]:
                            ok = True
                        q = p
                    if isinstance(n, ast.For) and any(isinstance(k, ast.If) and i in idents(k.test) and any(isinstance(z, (ast.Break, ast.Continue, ast.Return)) for z in k.body) for k in ast.walk(n)):
                        ok = True
                    if not isinstance(n, ast.For) and any(i in idents(t) for t in c.ifs):
                        ok = True
                    if not ok:
                        out.append((m, f"{ast.unparse(m)} while {i} runs to the end of {ast.unparse(b.args[0])}"))
    return out, cnt
