"""Operand consistency: in a function of two operands (curve1, curve2; axis1, parameter1, axis2, parameter2), an expression that is about one of
them takes everything from it."""
from __future__ import annotations
import ast
import re

TAG = re.compile(r"(?<![0-9])([12])(?![0-9])")
COORD = re.compile(r"^_*[dnkx]?_?(?:uv|[uvstxyz])s?#$")        # u1, v2: points of a grid


def tag(n):
    """(stem, operand) of a name with one digit 1 or 2"""
    m = TAG.findall(n)
    if len(m) != 1 or len(re.findall(r"\d", n)) != 1:
        return None
    i = TAG.search(n).start()
    if i == 0 or n[:i].endswith("_to_") or not (n[:i][-1].isalpha() or n[:i][-1] == "_"):
        return None
    return TAG.sub("#", n), int(m[0])


def tags(e, out=None):
    out = {} if out is None else out
    for n in ast.walk(e):
        i = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
        t = i and tag(i)
        if t:
            out.setdefault(t[0], set()).add(t[1])
    return out


def paired(fn):
    """stems of names that come with 1 and 2 and nothing else"""
    seen = {}
    for n in ast.walk(fn):
        i = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else n.arg if isinstance(n, ast.arg) else None
        if i:
            for m in re.finditer(r"\d+", i):
                seen.setdefault(i[:m.start()] + "#" + i[m.end():], set()).add(m.group())
    return {s for s, x in seen.items() if {k for k in x if len(k) == 1} == {"1", "2"} and not COORD.match(s)}


def scopes(fn):
    """(function node, stems that come in both forms among its parameters, those of a function around it and the attributes of its object)"""
    def go(f, outer):
        ps = {}
        for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs:
            t = tag(a.arg)
            if t:
                ps.setdefault(t[0], set()).add(t[1])
        both = outer | {s for s, x in ps.items() if len(x) == 2 and not COORD.match(s)}
        if not outer and f.args.args:
            me = f.args.args[0].arg
            ps = {}
            for n in ast.walk(f):
                t = tag(n.attr) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me else None
                if t:
                    ps.setdefault(t[0], set()).add(t[1])
            both |= {s for s, x in ps.items() if len(x) == 2}
        own = []
        stack = list(ast.iter_child_nodes(f))
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield from go(n, both)
                continue
            own.append(n)
            stack.extend(ast.iter_child_nodes(n))
        if both:
            yield f, both, own
    if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
        yield from go(fn, set())


def units(own):
    for n in own:
        if isinstance(n, ast.Assign):
            yield n, n.targets + [n.value]
        elif isinstance(n, ast.AugAssign):
            yield n, [n.target, n.value]
        elif isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load):
            yield n, n.elts
        elif isinstance(n, (ast.For, ast.comprehension)):
            yield n, [n.target, n.iter]
        elif isinstance(n, ast.If) and len(n.body) == 1 and not n.orelse and isinstance(n.body[0], ast.Expr):
            yield n, [n.test, n.body[0]]
        elif isinstance(n, ast.Call):
            yield n, [n.func] + n.args + [k.value for k in n.keywords]


def crossed(fn):
    """table[j, i] where i goes through what the first operand has and j through what the second has"""
    of = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and isinstance(n.value, (ast.Name, ast.Attribute)):
            t = tag(n.value.id if isinstance(n.value, ast.Name) else n.value.attr)
            of.setdefault(n.slice.id, set()).add(t and t[1])
    cnt, out = 0, []
    for n in ast.walk(fn):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and all(isinstance(e, ast.Name) for e in n.slice.elts):
            a, b = (of.get(e.id, set()) - {None} for e in n.slice.elts)
            if len(a) == len(b) == 1 and a != b:
                cnt += 1
                if a == {2}:
                    out.append((n, f"{ast.unparse(n)}: rows are the second operand's, elsewhere the first's"))
    return (out, cnt) if 0 < len(out) < cnt else ([], cnt)


def check(fn):
    """[(node, text)] and the number of expressions about one operand"""
    out, cnt, ok = [], 0, paired(fn)
    for f, both, own in scopes(fn):
        for n, es in units(own):
            t = {}
            for e in es:
                tags(e, t)
            t = {s: x for s, x in t.items() if s in ok}
            if not t or any(len(x) > 1 for x in t.values()):
                continue
            cnt += 1
            if len(set().union(*t.values())) > 1 and any(x.startswith(b) for x in t for b in both):
                out.append((n, ", ".join(sorted(s.replace("#", str(next(iter(x)))) for s, x in t.items()))))
        for n in own:
            if isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
                a, b = tags(n.elts[0]), tags(n.elts[1])
                if len(a) == 1 and set(a) == set(b) <= ok and all(len(x) == 1 for x in (*a.values(), *b.values())) and TAG.sub("#", ast.unparse(n.elts[0])) == TAG.sub("#", ast.unparse(n.elts[1])):
                    cnt += 1
                    if {2} in a.values() and {1} in b.values():
                        out.append((n, f"{ast.unparse(n)[:80]}: the second operand's before the first's"))
    a, b = crossed(fn)
    return out + a, cnt + b
