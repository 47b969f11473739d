"""What the C helpers declared by `cdef extern from "file"` do with their pointer arguments.

The included file is read from the package directory; for every function the parameters that are written through, the parameters
that are freed or reallocated, and whether the result is freshly allocated memory are derived from its body (calls between C
functions of the file are followed)."""
from __future__ import annotations
import os
import re

ALLOC = re.compile(r"\b(malloc|calloc|realloc)\s*\(")
DEF = re.compile(r"^[ \t]*(?:static\s+|inline\s+|extern\s+)*([A-Za-z_][\w:<>]*(?:\s+[A-Za-z_]\w*)*[\s*&]+)([A-Za-z_]\w*)\s*\(([^;{}()]*)\)\s*\{", re.M)


class CFun:
    def __init__(self, name, params, body, rel, line):
        self.name, self.params, self.body, self.rel, self.line = name, params, body, rel, line
        self.writes, self.frees, self.allocs = set(), set(), False


def strip(src):
    src = re.sub(r"/\*.*?\*/", lambda m: "\n" * m.group().count("\n"), src, flags=re.S)
    return re.sub(r"//[^\n]*", "", src)


def parse(path, rel):
    src = strip(open(path, errors="replace").read())
    out = {}
    for m in DEF.finditer(src):
        name = m.group(2)
        if name in ("if", "for", "while", "switch", "return", "sizeof", "else"):
            continue
        i, d = m.end(), 1
        while i < len(src) and d:
            d += {"{": 1, "}": -1}.get(src[i], 0)
            i += 1
        ps = []
        for p in m.group(3).split(","):
            q = re.findall(r"[A-Za-z_]\w*", p)
            ps.append((q[-1] if q else "", "*" in p or "[" in p))
        out[name] = CFun(name, ps, src[m.end():i - 1], rel, src.count("\n", 0, m.start()) + 1)
    for f in out.values():
        for p, ptr in f.params:
            if not ptr:
                continue
            i = [x for x, _ in f.params].index(p)
            w = re.escape(p)
            if re.search(rf"\b{w}\s*\[[^\]]*\]\s*(=[^=]|[-+*/]=|\+\+|--)", f.body) or re.search(rf"\*\s*{w}\s*(=[^=]|[-+*/]=)", f.body) or re.search(rf"\b{w}\s*->\s*\w+(\[[^\]]*\])?\s*(=[^=]|[-+*/]=)", f.body) or re.search(rf"\bqsort\s*\(\s*{w}\b", f.body) or re.search(rf"\bmem(cpy|set|move)\s*\(\s*{w}\b", f.body):
                f.writes.add(i)
            if re.search(rf"\b(free|realloc)\s*\(\s*{w}\b", f.body):
                f.frees.add(i)
        if re.search(r"\breturn\s+(?:\([^)]*\)\s*)?(malloc|calloc)\s*\(", f.body):
            f.allocs = True
        for r in re.findall(r"\breturn\s+([A-Za-z_]\w*)\s*;", f.body):
            if re.search(rf"\b{r}\s*=\s*(?:\([^)]*\)\s*)?(malloc|calloc)\s*\(", f.body) and r not in [x for x, _ in f.params]:
                f.allocs = True
    ch = True
    while ch:
        ch = False
        for f in out.values():
            names = [x for x, _ in f.params]
            for m in re.finditer(r"\b([A-Za-z_]\w*)\s*\(([^()]*)\)", f.body):
                g = out.get(m.group(1))
                if g is None or g is f:
                    continue
                for j, a in enumerate(m.group(2).split(",")):
                    a = a.strip()
                    b = re.fullmatch(r"&?\s*([A-Za-z_]\w*)(\s*\[[^\]]*\])?", a)
                    if b and b.group(1) in names:
                        i = names.index(b.group(1))
                        if j in g.writes and i not in f.writes and ("&" in a or not b.group(2)) and f.params[i][1]:
                            f.writes.add(i)
                            ch = True
                        if j in g.frees and i not in f.frees and a == b.group(1):
                            f.frees.add(i)
                            ch = True
    return out


def externs(prog):
    """{module name: {function: CFun}}"""
    if hasattr(prog, "_cextern"):
        return prog._cextern
    out = {}
    for root, _, files in os.walk(os.path.join(prog.root, "mmcore")):
        for fn in files:
            if not fn.endswith((".pyx", ".pxd")):
                continue
            p = os.path.join(root, fn)
            src = open(p, errors="replace").read()
            if "extern from" not in src:
                continue
            rel = os.path.relpath(p, prog.root)
            mod = rel.rsplit(".", 1)[0].replace(os.sep, ".")
            if mod.endswith(".__init__"):
                mod = mod[:-9]
            for inc in re.findall(r"cdef\s+extern\s+from\s+[\"']([^\"']+)[\"']", src):
                q = os.path.join(root, inc)
                if os.path.exists(q):
                    out.setdefault(mod, {}).update(parse(q, os.path.relpath(q, prog.root)))
    prog._cextern = out
    return out


def cfun(prog, m, name):
    """the C helper a bare name in module m stands for, or None"""
    ex = externs(prog)
    if name in ex.get(m.name, {}):
        return ex[m.name][name]
    imp = m.imports.get(name)
    if imp is not None and imp[0] == "attr":
        return ex.get(imp[1], {}).get(imp[2])
    return None
