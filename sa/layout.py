"""Byte layouts written and read through a moving pointer: positions, widths and meanings as polynomials."""
from __future__ import annotations
import ast
from .poly import P

WIDTH = {"char": 1, "unsigned char": 1, "uint8_t": 1, "int8_t": 1, "uint16_t": 2, "int16_t": 2, "short": 2, "int": 4, "unsigned int": 4, "uint32_t": 4, "int32_t": 4, "bint": 4,
         "float": 4, "double": 8, "uint64_t": 8, "int64_t": 8, "size_t": 8, "unsigned size_t": 8, "Py_ssize_t": 8, "ssize_t": 8, "long long": 8, "long": 8}


class Unknown(Exception):
    pass


class Walk:
    """one pass over the statements of a writer or a reader"""

    def __init__(self, prog, f, consts):
        self.prog, self.f, self.consts = prog, f, consts
        self.env = {}             # integer variables -> P
        self.ptr = {}             # pointer variables -> offset P into the buffer
        self.src = {}             # pointers into fields: name -> expression
        self.entries = []         # (offset, width P, meaning, node)
        self.alloc = None
        self.cut = None
        self.length = []
        self.bounds = []          # tests of the length of the data: the number of entries known by then
        self.lenvars = set()
        self.types = {}
        self.bound = {}           # reader: local -> number of the entry it holds
        self.fieldof = {}         # reader: field of the new object -> expression
        self.data = f.pos_params[-1] if f.pos_params else None
        for n in ast.walk(f.node):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and isinstance(n.annotation, ast.Constant):
                self.types[n.target.id] = n.annotation.value

    # ------------------------------------------------------------------ integers
    def num(self, e):
        if isinstance(e, ast.Constant) and type(e.value) is int:
            return P.c(e.value)
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            if e.id in self.bound:
                return P.a(f"#{self.bound[e.id]}")
            v = self.glob(e.id)
            return P.c(v) if v is not None else P.a(e.id)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
            a, b = self.num(e.left), self.num(e.right)
            return a + b if isinstance(e.op, ast.Add) else a - b if isinstance(e.op, ast.Sub) else a * b
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id == "__sizeof__":
                return P.c(self.width(e.args[0]))
            if e.func.id == "__cast__":
                return self.num(e.args[1])
            if e.func.id == "len" and e.args:
                return P.a(self.text(e.args[0]) + ".shape[0]")
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            t = self.text(e)
            return P.c(self.consts[t]) if t in self.consts else P.a(t)
        raise Unknown(ast.unparse(e))

    def glob(self, name):
        for s in self.f.module.tree.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if any(isinstance(t, ast.Name) and t.id == name for t in ts) and isinstance(s.value, ast.Constant) and type(s.value.value) is int:
                    return s.value.value
        return None

    def gtype(self, name):
        for s in self.f.module.tree.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and isinstance(s.annotation, ast.Constant):
                return s.annotation.value
        return None

    def width(self, a):
        t = a.value if isinstance(a, ast.Constant) else a.id if isinstance(a, ast.Name) else None
        if t is None:
            raise Unknown(ast.unparse(a))
        return self.twidth(t)

    def twidth(self, t):
        t = t.replace("const ", "").strip()
        if t.endswith("*"):
            return 8
        if t in WIDTH:
            return WIDTH[t]
        g = self.types.get(t) or self.gtype(t)
        if g and g != t:
            return self.twidth(g)
        raise Unknown(t)

    @staticmethod
    def text(e):
        t = ast.unparse(e)
        return t[5:] if t.startswith("self.") else t

    # ------------------------------------------------------------------ pointers
    def off(self, e):
        """offset into the buffer, or None when e does not point into it"""
        if isinstance(e, ast.Name):
            return self.ptr.get(e.id)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "__cast__":
            return self.off(e.args[1])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a = self.off(e.left)
            return None if a is None else a + self.num(e.right)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "__addr__":
            x = e.args[0]
            if isinstance(x, ast.Subscript):
                b = self.off(x.value)
                if b is not None:
                    return b + self.num(x.slice)
                if isinstance(x.value, ast.Name) and x.value.id == self.data and self.reader:
                    return self.num(x.slice)
        return None

    def meaning(self, e):
        """what a written expression stands for"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("__cast__",):
            return self.meaning(e.args[1])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "__addr__":
            x = e.args[0]
            while isinstance(x, ast.Subscript):
                x = x.value
            return self.meaning(x)
        if isinstance(e, ast.Name):
            if e.id in self.src:
                return self.meaning(self.src[e.id])
            if e.id in self.env:
                return str(self.env[e.id])
            return e.id
        return self.text(e)

    def load(self, e):
        """(offset, width) of a read through the buffer"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "__cast__" and not str(e.args[0].value if isinstance(e.args[0], ast.Constant) else "").endswith("*"):
            return self.load(e.args[1])
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and type(e.slice.value) is int:
            o = self.off(e.value)
            if o is None:
                return None
            w = self.ptrwidth(e.value)
            return o + P.c(w * e.slice.value), P.c(w)
        return None

    def ptrwidth(self, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "__cast__":
            t = e.args[0].value if isinstance(e.args[0], ast.Constant) else e.args[0].id
        elif isinstance(e, ast.Name):
            t = self.types.get(e.id, "")
        else:
            raise Unknown(ast.unparse(e))
        if not t.endswith("*"):
            raise Unknown(t)
        return self.twidth(t[:-1])

    # ------------------------------------------------------------------ statements
    def run(self, reader):
        self.reader = reader
        self.block(self.f.node.body)
        return self

    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        if self.looks(s):
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(t, ast.Name):
                    self.lenvars.add(t.id)
            else:
                self.length.append(len(self.entries))
                self.bounds.append(self.least(s))
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target
            self.assign(t, s.value, s)
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in self.ptr:
            if not isinstance(s.op, ast.Add):
                raise Unknown(ast.unparse(s))
            self.ptr[s.target.id] = self.ptr[s.target.id] + self.num(s.value)
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in self.env and isinstance(s.op, ast.Add):
            self.env[s.target.id] = self.env[s.target.id] + self.num(s.value)
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            self.callx(s.value)
        elif isinstance(s, ast.If):
            if any(isinstance(x, ast.Raise) for x in s.body) and not s.orelse:
                for n in ast.walk(s.test):
                    if isinstance(n, ast.Call):
                        self.callx(n)
                    elif isinstance(n, ast.Subscript):
                        l = self.load(n)
                        if l is not None:
                            self.note(l[0], l[1], "#check", n)
                return
            if any(self.touches(x) for x in ast.walk(s)):
                raise Unknown("branch over the buffer")
        elif isinstance(s, (ast.For, ast.While, ast.Try, ast.With)):
            if any(self.touches(x) for x in ast.walk(s)):
                raise Unknown("loop over the buffer")
        elif isinstance(s, ast.Return) and s.value is not None and isinstance(s.value, ast.Subscript):
            self.slice(s.value)

    def looks(self, s):
        """does the statement ask for the length of the data?"""
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == self.data or
                   isinstance(n, ast.Attribute) and n.attr in ("shape", "size", "nbytes") and isinstance(n.value, ast.Name) and n.value.id == self.data or
                   isinstance(n, ast.Name) and n.id in self.lenvars for n in ast.walk(s))

    def least(self, s):
        """the number of bytes the data is known to have after `if <too short>: raise`, None when not understood"""
        if not (isinstance(s, ast.If) and any(isinstance(x, ast.Raise) for x in s.body) and not s.orelse):
            return None
        ts = s.test.values if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) else [s.test]
        for t in ts:
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
                continue
            a, b, op = t.left, t.comparators[0], type(t.ops[0]).__name__
            if self.islen(b):
                a, b, op = b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
            if not self.islen(a) or op not in ("Lt", "LtE", "NotEq"):
                continue
            try:
                v = self.num(b)
            except Unknown:
                return None
            return v + P.c(1) if op == "LtE" else v
        return None

    def islen(self, e):
        while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "__cast__":
            e = e.args[1]
        return isinstance(e, ast.Name) and e.id in self.lenvars or isinstance(e, (ast.Call, ast.Attribute, ast.Subscript)) and self.looks(ast.Expr(e))

    def touches(self, n):
        return isinstance(n, ast.Name) and n.id in self.ptr

    def slice(self, e):
        if isinstance(e.slice, ast.Slice) and self.off(e.value) is not None and e.slice.upper is not None:
            lo = self.num(e.slice.lower) if e.slice.lower is not None else P.c(0)
            self.cut = (self.off(e.value) + lo, self.num(e.slice.upper), e)

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            c = v
            while isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "__cast__":
                c = c.args[1]
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("malloc", "calloc"):
                a = [self.num(x) for x in c.args]
                self.alloc = a[0] if len(a) == 1 else a[0] * a[1]
                self.ptr[t.id] = P.c(0)
                return
            o = self.off(v)
            if o is not None:
                self.ptr[t.id] = o
                return
            l = self.load(v)
            if l is not None:
                self.bound[t.id] = self.note(l[0], l[1], t.id, s)
                self.env.pop(t.id, None)
                return
            if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice):
                self.slice(v)
            ty = self.types.get(t.id, "")
            if ty.endswith("*"):
                self.src[t.id] = v
                return
            if ty in WIDTH or not ty:
                try:
                    self.env[t.id] = self.num(v)
                except Unknown:
                    self.env.pop(t.id, None)
        elif isinstance(t, ast.Subscript):
            if self.off(t.value) is not None:
                w = self.ptrwidth(t.value)
                o = self.off(t.value)
                if isinstance(t.slice, ast.Constant) and t.slice.value == 0:
                    self.note(o, P.c(w), self.meaning(v), s)
                else:
                    raise Unknown(ast.unparse(t))
        elif isinstance(t, ast.Attribute):
            self.fieldof[t.attr] = v

    def callx(self, c):
        name = c.func.id if isinstance(c.func, ast.Name) else ""
        if name in ("memcpy", "memmove", "memcmp") and len(c.args) == 3:
            a, b = self.off(c.args[0]), self.off(c.args[1])
            w = self.num(c.args[2])
            if a is not None and b is None:
                self.note(a, w, self.meaning(c.args[1]) if name != "memcmp" else "#check", c)
            elif b is not None and a is None:
                k = self.note(b, w, self.meaning(c.args[0]), c)
                x = c.args[0]
                while isinstance(x, (ast.Subscript, ast.Call)):
                    x = x.args[-1] if isinstance(x, ast.Call) else x.value
                if isinstance(x, ast.Name):
                    self.bound[x.id] = k
        elif any(self.touches(n) for a in c.args for n in ast.walk(a)) and name not in ("free", "print", "__cast__", "__addr__", "len", "__sizeof__"):
            raise Unknown(ast.unparse(c))

    def note(self, o, w, meaning, node):
        for i, (o2, w2, m2, n2) in enumerate(self.entries):
            if o2 == o and w2 == w:
                if m2 == "#check":
                    self.entries[i] = (o, w, meaning, n2)
                return i
        self.entries.append((o, w, meaning, node))
        return len(self.entries) - 1


def check(prog, w, r, res, consts, undecided, sp):
    try:
        W, R = Walk(prog, w, consts).run(False), Walk(prog, r, consts).run(True)
    except Unknown as e:
        undecided.append(f"{w.qual}/{r.qual}: {e}")
        return 0
    if not W.entries or not R.entries:
        return 0

    def loc(f, n):
        return f"{f.module.rel}:{getattr(n, 'lineno', f.node.lineno)}"
    # sizes in the writer are named by the entry that stores them
    ren = {}
    for i, (o, wd, m, n) in enumerate(W.entries):
        ren.setdefault(m, P.a(f"#{i}"))
    atoms = lambda p: {a: ren.get(a, P.a(a)) for a in p.atoms()}
    for i in range(max(len(W.entries), len(R.entries))):
        res.ob()
        if i >= len(R.entries):
            res.add("P4 layout", r.qual, f"entry {i} ({W.entries[i][2]}) is written but never read", loc(w, W.entries[i][3]))
            continue
        if i >= len(W.entries):
            res.add("P4 layout", r.qual, f"entry {i} ({R.entries[i][2]}) is read but never written", loc(r, R.entries[i][3]))
            continue
        (o, wd, m, n), (o2, wd2, m2, n2) = W.entries[i], R.entries[i]
        o, wd = o.subst(atoms(o)), wd.subst(atoms(wd))
        if o != o2:
            res.add("P4 layout", r.qual, f"entry {i} ({m}) is written at {o} and read at {o2}", loc(r, n2))
        if wd != wd2:
            res.add("P4 layout", r.qual, f"entry {i} ({m}) is written with {wd} bytes and read with {wd2}", loc(r, n2))
    # meanings: the field stored in an entry is the field restored from it
    for fld, e in R.fieldof.items():
        ks = {R.bound[x.id] for x in ast.walk(e) if isinstance(x, ast.Name) and x.id in R.bound}
        if len(ks) == 1:
            k = ks.pop()
            res.ob()
            m = W.entries[k][2] if k < len(W.entries) else "?"
            if m.split("[")[0].split(".")[0] != fld:
                res.add("P4 layout", r.qual, f"{fld} is restored from entry {k}, in which {m} was written", loc(r, e))
        elif not ks and isinstance(e, ast.Constant) and fld in sp["fields"] and not (isinstance(e.value, type(None))):
            res.add("P1 dropped", r.qual, f"{fld} of the restored object is the constant {e.value!r}", loc(r, e))
    stored = {m.split("[")[0].split(".")[0] for _, _, m, _ in W.entries}
    for fld in sp["fields"]:
        res.ob()
        if fld not in stored and not sp["fields"][fld].get("also"):
            res.add("P1 dropped", w.qual, f"{fld} is not written", w.loc)
        if fld not in R.fieldof and not sp["fields"][fld].get("also"):
            # restored through a constructor: not followed here
            if not any(isinstance(n, ast.Return) and isinstance(n.value, ast.Call) for n in ast.walk(r.node)):
                res.add("P1 dropped", r.qual, f"{fld} is not restored", r.loc)
    # the form ends where writing ends
    lo, wd, m, n = W.entries[-1]
    end = lo + wd
    for what, v in (("allocates", W.alloc), ("returns", W.cut[1] if W.cut else None)):
        if v is None:
            continue
        res.ob()
        if v.subst({a: P.c(consts[a]) if a in consts else P.a(a) for a in v.atoms()}) != end:
            res.add("P4 layout", w.qual, f"{what} {v} bytes but writes {end}", loc(w, W.cut[2] if what == "returns" else w.node))
    # the length of the data is looked at before the first entry is read, and again once the sizes of the others are known
    res.ob()
    if not R.length:
        res.add("P10 short-data", r.qual, "the data is read without looking at its length", r.loc)
    else:
        for i, (o2, wd2, m2, n2) in enumerate(R.entries):
            var = [int(a[1:]) for a in wd2.atoms() if a.startswith("#")]
            known = [b for k, b in zip(R.length, R.bounds) if k <= i and all(v < k for v in var)]
            if known and None not in known:
                need = o2 + wd2
                res.ob()
                if not any((b - need).nonneg() for b in known):
                    res.add("P10 short-data", r.qual, f"entry {i} ({W.entries[i][2] if i < len(W.entries) else m2}) ends at {need}, the data is only known to have {known[-1]} bytes", loc(r, n2))
            if not known:
                res.add("P10 short-data", r.qual, f"entry {i} ({W.entries[i][2] if i < len(W.entries) else m2}) is read without a test of the length that knows its size", loc(r, n2))
    res.sample(f"{w.qual} / {r.qual}: {len(W.entries)} entries, {end} bytes: " + ", ".join(m for _, _, m, _ in W.entries))
    return 1
