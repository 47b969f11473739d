"""Integer polynomials over named atoms (normal forms for sizes and indices)."""
from __future__ import annotations


class P:
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v}

    @staticmethod
    def c(v):
        return P({(): v})

    @staticmethod
    def a(name):
        return P({(name,): 1})

    def __add__(self, o):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = r.get(k, 0) + v
        return P(r)

    def __neg__(self):
        return P({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for k, v in self.t.items():
            for k2, v2 in o.t.items():
                kk = tuple(sorted(k + k2))
                r[kk] = r.get(kk, 0) + v * v2
        return P(r)

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __hash__(self):
        return hash(tuple(sorted(self.t.items())))

    def const(self):
        if not self.t:
            return 0
        if set(self.t) == {()}:
            return self.t[()]
        return None

    def atoms(self):
        return {a for k in self.t for a in k}

    def subst(self, m):
        """m: atom -> P | None ; None result when an unknown atom is needed"""
        r = P()
        for k, v in self.t.items():
            x = P.c(v)
            for a in k:
                if a in m:
                    if m[a] is None:
                        return None
                    x = x * m[a]
                else:
                    x = x * P.a(a)
            r = r + x
        return r

    def split(self, a):
        """self = c1*a + c0 (None when not linear in a)"""
        c1, c0 = {}, {}
        for k, v in self.t.items():
            n = k.count(a)
            if n == 0:
                c0[k] = v
            elif n == 1:
                kk = list(k)
                kk.remove(a)
                c1[tuple(kk)] = v
            else:
                return None
        return P(c1), P(c0)

    def divide_atom(self, a):
        r = {}
        for k, v in self.t.items():
            if k.count(a) != 1:
                return None
            kk = list(k)
            kk.remove(a)
            r[tuple(kk)] = v
        return P(r)

    def nonneg(self):
        return all(v >= 0 for v in self.t.values())

    def nonpos(self):
        return all(v <= 0 for v in self.t.values())

    def __str__(self):
        if not self.t:
            return "0"
        out = []
        for k, v in sorted(self.t.items(), key=lambda x: (-len(x[0]), x[0])):
            m = "*".join(k)
            if not m:
                out.append(str(v))
            elif v == 1:
                out.append(m)
            elif v == -1:
                out.append("-" + m)
            else:
                out.append(f"{v}*{m}")
        return " + ".join(out).replace("+ -", "- ")

    __repr__ = __str__
