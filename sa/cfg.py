"""Control-flow graphs over the common syntax tree (statement granularity).

Node kinds: 'entry', 'exit' (normal return / fall off), 'raise' (exceptional exit), 'stmt', 'test' (if/while/assert test,
edges labelled True/False), 'for' (loop head: edge 'iter' binds the target, edge 'done' leaves), 'except' (handler head),
'with', 'join'.  Edge labels: None, True, False, 'iter', 'done', 'exc'.
Exceptional edges run from every statement inside a try body to its handlers / finally."""
from __future__ import annotations
import ast


class Node:
    __slots__ = ("kind", "ast", "succ", "pred", "id", "loops")

    def __init__(self, kind, a, i):
        self.kind, self.ast, self.id = kind, a, i
        self.succ, self.pred = [], []
        self.loops = ()

    def __repr__(self):
        return f"<{self.id}:{self.kind}:{getattr(self.ast, 'lineno', '')}>"


TRUE_CONST = {"True", "1"}


def const_truth(t):
    """constant truth value of a test, or None"""
    if isinstance(t, ast.Constant):
        return bool(t.value)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = const_truth(t.operand)
        return None if v is None else not v
    return None


class CFG:
    def __init__(self, fn):
        """fn: FunctionDef (or any node with .body)"""
        self.nodes = []
        self.entry = self.new("entry", fn)
        self.exit = self.new("exit", fn)
        self.raise_ = self.new("raise", fn)
        self._loops = []       # (head, breaks list, loopnode)
        self._handlers = []    # stack of lists of handler heads to link exc edges to
        self._fin = []         # stack of finally bodies (ast lists) with loop depth
        self.returns = []
        self.fallthrough = []
        ends = self.block(fn.body, [(self.entry, None)])
        for n, l in ends:
            self.link(n, self.exit, l)
            self.fallthrough.append((n, l))

    def new(self, kind, a):
        n = Node(kind, a, len(self.nodes))
        n.loops = tuple(x[2] for x in getattr(self, "_loops", []))
        self.nodes.append(n)
        return n

    def link(self, a, b, label=None):
        a.succ.append((b, label))
        b.pred.append((a, label))

    def join(self, ends, b):
        for n, l in ends:
            self.link(n, b, l)

    def block(self, body, ends):
        for s in body:
            if not ends:
                break   # unreachable code is not represented
            ends = self.stmt(s, ends)
        return ends

    def _exc(self, n):
        if self._handlers:
            for h in self._handlers[-1]:
                self.link(n, h, "exc")

    def _leave(self, ends, depth=0):
        """run pending finally bodies down to stack depth"""
        saved = self._fin
        hs = self._handlers
        while len(self._fin) > depth and ends:
            fin, hdepth = self._fin[-1]
            self._fin = self._fin[:-1]
            self._handlers = self._handlers[:hdepth]
            ends = self.block(fin, ends)
        self._fin = saved
        self._handlers = hs
        return ends

    def stmt(self, s, ends):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            n = self.new("stmt", s)
            self.join(ends, n)
            return [(n, None)]
        if isinstance(s, ast.If):
            n = self.new("test", s)
            self.join(ends, n)
            self._exc(n)
            v = const_truth(s.test)
            a = self.block(s.body, [(n, True)]) if v is not False else []
            b = self.block(s.orelse, [(n, False)]) if v is not True else []
            return a + b
        if isinstance(s, ast.While):
            n = self.new("test", s)
            self.join(ends, n)
            self._exc(n)
            v = const_truth(s.test)
            br = []
            self._loops.append((n, br, s, len(self._fin)))
            a = self.block(s.body, [(n, True)]) if v is not False else []
            self.join(a, n)
            self._loops.pop()
            out = self.block(s.orelse, [(n, False)]) if v is not True else []
            return out + br
        if isinstance(s, (ast.For, ast.AsyncFor)):
            n = self.new("for", s)
            self.join(ends, n)
            self._exc(n)
            br = []
            self._loops.append((n, br, s, len(self._fin)))
            a = self.block(s.body, [(n, "iter")])
            self.join(a, n)
            self._loops.pop()
            out = self.block(s.orelse, [(n, "done")])
            return out + br
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            heads = []
            for h in s.handlers:
                heads.append(self.new("except", h))
            catch_all = any(h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ("Exception", "BaseException")) for h in s.handlers)
            fin_head = None
            outer = len(self._handlers)
            if s.finalbody:
                fin_head = self.new("join", s)
            hl = list(heads)
            if not catch_all:
                if fin_head is not None:
                    hl.append(fin_head)
                elif self._handlers:
                    hl += [x for x in self._handlers[-1]]
                else:
                    hl.append(self.raise_)
            if s.finalbody:
                self._fin = self._fin + [(s.finalbody, outer)]
            self._handlers.append(hl)
            n0 = self.new("join", s)
            self.join(ends, n0)
            self._exc(n0)
            a = self.block(s.body, [(n0, None)])
            self._handlers.pop()
            # handlers and else run with the finally (if any) as exceptional target
            if fin_head is not None:
                self._handlers.append([fin_head])
            a = self.block(s.orelse, a)
            out = list(a)
            for h, hn in zip(s.handlers, heads):
                if hn.pred:
                    out += self.block(h.body, [(hn, None)])
            if fin_head is not None:
                self._handlers.pop()
            if s.finalbody:
                self._fin = self._fin[:-1]
                out = self.block(s.finalbody, out)
                if fin_head.pred:
                    e = self.block(s.finalbody, [(fin_head, None)])
                    tgt = self._handlers[-1] if self._handlers else [self.raise_]
                    for x, l in e:
                        for t in tgt:
                            self.link(x, t, "exc")
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            n = self.new("with", s)
            self.join(ends, n)
            self._exc(n)
            return self.block(s.body, [(n, None)])
        if type(s).__name__ == "Match":
            n = self.new("stmt", s)
            self.join(ends, n)
            self._exc(n)
            out = []
            exhaustive = False
            for c in s.cases:
                out += self.block(c.body, [(n, None)])
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    exhaustive = True
            if not exhaustive:
                out.append((n, None))
            return out
        n = self.new("stmt", s)
        self.join(ends, n)
        if isinstance(s, ast.Return):
            self._exc(n)
            self.returns.append(n)
            e = self._leave([(n, None)])
            self.join(e, self.exit)
            return []
        if isinstance(s, ast.Raise):
            if self._handlers:
                self._exc(n)
            else:
                self.link(n, self.raise_, "exc")
            return []
        if isinstance(s, ast.Break):
            if self._loops:
                e = self._leave([(n, None)], self._loops[-1][3])
                self._loops[-1][1].extend(e)
            return []
        if isinstance(s, ast.Continue):
            if self._loops:
                e = self._leave([(n, None)], self._loops[-1][3])
                self.join(e, self._loops[-1][0])
            return []
        if isinstance(s, ast.Assert):
            v = const_truth(s.test)
            if v is False:
                if self._handlers:
                    self._exc(n)
                else:
                    self.link(n, self.raise_, "exc")
                return []
        if not isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)) or isinstance(s, (ast.Import, ast.ImportFrom)):
            self._exc(n)
        if isinstance(s, ast.Expr) and is_noreturn(s.value):
            return []
        return [(n, None)]

    # ---- queries
    def reachable(self, start=None, avoid=lambda n: False, edge=lambda a, b, l: True):
        start = [start or self.entry] if not isinstance(start, list) else start
        seen = {x.id for x in start}
        st = list(start)
        out = set(st)
        while st:
            a = st.pop()
            for b, l in a.succ:
                if b.id in seen or not edge(a, b, l) or avoid(b):
                    continue
                seen.add(b.id)
                out.add(b)
                st.append(b)
        return out

    def dominators(self):
        """node -> set of dominators (ids) ; reachable nodes only"""
        R = [n for n in self.nodes if n in self.reachable()]
        rid = {n.id for n in R}
        allid = set(rid)
        dom = {n.id: set(allid) for n in R}
        dom[self.entry.id] = {self.entry.id}
        ch = True
        while ch:
            ch = False
            for n in R:
                if n is self.entry:
                    continue
                ps = [dom[p.id] for p, _ in n.pred if p.id in rid]
                new = set.intersection(*ps) if ps else set()
                new = new | {n.id}
                if new != dom[n.id]:
                    dom[n.id] = new
                    ch = True
        return dom

    def forward(self, init, transfer, merge, edge=None, eq=None, limit=100000):
        """worklist forward analysis; transfer(node, state)->state ; edge(node, label, state)->state|None"""
        IN = {self.entry.id: init}
        work = [self.entry]
        it = 0
        while work:
            it += 1
            if it > limit:
                raise RuntimeError("no fixpoint")
            n = work.pop(0)
            out = transfer(n, IN[n.id])
            for b, l in n.succ:
                o = out
                if l == "exc":
                    o = merge(IN[n.id], out)
                if edge is not None:
                    o = edge(n, l, o)
                    if o is None:
                        continue
                if b.id not in IN:
                    IN[b.id] = o
                    work.append(b)
                else:
                    m = merge(IN[b.id], o)
                    if m != IN[b.id]:
                        IN[b.id] = m
                        if b not in work:
                            work.append(b)
        return IN


def is_noreturn(e):
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Name) and f.id in ("exit", "quit", "abort"):
            return True
        if isinstance(f, ast.Attribute) and f.attr in ("exit", "_exit") and isinstance(f.value, ast.Name) and f.value.id in ("sys", "os"):
            return True
    return False


def own_exprs(n):
    """expressions evaluated at a CFG node itself (not the bodies below it)"""
    a = n.ast
    k = n.kind
    if k in ("entry", "exit", "raise", "join"):
        return []
    if k == "test":
        return [a.test]
    if k == "for":
        return [a.iter, a.target]
    if k == "with":
        out = []
        for i in a.items:
            out.append(i.context_expr)
            if i.optional_vars is not None:
                out.append(i.optional_vars)
        return out
    if k == "except":
        return [a.type] if a.type is not None else []
    if isinstance(a, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return list(a.decorator_list) + [d for d in a.args.defaults + a.args.kw_defaults if d is not None]
    if isinstance(a, ast.ClassDef):
        return list(a.bases)
    if type(a).__name__ == "Match":
        return [a.subject]
    return [a]
