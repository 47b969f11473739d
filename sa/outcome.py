"""Outcomes: functions that can fail without raising, and whether their callers look before they use the answer.

The outcomes of a function are the shapes its return statements give: None, a constant, a value, or a tuple of these, together with the out-parameters that path
has written.  A function is multi-outcome when one of its outcomes is a failure: None where others give a value, or a constant status with out-parameters unwritten
(or the failure constants a reviewed contract names).
Callers are interpreted path by path: a call yields the set of the callee's outcomes; every test of a variable bound to a component (is None, truth, comparison with a
constant, isinstance, len) drops the outcomes it excludes; using a component that may still be None, or reading an out-argument that may still be unwritten, is a finding."""
from __future__ import annotations
import ast
from .program import Function, Class, Ext
from .refs import resolve_in_fn
from .rets import is_generator, is_stub
from .options import Options

TOP = ("top",)
VAL = "v"          # a value: not None, truth unknown
BAD = "x"          # what comes with a failure flag: computed, but not an answer
CAP = 96
CATCH = {"TypeError", "AttributeError", "ValueError", "IndexError", "Exception", "BaseException"}
NONE_OK = {"print", "isinstance", "id", "repr", "str", "type", "bool", "callable", "hasattr", "getattr", "setattr", "super", "append", "add", "put", "insert", "appendleft", "get",
           "__addr__", "__cast__", "list.append", "warn", "format", "debug", "info", "log", "setdefault", "push", "enqueue", "callback"}
DEREFS = {"len", "float", "int", "abs", "iter", "next", "sum", "min", "max", "sorted", "tuple", "list", "set", "enumerate", "zip", "reversed", "map", "filter", "range", "sqrt", "fabs", "any", "all", "round", "hash"} - {"hash", "map", "filter"}


class State:
    __slots__ = ("env", "alt", "outs")

    def __init__(self, env=None, alt=None, outs=None):
        self.env = env or {}       # name -> value
        self.alt = alt or {}       # site -> frozenset of alternatives
        self.outs = outs or {}     # name -> (site, parameter)

    def copy(self):
        return State(dict(self.env), dict(self.alt), dict(self.outs))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.alt.items()), frozenset(self.outs.items()))


class Sink:
    """what one analysed function reports"""
    def __init__(self):
        self.hits = {}       # key -> (kind, text, node)
        self.returns = set()
        self.tests = 0


class Outcomes:
    def __init__(self, prog, scope, contracts):
        self.prog, self.scope, self.contracts = prog, scope, contracts
        self.O = Options(prog, scope)
        self.memo, self.busy, self.need_memo, self.tested_memo = {}, set(), {}, {}
        self.callcount = 0
        self.sites = set()

    # -------------------------------------------------------------- callee side
    def outcomes(self, f, given=frozenset()):
        """frozenset of (shape, written out-parameters) under what is known about the arguments; shape: None | constant | 'v' | tuple"""
        k = (f, given)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy or len([b for b in self.busy if b[0] is f]) > 2 or is_generator(f.node) or is_stub(f.node) or f.name == "__init__":
            return frozenset()
        self.busy.add(k)
        prev = None
        for _ in range(3):
            self.memo[k] = prev or frozenset()
            sink = Sink()
            Interp(self, f, sink, quiet=True).run([State(dict(given))])
            r = frozenset(sink.returns)
            if r == prev:
                break
            prev = r
        self.busy.discard(k)
        self.memo[k] = prev
        return prev

    def tested(self, f):
        """parameters a condition of f looks at"""
        if f not in self.tested_memo:
            out = set()
            for n in ast.walk(f.node):
                if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)):
                    out |= {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
            self.tested_memo[f] = out & set(f.params)
        return self.tested_memo[f]

    def alternatives(self, f, given=frozenset()):
        """the outcomes a caller has to tell apart, or None: frozenset of (shape, frozenset(unwritten outs))"""
        if not self.scope(f.module.name) or f.name in ("__init__", "__exit__", "__enter__") or is_stub(f.node):
            return None
        c = self.contracts.get(f.qual)
        if c is not None and "flag" in c:
            oc = self.outcomes(f, given)
            i = c["flag"]
            isbad = lambda s: isinstance(s, tuple) and len(s) > i and any(type(s[i]) is type(b) and s[i] == b for b in c["bad"])
            if not any(isbad(s) for s, _ in oc):
                return None
            return frozenset((tuple(x if k == i else BAD for k, x in enumerate(s)) if isbad(s) else s, frozenset()) for s, _ in oc)
        if c is not None:
            if c.get("skip"):
                return None
            outs = frozenset(c["outs"])
            return frozenset([(k, frozenset()) for k in c["ok"]] + [(k, outs) for k in c["fail"]])
        oc = self.outcomes(f, given)
        if not oc:
            return None
        shapes = {s for s, _ in oc}
        ret_some = [s for s in shapes if s is not None]
        optional = None in shapes and bool(ret_some) or any(isinstance(s, tuple) and None in s for s in shapes)
        if optional:
            return frozenset((s, frozenset()) for s in shapes)
        oc = frozenset((s, frozenset(x for x in w if not x.startswith("?"))) for s, w in oc)
        allw = frozenset().union(*[w for _, w in oc])
        if len(shapes) > 1 and allw and all(s is not VAL and not isinstance(s, tuple) and s is not None for s in shapes):
            alts = frozenset((s, allw - w) for s, w in oc)
            fails = {s for s, u in alts if u}
            if fails and len(fails) < len(shapes):
                return frozenset((s, frozenset().union(*[u for t, u in alts if t == s and type(t) is type(s)])) for s in shapes)
        return None

    def needs(self, g, p, depth=0):
        """does g use parameter p as a value on a path that did not test it?"""
        k = (g, p)
        if k in self.need_memo:
            return self.need_memo[k]
        self.need_memo[k] = False
        if depth > 3 or is_generator(g.node) or is_stub(g.node) or p not in g.params:
            return False
        sink = Sink()
        it = Interp(self, g, sink, quiet=False, depth=depth + 1)
        it.only = ("param", p)
        st = State()
        st.alt[("param", p)] = frozenset([(None, frozenset()), (VAL, frozenset())])
        st.env[p] = ("comp", ("param", p), ())
        it.run([st])
        r = bool(sink.hits)
        self.need_memo[k] = r
        return r


def comp_shape(shape, path):
    for i in path:
        if isinstance(shape, tuple):
            if isinstance(i, int) and -len(shape) <= i < len(shape):
                shape = shape[i]
            else:
                return VAL
        elif shape is None:
            return None
        else:
            return VAL
    return shape


class Interp:
    def __init__(self, oc, f, sink, quiet, depth=0):
        self.oc, self.f, self.sink, self.quiet, self.depth = oc, f, sink, quiet, depth
        self.only = None
        self.allow = set()
        self.caught = 0
        self.calls = {id(c): (g, b) for c, g, b in oc.O.calls(f)}
        self.nested = {n.name for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node}
        self.ctypes = {}

    def run(self, states=None):
        states = states or [State()]
        out, brk = self.block(self.f.node.body, states, None)
        if not dispatch(self.f.node.body):
            for s in out:
                self.ret(None, s)
        return self.sink

    # -------------------------------------------------------------- reporting
    def hit(self, kind, key, text, node):
        if self.quiet or self.caught:
            return
        self.sink.hits.setdefault((kind, key), (kind, text, node))

    def may_none(self, v, s):
        if v[0] == "comp":
            return any(comp_shape(a[0], v[2]) is None for a in s.alt.get(v[1], ()))
        return False

    def deref(self, v, s, node, how):
        """v is used as a value: report, then assume it was one"""
        if v[0] != "comp" or v[1] not in s.alt:
            return
        if self.may_none(v, s):
            if self.only is None or v[1] == self.only:
                site = v[1]
                self.hit("none", (site[1] if site[0] == "param" else site[1], how), f"{how} although {self.sitename(site)} may be None", node)
            self.keep(s, v[1], lambda a: comp_shape(a[0], v[2]) is not None)

    def sitename(self, site):
        if site[0] == "param":
            return f"parameter {site[1]}"
        return f"the result of {site[1]}"

    def keep(self, s, site, pred):
        n = frozenset(a for a in s.alt[site] if pred(a))
        s.alt[site] = n
        return bool(n)

    # -------------------------------------------------------------- expressions: yields (value, state)
    def ev(self, e, s):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            yield from m(e, s)
            return
        # generic: evaluate children in order
        sts = [s]
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                sts = [s2 for s1 in sts for _, s2 in self.ev(ch, s1)]
        for s1 in sts:
            yield TOP, s1

    def seq(self, es, s):
        """[(values, state)]"""
        cur = [([], s)]
        for e in es:
            cur = [(vs + [v], s2) for vs, s1 in cur for v, s2 in self.ev(e, s1)]
            if len(cur) > CAP:
                cur = cur[:CAP]
        return cur

    def e_Constant(self, e, s):
        yield ("c", e.value), s

    def e_Name(self, e, s):
        if isinstance(e.ctx, ast.Load):
            self.read_out(e.id, s, e)
            self.read_bad(s.env.get(e.id, TOP), s, e)
        yield s.env.get(e.id, TOP), s

    def read_bad(self, v, s, node):
        if v[0] == "comp" and v[1] in s.alt and v[1] not in self.allow and any(comp_shape(a[0], v[2]) is BAD for a in s.alt[v[1]]):
            self.hit("flag", (v[1][1], getattr(node, "id", "it")), f"{ast.unparse(node)} is used although the flag {v[1][1]} returned with it may say it failed", node)
            self.keep(s, v[1], lambda a: comp_shape(a[0], v[2]) is not BAD)

    def read_out(self, name, s, node):
        o = s.outs.get(name)
        if o is None or o[0] not in s.alt:
            return
        if any(o[1] in a[1] for a in s.alt[o[0]]):
            self.hit("out", (o[0][1], name), f"{name} is read although {o[0][1]} may have failed to compute it", node)
            self.keep(s, o[0], lambda a: o[1] not in a[1])

    def dotted(self, e):
        p = []
        while isinstance(e, ast.Attribute):
            p.append(e.attr)
            e = e.value
        if isinstance(e, ast.Name):
            return ".".join([e.id] + p[::-1])
        return None

    def e_Attribute(self, e, s):
        d = self.dotted(e)
        if d is not None and d in s.env:
            yield s.env[d], s
            return
        for v, s1 in self.ev(e.value, s):
            self.deref(v, s1, e, f".{e.attr} is taken")
            yield TOP, s1

    def e_Subscript(self, e, s):
        for v, s1 in self.ev(e.value, s):
            for _, s2 in self.ev(e.slice, s1):
                if v[0] == "t" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(v[1]) <= e.slice.value < len(v[1]):
                    yield v[1][e.slice.value], s2
                    continue
                if v[0] == "comp" and v[1] in s2.alt:
                    self.deref(v, s2, e, "it is indexed")
                    if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                        self.read_bad(("comp", v[1], v[2] + (e.slice.value,)), s2, e)
                        yield ("comp", v[1], v[2] + (e.slice.value,)), s2
                        continue
                yield TOP, s2

    def e_BinOp(self, e, s):
        for (a, b), s1 in self.seq([e.left, e.right], s):
            self.deref(a, s1, e, "it is an operand")
            self.deref(b, s1, e, "it is an operand")
            yield TOP, s1

    def e_UnaryOp(self, e, s):
        if isinstance(e.op, ast.Not):
            yield from self.truth_value(e, s)
            return
        for v, s1 in self.ev(e.operand, s):
            self.deref(v, s1, e, "it is an operand")
            if isinstance(e.op, ast.USub) and v[0] == "c" and isinstance(v[1], (int, float)):
                v = ("c", -v[1])
            elif v[0] != "c":
                v = TOP
            yield v, s1

    def truth_value(self, e, s):
        t, f = self.cond(e, s)
        for x in t:
            yield ("c", True), x
        for x in f:
            yield ("c", False), x

    def e_Compare(self, e, s):
        yield from self.truth_value(e, s)

    def e_BoolOp(self, e, s):
        # value of `a and b`: either the falsy a or b
        cur = [s]
        for i, v in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s1 in cur:
                if last:
                    yield from self.ev(v, s1)
                    continue
                t, f = self.cond(v, s1)
                nxt += t if isinstance(e.op, ast.And) else f
                for x in (f if isinstance(e.op, ast.And) else t):
                    yield (("c", isinstance(e.op, ast.Or)) if not isinstance(v, (ast.Name, ast.Attribute)) else self.look(v, x)), x
            cur = nxt

    def look(self, e, s):
        d = self.dotted(e)
        return s.env.get(d, TOP) if d else TOP

    def e_IfExp(self, e, s):
        t, f = self.cond(e.test, s)
        for x in t:
            yield from self.ev(e.body, x)
        for x in f:
            yield from self.ev(e.orelse, x)

    def e_Tuple(self, e, s):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            for _, s1 in self.seq(e.elts, s):
                yield TOP, s1
            return
        for vs, s1 in self.seq(e.elts, s):
            yield ("t", tuple(vs)), s1

    def e_List(self, e, s):
        for vs, s1 in self.seq(e.elts, s):
            yield ("val",), s1

    e_Set = e_List

    def e_Starred(self, e, s):
        for v, s1 in self.ev(e.value, s):
            self.deref(v, s1, e, "it is unpacked")
            yield TOP, s1

    def e_NamedExpr(self, e, s):
        for v, s1 in self.ev(e.value, s):
            s1 = s1.copy()
            self.bind(e.target, v, s1, e)
            yield v, s1

    def e_Lambda(self, e, s):
        yield ("val",), s

    def comp(self, e, s, elts):
        cur = [s.copy()]
        for g in e.generators:
            nxt = []
            for s1 in cur:
                for v, s2 in self.ev(g.iter, s1):
                    self.deref(v, s2, g.iter, "it is iterated")
                    s2 = s2.copy()
                    self.forget(g.target, s2)
                    ss = [s2]
                    for c in g.ifs:
                        ss = [x for y in ss for x in self.cond(c, y)[0]]
                    nxt += ss
            cur = nxt[:CAP]
        for el in elts:
            cur = [y for x in cur for _, y in self.ev(el, x)][:CAP]
        yield ("val",), s

    def e_ListComp(self, e, s):
        yield from self.comp(e, s, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, s):
        yield from self.comp(e, s, [e.key, e.value])

    def out_name(self, a):
        while True:
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ("__addr__", "__cast__") and a.args:
                a = a.args[-1]
            elif isinstance(a, ast.Subscript):
                a = a.value
            else:
                break
        return a.id if isinstance(a, ast.Name) else None

    def e_Call(self, e, s):
        g, b = self.calls.get(id(e), (None, None))
        alts = None
        if g is not None and isinstance(g, Function):
            alts = self.oc.alternatives(g, self.given(g, b, s))
        outargs = {}
        if alts is not None:
            for p in frozenset().union(*[u for _, u in alts]):
                a = (b or {}).get(p)
                if a is not None:
                    nm = self.out_name(a)
                    if nm:
                        outargs[id(a)] = (p, nm)
        # evaluate receiver and arguments
        subs = ([e.func.value] if isinstance(e.func, ast.Attribute) else [] if isinstance(e.func, ast.Name) else [e.func])
        args = [a for a in e.args if id(a) not in outargs] + [k.value for k in e.keywords if id(k.value) not in outargs]
        for vs, s1 in self.seq(subs + args, s):
            if subs and isinstance(e.func, ast.Attribute):
                self.deref(vs[0], s1, e, f".{e.func.attr}() is called on it")
            elif isinstance(e.func, ast.Name) and e.func.id in s1.env:
                self.deref(s1.env[e.func.id], s1, e, "it is called")
            for a, v in zip(args, vs[len(subs):]):
                if v[0] == "comp" and self.may_none(v, s1):
                    how = self.arg_deref(e, g, b, a)
                    if how:
                        self.deref(v, s1, e, how)
            # attribute facts about objects handed to a call are no longer known
            base = None
            if isinstance(e.func, ast.Attribute):
                base = self.dotted(e.func.value)
            if base and any(k.startswith(base + ".") for k in s1.env):
                s1 = s1.copy()
                for k in [k for k in s1.env if k.startswith(base + ".")]:
                    del s1.env[k]
            given = [n for n in (self.out_name(x) for x in list(e.args) + [k.value for k in e.keywords]) if n in self.f.params]
            if given and self.f.qual in self.oc.contracts:
                s1 = s1.copy()
                for n in given:
                    s1.env["#p:" + n] = ("c", True)
            if alts is None:
                if isinstance(e.func, ast.Name) and e.func.id in ("bool", "__cast__", "float", "int") and len(args) >= 1:
                    yield (vs[-1] if e.func.id in ("bool", "__cast__") else ("val",)), s1
                    continue
                yield TOP, s1
                continue
            s2 = s1.copy()
            site = ("call", f"{g.name}()", getattr(e, "lineno", 0), getattr(e, "col_offset", 0), self.f.qual)
            self.oc.sites.add(site)
            self.rename(s2, site)
            s2.alt[site] = alts
            for p, nm in outargs.values():
                s2.outs[nm] = (site, p)
            yield ("comp", site, ()), s2

    def given(self, g, b, s):
        """what the call says about the parameters the callee tests: constants and values known not to be None"""
        out = {}
        d = g.defaults()
        for p in self.oc.tested(g):
            a = b.get(p)
            if a is None:
                a = d.get(p)
                if isinstance(a, ast.Constant) and (a.value is None or isinstance(a.value, (bool, str))):
                    out[p] = ("c", a.value)
                continue
            if isinstance(a, ast.Constant) and (a.value is None or isinstance(a.value, (bool, str))):
                out[p] = ("c", a.value)
                continue
            v = self.look(a, s)
            if v[0] == "val" or v[0] == "c" and isinstance(v[1], (bool, str)):
                out[p] = v
            elif v[0] == "comp" and v[1] in s.alt and not self.may_none(v, s) or isinstance(a, (ast.List, ast.Tuple, ast.BinOp, ast.ListComp)):
                out[p] = ("val",)
        return frozenset(out.items())

    def rename(self, s, site):
        old = ("old",) + site[1:]
        if site not in s.alt:
            return
        s.alt.pop(old, None)
        for k in [k for k, v in s.env.items() if self.uses(v, old)]:
            s.env[k] = TOP
        for k in [k for k, v in s.outs.items() if v[0] == old]:
            del s.outs[k]
        def sub(v):
            if v[0] == "comp" and v[1] == site:
                return ("comp", old, v[2])
            if v[0] == "t":
                return ("t", tuple(sub(x) for x in v[1]))
            return v
        used = False
        for k, v in list(s.env.items()):
            if self.uses(v, site):
                s.env[k] = sub(v)
                used = True
        for k, v in list(s.outs.items()):
            if v[0] == site:
                s.outs[k] = (old, v[1])
                used = True
        if used:
            s.alt[old] = s.alt[site]
        del s.alt[site]

    def uses(self, v, site):
        return v[0] == "comp" and v[1] == site or v[0] == "t" and any(self.uses(x, site) for x in v[1])

    def arg_deref(self, e, g, b, a):
        """how handing a (possibly None) to this call uses it as a value, or None"""
        fn = e.func
        if g is not None and b is not None:
            for p, x in b.items():
                if x is a:
                    t = g.ann(p)
                    if t in ("double", "float", "int", "long", "size_t", "Py_ssize_t", "bint"):
                        return f"it is handed to {g.name} as a C {t}"
                    return f"{g.name} uses it as {p}" if self.oc.needs(g, p, self.depth) else None
            return None
        if isinstance(fn, ast.Name) and fn.id in DEREFS:
            return f"{fn.id}() is applied to it"
        r = resolve_in_fn(self.oc.prog, self.f, fn)
        if isinstance(r, Ext) and str(getattr(r, "name", r)).startswith(("numpy", "scipy", "math")):
            return f"{ast.unparse(fn)} is applied to it"
        return None

    # -------------------------------------------------------------- conditions: (true states, false states)
    def cond(self, e, s):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, s)
            return f, t
        if isinstance(e, ast.BoolOp):
            T, F, cur = [], [], [s]
            for v in e.values:
                nt, nf = [], []
                for x in cur:
                    t, f = self.cond(v, x)
                    nt += t
                    nf += f
                if isinstance(e.op, ast.And):
                    F += nf
                    cur = nt
                else:
                    T += nt
                    cur = nf
            return (cur, F) if isinstance(e.op, ast.And) else (T, cur)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            T, F = [], []
            for v, s1 in self.ev(e.args[0], s):
                a = self.refine(v, s1, lambda k: k is not None)
                if a is not None:
                    T.append(a)
                F.append(s1)
            return T, F
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            return self.cond(e.args[0], s)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op, T, F = e.ops[0], [], []
            for (a, b), s1 in self.seq([e.left, e.comparators[0]], s):
                if a[0] == "c" and b[0] != "c" and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                    a, b = b, a
                if b[0] == "c" and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                    c = b[1]
                    strict = isinstance(op, (ast.Is, ast.IsNot))
                    def yes(k, c=c):          # can k equal c?
                        return k in (VAL, BAD) and c is not None or same(k, c) if not isinstance(k, tuple) else False
                    def no(k, c=c):
                        return k in (VAL, BAD) or not same(k, c)
                    t, f = self.refine(a, s1, yes), self.refine(a, s1, no)
                    if a == TOP and c is None:
                        d = self.dotted(e.left if b == ("c", None) else e.comparators[0])
                        if d:
                            t, f = t.copy(), f.copy()
                            t.env[d], f.env[d] = ("c", None), ("val",)
                    if isinstance(op, (ast.IsNot, ast.NotEq)):
                        t, f = f, t
                elif b[0] == "c" and isinstance(b[1], (int, float)) and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    self.deref(a, s1, e, "it is compared")
                    c = b[1]
                    t = self.refine(a, s1, lambda k: not isinstance(k, (int, float)) or order(op, k, c))
                    f = self.refine(a, s1, lambda k: not isinstance(k, (int, float)) or not order(op, k, c))
                elif a[0] == "c" and isinstance(a[1], (int, float)) and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    self.deref(b, s1, e, "it is compared")
                    c = a[1]
                    t = self.refine(b, s1, lambda k: not isinstance(k, (int, float)) or order(op, c, k))
                    f = self.refine(b, s1, lambda k: not isinstance(k, (int, float)) or not order(op, c, k))
                else:
                    if not isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
                        self.deref(a, s1, e, "it is compared")
                        self.deref(b, s1, e, "it is compared")
                    t, f = s1, s1
                if t is not None:
                    T.append(t)
                if f is not None:
                    F.append(f)
            return T, F
        if isinstance(e, ast.Compare):
            T = []
            for vs, s1 in self.seq([e.left] + e.comparators, s):
                if not any(isinstance(o, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.In, ast.NotIn)) for o in e.ops):
                    for v in vs:
                        self.deref(v, s1, e, "it is compared")
                T.append(s1)
            return T, list(T)
        T, F = [], []
        for v, s1 in self.ev(e, s):
            d = self.dotted(e) if v == TOP else None
            if d:
                t = s1.copy()
                t.env[d] = ("val",)
                T.append(t)
                F.append(s1)
                continue
            t = self.refine(v, s1, lambda k: k is VAL or bool(k) or isinstance(k, tuple))
            f = self.refine(v, s1, lambda k: k in (VAL, BAD) or not k)
            if t is not None:
                T.append(t)
            if f is not None:
                F.append(f)
        return T, F

    def refine(self, v, s, pred):
        """the state with the alternatives of v restricted to those satisfying pred, or None when none is left"""
        if v[0] == "c":
            return s if pred(v[1]) else None
        if v[0] == "val":
            return s if pred(VAL) else None
        if v[0] != "comp" or v[1] not in s.alt:
            return s
        self.sink.tests += 1
        s = s.copy()
        return s if self.keep(s, v[1], lambda a: pred(comp_shape(a[0], v[2]))) else None

    # -------------------------------------------------------------- binding
    def forget(self, t, s):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                s.env.pop(n.id, None)
                s.outs.pop(n.id, None)
                for k in [k for k in s.env if k.startswith(n.id + ".")]:
                    del s.env[k]

    def bind(self, t, v, s, node):
        if isinstance(t, ast.Name):
            for k in [k for k in s.env if k.startswith(t.id + ".")]:
                del s.env[k]
            s.outs.pop(t.id, None)
            if v == TOP:
                s.env.pop(t.id, None)
            else:
                s.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v[0] == "t" and len(v[1]) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v[1]):
                    self.bind(x, y, s, node)
                return
            if v[0] == "comp" and v[1] in s.alt:
                self.deref(v, s, node, "it is unpacked")
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.forget(x, s)
                elif v[0] == "comp" and not any(isinstance(y, ast.Starred) for y in t.elts[:i]):
                    self.bind(x, ("comp", v[1], v[2] + (i,)), s, node)
                else:
                    self.bind(x, TOP, s, node)
        elif isinstance(t, ast.Attribute):
            d = self.dotted(t)
            for _ in self.ev(t.value, s):
                break
            if d:
                for k in [k for k in s.env if k.startswith(d + ".")]:
                    del s.env[k]
                if v == TOP:
                    s.env.pop(d, None)
                else:
                    s.env[d] = v
        elif isinstance(t, ast.Subscript):
            if v[0] == "comp":
                for k in [k for k, o in s.outs.items() if o[0] == v[1]]:
                    del s.outs[k]
            for x, s1 in self.ev_store(t.value, s):
                pass
            for _ in self.ev(t.slice, s):
                break
            nm = self.out_name(t)
            if nm:
                s.outs.pop(nm, None)
                if nm in self.f.params:
                    s.env["#w:" + nm] = ("c", True)

    def ev_store(self, e, s):
        if isinstance(e, ast.Name):
            v = s.env.get(e.id, TOP)
            self.deref(v, s, e, "it is stored into")
            yield v, s
        elif isinstance(e, ast.Subscript):
            yield from self.ev_store(e.value, s)
        else:
            yield from self.ev(e, s)

    # -------------------------------------------------------------- statements
    def dedup(self, states):
        out, seen = [], set()
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > CAP:
            out = [self.join(out)]
        return out

    def join(self, states):
        s0 = states[0].copy()
        for s in states[1:]:
            for k in list(s0.env):
                if s.env.get(k) != s0.env[k]:
                    del s0.env[k]
            for k in list(s0.outs):
                if s.outs.get(k) != s0.outs[k]:
                    del s0.outs[k]
            for k, v in s.alt.items():
                s0.alt[k] = s0.alt.get(k, frozenset()) | v
        return s0

    def block(self, body, states, loop):
        """-> (states falling through, list of broken/continued via loop dict)"""
        for st in body:
            if not states:
                break
            states = self.dedup([x for s in states for x in self.stmt(st, s, loop)])
            self.snap(states)
        return states, None

    def snap(self, states):
        for t in getattr(self, "trystack", ()):
            t += states

    def stmt(self, st, s, loop):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is not None:
            return m(st, s, loop)
        out = [s]
        for ch in ast.iter_child_nodes(st):
            if isinstance(ch, ast.expr):
                out = [y for x in out for _, y in self.ev(ch, x)]
        return out

    def s_Expr(self, st, s, loop):
        return [x for _, x in self.ev(st.value, s)]

    def s_FunctionDef(self, st, s, loop):
        return [s]

    s_ClassDef = s_AsyncFunctionDef = s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass = s_FunctionDef

    def s_Assign(self, st, s, loop):
        out = []
        for v, s1 in self.ev(st.value, s):
            s1 = s1.copy()
            for t in st.targets:
                self.bind(t, v, s1, st)
            out.append(s1)
        return out

    def s_AnnAssign(self, st, s, loop):
        if isinstance(st.target, ast.Name) and isinstance(st.annotation, ast.Constant):
            self.ctypes[st.target.id] = st.annotation.value
        if st.value is None:
            return [s]
        return self.s_Assign(ast.Assign(targets=[st.target], value=st.value, lineno=st.lineno, col_offset=0), s, loop)

    def s_AugAssign(self, st, s, loop):
        out = []
        for v, s1 in self.ev(st.value, s):
            s1 = s1.copy()
            self.deref(v, s1, st, "it is an operand")
            if isinstance(st.target, ast.Name):
                self.read_out(st.target.id, s1, st)
                self.deref(s1.env.get(st.target.id, TOP), s1, st, "it is an operand")
                s1.env.pop(st.target.id, None)
            else:
                l = ast.copy_location(ast.parse(ast.unparse(st.target), mode="eval").body, st.target)
                for x in ast.walk(l):
                    ast.copy_location(x, st.target)
                for _, s2 in self.ev(l, s1):
                    s1 = s2.copy()
                    break
                self.bind(st.target, TOP, s1, st)
            out.append(s1)
        return out

    def s_Delete(self, st, s, loop):
        s = s.copy()
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.forget(t, s)
        return [s]

    def s_If(self, st, s, loop):
        t, f = self.cond(st.test, s)
        a, _ = self.block(st.body, self.dedup(t), loop)
        b, _ = self.block(st.orelse, self.dedup(f), loop)
        return a + b

    def s_With(self, st, s, loop):
        out = [s]
        for i in st.items:
            nxt = []
            for x in out:
                for v, y in self.ev(i.context_expr, x):
                    if i.optional_vars is not None:
                        y = y.copy()
                        self.forget(i.optional_vars, y)
                    nxt.append(y)
            out = nxt
        return self.block(st.body, out, loop)[0]

    def s_Assert(self, st, s, loop):
        return self.cond(st.test, s)[0]

    def s_Return(self, st, s, loop):
        if st.value is None:
            self.ret(None, s)
            return []
        # a status returned together with its out-argument (or instead of it) hands the decision on
        names = {n.id for n in ast.walk(st.value) if isinstance(n, ast.Name)}
        s1 = s
        for nm in names & set(s.outs):
            site = s.outs[nm][0]
            if any(self.uses(s.env.get(k, TOP), site) for k in names):
                s1 = s1.copy() if s1 is s else s1
                s1.outs.pop(nm)
        comps = [s1.env[k] for k in names if s1.env.get(k, TOP)[0] == "comp"]
        self.allow = {a[1] for a in comps for b in comps if a[1] == b[1] and a[2] != b[2]}
        for v, s2 in self.ev(st.value, s1):
            if v[0] == "t":
                for x in v[1]:
                    if x[0] == "comp" and x[2] and self.may_none(x, s2) and not any(y[0] == "comp" and y[1] == x[1] and y[2] != x[2] and
                                                                                  any(isinstance(comp_shape(a[0], y[2]), (bool, int)) for a in s2.alt[x[1]]) for y in v[1]) \
                            and any(isinstance(k, (bool, int)) for a in s2.alt[x[1]] if isinstance(a[0], tuple) for k in a[0]):
                        self.hit("none", (x[1][1], "parts"), f"parts of the result of {x[1][1]} are handed on without its flag although they may be None", st)
            self.ret((v, st.value), s2)
        self.allow = set()
        return []

    def ret(self, v, s):
        w = frozenset(k[3:] for k in s.env if k.startswith("#w:"))
        # an out-parameter of this function left to a callee that may have failed
        for nm, (site, p) in s.outs.items():
            if nm in self.f.params and site in s.alt:
                bad = any(p in a[1] for a in s.alt[site])
                if bad:
                    sure = all(p in a[1] for a in s.alt[site])
                    given = v is not None and (self.uses(v[0], site) or v[0][0] == "c" and sure)
                    c = self.oc.contracts.get(self.f.qual, {})
                    if given and v[0][0] == "c" and "ok" in c and any(type(k) is type(v[0][1]) and k == v[0][1] for k in c["ok"]):
                        self.hit("out", (site[1], nm), f"success is reported although {site[1]} failed to compute {nm}", v[1])
                    elif not given:
                        self.hit("out", (site[1], nm), f"{nm} is handed back although {site[1]} may have failed to compute it", v[1] if v else self.f.node)
                else:
                    w = w | {nm}
        w = w | frozenset("?" + k[3:] for k in s.env if k.startswith("#p:"))
        for shape in self.shapes(v[0] if v else ("c", None), s):
            for sh in ([shape] if not isinstance(shape, list) else shape):
                self.sink.returns.add((sh, w))

    def shapes(self, v, s, depth=0):
        if v[0] == "c":
            return {v[1] if v[1] is None or isinstance(v[1], (bool, int)) else VAL}
        if v[0] == "t":
            if depth > 1:
                return {VAL}
            out = [()]
            for x in v[1]:
                out = [o + (y,) for o in out for y in self.shapes(x, s, depth + 1)][:32]
            return set(out)
        if v[0] == "comp" and v[1] in s.alt:
            return {flat(comp_shape(a[0], v[2]), depth) for a in s.alt[v[1]]} or {VAL}
        return {VAL}

    def s_Raise(self, st, s, loop):
        if st.exc is not None:
            for _ in self.ev(st.exc, s):
                break
        return []

    def s_Break(self, st, s, loop):
        loop["b"].append(s)
        return []

    def s_Continue(self, st, s, loop):
        loop["c"].append(s)
        return []

    def loop_(self, head, body, orelse, s, outer):
        """head(state) -> (enter states, leave states)"""
        leave, brk, seen, work = [], [], set(), [s]
        stored = {self.out_name(n) for b in body for n in ast.walk(b) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store)} & set(self.f.params)
        for _ in range(12):
            ent = []
            for x in work:
                k = x.key()
                if k in seen:
                    continue
                seen.add(k)
                t, f = head(x)
                ent += t
                leave += f
            if not ent:
                break
            lp = {"b": [], "c": []}
            out, _ = self.block(body, self.dedup(ent), lp)
            brk += lp["b"]
            work = self.dedup(out + lp["c"])
        if stored and self.f.qual in self.oc.contracts:
            leave = [x.copy() for x in leave]
            for x in leave:
                for n in stored:
                    x.env["#p:" + n] = ("c", True)
        leave = self.dedup(leave)
        if orelse:
            leave, _ = self.block(orelse, leave, outer)
        return self.dedup(leave + brk)

    def s_While(self, st, s, loop):
        return self.loop_(lambda x: self.cond(st.test, x), st.body, st.orelse, s, loop)

    def s_For(self, st, s, loop):
        out = []
        for v, s1 in self.ev(st.iter, s):
            s1 = s1.copy()
            self.deref(v, s1, st.iter, "it is iterated")

            def head(x):
                y = x.copy()
                self.forget(st.target, y)
                return [y], [x]
            out += self.loop_(head, st.body, st.orelse, s1, loop)
        return out

    s_AsyncFor = s_For

    def s_Try(self, st, s, loop):
        names = set()
        for h in st.handlers:
            if h.type is None:
                names.add("Exception")
            for n in ast.walk(h.type) if h.type is not None else ():
                if isinstance(n, ast.Name):
                    names.add(n.id)
        caught = bool(names & CATCH)
        stack = self.__dict__.setdefault("trystack", [])
        acc = [s]
        stack.append(acc)
        self.caught += caught
        out, _ = self.block(st.body, [s], loop)
        self.caught -= caught
        stack.pop()
        if st.orelse:
            out, _ = self.block(st.orelse, out, loop)
        for h in st.handlers:
            hs = self.dedup(acc)
            o, _ = self.block(h.body, hs, loop)
            out = out + o
        if st.finalbody:
            out, _ = self.block(st.finalbody, self.dedup(out), loop)
        return out


def flat(sh, depth):
    if sh is BAD:
        return VAL
    if not isinstance(sh, tuple):
        return sh
    return VAL if depth > 1 else tuple(flat(x, depth + 1) for x in sh)


def same(k, c):
    if k is VAL or k is BAD:
        return False
    if k is None or c is None:
        return k is c
    if isinstance(k, tuple) or isinstance(c, tuple):
        return False
    return k == c


def order(op, a, b):
    return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]


def dispatch(body):
    """the body ends in a chain of cases without an else: falling off the end is a case nobody handles, not an outcome"""
    last = body[-1]
    n = 0
    while isinstance(last, ast.If):
        n += 1
        if not last.orelse:
            return n > 1
        if len(last.orelse) != 1:
            break
        last = last.orelse[0]
    if isinstance(body[-1], ast.If) and isinstance(last, (ast.Raise,)):
        return False
    return False


def analyse(oc, f):
    sink = Sink()
    Interp(oc, f, sink, quiet=False).run()
    return sink
