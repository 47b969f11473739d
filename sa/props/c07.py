"""C07 - copies, pickles, serialised forms, hashes and derived geometry carry every defining datum to its own place (sa/prov.py, sa/layout.py)."""
import ast
import json
import os
from .. import layout, prov
from ..prov import Bound, Cell, ClsV, D, Dead, Dict, Interp, ObjV, Ref, State, Tup, source_object
from ..core import AnalysisError, Result, require

EXPLANATION = ("Every copy, deep copy, pickle, state, tuple, hash, comparison and byte form of the geometry classes, every constructor, and every operation "
               "that derives curves or surfaces from others (splitting, trimming, reversing, degree elevation, isocurves, knot insertion, ruling) is interpreted "
               "abstractly: each value carries the set of source fields it is made of, coordinates and weights of control points apart, through pointers, views, memcpy, "
               "loops, properties, constructors and helpers. Each defining field of the result must be made of the same field of the source and of nothing else that defines the source.")
RULES = ["P1 dropped: a defining field of the result does not come from that field of the source", "P2 cross-wired: it comes from a field it has nothing to do with",
         "P4 layout: writer and reader of a byte form disagree on position, width or meaning of an entry, or the form is longer or shorter than what is written",
         "P6 state: a state is written and read under different names or into different fields", "P7 identity: equality or hash ignores a defining field",
         "P10 short-data: the reader takes data without looking at its length"]
ASSUMPTIONS = ["values are followed, not amounts: the numbers computed from the right fields are not judged", "index arithmetic carries no provenance",
               "control points have four columns, the last one the weight"]
HERE = os.path.dirname(os.path.abspath(__file__))
COPY = ("copy", "ccopy", "__copy__", "__deepcopy__", "clone")
SER = (("cserialize", "cdeserialize"), ("serialize", "deserialize"), ("to_bytes", "from_bytes"))


class Spec:
    def __init__(self):
        d = json.load(open(os.path.join(HERE, "..", "spec", "prov.json")))
        self.d, self.alias = d, d["alias"]
        prov.PARTS.clear()
        prov.PARTS.update(d["parts"])
        prov.ND.clear()
        prov.ND.update(d["nd"])
        self.cls = d["classes"]

    def canon(self, a):
        pre, _, last = a.rpartition("/")
        b, dot, el = last.partition(".")
        return (pre + "/" if pre else "") + self.alias.get(b, b) + dot + el

    def D(self, d):
        return D({self.canon(a) for a in d.may}, {self.canon(a) for a in d.must})


def lookup(prog, c):
    try:
        return prog.find(c)
    except Exception:
        return None


class Check:
    def __init__(self, prog, res):
        self.prog, self.res, self.spec = prog, res, Spec()
        self.undecided = []

    # ------------------------------------------------------------------ helpers
    def pairs(self, sp):
        return {k for k, v in sp["fields"].items() if v.get("pair")} | ({"_size"} if any(v.get("pair") for v in sp["fields"].values()) else set()) | {"_interval"}

    def spec_of(self, c):
        for k in self.prog.mro(c):
            q = k.module.name + ":" + k.name
            if q in self.spec.cls:
                return self.spec.cls[q], q
        return None, None

    def field(self, S, I, o, f):
        """provenance of field f (f, f.0, f.x, f.w) of object o"""
        fn = Frame0(I)
        base, _, el = f.partition(".")
        ob = S.store[o.id]
        v = ob.f.get(base)
        if v is None:
            for k, a in self.spec.alias.items():
                if a == base and k in ob.f:
                    v = ob.f[k]
        if v is None:
            if ob.src is not None:
                v = fn.attr(o, base, S)
            else:
                return None
        if el in ("x", "w"):
            c = I.rows(S, [v])
            return self.spec.D(c.part(el))
        if el in ("0", "1"):
            if isinstance(v, Ref) and isinstance(S.store.get(v.id), Cell):
                return self.spec.D(prov.Frame.elem_d(fn, S.store[v.id], int(el)))
            if isinstance(v, Tup) and len(v.items) > int(el):
                return self.spec.D(I.deps(S, v.items[int(el)]))
            d = I.deps(S, v)
            return self.spec.D(D({prov.Frame.at(fn, a, int(el)) for a in d.may}, {prov.Frame.at(fn, a, int(el)) for a in d.must}))
        return self.spec.D(I.deps(S, v))

    def slots(self, sp):
        """(result slot, atoms that satisfy it, atoms also allowed)"""
        for f, v in sp["fields"].items():
            also = v.get("also", [])
            if v.get("pair"):
                for i in (0, 1):
                    al = also[i] if also and isinstance(also[0], list) else also
                    yield f"{f}.{i}", f"{f}.{i}", set(al)
            elif v.get("parts"):
                yield f + ".x", f + ".x", {f + ".w"}
                yield f + ".w", f + ".w", set()
            else:
                yield f, f, set(also)

    def judge(self, rule_at, what, d, need, allowed, ignore=lambda a: False, weak=False, also=()):
        """d: provenance found; need: atom (None: nothing required); allowed: atoms permitted"""
        self.res.ob()
        where, loc = rule_at
        base = need.partition(".")[0] if need else None
        good = {need, base} if need else set()
        if need and need.endswith((".0", ".1")):
            good = {need}
        if d is None:
            self.res.add(f"P1 dropped", where, f"{what} is never set", loc)
            return
        src = d.may if weak else d.must
        if need and not (good & src) and not (also and (set(also) & src)):
            self.res.add("P1 dropped", where, f"{what} does not come from {need}" + (f" (it comes from {', '.join(sorted(src)) or 'nothing of the source'})"), loc)
        other = {a for a in d.may if a not in good and a not in allowed and not ignore(a) and a.partition(".")[0] not in {x for x in allowed if "." not in x}}
        if base and need == base:
            other = {a for a in other if a.partition(".")[0] != base}
        if other:
            self.res.add("P2 cross-wired", where, f"{what} is made of {', '.join(sorted(other))}", loc)

    def at(self, f):
        return (f.qual, f.loc)

    def compare_copy(self, I, S, o, sp, f, what="copy"):
        names = {x.partition(".")[0] for x in sp["fields"]} | {"_size"}
        for slot, need, also in self.slots(sp):
            d = self.field(S, I, o, slot)
            self.judge(self.at(f), f"{slot} of the {what}", d, need, also, ignore=lambda a: a.partition(".")[0] not in names, also=also if slot.startswith("_interval") else ())

    def interp(self, sp=None):
        return Interp(self.prog, self.pairs(sp) if sp else ())

    def run_method(self, c, f, sp, extra=None):
        I = self.interp(sp)
        S = State()
        o = source_object(I, S, c)
        args = [D({p}) for p in f.pos_params[1:] if p not in f.defaults()]
        if extra is not None:
            args = extra(I, S)
        r = I.call(S, f, args, {}, o)
        return I, S, o, r

    def guard(self, f, fn):
        try:
            return fn()
        except Dead:
            return None
        except RecursionError:
            self.undecided.append(f.qual)
        return None

    def done(self, I):
        if I.budget < 0:
            raise AnalysisError("interpretation budget exhausted")
        self.res.functions |= I.seen

    # ------------------------------------------------------------------ forms of one object
    def forms(self):
        n = 0
        for q, sp in self.spec.cls.items():
            c = lookup(self.prog, q)
            if c is None:
                self.undecided.append(q)
                continue
            for m in COPY:
                f = self.prog.find_method(c, m)
                if f is None:
                    continue
                n += 1
                x = self.guard(f, lambda: self.run_method(c, f, sp))
                if x is None:
                    continue
                I, S, o, r = x
                self.done(I)
                if isinstance(r, ObjV):
                    self.compare_copy(I, S, r, sp, f)
                    self.res.sample(f"{f.qual}: " + "; ".join(f"{s} <- {self.field(S, I, r, s)}" for s, _, _ in self.slots(sp))[:300])
                else:
                    self.undecided.append(f.qual)
            self.reduce(c, sp)
            self.state(c, sp)
            self.identity(c, sp)
            f = self.prog.find_method(c, "astuple")
            if f is not None and sp.get("tuple"):
                n += 1
                x = self.guard(f, lambda: self.run_method(c, f, sp))
                if x is not None:
                    I, S, o, r = x
                    self.done(I)
                    if isinstance(r, Tup) and len(r.items) == len(sp["tuple"]):
                        for want, it in zip(sp["tuple"], r.items):
                            self.judge(self.at(f), f"entry {want} of the tuple", self.spec.D(strip(I.deps(S, it), sp)), want, set())
                    elif isinstance(r, Tup):
                        self.res.add("P1 dropped", f.qual, f"the tuple has {len(r.items)} entries for {len(sp['tuple'])} defining fields", f.loc)
            for m in ("todict", "to_dict", "asdict"):
                f = self.prog.find_method(c, m)
                if f is None or not sp.get("keys"):
                    continue
                n += 1
                x = self.guard(f, lambda: self.run_method(c, f, sp))
                if x is not None and isinstance(x[3], Dict):
                    I, S, o, r = x
                    self.done(I)
                    for k, want in sp["keys"].items():
                        v = S.store[r.id].f.get(k)
                        self.judge(self.at(f), f"entry {k!r} of the dictionary", I.deps(S, v) if v is not None else None, want, set())
        return n

    def reduce(self, c, sp):
        for m in ("__reduce__", "__reduce_ex__"):
            f = self.prog.find_method(c, m)
            if f is None:
                continue
            x = self.guard(f, lambda: self.run_method(c, f, sp))
            if x is None:
                continue
            I, S, o, r = x
            self.done(I)
            if not isinstance(r, Tup) or len(r.items) < 2 or not isinstance(r.items[1], Tup):
                self.undecided.append(f.qual)
                continue
            fn = Frame0(I)
            fn.f, fn.m = f, f.module
            try:
                o2 = fn.apply("", r.items[0], list(r.items[1].items), {}, S)
                if len(r.items) > 2 and isinstance(o2, ObjV):
                    st = self.prog.find_method(c, "__setstate__")
                    if st is not None:
                        I.call(S, st, [r.items[2]], {}, o2)
                    elif isinstance(r.items[2], Dict):
                        S.store[o2.id].f.update(S.store[r.items[2].id].f)
            except Dead:
                continue
            if isinstance(o2, ObjV):
                self.compare_pickle(I, S, o2, sp, f)
            else:
                self.undecided.append(f.qual)

    def compare_pickle(self, I, S, o, sp, f):
        """what the constructor or __setstate__ makes of what was saved; it may choose between branches, so what it may restore counts"""
        names = {x.partition(".")[0] for x in sp["fields"]} | {"_size"}
        spline = {"_control_points", "_knots", "_interval", "_periodic"}
        for slot, need, also in self.slots(sp):
            d = self.field(S, I, o, slot)
            fld = slot.partition(".")[0]
            al = set(also)
            if fld in spline:
                al |= {"_knots", "_degree", "_control_points.w"} | ({"_control_points"} if fld != "_control_points" else set())
            self.judge(self.at(f), f"{slot} of the restored object", d, need, al, ignore=lambda a: a.partition(".")[0] not in names, weak=True, also=also)

    def state(self, c, sp):
        g, s = c.methods.get("__getstate__"), c.methods.get("__setstate__")
        if g is None or s is None:
            return
        x = self.guard(g, lambda: self.run_method(c, g, sp))
        if x is None:
            return
        I, S, o, r = x
        if not isinstance(r, Dict):
            self.undecided.append(g.qual)
            return
        keys = set(S.store[r.id].f)
        p = s.pos_params[1]
        for n in ast.walk(s.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == p and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                self.res.ob()
                if n.slice.value not in keys:
                    self.res.add("P6 state", s.qual, f"reads {n.slice.value!r}, which the written state does not have", f"{s.module.rel}:{n.lineno}")
        o2 = I.new_obj(S, c)
        ci = self.prog.find_method(c, "__cinit__")
        try:
            if ci is not None:
                I.call(S, ci, [], {}, o2)
            I.call(S, s, [r], {}, o2)
        except Dead:
            return
        self.done(I)
        self.compare_pickle(I, S, o2, sp, s)

    def identity(self, c, sp):
        want = sp.get("hash")
        if not want:
            return
        for m in ("__hash__", "__eq__", "geometry_hash"):
            f = self.prog.find_method(c, m)
            if f is None:
                continue
            x = self.guard(f, lambda: self.run_method(c, f, sp, extra=(lambda I, S: [source_object(I, S, c, "other")]) if m == "__eq__" else None))
            if x is None:
                continue
            I, S, o, r = x
            self.done(I)
            d = self.spec.D(I.deps(S, r))
            for pre in ("", "other/") if m == "__eq__" else ("",):
                for w in want:
                    self.res.ob()
                    got = {a for a in d.may if a.startswith(pre) and ("/" in a) == bool(pre)}
                    fields = {a.rpartition("/")[2].partition(".")[0] for a in got}
                    els = {a.rpartition("/")[2].partition(".")[2] for a in got if a.rpartition("/")[2].partition(".")[0] == w}
                    if w not in fields:
                        self.res.add("P7 identity", f.qual, f"{'the other object' if pre else 'the result'}: {w} is ignored", f.loc)
                    elif els and "" not in els:
                        full = {"0", "1"} if sp["fields"].get(w, {}).get("pair") else {"x", "w"}
                        if els & full and not full <= els:
                            self.res.add("P7 identity", f.qual, f"only {w}.{'/'.join(sorted(els))} is looked at", f.loc)

    # ------------------------------------------------------------------ derived objects
    def derived(self):
        n = 0
        for e in self.spec.d["derived"]:
            f = lookup(self.prog, e["fn"])
            if f is None:
                self.undecided.append(e["fn"])
                continue
            n += 1
            self.guard(f, lambda: self.derive(e, f))
        return n

    def derive(self, e, f):
        prog = self.prog
        surf = e.get("profile") == "surface" or "iso" in e or "NURBSSurface" in e["fn"] or e.get("ruled")
        C, Sf = prog.find("mmcore.geom.nurbs:NURBSCurve"), prog.find("mmcore.geom.nurbs:NURBSSurface")
        I = Interp(prog, ({"_degree", "_size", "_interval"} if surf and not e.get("ruled") else {"_interval"}) | set(e.get("pairs", [])))
        S = State()
        args, recv, first = [], None, None
        isctor = f.name in ("__init__",)
        for i, p in enumerate(f.pos_params):
            c = None
            if i == 0 and f.cls is not None and f.role != "static":
                if isctor or "ctor" in e:
                    recv = I.new_obj(S, f.cls)
                    continue
                c = f.cls
            elif p in e.get("objs", {}):
                c = prog.find(e["objs"][p])
            else:
                t = f.ann(p)
                c = prog.class_named(f.module, t) if t else None
                if c is not None and c not in (C, Sf):
                    c = None
            if c is not None:
                v = source_object(I, S, c, "" if first is None else p)
                first = first or v
            elif p in e.get("const", {}):
                v = D(const=("c", e["const"][p]))
            elif p in e.get("pairs", []):
                v = I.new_cell(S, D({p}))
            elif any(x.rstrip("?") == p and slot in prov.PARTS for slot, x in e.get("ctor", {}).items()):
                slot = [slot for slot, x in e["ctor"].items() if x.rstrip("?") == p][0]
                v = I.new_cell(S, D({p}), {"x": D({p + ".x"}), "w": D({p + ".w"})})
                S.store[v.id].nd, S.store[v.id].cols = prov.ND[slot], 4
            else:
                v = D({p})
            if i == 0 and f.cls is not None and f.role != "static":
                recv = v
            else:
                args.append(v)
        r = I.call(S, f, args, {}, recv)
        self.done(I)
        if e.get("inplace"):
            outs = [recv]
        elif isctor:
            outs = [recv]
        else:
            outs = list(objects(r))
        tag = "" if not e.get("const") else " (" + ", ".join(f"{k}={v!r}" for k, v in e["const"].items()) + ")"
        if not outs:
            self.undecided.append(f.qual + tag)
            return
        self.res.sample(f"{f.qual}{tag}: {len(outs)} derived object(s) checked")
        for o in outs:
            if "ctor" in e:
                self.ctor(e, f, I, S, o)
            elif "iso" in e:
                self.iso(e, f, I, S, o, tag)
            elif e.get("ruled"):
                self.ruled(e, f, I, S, o)
            elif e["profile"] == "curve":
                self.curve(e, f, I, S, o)
            else:
                self.surface(e, f, I, S, o, tag)

    def want(self, f, e, S, I, o, slot, need, allowed, tag="", weak=False, also=()):
        w = set(e.get("with", []))
        pre = tuple(x[:-1] for x in w if x.endswith("*"))
        self.judge(self.at(f), f"{slot} of the result{tag}", self.field(S, I, o, slot), need, set(allowed) | w, ignore=lambda a: bool(pre) and a.startswith(pre), weak=weak, also=also)

    def curve(self, e, f, I, S, o):
        keep, skip = e.get("keep", []), e.get("skip", [])
        W = lambda slot, need, al, weak=False, also=(): slot.partition(".")[0] in skip or self.want(f, e, S, I, o, slot, need, al, weak=weak, also=also)
        fixed = "_control_points" in keep
        W("_degree", "_degree", ())
        W("_control_points.x", "_control_points.x", ("_control_points.w",) + (() if fixed else ("_knots", "_degree")), weak=not fixed)
        W("_control_points.w", "_control_points.w", ("_control_points.x",) + (() if fixed else ("_knots", "_degree")), weak=not fixed)
        W("_knots", "_knots", ("_degree",), weak=True)
        if not (e.get("inplace") and "_interval" not in S.store[o.id].f):
            for i in "01":
                W("_interval." + i, "_knots", ("_degree", "_interval." + i), weak=True, also=("_interval." + i,))
        if "_periodic" in keep:
            W("_periodic", "_periodic", (), weak=True)

    def surface(self, e, f, I, S, o, tag):
        dirs, keep = e["dirs"], e.get("keep", [])
        W = lambda slot, need, al, weak=False: self.want(f, e, S, I, o, slot, need, al, tag, weak)
        W("_degree.0", "_degree.0", ())
        W("_degree.1", "_degree.1", ())
        kn = {"u": ("_knots_u", "_degree.0", "_size.0"), "v": ("_knots_v", "_degree.1", "_size.1")}
        mix = [x for d in dirs for x in kn[d]]
        fixed = "control_points_view" in keep
        W("control_points_view.x", "control_points_view.x", ["control_points_view.w"] + ([] if fixed else mix), weak=not fixed)
        W("control_points_view.w", "control_points_view.w", ["control_points_view.x"] + ([] if fixed else mix), weak=not fixed)
        for i, d in enumerate("uv"):
            W("_knots_" + d, "_knots_" + d, kn[d][1:] if d in dirs else (), weak=d in dirs)
            ob = S.store[o.id]
            if ob.src is None or "_interval" in ob.f:
                W(f"_interval.{i}", "_knots_" + d if ob.src is None else None, kn[d] + (f"_interval.{i}",), weak=True)

    def iso(self, e, f, I, S, o, tag):
        along = e["iso"]
        i = "uv".index(along)
        fixdir = "vu"[i]
        W = lambda slot, need, al, weak=False: self.want(f, e, S, I, o, slot, need, al, tag, weak)
        W("_degree", f"_degree.{i}", ())
        W("_knots", "_knots_" + along, ())
        W("_interval", "_knots_" + along, ())
        W("_control_points.x", "control_points_view.x", ("control_points_view.w", "_knots_" + fixdir, f"_degree.{1 - i}", f"_interval.{1 - i}"), weak=True)
        W("_control_points.w", "control_points_view.w", ("control_points_view.x", "_knots_" + fixdir, f"_degree.{1 - i}", f"_interval.{1 - i}"), weak=True)

    def ruled(self, e, f, I, S, o):
        for pre in ("", f.pos_params[1] + "/"):
            for part in ("x", "w"):
                self.res.ob()
                d = self.field(S, I, o, "control_points_view." + part)
                if not {pre + "_control_points." + part, pre + "_control_points"} & d.may:
                    self.res.add("P1 dropped", f.qual, f"control_points_view.{part} of the surface does not come from {pre}_control_points.{part}", f.loc)

    def ctor(self, e, f, I, S, o):
        every = {x.rstrip("?") for x in e["ctor"].values()}
        for slot, src in e["ctor"].items():
            opt = src.endswith("?")
            src = src.rstrip("?")
            if slot in prov.PARTS:
                for k in ("x", "w"):
                    d = self.field(S, I, o, slot + "." + k) or D()
                    self.res.ob()
                    if src + "." + k not in d.must and src not in d.must:
                        self.res.add("P1 dropped", f.qual, f"{slot}.{k} of the new object does not come from {src}.{k} when {src} has four columns", f.loc)
                continue
            d = self.field(S, I, o, slot)
            if d is None:
                d = D()
            self.res.ob()
            if src not in (d.may if opt else d.must) and src.partition(".")[0] not in (d.may if opt else d.must):
                self.res.add("P1 dropped", f.qual, f"{slot} of the new object does not come from {src}", f.loc)
            direction = {"u": "v", "v": "u"}
            bad = set()
            for a in d.may:
                if a in every and a != src:
                    if src[-2:] in ("_u", "_v") and a.endswith("_" + direction[src[-1]]) or src[-2:] in (".0", ".1") and a.endswith(".1" if src.endswith(".0") else ".0"):
                        bad.add(a)
                    elif slot.partition(".")[0] in ("_degree", "_periodic"):
                        bad.add(a)
            if bad:
                self.res.add("P2 cross-wired", f.qual, f"{slot} of the new object is made of {', '.join(sorted(bad))}", f.loc)

    # ------------------------------------------------------------------ byte forms
    def bytesforms(self):
        n = 0
        for q in self.spec.cls:
            c = lookup(self.prog, q)
            if c is None:
                continue
            for a, b in SER:
                w, r = c.methods.get(a), c.methods.get(b)
                if w is None or r is None:
                    continue
                n += layout.check(self.prog, w, r, self.res, {"_control_points.shape[1]": 4}, self.undecided, self.spec.cls[q])
        return n


class Frame0(prov.Frame):
    def __init__(self, I):
        self.I, self.f, self.m, self.rets = I, None, None, []

    def attr(self, o, a, S=None):
        if S is None:
            return prov.Frame.attr(self, o, a)
        S.env["__ga__"] = o
        return prov.Frame.attr(self, ast.Attribute(value=ast.Name(id="__ga__", ctx=ast.Load()), attr=a, ctx=ast.Load()), S)


def strip(d, sp):
    """forget which part (coordinates or weight) unless the field has element slots"""
    f = lambda a: a if a.partition(".")[2] in ("0", "1") else a.partition(".")[0]
    return D({f(a) for a in d.may}, {f(a) for a in d.must})


def objects(v):
    if isinstance(v, ObjV):
        yield v
    elif isinstance(v, Tup):
        for x in v.items:
            yield from objects(x)


def run(prog, tier):
    res = Result()
    require(prog, "mmcore.geom.nurbs:NURBSCurve", "mmcore.geom.nurbs:NURBSSurface")
    ck = Check(prog, res)
    n = ck.forms()
    m = ck.derived()
    k = ck.bytesforms()
    res.info = {"forms": n, "derived operations": m, "byte forms": k, "undecided": sorted(set(ck.undecided))}
    if n < 8 or m < 15 or len(ck.undecided) > 12:
        raise AnalysisError(f"too few forms found ({n} forms, {m} derivations, undecided {ck.undecided})")
    return res
