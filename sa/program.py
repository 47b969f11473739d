"""Whole-program index over /repo/mmcore: modules, classes, functions, imports, name resolution."""
from __future__ import annotations
import ast
import os
import re

from . import frontend
from .frontend import FInfo

SKIP_DIRS = {"topo/mesh/triangle-c", "renderer", "__pycache__"}


class Function:
    __slots__ = ("name", "module", "cls", "node", "qual", "parent", "role", "nested")

    def __init__(self, name, module, cls, node, role=None, parent=None):
        self.name, self.module, self.cls, self.node = name, module, cls, node
        self.role = role  # None | 'getter' | 'setter' | 'static' | 'classmethod'
        self.parent = parent
        self.nested = {}
        base = module.name + "." + (cls.name + "." if cls else "") + (parent.name + ".<locals>." if parent else "") + name
        self.qual = base + ("@" + role if role in ("getter", "setter") else "")

    def __repr__(self):
        return f"<F {self.qual}>"

    @property
    def sa(self):
        return getattr(self.node, "sa", None) or FInfo()

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]

    @property
    def pos_params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def arg_nodes(self):
        a = self.node.args
        return a.posonlyargs + a.args + a.kwonlyargs

    def ann(self, pname):
        for x in self.arg_nodes():
            if x.arg == pname:
                return annot_str(x.annotation)
        return None

    def defaults(self):
        a = self.node.args
        ps = a.posonlyargs + a.args
        d = {}
        for x, v in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            d[x.arg] = v
        for x, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                d[x.arg] = v
        return d

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def is_method(self):
        return self.cls is not None and self.role not in ("static",)


def annot_str(a):
    if a is None:
        return None
    if isinstance(a, ast.Constant):
        return str(a.value)
    try:
        return ast.unparse(a)
    except Exception:
        return None


class Class:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.kind = getattr(node, "sa_kind", "py")
        self.methods = {}
        self.getters = {}
        self.setters = {}
        self.fields = {}      # name -> ctype (cdef) or annotation
        self.class_consts = {}
        self.bases = list(node.bases)
        self.slots = None

    @property
    def qual(self):
        return self.module.name + "." + self.name

    def __repr__(self):
        return f"<C {self.qual}>"


class Module:
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel, self.tree, self.src = name, path, rel, tree, src
        self.functions = {}
        self.classes = {}
        self.imports = {}     # local -> ('mod', modname) | ('attr', modname, attr)
        self.star = []
        self.globals = {}     # name -> value expr | None
        self.cdecls = {}
        self.is_cy = path.endswith(".pyx")
        self.package = name if os.path.basename(path).startswith("__init__.") else name.rpartition(".")[0]


class Ext:
    """Something outside mmcore: numpy.array, scipy..., builtins."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<ext {self.path}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Program:
    def __init__(self, root="/repo", pkg="mmcore"):
        self.root = root
        self.modules = {}
        self.errors = []
        self.nfiles = 0
        self._load(os.path.join(root, pkg), pkg)
        self._index_done = False
        for m in self.modules.values():
            self._index(m)
        self._cha = {}
        for m in self.modules.values():
            for c in m.classes.values():
                for k in list(c.methods) + list(c.getters):
                    self._cha.setdefault(k, []).append(c)
        self._mro_cache = {}
        self._sub = None

    def _load(self, top, pkg):
        pxds = {}
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if os.path.relpath(os.path.join(d, x), top) not in SKIP_DIRS and x != "__pycache__")
            fs = set(files)
            for f in sorted(files):
                base, ext = os.path.splitext(f)
                if ext not in (".py", ".pyx", ".pxd"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                modname = os.path.relpath(os.path.join(d, base), os.path.dirname(top)).replace(os.sep, ".")
                if modname.endswith(".__init__"):
                    modname = modname[:-9]
                if ext == ".py" and base + ".pyx" in fs and base != "__init__":
                    continue
                try:
                    tree, src = frontend.parse_file(p)
                except SyntaxError as e:
                    self.errors.append((rel, f"syntax error: {e}"))
                    continue
                except Exception as e:  # noqa
                    self.errors.append((rel, f"{type(e).__name__}: {e}"))
                    continue
                self.nfiles += 1
                if ext == ".pxd":
                    pxds[modname] = (tree, src, p, rel)
                    continue
                m = Module(modname, p, rel, tree, src)
                if ext == ".py" and modname in self.modules and self.modules[modname].is_cy:
                    continue
                self.modules[modname] = m
        self.pxds = pxds
        for nm, (tree, src, p, rel) in pxds.items():
            if nm not in self.modules:
                m = Module(nm, p, rel, ast.Module(body=[], type_ignores=[]), src)
                self.modules[nm] = m

    # -- indexing -------------------------------------------------------------
    def _index(self, m):
        if m.name in self.pxds:
            tree, src, p, rel = self.pxds[m.name]
            self._index_body(m, tree.body, None, pxd=True)
        self._index_body(m, m.tree.body, None)

    def _absmod(self, m, module, level):
        if level == 0:
            return module or ""
        pk = m.package.split(".")
        if level > 1:
            pk = pk[: len(pk) - (level - 1)]
        return ".".join(pk + ([module] if module else []))

    def _index_body(self, m, body, cls, pxd=False):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                if getattr(n, "sa", None) and n.sa.decl_only:
                    m.cdecls[(cls.name + "." if cls else "") + n.name] = n
                    continue
                self._add_fn(m, n, cls)
            elif isinstance(n, ast.ClassDef):
                c = m.classes.get(n.name)
                if c is None:
                    c = Class(n.name, m, n)
                    m.classes[n.name] = c
                else:
                    if n.bases and not c.bases:
                        c.bases = list(n.bases)
                    if not pxd:
                        c.node = n
                self._index_body(m, n.body, c, pxd)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                if cls is not None:
                    cls.fields[n.target.id] = annot_str(n.annotation)
                    if n.value is not None:
                        cls.class_consts[n.target.id] = n.value
                else:
                    m.globals.setdefault(n.target.id, n.value)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            if cls is not None:
                                if x.id == "__slots__":
                                    try:
                                        v = ast.literal_eval(n.value)
                                        cls.slots = [v] if isinstance(v, str) else list(v)
                                    except Exception:
                                        pass
                                # property(...) assignment
                                if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "property":
                                    a = n.value.args
                                    if a and isinstance(a[0], ast.Name) and a[0].id in cls.methods:
                                        cls.getters[x.id] = cls.methods[a[0].id]
                                    if len(a) > 1 and isinstance(a[1], ast.Name) and a[1].id in cls.methods:
                                        cls.setters[x.id] = cls.methods[a[1].id]
                                else:
                                    cls.class_consts[x.id] = n.value
                            else:
                                m.globals[x.id] = n.value
            elif isinstance(n, ast.Import) and cls is None:
                for a in n.names:
                    if a.asname:
                        m.imports[a.asname] = ("mod", a.name)
                    else:
                        m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom) and cls is None:
                mod = self._absmod(m, n.module, n.level)
                for a in n.names:
                    if a.name == "*":
                        m.star.append(mod)
                    else:
                        m.imports[a.asname or a.name] = ("attr", mod, a.name)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                if isinstance(n, ast.If) and _is_main_guard(n.test):
                    continue
                for fld in ("body", "orelse", "finalbody"):
                    self._index_body(m, getattr(n, fld, []) or [], cls, pxd)
                for h in getattr(n, "handlers", []) or []:
                    self._index_body(m, h.body, cls, pxd)
                if isinstance(n, ast.For):
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name) and cls is None:
                            m.globals.setdefault(x.id, None)

    def _add_fn(self, m, n, cls, parent=None):
        role = None
        for d in n.decorator_list:
            if isinstance(d, ast.Name):
                if d.id in ("property", "cached_property"):
                    role = "getter"
                elif d.id == "staticmethod":
                    role = "static"
                elif d.id == "classmethod":
                    role = "classmethod"
            elif isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                role = {"setter": "setter", "getter": "getter", "deleter": "deleter"}[d.attr]
            elif isinstance(d, ast.Attribute) and d.attr == "cached_property":
                role = "getter"
        f = Function(n.name, m, cls, n, role, parent)
        if cls is not None:
            if role == "getter":
                cls.getters[n.name] = f
            elif role == "setter":
                cls.setters[n.name] = f
            elif role == "deleter":
                pass
            else:
                cls.methods[n.name] = f
        elif parent is None:
            m.functions[n.name] = f
        for x in n.body:
            self._nested(m, x, f)
        return f

    def _nested(self, m, n, parent):
        if isinstance(n, ast.FunctionDef):
            f = Function(n.name, m, None, n, None, parent)
            parent.nested[n.name] = f
            for x in n.body:
                self._nested(m, x, f)
            return
        if isinstance(n, (ast.ClassDef, ast.Lambda)):
            return
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.stmt) or isinstance(c, ast.ExceptHandler):
                self._nested(m, c, parent)

    # -- resolution -------------------------------------------------------------
    def resolve(self, m, name, _seen=None):
        """Resolve a module-level name to Function|Class|Module|Ext|('global', Module, name)|None."""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        last = None
        if name in m.functions:
            return m.functions[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.globals:
            v = m.globals[name]
            if isinstance(v, ast.Name) and v.id != name:
                r = self.resolve(m, v.id, _seen)
                if r is not None:
                    return r
            if isinstance(v, ast.Attribute):
                r = self.resolve_expr(m, v, _seen)
                if isinstance(r, (Function, Class)):
                    return r
            return ("global", m, name)
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == "mod":
                if imp[1] in self.modules:
                    return self.modules[imp[1]]
                return Ext(imp[1])
            return self._resolve_in(imp[1], imp[2], _seen)
        for s in m.star:
            if s in self.modules:
                mm = self.modules[s]
                if name.startswith("_"):
                    continue
                r = self.resolve(mm, name, _seen)
                if r is not None:
                    return r
        # cimported C-level names may live in the pxd of the same module
        return last

    def _resolve_in(self, modname, attr, seen):
        if modname in self.modules:
            mm = self.modules[modname]
            r = self.resolve(mm, attr, seen)
            if r is not None:
                return r
            sub = modname + "." + attr
            if sub in self.modules:
                return self.modules[sub]
            return None
        sub = modname + "." + attr
        if sub in self.modules:
            return self.modules[sub]
        return Ext(sub)

    def resolve_expr(self, m, e, _seen=None):
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id, _seen)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, _seen)
            if isinstance(b, Module):
                r = self.resolve(b, e.attr)
                if r is None and b.name + "." + e.attr in self.modules:
                    return self.modules[b.name + "." + e.attr]
                return r
            if isinstance(b, Ext):
                full = b.path + "." + e.attr
                if full in self.modules:
                    return self.modules[full]
                return Ext(full)
            if isinstance(b, Class):
                f = self.find_method(b, e.attr)
                return f
        return None

    # -- classes ------------------------------------------------------------------
    def mro(self, c):
        if c in self._mro_cache:
            return self._mro_cache[c]
        self._mro_cache[c] = [c]
        out = [c]
        for b in c.bases:
            r = self.resolve_expr(c.module, b)
            if isinstance(r, Class):
                for x in self.mro(r):
                    if x not in out:
                        out.append(x)
        self._mro_cache[c] = out
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_getter(self, c, name):
        for k in self.mro(c):
            if name in k.getters:
                return k.getters[name]
            if name in k.methods or name in k.fields:
                return None
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def field_type(self, c, name):
        for k in self.mro(c):
            if name in k.fields:
                return k.fields[name]
        return None

    def subclasses(self, c):
        if self._sub is None:
            self._sub = {}
            for m in self.modules.values():
                for k in m.classes.values():
                    for b in self.mro(k):
                        self._sub.setdefault(b, []).append(k)
        return self._sub.get(c, [c])

    def class_named(self, m, tname):
        if not tname:
            return None
        t = tname.strip().strip("'\"")
        t = re.sub(r"\[.*\]$", "", t).rstrip("*& ")
        t = t.split("|")[0].strip()
        if t.startswith("Optional"):
            return None
        parts = t.split(".")
        r = self.resolve(m, parts[0]) if parts[0].isidentifier() else None
        for p in parts[1:]:
            if isinstance(r, Module):
                r = self.resolve(r, p)
            else:
                return None
        return r if isinstance(r, Class) else None

    def functions(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield from _with_nested(f)
            for c in m.classes.values():
                seen = set()
                for d in (c.methods, c.getters, c.setters):
                    for f in d.values():
                        if id(f) not in seen:
                            seen.add(id(f))
                            yield from _with_nested(f)

    def find(self, qual):
        """'mmcore.geom.nurbs:NURBSCurve.evaluate' / 'mod:func' / 'mod:Class.prop@setter'"""
        mod, _, rest = qual.partition(":")
        m = self.modules.get(mod)
        if m is None:
            return None
        role = None
        if "@" in rest:
            rest, role = rest.split("@")
        if "." in rest:
            cn, fn = rest.split(".", 1)
            c = m.classes.get(cn)
            if c is None:
                r = self.resolve(m, cn)
                c = r if isinstance(r, Class) else None
            if c is None:
                return None
            if role == "getter":
                return self.find_getter(c, fn)
            if role == "setter":
                return self.find_setter(c, fn)
            return self.find_method(c, fn)
        r = self.resolve(m, rest)
        return r if isinstance(r, (Function, Class)) else None


def _with_nested(f):
    yield f
    for g in f.nested.values():
        yield from _with_nested(g)


def _is_main_guard(t):
    return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__"
