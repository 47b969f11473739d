"""Common front end.

Every source file of mmcore (.py, .pyx, .pxd) is turned into one syntax tree
dialect: Python's ``ast``.  Python files go through ``ast.parse``; Cython files
are parsed with Cython's own parser and converted node by node.  What Cython
adds is kept in a form every analysis can read:

  <T>x            Call(Name('__cast__'), [Constant('T'), x])
  &x              Call(Name('__addr__'), [x])
  sizeof(T)       Call(Name('__sizeof__'), [Constant('T')])
  cdef T x        AnnAssign(x, Constant('T'))       (C declarations)
  with nogil:     With(items=[Name('nogil')])
  cdef args       ast.arg(annotation=Constant('T'))

Function nodes carry .sa = FInfo(kind, nogil, inline, ret, exc).
"""
from __future__ import annotations
import ast
import os
import sys
from io import StringIO

_CY = None


def _cython():
    global _CY
    if _CY is None:
        from Cython.Compiler import TreeFragment, Errors, Nodes, ExprNodes
        _CY = (TreeFragment, Errors, Nodes, ExprNodes)
    return _CY


class FInfo:
    __slots__ = ("kind", "nogil", "inline", "ret", "exc", "decl_only")

    def __init__(self, kind="def", nogil=False, inline=False, ret=None, exc=None, decl_only=False):
        self.kind = kind
        self.nogil = nogil
        self.inline = inline
        self.ret = ret
        self.exc = exc
        self.decl_only = decl_only


class ConvError(Exception):
    pass


BINOP = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod,
         "**": ast.Pow, "<<": ast.LShift, ">>": ast.RShift, "|": ast.BitOr, "&": ast.BitAnd,
         "^": ast.BitXor, "@": ast.MatMult}
CMPOP = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq,
         "<>": ast.NotEq, "is": ast.Is, "is_not": ast.IsNot, "is not": ast.IsNot, "in": ast.In,
         "not_in": ast.NotIn, "not in": ast.NotIn}


class Cy2Ast:
    def __init__(self, path):
        self.path = path
        self.line = 1
        self.col = 0

    # -- positions ---------------------------------------------------------
    def at(self, n, node):
        pos = getattr(n, "pos", None)
        if pos:
            self.line, self.col = pos[1], pos[2]
        node.lineno = node.end_lineno = self.line
        node.col_offset = node.end_col_offset = self.col
        return node

    # -- C types -----------------------------------------------------------
    def ctype(self, t):
        k = type(t).__name__
        if t is None:
            return ""
        if k == "CSimpleBaseTypeNode":
            pre = ""
            if getattr(t, "signed", 1) == 0:
                pre += "unsigned "
            elif getattr(t, "signed", 1) == 2:
                pre += "signed "
            lg = getattr(t, "longness", 0)
            if lg < 0:
                pre += "short "
            elif lg:
                pre += "long " * lg
            name = t.name or ""
            if getattr(t, "module_path", None):
                name = ".".join(list(t.module_path) + [name])
            return (pre + name).strip()
        if k == "MemoryViewSliceTypeNode":
            dims = []
            for ax in t.axes:
                step = getattr(ax, "step", None)
                s = ":"
                if type(step).__name__ == "IntNode" and str(step.value) == "1":
                    s = "::1"
                dims.append(s)
            return self.ctype(t.base_type_node) + "[" + ",".join(dims) + "]"
        if k == "CComplexBaseTypeNode":
            return self.ctype(t.base_type) + self.declsuffix(t.declarator)
        if k == "CConstTypeNode" or k == "CConstOrVolatileTypeNode":
            return self.ctype(t.base_type)
        if k == "TemplatedTypeNode":
            args = []
            for a in t.positional_args:
                if hasattr(a, "pos") and ("TypeNode" in type(a).__name__ or "DeclaratorNode" in type(a).__name__):
                    args.append(self.ctype(a))
                else:
                    try:
                        args.append(ast.unparse(self.e(a)))
                    except Exception:
                        args.append("?")
            return self.ctype(t.base_type_node) + "[" + ",".join(args) + "]"
        if k == "FusedTypeNode":
            return "fused"
        if k == "CTupleBaseTypeNode":
            return "(" + ",".join(self.ctype(c) for c in t.components) + ")"
        if k == "CNestedBaseTypeNode":
            return self.ctype(t.base_type) + "." + t.name
        try:
            return ast.unparse(self.e(t))
        except Exception:
            return k

    def declsuffix(self, d):
        k = type(d).__name__
        if k == "CNameDeclaratorNode":
            return ""
        if k == "CPtrDeclaratorNode":
            return "*" + self.declsuffix(d.base)
        if k == "CReferenceDeclaratorNode":
            return "&" + self.declsuffix(d.base)
        if k == "CArrayDeclaratorNode":
            dim = ""
            if d.dimension is not None:
                dim = ast.unparse(self.e(d.dimension))
            return self.declsuffix(d.base) + "[" + dim + "]"
        if k == "CFuncDeclaratorNode":
            return self.declsuffix(d.base) + "()"
        if k == "CConstDeclaratorNode":
            return self.declsuffix(d.base)
        return ""

    def declname(self, d):
        while not hasattr(d, "name"):
            d = d.base
        return d.name

    def declnamenode(self, d):
        while type(d).__name__ != "CNameDeclaratorNode":
            d = d.base
        return d

    def fulltype(self, base, d):
        b = self.ctype(base)
        return (b + self.declsuffix(d)).strip()

    # -- expressions -------------------------------------------------------
    def name(self, n, s, ctx=None):
        return self.at(n, ast.Name(id=str(s), ctx=ctx or ast.Load()))

    def call(self, n, fname, args):
        return self.at(n, ast.Call(func=self.name(n, fname), args=args, keywords=[]))

    def const(self, n, v):
        return self.at(n, ast.Constant(value=v))

    def e(self, n):
        if n is None:
            return None
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise ConvError(f"{self.path}:{getattr(n,'pos',None)}: expression {type(n).__name__}")
        return m(n)

    def e_NameNode(self, n):
        return self.name(n, n.name)

    def e_NoneNode(self, n):
        return self.const(n, None)

    def e_EllipsisNode(self, n):
        return self.const(n, ...)

    def e_BoolNode(self, n):
        return self.const(n, bool(n.value))

    def e_NullNode(self, n):
        return self.name(n, "NULL")

    def e_IntNode(self, n):
        s = str(n.value).rstrip("lLuU")
        try:
            return self.const(n, int(s, 0))
        except ValueError:
            return self.const(n, int(s, 8))

    def e_FloatNode(self, n):
        return self.const(n, float(n.value))

    def e_ImagNode(self, n):
        return self.const(n, complex(0, float(n.value)))

    def e_CharNode(self, n):
        return self.const(n, str(n.value))

    def e_UnicodeNode(self, n):
        return self.const(n, str(n.value))

    e_StringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        v = n.value
        try:
            v = bytes(v)
        except Exception:
            v = str(v).encode("latin1", "replace")
        return self.const(n, v)

    def e_JoinedStrNode(self, n):
        return self.at(n, ast.JoinedStr(values=[self.e(v) for v in n.values]))

    def e_FormattedValueNode(self, n):
        return self.at(n, ast.FormattedValue(value=self.e(n.value), conversion=-1, format_spec=None))

    def e_AttributeNode(self, n):
        o = self.e(n.obj)
        return self.at(n, ast.Attribute(value=o, attr=str(n.attribute), ctx=ast.Load()))

    def e_IndexNode(self, n):
        b = self.e(n.base)
        i = self.e(n.index)
        return self.at(n, ast.Subscript(value=b, slice=i, ctx=ast.Load()))

    def e_SliceNode(self, n):
        f = lambda x: None if x is None or type(x).__name__ == "NoneNode" else self.e(x)
        return self.at(n, ast.Slice(lower=f(n.start), upper=f(n.stop), step=f(n.step)))

    def e_SliceIndexNode(self, n):
        f = lambda x: None if x is None or type(x).__name__ == "NoneNode" else self.e(x)
        sl = self.at(n, ast.Slice(lower=f(n.start), upper=f(n.stop), step=None))
        return self.at(n, ast.Subscript(value=self.e(n.base), slice=sl, ctx=ast.Load()))

    def e_SimpleCallNode(self, n):
        args = [self.e(a) for a in n.args]
        f = self.e(n.function)
        return self.at(n, ast.Call(func=f, args=args, keywords=[]))

    def e_GeneralCallNode(self, n):
        f = self.e(n.function)
        args = []
        pa = n.positional_args
        self._star(pa, args)
        kws = []
        if n.keyword_args is not None:
            self._kws(n.keyword_args, kws)
        return self.at(n, ast.Call(func=f, args=args, keywords=kws))

    def _star(self, pa, args):
        k = type(pa).__name__
        if k == "TupleNode" or k == "ListNode":
            if getattr(pa, "mult_factor", None):
                args.append(self.at(pa, ast.Starred(value=self.e(pa), ctx=ast.Load())))
                return
            for a in pa.args:
                args.append(self.e(a))
        elif k == "AsTupleNode":
            self._star2(pa.arg, args)
        elif k == "AddNode":
            self._star(pa.operand1, args)
            self._star(pa.operand2, args)
        elif k == "MergedSequenceNode":
            for a in pa.args:
                self._star(a, args)
        else:
            self._star2(pa, args)

    def _star2(self, a, args):
        if type(a).__name__ in ("MergedSequenceNode",):
            for x in a.args:
                self._star(x, args)
            return
        args.append(self.at(a, ast.Starred(value=self.e(a), ctx=ast.Load())))

    def _kws(self, d, kws):
        k = type(d).__name__
        if k == "DictNode":
            for it in d.key_value_pairs:
                kws.append(self.at(it, ast.keyword(arg=str(it.key.value), value=self.e(it.value))))
        elif k == "MergedDictNode":
            for a in d.keyword_args:
                self._kws(a, kws)
        else:
            kws.append(self.at(d, ast.keyword(arg=None, value=self.e(d))))

    def e_TupleNode(self, n):
        return self.at(n, ast.Tuple(elts=[self.e(a) for a in n.args], ctx=ast.Load()))

    def e_ListNode(self, n):
        l = self.at(n, ast.List(elts=[self.e(a) for a in n.args], ctx=ast.Load()))
        if getattr(n, "mult_factor", None):
            return self.at(n, ast.BinOp(left=l, op=ast.Mult(), right=self.e(n.mult_factor)))
        return l

    def e_SetNode(self, n):
        return self.at(n, ast.Set(elts=[self.e(a) for a in n.args]))

    def e_MergedSequenceNode(self, n):
        out = []
        for a in n.args:
            k = type(a).__name__
            if k in ("ListNode", "TupleNode", "SetNode"):
                out += [self.e(x) for x in a.args]
            else:
                out.append(self.at(a, ast.Starred(value=self.e(a), ctx=ast.Load())))
        return self.at(n, ast.List(elts=out, ctx=ast.Load()))

    def e_AsTupleNode(self, n):
        return self.call(n, "tuple", [self.e(n.arg)])

    def e_StarredUnpackingNode(self, n):
        return self.at(n, ast.Starred(value=self.e(n.target), ctx=ast.Load()))

    def e_DictNode(self, n):
        return self.at(n, ast.Dict(keys=[self.e(i.key) for i in n.key_value_pairs],
                                   values=[self.e(i.value) for i in n.key_value_pairs]))

    def e_MergedDictNode(self, n):
        ks, vs = [], []
        for a in n.keyword_args:
            if type(a).__name__ == "DictNode":
                for i in a.key_value_pairs:
                    ks.append(self.e(i.key))
                    vs.append(self.e(i.value))
            else:
                ks.append(None)
                vs.append(self.e(a))
        return self.at(n, ast.Dict(keys=ks, values=vs))

    def _binop(self, n):
        return self.at(n, ast.BinOp(left=self.e(n.operand1), op=BINOP[n.operator](), right=self.e(n.operand2)))

    def __getattr__(self, a):
        if a.startswith("e_"):
            kn = a[2:]
            _, _, N, E = _cython()
            cls = getattr(E, kn, None)
            if cls is not None:
                if issubclass(cls, E.BoolBinopNode):
                    return self._boolop
                if issubclass(cls, E.NumBinopNode) or issubclass(cls, E.BinopNode):
                    return self._binop
        raise AttributeError(a)

    def _boolop(self, n):
        op = ast.And() if n.operator == "and" else ast.Or()
        return self.at(n, ast.BoolOp(op=op, values=[self.e(n.operand1), self.e(n.operand2)]))

    def e_NotNode(self, n):
        return self.at(n, ast.UnaryOp(op=ast.Not(), operand=self.e(n.operand)))

    def e_UnaryMinusNode(self, n):
        o = self.e(n.operand)
        return self.at(n, ast.UnaryOp(op=ast.USub(), operand=o))

    def e_UnaryPlusNode(self, n):
        return self.at(n, ast.UnaryOp(op=ast.UAdd(), operand=self.e(n.operand)))

    def e_TildeNode(self, n):
        return self.at(n, ast.UnaryOp(op=ast.Invert(), operand=self.e(n.operand)))

    def e_AmpersandNode(self, n):
        return self.call(n, "__addr__", [self.e(n.operand)])

    def e_DereferenceNode(self, n):
        return self.call(n, "__deref__", [self.e(n.operand)])

    def e_PrimaryCmpNode(self, n):
        ops, comps = [CMPOP[n.operator]()], [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(CMPOP[c.operator]())
            comps.append(self.e(c.operand2))
            c = c.cascade
        return self.at(n, ast.Compare(left=self.e(n.operand1), ops=ops, comparators=comps))

    def e_CondExprNode(self, n):
        return self.at(n, ast.IfExp(test=self.e(getattr(n, "test", None) or n.condition), body=self.e(n.true_val), orelse=self.e(n.false_val)))

    def e_TypecastNode(self, n):
        if n.operand is None:
            return self.const(n, None)
        t = n.base_type
        s = self.fulltype(t, n.declarator) if t is not None else str(n.type)
        return self.call(n, "__cast__", [self.const(n, s), self.e(n.operand)])

    def e_SizeofTypeNode(self, n):
        return self.call(n, "__sizeof__", [self.const(n, self.fulltype(n.base_type, n.declarator))])

    def e_SizeofVarNode(self, n):
        return self.call(n, "__sizeof__", [self.e(n.operand)])

    def e_CythonArrayNode(self, n):
        dims = []
        for ax in getattr(n.base_type_node, "axes", []):
            st = getattr(ax, "stop", None)
            dims.append(self.e(st) if st is not None and type(st).__name__ != "NoneNode" else self.const(n, None))
        return self.call(n, "__cyarray__", [self.e(n.operand)] + dims)

    def e_LambdaNode(self, n):
        d = n.def_node if getattr(n, "def_node", None) is not None else n
        args = self.args(d)
        body = getattr(n, "result_expr", None)
        if body is None:
            b = d.body
            while type(b).__name__ == "StatListNode":
                b = b.stats[0]
            body = b.value
        return self.at(n, ast.Lambda(args=args, body=self.e(body)))

    def e_ComprehensionNode(self, n):
        gens, elt = self._comp(n.loop)
        t = str(getattr(n, "type", ""))
        if type(elt).__name__ == "tuple":
            return self.at(n, ast.DictComp(key=self.e(elt[0]), value=self.e(elt[1]), generators=gens))
        if "set" in t:
            return self.at(n, ast.SetComp(elt=self.e(elt), generators=gens))
        return self.at(n, ast.ListComp(elt=self.e(elt), generators=gens))

    def e_GeneratorExpressionNode(self, n):
        gens, elt = self._comp(n.loop)
        return self.at(n, ast.GeneratorExp(elt=self.e(elt), generators=gens))

    e_InlinedGeneratorExpressionNode = e_GeneratorExpressionNode

    def _comp(self, loop):
        gens = []
        cur = loop
        while True:
            k = type(cur).__name__
            if k == "StatListNode":
                if len(cur.stats) != 1:
                    raise ConvError("comprehension body")
                cur = cur.stats[0]
            elif k in ("ForInStatNode", "_ForInStatNode"):
                it = cur.iterator
                seq = getattr(it, "sequence", it)
                g = ast.comprehension(target=self.store(self.e(cur.target)), iter=self.e(seq), ifs=[], is_async=0)
                gens.append(g)
                cur = cur.body
            elif k == "IfStatNode":
                gens[-1].ifs.append(self.e(cur.if_clauses[0].condition))
                cur = cur.if_clauses[0].body
            elif k == "ComprehensionAppendNode":
                return gens, cur.expr
            elif k == "DictComprehensionAppendNode":
                it = getattr(cur, "dict_item", None)
                k, v = (it.key, it.value) if it is not None else (cur.key_expr, cur.value_expr)
                return gens, (k, v)
            elif k == "ExprStatNode":
                cur = cur.expr
            elif k == "YieldExprNode":
                return gens, cur.arg
            else:
                raise ConvError("comprehension node " + k)

    def e_YieldExprNode(self, n):
        return self.at(n, ast.Yield(value=self.e(n.arg)))

    def e_YieldFromExprNode(self, n):
        return self.at(n, ast.YieldFrom(value=self.e(n.arg)))

    def e_NewExprNode(self, n):
        return self.call(n, "__new__", [self.const(n, self.ctype(n.cppclass))])

    def e_AssignmentExpressionNode(self, n):
        return self.at(n, ast.NamedExpr(target=self.store(self.e(n.target_name if hasattr(n, 'target_name') else n.lhs)), value=self.e(n.rhs)))

    def e_ImportNode(self, n):
        return self.call(n, "__import__", [self.const(n, str(n.module_name.value))])

    def e_CSimpleBaseTypeNode(self, n):
        return self.const(n, self.ctype(n))

    def e_TemplatedTypeNode(self, n):
        return self.const(n, self.ctype(n))

    def e_AnnotationNode(self, n):
        return self.e(n.expr)

    def e_TypeidNode(self, n):
        return self.const(n, "typeid")

    # -- store ctx -----------------------------------------------------------
    def store(self, t):
        if isinstance(t, (ast.Name, ast.Attribute, ast.Subscript, ast.Starred)):
            t.ctx = ast.Store()
            if isinstance(t, ast.Starred):
                self.store(t.value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            t.ctx = ast.Store()
            for x in t.elts:
                self.store(x)
        return t

    # -- statements ----------------------------------------------------------
    def body(self, n):
        out = self.s(n)
        if not out:
            out = [self.at(n, ast.Pass()) if n is not None else ast.Pass(lineno=1, col_offset=0)]
        return out

    def s(self, n):
        if n is None:
            return []
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise ConvError(f"{self.path}:{getattr(n,'pos',None)}: statement {type(n).__name__}")
        r = m(n)
        return r if isinstance(r, list) else [r]

    def s_StatListNode(self, n):
        out = []
        for x in n.stats:
            out += self.s(x)
        return out

    def s_CompilerDirectivesNode(self, n):
        return self.s(n.body)

    def s_CDefExternNode(self, n):
        return []

    def s_CTypeDefNode(self, n):
        return []

    def s_FusedTypeNode(self, n):
        return []

    def s_CStructOrUnionDefNode(self, n):
        attrs = []
        for a in (n.attributes or []):
            attrs += self.s(a)
        c = self.at(n, ast.ClassDef(name=str(n.name), bases=[], keywords=[], body=attrs or [self.at(n, ast.Pass())],
                                    decorator_list=[], type_params=[]))
        c.sa_kind = "struct"
        return [c]

    def s_CppClassNode(self, n):
        return []

    def s_CEnumDefNode(self, n):
        out = []
        for i, it in enumerate(n.items or []):
            v = self.e(it.value) if it.value is not None else self.const(n, i)
            out.append(self.at(n, ast.Assign(targets=[self.name(n, it.name, ast.Store())], value=v)))
        return out

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            if self._isfunc(d):
                nm = self._funcdecl(d)
                f = self.at(n, ast.FunctionDef(name=str(self.declname(nm.base)), args=self.cargs(nm.args),
                                               body=[self.at(n, ast.Pass())], decorator_list=[], returns=None,
                                               type_params=[]))
                f.sa = FInfo(kind="cpdef" if getattr(n, "overridable", 0) else "cdef",
                             nogil=bool(getattr(nm, "nogil", False)),
                             ret=self.ctype(n.base_type) + self.declsuffix(d).replace("()", ""), decl_only=True,
                             exc=self._exc(nm))
                out.append(f)
                continue
            nn = self.declnamenode(d)
            t = self.fulltype(n.base_type, d)
            val = self.e(nn.default) if nn.default is not None else None
            a = ast.AnnAssign(target=self.name(n, nn.name, ast.Store()), annotation=self.const(n, t), value=val, simple=1)
            a = self.at(n, a)
            a.sa_ctype = t
            a.sa_vis = getattr(n, "visibility", "private")
            out.append(a)
        return out

    def _isfunc(self, d):
        # "int f(...)" or "int *f(...)", not "int (*f)(...)"
        while True:
            k = type(d).__name__
            if k == "CFuncDeclaratorNode":
                return type(d.base).__name__ == "CNameDeclaratorNode"
            if k in ("CPtrDeclaratorNode", "CReferenceDeclaratorNode"):
                d = d.base
                continue
            return False

    def _funcdecl(self, d):
        while type(d).__name__ != "CFuncDeclaratorNode":
            d = d.base
        return d

    def _exc(self, fd):
        ev = getattr(fd, "exception_value", None)
        ec = getattr(fd, "exception_check", None)
        v = None
        if ev is not None:
            try:
                v = ast.unparse(self.e(ev))
            except Exception:
                v = "?"
        return (v, ec)

    def cargs(self, args):
        res = ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
        for a in args:
            self._arg(a, res)
        return res

    def _arg(self, a, res):
        d = a.declarator
        nn = self.declnamenode(d) if not self._isfunc(d) else self.declnamenode(self._funcdecl(d))
        nm = nn.name
        t = self.ctype(a.base_type)
        if not nm:
            # "f(x)" -> type slot carries the name
            nm = t
            ann = None
        else:
            ann = (t + self.declsuffix(d)).strip() or None
        if nm == "" or nm is None:
            nm = "_"
        annot = self.const(a, ann) if ann else None
        if annot is None and getattr(a, "annotation", None) is not None:
            try:
                annot = self.e(a.annotation)
            except ConvError:
                annot = None
        ar = self.at(a, ast.arg(arg=str(nm).split(".")[-1], annotation=annot))
        ar.sa_ctype = ann
        dflt = a.default if a.default is not None else getattr(nn, "default", None)
        if getattr(a, "kw_only", False):
            res.kwonlyargs.append(ar)
            res.kw_defaults.append(self.e(dflt) if dflt is not None else None)
        else:
            res.args.append(ar)
            if dflt is not None:
                res.defaults.append(self.e(dflt))

    def args(self, n):
        res = self.cargs(n.args)
        sa = getattr(n, "star_arg", None)
        if sa is not None:
            res.vararg = self.at(sa, ast.arg(arg=str(sa.name), annotation=None))
        ss = getattr(n, "starstar_arg", None)
        if ss is not None:
            res.kwarg = self.at(ss, ast.arg(arg=str(ss.name), annotation=None))
        return res

    def decos(self, n):
        out = []
        for d in (getattr(n, "decorators", None) or []):
            out.append(self.e(d.decorator))
        return out

    def s_CFuncDefNode(self, n):
        fd = self._funcdecl(n.declarator)
        f = ast.FunctionDef(name=str(self.declname(fd.base)), args=self.cargs(fd.args), body=self.body(n.body),
                            decorator_list=self.decos(n), returns=None, type_params=[])
        self.at(n, f)
        f.sa = FInfo(kind="cpdef" if n.overridable else "cdef", nogil=bool(fd.nogil),
                     inline="inline" in (n.modifiers or []),
                     ret=(self.ctype(n.base_type) + self.declsuffix(n.declarator).replace("()", "")).strip(),
                     exc=self._exc(fd))
        return [f]

    def s_DefNode(self, n):
        f = ast.FunctionDef(name=str(n.name), args=self.args(n), body=self.body(n.body),
                            decorator_list=self.decos(n), returns=None, type_params=[])
        if getattr(n, "doc", None):
            d = self.at(n, ast.Expr(value=self.const(n, str(n.doc))))
            f.body.insert(0, d)
        self.at(n, f)
        f.sa = FInfo(kind="def")
        return [f]

    def s_GeneratorDefNode(self, n):
        return self.s_DefNode(n)

    def s_CClassDefNode(self, n):
        bases = []
        if getattr(n, "bases", None) is not None:
            bases = [self.e(b) for b in n.bases.args]
        elif getattr(n, "base_class_name", None):
            bases = [self.name(n, n.base_class_name)]
        c = ast.ClassDef(name=str(n.class_name), bases=bases, keywords=[], body=self.body(n.body),
                         decorator_list=self.decos(n), type_params=[])
        self.at(n, c)
        c.sa_kind = "cdef"
        return [c]

    def s_PyClassDefNode(self, n):
        b = n.bases
        bases = []
        if b is not None and hasattr(b, "args"):
            bases = [self.e(x) for x in b.args]
        c = ast.ClassDef(name=str(n.name), bases=bases, keywords=[], body=self.body(n.body),
                         decorator_list=self.decos(n), type_params=[])
        self.at(n, c)
        c.sa_kind = "py"
        return [c]

    def s_PropertyNode(self, n):
        out = []
        for f in self.s(n.body):
            if isinstance(f, ast.FunctionDef):
                if f.name == "__get__":
                    f.decorator_list.append(self.name(n, "property"))
                elif f.name == "__set__":
                    f.decorator_list.append(self.at(n, ast.Attribute(value=self.name(n, n.name), attr="setter", ctx=ast.Load())))
                f.name = str(n.name)
                out.append(f)
        return out

    def s_SingleAssignmentNode(self, n):
        rt = type(n.rhs).__name__
        if rt == "ImportNode":
            return [self.at(n, ast.Import(names=[ast.alias(name=str(n.rhs.module_name.value),
                                                            asname=str(n.lhs.name))]))]
        if rt in ("PyClassNode",):
            return []
        v = self.e(n.rhs)
        t = self.store(self.e(n.lhs))
        return [self.at(n, ast.Assign(targets=[t], value=v))]

    def s_CascadedAssignmentNode(self, n):
        v = self.e(n.rhs)
        return [self.at(n, ast.Assign(targets=[self.store(self.e(t)) for t in n.lhs_list], value=v))]

    def s_ParallelAssignmentNode(self, n):
        out = []
        for x in n.stats:
            out += self.s(x)
        return out

    def s_InPlaceAssignmentNode(self, n):
        return [self.at(n, ast.AugAssign(target=self.store(self.e(n.lhs)), op=BINOP[n.operator](), value=self.e(n.rhs)))]

    def s_ExprStatNode(self, n):
        return [self.at(n, ast.Expr(value=self.e(n.expr)))]

    def s_PrintStatNode(self, n):
        return [self.at(n, ast.Expr(value=self.call(n, "print", [self.e(a) for a in n.arg_tuple.args])))]

    def s_IfStatNode(self, n):
        orelse = self.s(n.else_clause) if n.else_clause is not None else []
        node = None
        for cl in reversed(n.if_clauses):
            node = self.at(cl, ast.If(test=self.e(cl.condition), body=self.body(cl.body), orelse=orelse))
            orelse = [node]
        return [node]

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = getattr(it, "sequence", it)
        return [self.at(n, ast.For(target=self.store(self.e(n.target)), iter=self.e(seq), body=self.body(n.body),
                                   orelse=self.s(n.else_clause), type_comment=None))]

    def s_ForFromStatNode(self, n):
        # for lo <= i < hi [by step]
        lo = self.e(n.bound1)
        hi = self.e(n.bound2)
        if n.relation1 == "<":
            lo = self.at(n, ast.BinOp(left=lo, op=ast.Add(), right=self.const(n, 1)))
        if n.relation2 == "<=":
            hi = self.at(n, ast.BinOp(left=hi, op=ast.Add(), right=self.const(n, 1)))
        args = [lo, hi] + ([self.e(n.step)] if n.step is not None else [])
        return [self.at(n, ast.For(target=self.store(self.e(n.target)), iter=self.call(n, "range", args),
                                   body=self.body(n.body), orelse=self.s(n.else_clause), type_comment=None))]

    def s_WhileStatNode(self, n):
        t = self.e(n.condition) if n.condition is not None else self.const(n, True)
        return [self.at(n, ast.While(test=t, body=self.body(n.body), orelse=self.s(n.else_clause)))]

    def s_ReturnStatNode(self, n):
        return [self.at(n, ast.Return(value=self.e(n.value)))]

    def s_RaiseStatNode(self, n):
        return [self.at(n, ast.Raise(exc=self.e(n.exc_type), cause=self.e(getattr(n, "cause", None))))]

    def s_ReraiseStatNode(self, n):
        return [self.at(n, ast.Raise(exc=None, cause=None))]

    def s_BreakStatNode(self, n):
        return [self.at(n, ast.Break())]

    def s_ContinueStatNode(self, n):
        return [self.at(n, ast.Continue())]

    def s_PassStatNode(self, n):
        return [self.at(n, ast.Pass())]

    def s_AssertStatNode(self, n):
        cond = getattr(n, "condition", None) or getattr(n, "cond", None)
        return [self.at(n, ast.Assert(test=self.e(cond), msg=None))]

    def s_DelStatNode(self, n):
        return [self.at(n, ast.Delete(targets=[self.e(a) for a in n.args]))]

    def s_GlobalNode(self, n):
        return [self.at(n, ast.Global(names=[str(x) for x in n.names]))]

    def s_NonlocalNode(self, n):
        return [self.at(n, ast.Nonlocal(names=[str(x) for x in n.names]))]

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = c.pattern
            ty = None
            if pat:
                p = [self.e(x) for x in pat]
                ty = p[0] if len(p) == 1 else self.at(c, ast.Tuple(elts=p, ctx=ast.Load()))
            nm = None
            if c.target is not None:
                nm = str(getattr(c.target, "name", "_"))
            hs.append(self.at(c, ast.ExceptHandler(type=ty, name=nm, body=self.body(c.body))))
        return [self.at(n, ast.Try(body=self.body(n.body), handlers=hs, orelse=self.s(n.else_clause), finalbody=[]))]

    def s_TryFinallyStatNode(self, n):
        b = self.body(n.body)
        fin = self.body(n.finally_clause)
        if len(b) == 1 and isinstance(b[0], ast.Try) and not b[0].finalbody and b[0].handlers:
            b[0].finalbody = fin
            return b
        return [self.at(n, ast.Try(body=b, handlers=[], orelse=[], finalbody=fin))]

    def s_GILStatNode(self, n):
        return [self.at(n, ast.With(items=[ast.withitem(context_expr=self.name(n, n.state), optional_vars=None)],
                                    body=self.body(n.body)))]

    def s_WithStatNode(self, n):
        return [self.at(n, ast.With(items=[ast.withitem(context_expr=self.e(n.manager),
                                                       optional_vars=self.store(self.e(n.target)) if n.target is not None else None)],
                                    body=self.body(n.body)))]

    def s_FromImportStatNode(self, n):
        mod = str(n.module.module_name.value)
        lvl = n.module.level or 0
        names = []
        for nm, tgt in n.items:
            names.append(ast.alias(name=str(nm), asname=str(tgt.name) if tgt is not None and str(tgt.name) != str(nm) else None))
        return [self.at(n, ast.ImportFrom(module=mod, names=names, level=max(lvl, 0)))]

    def s_CImportStatNode(self, n):
        x = self.at(n, ast.Import(names=[ast.alias(name=str(n.module_name), asname=str(n.as_name) if n.as_name else None)]))
        x.sa_cimport = True
        return [x]

    def s_FromCImportStatNode(self, n):
        names = []
        for it in n.imported_names:
            pos, nm, asn = it[0], it[1], it[2]
            names.append(ast.alias(name=str(nm), asname=str(asn) if asn else None))
        x = self.at(n, ast.ImportFrom(module=str(n.module_name), names=names, level=max(getattr(n, "relative_level", 0) or 0, 0)))
        x.sa_cimport = True
        return [x]


def parse_cython(path, src, modname, pxd=False):
    T, Errors, N, E = _cython()
    from Cython.Compiler import Parsing
    from Cython.Compiler.Scanning import PyrexScanner, StringSourceDescriptor
    Errors.init_thread()
    lines = src.split("\n")
    for i in range(min(2, len(lines))):
        if "coding" in lines[i] and lines[i].lstrip().startswith("#"):
            lines[i] = "#"
    src = "\n".join(lines)
    if not src.endswith("\n"):
        src += "\n"
    ctx = T.StringParseContext("m", cpp=True)
    ctx.set_language_level("3") if hasattr(ctx, "set_language_level") else None
    name = os.path.basename(path)
    sd = StringSourceDescriptor(name, src)
    scope = ctx.find_module("m", pos=(name, 1, 0), need_pxd=False)
    sc = PyrexScanner(StringIO(src), sd, source_encoding="UTF-8", scope=scope, context=ctx, initial_pos=(sd, 1, 0))
    errs = Errors.hold_errors() if hasattr(Errors, "hold_errors") else None
    tree = Parsing.p_module(sc, pxd, "m", ctx=Parsing.Ctx())
    conv = Cy2Ast(path)
    mod = ast.Module(body=conv.body(tree.body), type_ignores=[])
    for n in ast.walk(mod):
        if isinstance(n, (ast.expr, ast.stmt, ast.arg, ast.keyword, ast.alias, ast.excepthandler)):
            for a in ("lineno", "end_lineno"):
                if not hasattr(n, a):
                    setattr(n, a, 1)
            for a in ("col_offset", "end_col_offset"):
                if not hasattr(n, a):
                    setattr(n, a, 0)
    return mod


def is_main_guard(t):
    return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and {ast.unparse(t.left), ast.unparse(t.comparators[0])} in ({"__name__", "'__main__'"},)


def parse_file(path, pxd=None):
    with open(path, encoding="utf-8") as f:
        src = f.read()
    if path.endswith(".py"):
        mod = ast.parse(src, filename=path)
        for n in ast.walk(mod):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                n.sa = FInfo("def")
    else:
        mod = parse_cython(path, src, "m", pxd=path.endswith(".pxd"))
    # the script part of a module does not run when it is imported: what it binds is not there for the functions
    mod.body = [x for s in mod.body for x in (s.orelse if isinstance(s, ast.If) and is_main_guard(s.test) else [s])]
    return mod, src
