"""Cython front end: parse .pyx/.pxd with Cython's own parser and lower the
parse tree to a Python ``ast.Module`` so that every analysis sees one syntax.

Nothing is compiled, imported or executed.  C-only constructs are lowered to
marked forms:

  ``&x``            -> ``__addr__(x)``
  ``<T>x``          -> ``__cast__('T', x)``
  ``cdef T x``      -> ``AnnAssign(target=x, annotation='T', value=None)``
  ``cdef T x[n]``   -> annotation ``'T[n]'``
  ``NULL``          -> ``None``
"""
from __future__ import annotations
import ast
import warnings

warnings.filterwarnings("ignore")


def _load():
    from Cython.Compiler import Parsing
    from Cython.Compiler.Main import Context
    from Cython.Compiler.Scanning import PyrexScanner, FileSourceDescriptor
    from Cython.Compiler.Symtab import ModuleScope
    return Parsing, Context, PyrexScanner, FileSourceDescriptor, ModuleScope


def parse_tree(path):
    Parsing, Context, PyrexScanner, FSD, ModuleScope = _load()
    ctx = Context(["."], {}, language_level=2)
    src = FSD(path)
    scope = ModuleScope("m", None, ctx)
    scope.cpp = False
    with open(path, encoding="utf8") as f:
        s = PyrexScanner(f, src, source_encoding="utf8", scope=scope, context=ctx)
        return Parsing.p_module(s, path.endswith(".pxd"), "m")


_BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv,
        "%": ast.Mod, "**": ast.Pow, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor,
        "<<": ast.LShift, ">>": ast.RShift, "@": ast.MatMult}
_CMP = {"==": ast.Eq, "!=": ast.NotEq, "<>": ast.NotEq, "<": ast.Lt, "<=": ast.LtE,
        ">": ast.Gt, ">=": ast.GtE, "is": ast.Is, "is_not": ast.IsNot,
        "in": ast.In, "not_in": ast.NotIn}


class Lower:
    def __init__(self, path):
        self.path = path

    def pos(self, n, out):
        try:
            out.lineno = n.pos[1]
            out.col_offset = n.pos[2]
        except Exception:
            out.lineno, out.col_offset = 1, 0
        out.end_lineno, out.end_col_offset = out.lineno, out.col_offset
        return out

    # ---- statements
    def body(self, n):
        out = []
        if n is None:
            return out
        self._stmt(n, out)
        return out or [self.pos(n, ast.Pass())]

    def _stmt(self, n, out):
        t = type(n).__name__
        m = getattr(self, "s_" + t, None)
        if m is None:
            raise NotImplementedError("cython stmt %s at %s" % (t, n.pos))
        r = m(n)
        if r is None:
            return
        if isinstance(r, list):
            out.extend(r)
        else:
            out.append(r)

    def s_StatListNode(self, n):
        out = []
        for s in n.stats:
            self._stmt(s, out)
        return out

    def s_PassStatNode(self, n):
        return self.pos(n, ast.Pass())

    def s_ExprStatNode(self, n):
        return self.pos(n, ast.Expr(self.e(n.expr)))

    def s_SingleAssignmentNode(self, n):
        rt = type(n.rhs).__name__
        if rt == "ImportNode":
            name = self.const(n.rhs.module_name)
            al = ast.alias(name=name, asname=None)
            tgt = n.lhs.name
            if "." in name and tgt == name.split(".")[0]:
                pass
            elif tgt != name:
                al.asname = tgt
            return self.pos(n, ast.Import([al]))
        return self.pos(n, ast.Assign([self.st(n.lhs)], self.e(n.rhs)))

    def s_CascadedAssignmentNode(self, n):
        return self.pos(n, ast.Assign([self.st(x) for x in n.lhs_list], self.e(n.rhs)))

    def s_InPlaceAssignmentNode(self, n):
        return self.pos(n, ast.AugAssign(self.st(n.lhs), _BIN[n.operator](), self.e(n.rhs)))

    def s_FromImportStatNode(self, n):
        mod = self.const(n.module.module_name)
        names = []
        for src, tgt in n.items:
            nm = tgt.name if hasattr(tgt, "name") else src
            names.append(ast.alias(name=str(src), asname=None if nm == src else str(nm)))
        return self.pos(n, ast.ImportFrom(module=mod, names=names, level=0))

    def s_FromCImportStatNode(self, n):
        names = [ast.alias(name=x[1], asname=x[2] if x[2] and x[2] != x[1] else None)
                 for x in n.imported_names]
        r = ast.ImportFrom(module=str(n.module_name), names=names, level=0)
        r.cimport = True
        return self.pos(n, r)

    def s_CImportStatNode(self, n):
        r = ast.Import([ast.alias(name=str(n.module_name),
                                  asname=n.as_name if n.as_name else None)])
        r.cimport = True
        return self.pos(n, r)

    def s_CDefExternNode(self, n):
        return self.body(n.body)

    def s_CTypeDefNode(self, n):
        return None

    def s_FusedTypeNode(self, n):
        try:
            members = [self.typename(t) for t in n.types]
        except Exception:
            members = []
        r = ast.AnnAssign(target=ast.Name(n.name, ast.Store()),
                          annotation=ast.Constant("fused(%s)" % ",".join(members)),
                          value=None, simple=1)
        ast.copy_location(r.target, self.pos(n, r))
        return r

    def typename(self, bt):
        t = type(bt).__name__
        if t == "CSimpleBaseTypeNode":
            nm = bt.name or "object"
            if bt.module_path:
                nm = ".".join(list(bt.module_path) + [nm])
            return nm
        if t == "MemoryViewSliceTypeNode":
            return self.typename(bt.base_type_node) + "[" + ",".join(":" for _ in bt.axes) + "]"
        if t == "TemplatedTypeNode":
            ns = [getattr(x, "value", None) for x in (bt.positional_args or [])]
            n = ns[0] if len(ns) == 1 and isinstance(ns[0], str) and ns[0].isdigit() else "..."
            return self.typename(bt.base_type_node) + "[%s]" % n
        if t == "CComplexBaseTypeNode":
            return self.typename(bt.base_type)
        return t

    def declname(self, d, ty):
        t = type(d).__name__
        if t == "CNameDeclaratorNode":
            return d.name, ty, d.default
        if t == "CArrayDeclaratorNode":
            dim = ast.unparse(ast.fix_missing_locations(self.e(d.dimension))) \
                if d.dimension is not None else ""
            return self.declname(d.base, ty + "[" + dim + "]")
        if t == "CPtrDeclaratorNode":
            return self.declname(d.base, ty + "*")
        if t == "CFuncDeclaratorNode":
            nm, _, df = self.declname(d.base, ty)
            return nm, ty + "()", df
        raise NotImplementedError(t)

    def s_CVarDefNode(self, n):
        ty = self.typename(n.base_type)
        out = []
        for d in n.declarators:
            nm, dty, default = self.declname(d, ty)
            if type(d).__name__ == "CFuncDeclaratorNode":
                continue
            a = self.pos(n, ast.AnnAssign(
                target=self.pos(n, ast.Name(nm, ast.Store())),
                annotation=self.pos(n, ast.Constant(dty)),
                value=self.e(default) if default is not None else None, simple=1))
            a.cdecl = True
            out.append(a)
        return out

    def s_CClassDefNode(self, n):
        bases = []
        if getattr(n, "bases", None) is not None:
            bases = [self.e(b) for b in n.bases.args]
        return self.pos(n, ast.ClassDef(name=n.class_name, bases=bases, keywords=[],
                                        body=self.body(n.body), decorator_list=[],
                                        type_params=[]))

    def arg(self, a):
        nm, ty, _ = self.declname(a.declarator, self.typename(a.base_type))
        if not nm:   # untyped python arg: the "type" slot holds the name
            nm, ty = ty, None
        r = self.pos(a, ast.arg(arg=nm, annotation=None))
        if ty is not None:
            r.annotation = self.pos(a, ast.Constant(ty))
        return r, (self.e(a.default) if a.default is not None else None)

    def arguments(self, args, star=None, starstar=None):
        A, D = [], []
        for a in args:
            r, d = self.arg(a)
            A.append(r)
            if d is not None:
                D.append(d)
        mk = lambda s: ast.arg(arg=s.name, annotation=None) if s is not None else None
        va, kw = mk(star), mk(starstar)
        for q, s in ((va, star), (kw, starstar)):
            if q is not None:
                self.pos(s, q)
        return ast.arguments(posonlyargs=[], args=A, vararg=va, kwonlyargs=[],
                             kw_defaults=[], kwarg=kw, defaults=D)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != "CFuncDeclaratorNode":
            d = d.base
        nm, _, _ = self.declname(d.base, "")
        f = ast.FunctionDef(name=nm, args=self.arguments(d.args), body=self.body(n.body),
                            decorator_list=[], returns=None, type_params=[])
        f.cdef = True
        f.rettype = self.typename(n.base_type)
        return self.pos(n, f)

    def s_DefNode(self, n):
        decs = [self.e(x.decorator) for x in (n.decorators or [])]
        body = self.body(n.body)
        if n.doc:
            body.insert(0, self.pos(n, ast.Expr(self.pos(n, ast.Constant(str(n.doc))))))
        f = ast.FunctionDef(name=n.name, args=self.arguments(n.args, n.star_arg, n.starstar_arg),
                            body=body, decorator_list=decs, returns=None, type_params=[])
        f.cdef = False
        return self.pos(n, f)

    def s_IfStatNode(self, n):
        orelse = self.body(n.else_clause) if n.else_clause else []
        for c in reversed(n.if_clauses):
            cur = self.pos(c, ast.If(self.e(c.condition), self.body(c.body), orelse))
            orelse = [cur]
        return orelse[0]

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = it.sequence if hasattr(it, "sequence") else it
        return self.pos(n, ast.For(self.st(n.target), self.e(seq), self.body(n.body),
                                   self.body(n.else_clause) if n.else_clause else []))

    def s_WhileStatNode(self, n):
        return self.pos(n, ast.While(self.e(n.condition), self.body(n.body),
                                     self.body(n.else_clause) if n.else_clause else []))

    def s_ReturnStatNode(self, n):
        return self.pos(n, ast.Return(self.e(n.value) if n.value is not None else None))

    def s_BreakStatNode(self, n):
        return self.pos(n, ast.Break())

    def s_ContinueStatNode(self, n):
        return self.pos(n, ast.Continue())

    def s_RaiseStatNode(self, n):
        return self.pos(n, ast.Raise(self.e(n.exc_type) if n.exc_type else None, None))

    def s_ReraiseStatNode(self, n):
        return self.pos(n, ast.Raise(None, None))

    def s_AssertStatNode(self, n):
        c = getattr(n, "cond", None) or getattr(n, "condition")
        v = getattr(n, "value", None)
        return self.pos(n, ast.Assert(self.e(c), self.e(v) if v is not None else None))

    def s_PrintStatNode(self, n):
        args = [self.e(x) for x in n.arg_tuple.args]
        return self.pos(n, ast.Expr(self.pos(n, ast.Call(
            self.pos(n, ast.Name("print", ast.Load())), args, []))))

    def s_GlobalNode(self, n):
        return self.pos(n, ast.Global(list(n.names)))

    def s_GILStatNode(self, n):
        f = self.body(n.body)
        return f

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = c.pattern
            ty = None
            if pat:
                pat = pat if isinstance(pat, (list, tuple)) else [pat]
                es = [self.e(p) for p in pat]
                ty = es[0] if len(es) == 1 else self.pos(c, ast.Tuple(es, ast.Load()))
            nm = c.target.name if c.target is not None else None
            hs.append(self.pos(c, ast.ExceptHandler(ty, nm, self.body(c.body))))
        return self.pos(n, ast.Try(self.body(n.body), hs,
                                   self.body(n.else_clause) if n.else_clause else [], []))

    def s_TryFinallyStatNode(self, n):
        return self.pos(n, ast.Try(self.body(n.body), [], [], self.body(n.finally_clause)))

    def s_WithStatNode(self, n):
        it = ast.withitem(self.e(n.manager), self.st(n.target) if n.target is not None else None)
        return self.pos(n, ast.With([it], self.body(n.body)))

    def s_DelStatNode(self, n):
        ts = []
        for a in n.args:
            x = self.e(a)
            x.ctx = ast.Del()
            ts.append(x)
        return self.pos(n, ast.Delete(ts))

    def s_PyClassDefNode(self, n):
        bases = []
        b = getattr(n, "bases", None)
        if b is not None and hasattr(b, "args"):
            bases = [self.e(x) for x in b.args]
        return self.pos(n, ast.ClassDef(name=n.name, bases=bases, keywords=[],
                                        body=self.body(n.body), decorator_list=[], type_params=[]))

    # ---- expressions
    def const(self, n):
        v = getattr(n, "value", None)
        return str(v)

    def st(self, n):
        x = self.e(n)
        for y in ast.walk(x):
            pass
        def setctx(y):
            if isinstance(y, (ast.Name, ast.Attribute, ast.Subscript, ast.Starred)):
                y.ctx = ast.Store()
            if isinstance(y, (ast.Tuple, ast.List)):
                y.ctx = ast.Store()
                for z in y.elts:
                    setctx(z)
        setctx(x)
        return x

    def e(self, n):
        t = type(n).__name__
        m = getattr(self, "e_" + t, None)
        if m is None:
            raise NotImplementedError("cython expr %s at %s" % (t, n.pos))
        return self.pos(n, m(n))

    def e_NameNode(self, n):
        return ast.Name(str(n.name), ast.Load())

    def e_AttributeNode(self, n):
        return ast.Attribute(self.e(n.obj), str(n.attribute), ast.Load())

    def e_IntNode(self, n):
        return ast.Constant(int(str(n.value).rstrip("LlUu"), 0))

    def e_FloatNode(self, n):
        return ast.Constant(float(str(n.value)))

    def e_BoolNode(self, n):
        return ast.Constant(bool(n.value))

    def e_NoneNode(self, n):
        return ast.Constant(None)

    def e_NullNode(self, n):
        return ast.Constant(None)

    def e_StringNode(self, n):
        return ast.Constant(str(n.value))
    e_UnicodeNode = e_IdentifierStringNode = e_BytesNode = e_StringNode

    def e_EllipsisNode(self, n):
        return ast.Constant(Ellipsis)

    def e_TupleNode(self, n):
        return ast.Tuple([self.e(x) for x in n.args], ast.Load())

    def e_ListNode(self, n):
        return ast.List([self.e(x) for x in n.args], ast.Load())

    def e_SetNode(self, n):
        return ast.Set([self.e(x) for x in n.args])

    def e_AsTupleNode(self, n):
        return self.e(n.arg)

    def e_DictNode(self, n):
        return ast.Dict([self.e(i.key) for i in n.key_value_pairs],
                        [self.e(i.value) for i in n.key_value_pairs])

    def e_MergedDictNode(self, n):
        ks, vs = [], []
        for a in n.keyword_args:
            if type(a).__name__ == "DictNode":
                for i in a.key_value_pairs:
                    ks.append(self.e(i.key))
                    vs.append(self.e(i.value))
            else:
                ks.append(None)
                vs.append(self.e(a))
        return ast.Dict(ks, vs)

    def e_IndexNode(self, n):
        return ast.Subscript(self.e(n.base), self.e(n.index), ast.Load())

    def e_SliceNode(self, n):
        f = lambda x: None if x is None or type(x).__name__ == "NoneNode" else self.e(x)
        return ast.Slice(f(n.start), f(n.stop), f(n.step))

    def e_SliceIndexNode(self, n):
        f = lambda x: None if x is None else self.e(x)
        return ast.Subscript(self.e(n.base),
                             self.pos(n, ast.Slice(f(n.start), f(n.stop), None)), ast.Load())

    def e_SimpleCallNode(self, n):
        return ast.Call(self.e(n.function), [self.e(a) for a in n.args], [])

    def e_GeneralCallNode(self, n):
        args = []
        pa = n.positional_args
        if type(pa).__name__ == "TupleNode":
            args = [self.e(a) for a in pa.args]
        elif type(pa).__name__ == "AsTupleNode":
            args = [self.pos(n, ast.Starred(self.e(pa.arg), ast.Load()))]
        else:
            for part in self._flatten_add(pa):
                if type(part).__name__ == "TupleNode":
                    args += [self.e(a) for a in part.args]
                else:
                    args.append(self.pos(n, ast.Starred(self.e(part), ast.Load())))
        kws = []
        ka = n.keyword_args
        if ka is not None:
            d = self.e(ka)
            if isinstance(d, ast.Dict):
                for k, v in zip(d.keys, d.values):
                    if k is None:
                        kws.append(ast.keyword(None, v))
                    else:
                        kws.append(ast.keyword(k.value, v))
            else:
                kws.append(ast.keyword(None, d))
        return ast.Call(self.e(n.function), args, kws)

    def _flatten_add(self, n):
        if type(n).__name__ == "AddNode":
            return self._flatten_add(n.operand1) + self._flatten_add(n.operand2)
        if type(n).__name__ == "AsTupleNode":
            return [n.arg]
        return [n]

    def binop(self, n):
        return ast.BinOp(self.e(n.operand1), _BIN[n.operator](), self.e(n.operand2))
    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = binop
    e_IntBinopNode = e_MatMultNode = binop

    def e_BoolBinopNode(self, n):
        op = ast.And() if n.operator == "and" else ast.Or()
        return ast.BoolOp(op, [self.e(n.operand1), self.e(n.operand2)])

    def e_NotNode(self, n):
        return ast.UnaryOp(ast.Not(), self.e(n.operand))

    def e_UnaryMinusNode(self, n):
        return ast.UnaryOp(ast.USub(), self.e(n.operand))

    def e_UnaryPlusNode(self, n):
        return ast.UnaryOp(ast.UAdd(), self.e(n.operand))

    def e_TildeNode(self, n):
        return ast.UnaryOp(ast.Invert(), self.e(n.operand))

    def e_AmpersandNode(self, n):
        return ast.Call(self.pos(n, ast.Name("__addr__", ast.Load())), [self.e(n.operand)], [])

    def e_TypecastNode(self, n):
        ty = self.typename(n.base_type)
        return ast.Call(self.pos(n, ast.Name("__cast__", ast.Load())),
                        [self.pos(n, ast.Constant(ty)), self.e(n.operand)], [])

    def e_CondExprNode(self, n):
        return ast.IfExp(self.e(n.condition if hasattr(n, "condition") and n.condition is not None
                                else n.test), self.e(n.true_val), self.e(n.false_val))

    def e_PrimaryCmpNode(self, n):
        ops, cmps = [], []
        c = n
        while c is not None:
            ops.append(_CMP[c.operator]())
            cmps.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(self.e(n.operand1), ops, cmps)

    def e_ComprehensionNode(self, n):
        # [elt for x in it if c]
        gens = []
        loop = n.loop
        elt = None
        while True:
            t = type(loop).__name__
            if t == "ForInStatNode":
                it = loop.iterator
                seq = it.sequence if hasattr(it, "sequence") else it
                gens.append(ast.comprehension(self.st(loop.target), self.e(seq), [], 0))
                loop = loop.body
            elif t == "IfStatNode":
                gens[-1].ifs.append(self.e(loop.if_clauses[0].condition))
                loop = loop.if_clauses[0].body
            elif t == "StatListNode":
                loop = loop.stats[0]
            elif t == "ExprStatNode":
                loop = loop.expr
            else:
                elt = self.e(loop.expr)
                break
        return ast.ListComp(elt, gens)

    def e_GeneratorExpressionNode(self, n):
        return self.e_ComprehensionNode(n)

    def e_ImportNode(self, n):
        return ast.Call(self.pos(n, ast.Name("__import__", ast.Load())),
                        [ast.Constant(self.const(n.module_name))], [])

    def e_SizeofTypeNode(self, n):
        return ast.Call(ast.Name("sizeof", ast.Load()), [], [])

    def e_LambdaNode(self, n):
        return ast.Constant(None)


def parse(path):
    tree = parse_tree(path)
    lo = Lower(path)
    body = lo.body(tree.body)
    if getattr(tree, "doc", None):
        pass
    m = ast.Module(body=body, type_ignores=[])
    ast.fix_missing_locations(m)
    return m


if __name__ == "__main__":
    import sys
    for p in sys.argv[1:]:
        print("#", p)
        print(ast.unparse(parse(p)))
