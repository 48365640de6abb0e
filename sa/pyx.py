"""Cython source -> Python ast (for analysis only).

The Cython parser of the installed compiler reads the file; its parse tree is translated to the standard `ast` classes:
  cdef T x = e          ->  x: "T" = e            (AnnAssign; without a value where none is given)
  cdef T f(U a)         ->  def f(a: "U") -> "T"  (FunctionDef with attribute cdef=True)
  cdef struct S         ->  class S with annotated fields (attribute cstruct=True)
  <T*> e                ->  __cast__("T*", e)
  &e, sizeof(T), NULL   ->  __addr__(e), __sizeof__("T"), name NULL
"""
import ast


def _compiler():
    from Cython.Compiler.Main import Context
    from Cython.Compiler.Options import CompilationOptions, default_options
    from Cython.Compiler import Errors
    Errors.init_thread()
    opts = CompilationOptions(default_options)
    return Context(["/nonexistent"], {}, cpp=False, language_level=3, options=opts)


def cython_tree(path):
    from Cython.Compiler.Scanning import PyrexScanner, FileSourceDescriptor
    from Cython.Compiler import Parsing
    from Cython.Compiler.Symtab import ModuleScope
    ctx = _compiler()
    sd = FileSourceDescriptor(path)
    scope = ModuleScope("m", None, ctx)
    with open(path, encoding="utf-8") as f:
        s = PyrexScanner(f, sd, source_encoding="UTF-8", scope=scope, context=ctx)
        return Parsing.p_module(s, path.endswith(".pxd"), "m")


class Conv:
    def __init__(self):
        self.unsupported = []

    def at(self, node, new):
        pos = getattr(node, "pos", None)
        if pos:
            new.lineno, new.col_offset = pos[1], pos[2]
            new.end_lineno, new.end_col_offset = pos[1], pos[2]
        return new

    # ------------------------------------------------------------------ types
    def base_type(self, b):
        k = type(b).__name__
        if k == "CSimpleBaseTypeNode":
            n = b.name or "object"
            return n
        if k == "CTupleBaseTypeNode":
            return "(" + ",".join(self.ctype(c.base_type, c.declarator) if type(c).__name__ == "CComplexBaseTypeNode" else self.base_type(c)
                                  for c in b.components) + ")"
        if k == "CComplexBaseTypeNode":
            return self.ctype(b.base_type, b.declarator)
        if k == "MemoryViewSliceTypeNode":
            return self.base_type(b.base_type_node) + "[" + ",".join(":" for _ in b.axes) + "]"
        if k == "CNestedBaseTypeNode":
            return self.base_type(b.base_type) + "." + b.name
        if k == "CConstTypeNode" or k == "CConstOrVolatileTypeNode":
            return self.base_type(b.base_type)
        return k

    def ctype(self, base, decl):
        t = self.base_type(base)
        d = decl
        while d is not None:
            k = type(d).__name__
            if k == "CPtrDeclaratorNode":
                t += "*"
                d = d.base
            elif k == "CArrayDeclaratorNode":
                t += "[]"
                d = d.base
            elif k == "CFuncDeclaratorNode":
                d = d.base
            else:
                break
        return t

    def decl_name(self, d):
        while hasattr(d, "base"):
            d = d.base
        return getattr(d, "name", "")

    def find_func(self, d):
        while type(d).__name__ != "CFuncDeclaratorNode":
            if not hasattr(d, "base"):
                return None
            d = d.base
        return d

    def default_of(self, d):
        while d is not None:
            v = getattr(d, "default", None)
            if v is not None:
                return v
            d = getattr(d, "base", None)
        return None

    # ------------------------------------------------------------------ statements
    def block(self, n):
        out = []
        if n is None:
            return out
        if type(n).__name__ == "StatListNode":
            for s in n.stats:
                out.extend(self.stmt(s))
        else:
            out.extend(self.stmt(n))
        return out

    def body(self, n):
        return self.block(n) or [ast.Pass(lineno=1, col_offset=0, end_lineno=1, end_col_offset=0)]

    def stmt(self, n):
        k = type(n).__name__
        f = getattr(self, "s_" + k, None)
        if f is None:
            self.unsupported.append(k)
            return [self.at(n, ast.Expr(value=self.at(n, ast.Call(func=self.name(n, "__unsupported__"), args=[self.const(n, k)], keywords=[]))))]
        r = f(n)
        r = r if isinstance(r, list) else [r]
        for x in r:
            if not hasattr(x, "lineno"):
                self.at(n, x)
        return r

    def name(self, n, s, store=False):
        return self.at(n, ast.Name(id=s, ctx=ast.Store() if store else ast.Load()))

    def const(self, n, v):
        return self.at(n, ast.Constant(value=v))

    def s_StatListNode(self, n):
        return self.block(n)

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_ExprStatNode(self, n):
        return ast.Expr(value=self.expr(n.expr))

    def s_ReturnStatNode(self, n):
        return ast.Return(value=self.expr(n.value) if n.value is not None else None)

    def s_AssertStatNode(self, n):
        c = getattr(n, "condition", None) or getattr(n, "cond", None)
        return ast.Assert(test=self.expr(c), msg=None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(exc=self.expr(n.exc_type) if n.exc_type is not None else None, cause=None)

    def s_GlobalNode(self, n):
        return ast.Global(names=list(n.names))

    def s_DelStatNode(self, n):
        return ast.Delete(targets=[self.expr(a, ast.Del()) for a in n.args])

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            m = n.rhs.module_name.value
            lvl = getattr(n.rhs, "level", 0) or 0
            al = n.lhs.name
            return ast.Import(names=[ast.alias(name=str(m), asname=al if al != str(m) else None)])
        return ast.Assign(targets=[self.expr(n.lhs, ast.Store())], value=self.expr(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign(targets=[self.expr(l, ast.Store()) for l in n.lhs_list], value=self.expr(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        op = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod, "&": ast.BitAnd,
              "|": ast.BitOr, "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift, "**": ast.Pow}[n.operator]
        return ast.AugAssign(target=self.expr(n.lhs, ast.Store()), op=op(), value=self.expr(n.rhs))

    def s_FromImportStatNode(self, n):
        m = n.module.module_name.value
        lvl = n.module.level if n.module.level is not None else 0
        mod = str(m).lstrip(".")
        dots = len(str(m)) - len(mod)
        names = []
        for (nm, target) in n.items:
            t = getattr(target, "name", None)
            names.append(ast.alias(name=str(nm), asname=t if t and t != str(nm) else None))
        return ast.ImportFrom(module=mod or None, names=names, level=max(lvl, dots, 0))

    def s_FromCImportStatNode(self, n):
        names = [ast.alias(name=str(x[1]), asname=str(x[2]) if len(x) > 2 and x[2] else None) for x in n.imported_names]
        m = str(n.module_name)
        mod = m.lstrip(".")
        lvl = n.relative_level or (len(m) - len(mod))
        r = ast.ImportFrom(module=mod or None, names=names, level=max(lvl or 0, 0))
        r.cimport = True
        return r

    def s_CImportStatNode(self, n):
        r = ast.Import(names=[ast.alias(name=str(n.module_name), asname=str(n.as_name) if n.as_name else None)])
        r.cimport = True
        return r

    def s_CTypeDefNode(self, n):
        t = self.ctype(n.base_type, n.declarator)
        r = self.at(n, ast.AnnAssign(target=self.name(n, self.decl_name(n.declarator), True), annotation=self.const(n, "typedef " + t), value=None, simple=1))
        return r

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            if type(d).__name__ == "CFuncDeclaratorNode" or self.find_func(d) is not None:
                continue
            t = self.ctype(n.base_type, d)
            v = self.default_of(d)
            nm = self.decl_name(d)
            out.append(self.at(d, ast.AnnAssign(target=self.name(d, nm, True), annotation=self.const(d, t),
                                                value=self.expr(v) if v is not None else None, simple=1)))
        return out

    def s_CStructOrUnionDefNode(self, n):
        body = []
        for a in n.attributes or []:
            body.extend(self.s_CVarDefNode(a))
        r = ast.ClassDef(name=n.name, bases=[], keywords=[], body=body or [self.at(n, ast.Pass())], decorator_list=[])
        r.type_params = []
        r.cstruct = True
        return r

    def s_CClassDefNode(self, n):
        r = ast.ClassDef(name=n.class_name, bases=[], keywords=[], body=self.body(n.body), decorator_list=[])
        r.type_params = []
        r.cclass = True
        return r

    def s_PyClassDefNode(self, n):
        r = ast.ClassDef(name=n.name, bases=[self.expr(a) for a in (n.bases.args if n.bases else [])], keywords=[], body=self.body(n.body), decorator_list=[])
        r.type_params = []
        return r

    def decorators(self, n):
        return [self.expr(d.decorator) for d in (getattr(n, "decorators", None) or [])]

    def s_DefNode(self, n):
        args, defaults, kwonly, kwd = [], [], [], []
        for a in n.args:
            nm = self.decl_name(a.declarator)
            t = self.base_type(a.base_type) if a.base_type is not None else "object"
            if not nm:       # `def f(x)`: parsed as a type name
                nm, t = a.base_type.name, "object"
            ar = self.at(a, ast.arg(arg=nm, annotation=self.const(a, t)))
            if getattr(a, "kw_only", 0):
                kwonly.append(ar)
                kwd.append(self.expr(a.default) if a.default is not None else None)
            else:
                args.append(ar)
                if a.default is not None:
                    defaults.append(self.expr(a.default))
        sa = n.star_arg
        ss = n.starstar_arg
        ar = ast.arguments(posonlyargs=[], args=args, vararg=self.at(n, ast.arg(arg=sa.name)) if sa else None, kwonlyargs=kwonly,
                           kw_defaults=kwd, kwarg=self.at(n, ast.arg(arg=ss.name)) if ss else None, defaults=defaults)
        r = ast.FunctionDef(name=n.name, args=ar, body=self.body(n.body), decorator_list=self.decorators(n), returns=None)
        r.type_params = []
        return r

    def s_CFuncDefNode(self, n):
        fd = self.find_func(n.declarator)
        args, defaults = [], []
        for a in fd.args:
            nm = self.decl_name(a.declarator)
            t = self.ctype(a.base_type, a.declarator)
            if not nm:
                nm, t = a.base_type.name or "self", "object"
            args.append(self.at(a, ast.arg(arg=nm, annotation=self.const(a, t))))
            if a.default is not None:
                defaults.append(self.expr(a.default))
        ar = ast.arguments(posonlyargs=[], args=args, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=defaults)
        r = ast.FunctionDef(name=self.decl_name(fd), args=ar, body=self.body(n.body), decorator_list=self.decorators(n),
                            returns=self.const(n, self.ctype(n.base_type, n.declarator)))
        r.type_params = []
        r.cdef = True
        return r

    def s_IfStatNode(self, n):
        orelse = self.block(n.else_clause)
        for c in reversed(n.if_clauses):
            i = self.at(c, ast.If(test=self.expr(c.condition), body=self.body(c.body), orelse=orelse))
            orelse = [i]
        return orelse

    def s_WhileStatNode(self, n):
        return ast.While(test=self.expr(n.condition), body=self.body(n.body), orelse=self.block(n.else_clause))

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = getattr(it, "sequence", it)
        return ast.For(target=self.expr(n.target, ast.Store()), iter=self.expr(seq), body=self.body(n.body), orelse=self.block(n.else_clause))

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            ty = c.pattern[0] if c.pattern else None
            hs.append(self.at(c, ast.ExceptHandler(type=self.expr(ty) if ty is not None else None,
                                                   name=getattr(c.target, "name", None) if c.target is not None else None, body=self.body(c.body))))
        return ast.Try(body=self.body(n.body), handlers=hs, orelse=self.block(n.else_clause), finalbody=[])

    def s_TryFinallyStatNode(self, n):
        return ast.Try(body=self.body(n.body), handlers=[], orelse=[], finalbody=self.body(n.finally_clause))

    # ------------------------------------------------------------------ expressions
    def expr(self, n, ctx=None):
        k = type(n).__name__
        f = getattr(self, "x_" + k, None)
        if f is None:
            if hasattr(n, "operator") and hasattr(n, "operand1"):
                return self.at(n, self.binop(n))
            if hasattr(n, "operator") and hasattr(n, "operand"):
                return self.at(n, self.unop(n))
            self.unsupported.append(k)
            return self.at(n, ast.Call(func=self.name(n, "__unsupported__"), args=[self.const(n, k)], keywords=[]))
        r = f(n, ctx or ast.Load())
        if not hasattr(r, "lineno"):
            self.at(n, r)
        return r

    def x_NameNode(self, n, ctx):
        return ast.Name(id=str(n.name), ctx=ctx)

    def x_IntNode(self, n, ctx):
        try:
            return ast.Constant(value=int(str(n.value), 0))
        except ValueError:
            return ast.Constant(value=int(str(n.value)))

    def x_FloatNode(self, n, ctx):
        return ast.Constant(value=float(n.value))

    def x_BoolNode(self, n, ctx):
        return ast.Constant(value=bool(n.value))

    def x_NoneNode(self, n, ctx):
        return ast.Constant(value=None)

    def x_NullNode(self, n, ctx):
        return ast.Name(id="NULL", ctx=ast.Load())

    def x_UnicodeNode(self, n, ctx):
        return ast.Constant(value=str(n.value))

    x_StringNode = x_UnicodeNode
    x_IdentifierStringNode = x_UnicodeNode

    def x_BytesNode(self, n, ctx):
        return ast.Constant(value=bytes(n.value))

    def x_EllipsisNode(self, n, ctx):
        return ast.Constant(value=Ellipsis)

    def x_JoinedStrNode(self, n, ctx):
        return ast.JoinedStr(values=[self.expr(v) for v in n.values])

    def x_FormattedValueNode(self, n, ctx):
        return ast.FormattedValue(value=self.expr(n.value), conversion=-1, format_spec=None)

    def x_AttributeNode(self, n, ctx):
        return ast.Attribute(value=self.expr(n.obj), attr=str(n.attribute), ctx=ctx)

    def x_IndexNode(self, n, ctx):
        return ast.Subscript(value=self.expr(n.base), slice=self.expr(n.index), ctx=ctx)

    def x_SliceIndexNode(self, n, ctx):
        sl = ast.Slice(lower=self.expr(n.start) if n.start is not None else None, upper=self.expr(n.stop) if n.stop is not None else None, step=None)
        return ast.Subscript(value=self.expr(n.base), slice=self.at(n, sl), ctx=ctx)

    def x_SliceNode(self, n, ctx):
        g = lambda e: None if e is None or type(e).__name__ == "NoneNode" else self.expr(e)
        return ast.Slice(lower=g(n.start), upper=g(n.stop), step=g(n.step))

    def x_TupleNode(self, n, ctx):
        return ast.Tuple(elts=[self.expr(a, ctx) for a in n.args], ctx=ctx)

    def x_ListNode(self, n, ctx):
        return ast.List(elts=[self.expr(a, ctx) for a in n.args], ctx=ctx)

    def x_SetNode(self, n, ctx):
        return ast.Set(elts=[self.expr(a) for a in n.args])

    def x_StarredUnpackingNode(self, n, ctx):
        return ast.Starred(value=self.expr(n.target), ctx=ctx)

    def x_DictNode(self, n, ctx):
        return ast.Dict(keys=[self.expr(i.key) for i in n.key_value_pairs], values=[self.expr(i.value) for i in n.key_value_pairs])

    def x_MergedDictNode(self, n, ctx):
        keys, vals = [], []
        for a in n.keyword_args:
            if type(a).__name__ == "DictNode":
                for i in a.key_value_pairs:
                    keys.append(self.expr(i.key))
                    vals.append(self.expr(i.value))
            else:
                keys.append(None)
                vals.append(self.expr(a))
        return ast.Dict(keys=keys, values=vals)

    def x_SimpleCallNode(self, n, ctx):
        return ast.Call(func=self.expr(n.function), args=[self.expr(a) for a in n.args], keywords=[])

    def x_GeneralCallNode(self, n, ctx):
        pos = n.positional_args
        kk = type(pos).__name__
        if kk == "TupleNode":
            args = [self.expr(a) for a in pos.args]
        elif kk == "AsTupleNode":
            args = [self.at(n, ast.Starred(value=self.expr(pos.arg), ctx=ast.Load()))]
        else:
            args = [self.at(n, ast.Starred(value=self.expr(pos), ctx=ast.Load()))]
        kws = []
        if n.keyword_args is not None:
            if type(n.keyword_args).__name__ == "DictNode":
                for i in n.keyword_args.key_value_pairs:
                    kws.append(ast.keyword(arg=str(i.key.value), value=self.expr(i.value)))
            else:
                kws.append(ast.keyword(arg=None, value=self.expr(n.keyword_args)))
        return ast.Call(func=self.expr(n.function), args=args, keywords=kws)

    def x_AsTupleNode(self, n, ctx):
        return self.expr(n.arg)

    def x_TypecastNode(self, n, ctx):
        t = self.ctype(n.base_type, n.declarator)
        return ast.Call(func=self.name(n, "__cast__"), args=[self.const(n, t), self.expr(n.operand)], keywords=[])

    def x_AmpersandNode(self, n, ctx):
        return ast.Call(func=self.name(n, "__addr__"), args=[self.expr(n.operand)], keywords=[])

    def x_SizeofTypeNode(self, n, ctx):
        return ast.Call(func=self.name(n, "__sizeof__"), args=[self.const(n, self.ctype(n.base_type, n.declarator))], keywords=[])

    def x_SizeofVarNode(self, n, ctx):
        # sizeof(T) where T is a plain name parses as a variable
        e = self.expr(n.operand)
        return ast.Call(func=self.name(n, "__sizeof__"), args=[self.const(n, ast.unparse(e))], keywords=[])

    OPS = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod, "**": ast.Pow,
           "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift, "@": ast.MatMult}
    CMP = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "is": ast.Is, "is_not": ast.IsNot,
           "in": ast.In, "not_in": ast.NotIn}

    def binop(self, n):
        op = n.operator
        if op in ("and", "or"):
            return ast.BoolOp(op=ast.And() if op == "and" else ast.Or(), values=[self.expr(n.operand1), self.expr(n.operand2)])
        if op in self.CMP:
            ops, vals = [self.CMP[op]()], [self.expr(n.operand2)]
            c = getattr(n, "cascade", None)
            while c is not None:
                ops.append(self.CMP[c.operator]())
                vals.append(self.expr(c.operand2))
                c = getattr(c, "cascade", None)
            return ast.Compare(left=self.expr(n.operand1), ops=ops, comparators=vals)
        return ast.BinOp(left=self.expr(n.operand1), op=self.OPS[op](), right=self.expr(n.operand2))

    def unop(self, n):
        op = n.operator
        o = {"-": ast.USub, "+": ast.UAdd, "~": ast.Invert, "not": ast.Not, "!": ast.Not}[op]
        return ast.UnaryOp(op=o(), operand=self.expr(n.operand))

    def x_NotNode(self, n, ctx):
        return ast.UnaryOp(op=ast.Not(), operand=self.expr(n.operand))

    def x_PrimaryCmpNode(self, n, ctx):
        return self.binop(n)

    def x_CondExprNode(self, n, ctx):
        return ast.IfExp(test=self.expr(n.condition if hasattr(n, "condition") else n.test), body=self.expr(n.true_val), orelse=self.expr(n.false_val))

    def x_LambdaNode(self, n, ctx):
        d = self.s_DefNodeArgs(n)
        return ast.Lambda(args=d, body=self.expr(n.result_expr))

    def s_DefNodeArgs(self, n):
        args, defaults = [], []
        for a in n.args:
            nm = self.decl_name(a.declarator) or a.base_type.name
            args.append(self.at(a, ast.arg(arg=nm, annotation=None)))
            if a.default is not None:
                defaults.append(self.expr(a.default))
        return ast.arguments(posonlyargs=[], args=args, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=defaults)

    def x_YieldExprNode(self, n, ctx):
        return ast.Yield(value=self.expr(n.arg) if n.arg is not None else None)

    def x_ComprehensionNode(self, n, ctx):
        ap = n.append
        gens, loop = [], n.loop
        kind = type(ap).__name__
        cur = loop
        elem = None
        while elem is None:
            k = type(cur).__name__
            if k == "ForInStatNode":
                gens.append(ast.comprehension(target=self.expr(cur.target, ast.Store()), iter=self.expr(getattr(cur.iterator, "sequence", cur.iterator)), ifs=[], is_async=0))
                cur = cur.body
            elif k == "IfStatNode":
                gens[-1].ifs.append(self.expr(cur.if_clauses[0].condition))
                cur = cur.if_clauses[0].body
            elif k == "StatListNode":
                cur = cur.stats[0]
            elif k == "ExprStatNode":
                cur = cur.expr
            elif k == "DictComprehensionAppendNode":
                return ast.DictComp(key=self.expr(cur.key_expr), value=self.expr(cur.value_expr), generators=gens)
            elif k == "ComprehensionAppendNode":
                elem = self.expr(cur.expr)
            elif k == "YieldExprNode":
                elem = self.expr(cur.arg)
            else:
                self.unsupported.append("comp " + k)
                elem = self.const(n, None)
        t = str(getattr(n, "type", ""))
        if "set" in t:
            return ast.SetComp(elt=elem, generators=gens)
        return ast.ListComp(elt=elem, generators=gens)

    def x_GeneratorExpressionNode(self, n, ctx):
        r = self.x_ComprehensionNode(type("x", (), {"append": None, "loop": n.loop, "pos": n.pos, "type": ""})(), ctx)
        return ast.GeneratorExp(elt=r.elt, generators=r.generators)

    def x_InlinedGeneratorExpressionNode(self, n, ctx):
        return self.expr(n.gen)

    def x_CoerceToPyTypeNode(self, n, ctx):
        return self.expr(n.arg, ctx)


def parse(path, root=None):
    t = cython_tree(path)
    c = Conv()
    body = c.block(t.body)
    m = ast.Module(body=body, type_ignores=[])
    last = [1, 0]
    for x in ast.walk(m):
        if isinstance(x, (ast.expr, ast.stmt, ast.arg, ast.keyword, ast.alias, ast.ExceptHandler)):
            if not hasattr(x, "lineno"):
                x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = 1, 0, 1, 0
    m.unsupported = c.unsupported
    return m
