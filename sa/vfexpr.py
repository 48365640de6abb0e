"""Expression half of the value-flow interpreter."""
import ast
import builtins
import re
from . import terms as tm
from .terms import (T, mk, C, B, TRUE, FALSE, NONE, ZERO, ONE, sym, unk, add, sub, mul, neg, div, le, lt, eq, band, bor, bnot,
                    ite, get, inv, item, tup, truth, subst, is_c, is_num, atoms, concat)

IDENT = {"A1", "A", "real", "flat"}
COPYLIKE = {"copy", "tocsr", "tocsc", "todok", "tolil", "tocoo", "toarray", "todense", "ravel", "flatten", "astype", "tolist", "asformat"}
MODEL_ATTRS = {"P", "C", "N", "index_by_state_action", "reward_vector", "visualization"}
MODEL_PARAMS = ["P", "index_by_state_action", "label_to_actions", "label_to_states", "vis_config", "reward_vector"]
MUTATORS = {"append", "add", "extend", "insert", "pop", "popitem", "remove", "discard", "clear", "update", "setdefault", "sort", "reverse",
            "resize", "put", "putall", "forceput", "fill", "difference_update", "intersection_update", "symmetric_difference_update",
            "setdiag", "eliminate_zeros", "sum_duplicates", "itemset", "partition", "setfield", "setflags", "move_to_end", "sort_indices"}


STRFOLD = {"split", "partition", "rsplit", "rpartition", "strip", "lstrip", "rstrip", "startswith", "endswith", "lower", "upper", "removeprefix", "removesuffix", "find", "index",
           "count", "replace", "isdigit", "isalpha", "splitlines"}


class ExprMixin:
    # sorts of symbolic inputs -> class names
    sorts = {"model": "AbstractMDP"}

    # ------------------------------------------------------------------ entry
    def eval(self, e, st):
        if st.dead:
            return unk("dead")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unknown("expr " + type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        return C(e.value) if not isinstance(e.value, bool) else B(e.value)

    def e_Name(self, e, st):
        n = e.id
        if n in st.env and n not in self.frames[-1].globals_decl:
            return st.env[n]
        return self.global_name(self.frames[-1].module, n, st)

    def global_name(self, module, n, st):
        r = self.repo.resolve(module, n)
        if r is None:
            if n == "NULL" and module.is_pyx:
                return NONE
            if hasattr(builtins, n) and not n.startswith("__"):
                return mk("extf", "builtins." + n)
            return self.unknown("name " + n)
        return self.resolved(r, st)

    def resolved(self, r, st):
        k = r[0]
        if k == "func":
            return mk("func", r[1].uid)
        if k == "class":
            return mk("class", r[1].qual)
        if k == "mod":
            return mk("mod", r[1])
        if k == "ext":
            return mk("extf", r[1])
        if k == "assign":
            key = (r[3].name, r[2])
            if key in self.global_cache:
                return self.global_cache[key]
            v = self.unknown("global")
            s = r[1]
            if len([x for x in ast.walk(r[3].tree) if isinstance(x, ast.Name) and x.id == r[2] and isinstance(x.ctx, ast.Store)]) == 1 \
                    and isinstance(s, (ast.Assign, ast.AnnAssign)) and not (isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name)):
                self.global_cache[key] = v
                val = s.value
                if val is not None and self.simple_global(val):
                    fr = self.push_module(r[3])
                    try:
                        v = self.eval(val, st)
                    finally:
                        self.frames = self.frames[:-1]
                else:
                    v = sym("global:%s.%s" % key, "global")
            if not tm.has_op(v, "ref"):
                self.global_cache[key] = v
            else:
                self.global_cache.pop(key, None)
            return v
        return self.unknown("resolve")

    def simple_global(self, val):
        return not any(isinstance(x, (ast.Call,)) for x in ast.walk(val))

    def push_module(self, m):
        from .vf import Frame
        fr = Frame(m.name, m, None, len(self.stack))
        self.frames = self.frames + [fr]
        return fr

    # ------------------------------------------------------------------ attributes
    def deref(self, v):
        """p of p[0].field for a pointer p"""
        if self.frames[-1].module.is_pyx and isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Constant) and v.slice.value == 0 and type(v.slice.value) is int and isinstance(v.value, ast.Name):
            return v.value
        return v

    def e_Attribute(self, e, st):
        base = self.eval(self.deref(e.value), st)
        if st.dead:
            return base
        return self.getattr(st, base, self.mangle(e.attr), e)

    def sort_class(self, t):
        if t.op == "sym" and t.a[1] in self.sorts:
            c = self.sorts[t.a[1]]
            try:
                return self.repo.cls(c)
            except Exception:
                return None
        return None

    def class_of(self, t):
        for c in self.repo.classes.values():
            if c.qual == t.a[0]:
                return c
        return None

    def getattr(self, st, base, name, node):
        if base.op == "ite":
            return ite(base.a[0], self.getattr(st, base.a[1], name, node), self.getattr(st, base.a[2], name, node))
        if base.op == "mod":
            r = self.repo.resolve_attr(base.a[0], name)
            return self.resolved(r, st) if r else self.unknown("modattr " + name)
        if base.op == "extf":
            return mk("extf", base.a[0] + "." + name)
        if base.op in ("class", "func") and name in ("__name__", "__qualname__"):
            return C(base.a[0].split(".")[-1] if base.op == "class" else self.repo.by_uid[base.a[0]].name)
        if base.op == "class":
            ci = self.class_of(base)
            f = self.repo.find_method(ci, name)
            if f is not None:
                if f.kind == "class":
                    return mk("bound", mk("func", f.uid), base)
                return mk("func", f.uid)
            for c in self.repo.mro(ci):
                if name in c.attrs and c.attrs[name] is not None:
                    self.push_module(c.module)
                    try:
                        return self.eval(c.attrs[name], st)
                    finally:
                        self.frames = self.frames[:-1]
            return mk("attr", base, name)
        if base.op == "super":
            ci = self.class_of(mk("class", base.a[1]))
            f = self.repo.find_method(ci, name, after=ci)
            # the mro of the instance's class decides; single inheritance here
            if f is not None:
                return mk("bound", mk("func", f.uid), base.a[0])
            return mk("bound", mk("extf", "object." + name), base.a[0])
        if base.op == "typeof":
            if name == "__name__":
                return mk("attr", base, name)
            return mk("attr", base, name)
        o = self.obj(st, base) if base.op == "ref" else None
        if o is not None:
            if o.kind == "inst":
                if name in o.attrs:
                    return o.attrs[name]
                return self.class_attr(st, base, o.cls, name, node)
            if o.kind == "model":
                return self.model_attr(st, base, o, name, node)
            if name in IDENT:
                return base
            if name == "shape":
                s = self.shape(st, base)
                return s if s is not None else mk("attr", base, "shape")
            if name == "T":
                return self.transpose(st, self.freeze(st, base))
            if name in ("inv", "inverse"):
                return inv(base)
            if name == "nnz":
                return mk("attr", self.freeze(st, base), "nnz")
            return mk("bound", C(name), base)
        ci = self.sort_class(base)
        if ci is not None:
            if ci.name == "AbstractMDP" or base.a[1] == "model":
                if name in MODEL_ATTRS:
                    return mk("attr", base, name)
                if name == "states_by_label":
                    return mk("attr", base, name)
                if name == "actions_by_label":
                    return mk("attr", base, name)
                if name == "labels_by_state":
                    return inv(mk("attr", base, "states_by_label"))
                if name == "labels_by_action":
                    return inv(mk("attr", base, "actions_by_label"))
                if name == "actions_by_state":
                    return mk("attr", base, name)
            r = self.class_attr(st, base, ci, name, node)
            if r is not None:
                return r
        if name in IDENT and base.op in ("attr", "sub", "poly", "getcol", "zeros", "ones", "upd", "updincr", "T", "get", "vstack", "hstack", "dot", "sym", "m"):
            return base
        if name in ("inv", "inverse"):
            return inv(base)
        if name == "shape":
            s = self.shape(st, base)
            if s is None and base.op == "poly":
                for mm, _ in base.a[0]:
                    if len(mm) == 1 and not tm.is_scalar(mm[0]):
                        return self.getattr(st, mm[0], "shape", node)
            return s if s is not None else mk("attr", base, "shape")
        if name == "T":
            return self.transpose(st, base)
        if base.op == "dictval":
            return mk("bound", C(name), base)
        return mk("attr", base, name)

    def transpose(self, st, t):
        if t.op == "T":
            return t.a[0]
        if t.op == "hstack":
            return mk("vstack", *[self.transpose(st, x) for x in t.a])
        if t.op == "vstack":
            return mk("hstack", *[self.transpose(st, x) for x in t.a])
        if t.op == "poly":
            r = ZERO
            for m, c in t.a[0]:
                if len(m) != 1:
                    return mk("T", t)
                r = add(r, mul(C(c), self.transpose(st, m[0])))
            return r
        s = self.shape(st, t)
        if s is not None and len(s.a) == 1:
            return t
        return mk("T", t)

    def class_attr(self, st, base, ci, name, node):
        f = self.repo.find_method(ci, name)
        if f is not None:
            if f.kind == "property":
                return self.call_func(st, f, [base], {}, node)
            if f.kind == "static":
                return mk("func", f.uid)
            if f.kind == "class":
                return mk("bound", mk("func", f.uid), mk("class", ci.qual))
            return mk("bound", mk("func", f.uid), base)
        for c in self.repo.mro(ci):
            if name in c.attrs and c.attrs[name] is not None:
                return self.getattr(st, mk("class", c.qual), name, node)
        if name == "__class__":
            return mk("class", ci.qual)
        if name == "__dict__":
            return mk("attr", base, name)
        if base.op == "ref":
            return mk("attr", base, name)
        return mk("attr", base, name)

    def model_attr(self, st, base, o, name, node):
        a = o.attrs
        if name in ("P", "index_by_state_action", "reward_vector"):
            return a.get(name, NONE)
        if name in ("C", "N"):
            s = self.shape(st, a["P"])
            return item(s, 0 if name == "C" else 1) if s is not None else mk("attr", base, name)
        if name == "visualization":
            return a.get("visualization", a.get("vis_config", NONE))
        if name == "states_by_label":
            return a.get("label_to_states", NONE)
        if name == "actions_by_label":
            return a.get("label_to_actions", NONE)
        if name == "labels_by_state":
            return inv(a.get("label_to_states", NONE))
        if name == "labels_by_action":
            return inv(a.get("label_to_actions", NONE))
        if name == "actions_by_state":
            return mk("attr", base, name)
        if name in a:
            return a[name]
        ci = o.cls or self.repo.cls("AbstractMDP")
        f = self.repo.find_method(ci, name)
        if f is not None and f.kind not in ("property",):
            return mk("bound", mk("func", f.uid), base)
        return mk("attr", base, name)

    # ------------------------------------------------------------------ operators
    BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&",
           ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        if st.dead:
            return a
        return self.binop(e.op, a, b, st, e)

    def val(self, st, t):
        """arrays as values"""
        if t.op == "ref":
            o = self.obj(st, t)
            if o is not None and o.kind in ("arr",):
                return self.freeze(st, t)
        return t

    def binop(self, op, a, b, st, node):
        a, b = self.val(st, a), self.val(st, b)
        if isinstance(op, ast.Add):
            if a.op in ("tuple",) and b.op == "tuple":
                return mk("tuple", *(a.a + b.a))
            if self.is_list(st, a) or self.is_list(st, b):
                r = self.alloc(st, "list", node)
                for x in (a, b):
                    self.append_all(st, r, x, node)
                return r
            return add(a, b)
        if isinstance(op, ast.Sub):
            if self.is_set(st, a):
                return mk("setop", "-", self.freeze(st, a), self.freeze(st, b))
            return sub(a, b)
        if isinstance(op, ast.Mult):
            if self.is_list(st, a):
                return mk("repeat", self.freeze(st, a), b)
            if self.is_list(st, b):
                return mk("repeat", self.freeze(st, b), a)
            return mul(a, b)
        if isinstance(op, ast.Div):
            self.event("div", "div", (a, b), {}, st, node)
            return div(a, b)
        if isinstance(op, ast.Mod):
            if is_c(a) and isinstance(a.a[0], str) or a.op == "cat":
                return self.percent(st, a, b)
            return mk("mod%", a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if self.is_set(st, a) or self.is_set(st, b):
                return mk("setop", self.BIN[type(op)], self.freeze(st, a), self.freeze(st, b))
            ta, tb = truth(a), truth(b)
            if isinstance(op, ast.BitAnd):
                return band(ta, tb)
            if isinstance(op, ast.BitOr):
                return bor(ta, tb)
            return bor(band(ta, bnot(tb)), band(bnot(ta), tb))
        if isinstance(op, ast.FloorDiv):
            self.event("div", "div", (a, b), {}, st, node)
        if isinstance(op, ast.MatMult):
            return mk("dot", a, b)
        if isinstance(op, ast.Pow) and is_c(b) and b.a[0] == 2:
            return mul(a, a)
        if isinstance(op, ast.Pow) and is_num(a) and is_num(b):
            return C(a.a[0] ** b.a[0])
        if isinstance(op, ast.Pow) and is_num(b) and b.a[0] == -1:
            self.event("div", "div", (C(1), a), {}, st, node)
            return div(C(1), a)
        return mk("op" + self.BIN[type(op)], a, b)

    def is_list(self, st, t):
        return t.op in ("list", "repeat") or (t.op == "ref" and self.obj(st, t) is not None and self.obj(st, t).kind in ("list", "gen"))

    def is_set(self, st, t):
        if t.op in ("set", "setop", "keys"):
            return True
        if t.op == "sym" and t.a[1] in ("set", "labels"):
            return True
        if t.op == "get" and self.seq_kind(st, t) == "set":
            return True
        return t.op == "ref" and self.obj(st, t) is not None and self.obj(st, t).kind == "set"

    def append_all(self, st, r, x, node):
        conc = self.concrete(st, x)
        if conc is not None:
            for v in conc:
                self.log(st, r, "append", NONE, v, node)
        else:
            self.extend(st, r, x, node)

    def percent(self, st, fmt, args):
        if fmt.op == "cat":
            return mk("cat", *(list(fmt.a) + [mk("fmtargs", args)]))
        s = fmt.a[0]
        out = []
        pos = 0
        vals = list(args.a) if args.op == "tuple" else None
        i = 0
        for m in re.finditer(r"%(?:\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])", s):
            out.append(C(s[pos:m.start()]))
            pos = m.end()
            if m.group(3) == "%":
                out.append(C("%"))
                continue
            if vals is None:
                v = args if i == 0 else unk("format")
                if i > 0 and args.op in ("attr", "get", "pairof", "it", "nth", "item"):
                    v = item(args, i)
                if i == 0 and args.op in ("attr",) and len(re.findall(r"%[^%]", s)) > 1:
                    v = item(args, 0)
            else:
                v = vals[i] if i < len(vals) else unk("format")
            i += 1
            spec = m.group(2) + m.group(3)
            if m.group(1):
                v = self.subscript(st, args, C(m.group(1)), None)
            if spec == "s" and is_c(v):
                out.append(C(str(v.a[0])))
            elif spec == "d" and is_c(v) and isinstance(v.a[0], int):
                out.append(C(str(v.a[0])))
            else:
                out.append(self.tostr(v) if spec == "s" or spec == "d" and not self.keep_d else mk("fmt", spec, self.val(st, v)))
        out.append(C(s[pos:]))
        return concat([x for x in out if not (is_c(x) and x.a[0] == "")])

    def tostr(self, v):
        if is_c(v):
            return C(str(v.a[0]))
        if v.op in ("cat", "str", "fmt", "join"):
            return v
        if v.op == "ite":
            return ite(v.a[0], self.tostr(v.a[1]), self.tostr(v.a[2]))
        return mk("str", v)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return bnot(truth(self.container_truth(st, v)))
        if isinstance(e.op, ast.USub):
            v = self.val(st, v)
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return bnot(truth(self.val(st, v)))

    def container_truth(self, st, v):
        if v.op == "ref":
            o = self.obj(st, v)
            if o is not None and o.kind in ("list", "set", "dict", "ddict", "bidict", "gen"):
                return lt(ZERO, self.length(st, v))
            if o is not None and o.kind in ("inst", "model"):
                return TRUE
        return v

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        first = self.eval(e.values[0], st)
        res = first
        ctx = TRUE
        vals = [first]
        base = st
        for x in e.values[1:]:
            c = truth(self.container_truth(st, vals[-1]))
            cc = c if isand else bnot(c)
            ctx = band(ctx, cc)
            if self.known(st, ctx) is FALSE:
                break
            y = st.fork()
            self.assume(y, ctx)
            v = self.eval(x, y)
            if not y.dead:
                st.heap = self.merge_heaps([(ctx, y.heap), (bnot(ctx), st.heap)], st.heap)
            vals.append(v)
        r = vals[-1]
        for v in reversed(vals[:-1]):
            t = truth(self.container_truth(st, v))
            if isand:
                r = band(t, truth(self.container_truth(st, r))) if (tm.is_bool(v) or v.op == "truth") and (tm.is_bool(r)) else ite(t, r, v)
            else:
                r = bor(t, truth(self.container_truth(st, r))) if (tm.is_bool(v)) and (tm.is_bool(r)) else ite(t, v, r)
        return r

    def e_IfExp(self, e, st):
        c = self.known(st, truth(self.container_truth(st, self.eval(e.test, st))))
        if c is TRUE:
            return self.eval(e.body, st)
        if c is FALSE:
            return self.eval(e.orelse, st)
        a, b = st.fork(), st.fork()
        self.assume(a, c)
        self.assume(b, bnot(c))
        va, vb = self.eval(e.body, a), self.eval(e.orelse, b)
        st.heap = self.merge_heaps([(c, a.heap), (bnot(c), b.heap)], st.heap)
        return ite(c, va, vb)

    def e_Compare(self, e, st):
        l = self.eval(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.eval(r, st)
            if st.dead:
                return l
            out.append(self.compare(op, l, rv, st, e))
            l = rv
        return band(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, a, b, node)
            return bnot(r) if isinstance(op, ast.NotIn) else r
        if a.op == "ite" and not tm.is_bool(a):
            return ite(a.a[0], self.compare(op, a.a[1], b, st, node), self.compare(op, a.a[2], b, st, node))
        if b.op == "ite" and not tm.is_bool(b):
            return ite(b.a[0], self.compare(op, a, b.a[1], st, node), self.compare(op, a, b.a[2], st, node))
        a0, b0 = a, b
        a, b = self.val(st, a), self.val(st, b)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            pos = isinstance(op, (ast.Is, ast.Eq))
            r = None
            for x, y in ((a0, b0), (b0, a0)):
                if y is NONE:
                    if x.op == "ref" or x.op in ("class", "func", "extf", "mod", "keys", "range", "set", "sub", "vstack", "hstack", "dot", "getcol", "cat", "zeros", "ones", "full", "T"):
                        r = FALSE
                    elif x.op == "call" and False:
                        r = FALSE
                if x.op == "typeof" and y.op in ("class", "extf"):
                    r = self.type_is(st, x.a[0], y)
            if r is None and a0.op == "ref" and b0.op == "ref" and isinstance(op, (ast.Is, ast.IsNot)):
                r = B(a0 is b0)
            if r is None and a.op in ("class", "extf") and b.op in ("class", "extf"):
                r = B(a is b)
            if r is None:
                r = eq(a, b)
            return r if pos else bnot(r)
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.LtE):
            return le(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.GtE):
            return le(b, a)
        return self.unknown("compare")

    def type_is(self, st, x, cls):
        o = self.obj(st, x) if x.op == "ref" else None
        if o is not None and o.kind == "inst" and o.cls is not None:
            return B(cls.op == "class" and cls.a[0] == o.cls.qual)
        return eq(mk("typeof", x), cls)

    def contains(self, st, a, b, node):
        if b.op == "ite":
            return ite(b.a[0], self.contains(st, a, b.a[1], node), self.contains(st, a, b.a[2], node))
        if b.op == "c" and isinstance(b.a[0], str):
            if is_c(a) and isinstance(a.a[0], str):
                return B(a.a[0] in b.a[0])
            return mk("in", a, b)
        if b.op == "ref" and self.obj(st, b) is not None and self.obj(st, b).kind == "inst":
            f = self.repo.find_method(self.obj(st, b).cls, "__contains__")
            if f is not None:
                return truth(self.call_func(st, f, [b, a], {}, node))
        conc = self.concrete(st, b)
        if conc is not None:
            return bor(*[eq(a, x) for x in conc])
        if b.op == "ref" and self.obj(st, b).kind in ("dict", "ddict", "bidict"):
            return mk("in", a, mk("keys", b))
        if b.op in ("attr",) and b.a[1] in ("states_by_label", "actions_by_label", "index_by_state_action") or b.op == "inv":
            return mk("in", a, mk("keys", b))
        return mk("in", a, b)

    # ------------------------------------------------------------------ displays and comprehensions
    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                c = self.concrete(st, v)
                if c is None:
                    return self.unknown("starred tuple")
                out += c
            else:
                out.append(self.eval(x, st))
        return mk("tuple", *out)

    def e_List(self, e, st):
        vals = [(isinstance(x, ast.Starred), self.eval(x.value if isinstance(x, ast.Starred) else x, st)) for x in e.elts]
        r = self.alloc(st, "list", e)
        for s, v in vals:
            if s:
                self.append_all(st, r, v, e)
            else:
                self.log(st, r, "append", NONE, v, e)
        return r

    def e_Set(self, e, st):
        vals = [self.eval(x, st) for x in e.elts]
        r = self.alloc(st, "set", e)
        for v in vals:
            self.log(st, r, "add", v, NONE, e)
        return r

    def e_Dict(self, e, st):
        kv = [(self.eval(k, st) if k is not None else None, self.eval(v, st)) for k, v in zip(e.keys, e.values)]
        r = self.alloc(st, "dict", e)
        for k, v in kv:
            if k is None:
                self.dict_update(st, r, v, e)
            else:
                self.log(st, r, "set", k, v, e)
        return r

    def dict_update(self, st, r, v, node):
        o = self.obj(st, v) if v.op == "ref" else None
        if o is not None and o.kind in ("dict", "ddict", "bidict") and o.base is None and all(x.op == "set" for x in o.log):
            d = self.obj(st, r).copy()
            d.log = d.log + o.log
            st.heap[r.a[0]] = d
            return
        self.log(st, r, "update", self.freeze(st, v), NONE, node)

    def comp(self, e, st, leaf):
        saved = dict(st.env)

        def rec(gens, x):
            if not gens:
                leaf(x)
                return x
            g = gens[0]
            itv = self.eval(g.iter, x)

            def body(y):
                for c in g.ifs:
                    t = self.known(y, truth(self.container_truth(y, self.eval(c, y))))
                    if t is FALSE:
                        return y
                    if t is not TRUE:
                        z = y.fork()
                        self.assume(z, t)
                        rec2 = z
                        i = g.ifs.index(c)
                        rest = g.ifs[i + 1:]
                        for c2 in rest:
                            t2 = truth(self.container_truth(rec2, self.eval(c2, rec2)))
                            self.assume(rec2, t2)
                        rr = rec(gens[1:], rec2)
                        out = y.fork()
                        if rr is not None and not rr.dead:
                            out.heap = self.merge_heaps([(t, rr.heap), (bnot(t), y.heap)], y.heap)
                        return out
                return rec(gens[1:], y)
            r = self.loop(x, itv, lambda y, v: self.assign(g.target, v, y, e), body, e)
            return r
        x = st.fork()
        fr = self.frames[-1]
        fr.loops.append(dict(breaks=[], continues=[]))
        r = rec(e.generators, x)
        fr.loops.pop()
        if r is not None and not r.dead:
            st.heap = r.heap
        st.env.clear()
        st.env.update(saved)

    def e_ListComp(self, e, st):
        r = self.alloc(st, "list", e)
        self.comp(e, st, lambda x: self.log(x, r, "append", NONE, self.eval(e.elt, x), e))
        return r

    def e_GeneratorExp(self, e, st):
        r = self.alloc(st, "gen", e)
        self.comp(e, st, lambda x: self.log(x, r, "append", NONE, self.eval(e.elt, x), e))
        return r

    def e_SetComp(self, e, st):
        r = self.alloc(st, "set", e)
        self.comp(e, st, lambda x: self.log(x, r, "add", self.eval(e.elt, x), NONE, e))
        return r

    def e_DictComp(self, e, st):
        r = self.alloc(st, "dict", e)

        def leaf(x):
            k = self.eval(e.key, x)
            v = self.eval(e.value, x)
            self.log(x, r, "set", k, v, e)
        self.comp(e, st, leaf)
        return r

    def e_Lambda(self, e, st):
        fr = self.frames[-1]
        fi = self.repo.local_func(e, fr.module, fr.cls, fr.func)
        fi.closure = st.env
        return mk("lfunc", fi.uid)

    def e_JoinedStr(self, e, st):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(C(v.value))
            else:
                x = self.eval(v.value, st)
                if v.format_spec is not None:
                    spec = "".join(str(c.value) for c in v.format_spec.values if isinstance(c, ast.Constant))
                    out.append(self.tostr(x) if spec in ("", "s") or spec == "d" and not self.keep_d else mk("fmt", spec, self.val(st, x)))
                else:
                    out.append(self.tostr(x))
        return concat(out)

    def e_FormattedValue(self, e, st):
        return self.tostr(self.eval(e.value, st))

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else NONE
        fr = self.frames[-1]
        self.event("yield", fr.func, (v,), {}, st, e)
        if fr.yields is not None:
            self.log(st, fr.yields, "append", NONE, v, e)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        fr = self.frames[-1]
        self.event("yield", fr.func, (v,), {}, st, e)
        if fr.yields is not None:
            self.append_all(st, fr.yields, v, e)
        return NONE

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    # ------------------------------------------------------------------ subscripts
    def eval_index(self, s, st):
        if isinstance(s, ast.Slice):
            if s.step is not None:
                step = self.eval(s.step, st)
                return mk("slice3", self.eval(s.lower, st) if s.lower else NONE, self.eval(s.upper, st) if s.upper else NONE, step)
            return mk("slice", self.eval(s.lower, st) if s.lower else NONE, self.eval(s.upper, st) if s.upper else NONE)
        if isinstance(s, ast.Tuple):
            return tup(*[self.eval_index(x, st) for x in s.elts])
        return self.eval(s, st)

    def e_Subscript(self, e, st):
        base = self.eval(e.value, st)
        k = self.eval_index(e.slice, st)
        if st.dead:
            return base
        v = self.subscript(st, base, k, e)
        self.event("read", "getitem", (base, k), {}, st, e, v)
        return v

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            fr = self.frames[-1]
            if e.args:
                c = self.eval(e.args[0], st)
                s = self.eval(e.args[1], st)
                return mk("super", s, c.a[0] if c.op == "class" else "?")
            a = fr.fn.node.args.args
            return mk("super", st.env.get(a[0].arg, unk("self")), fr.cls.qual if fr.cls else "?")
        if isinstance(e.func, ast.Name) and e.func.id in ("__cast__", "__addr__", "__sizeof__") and self.frames[-1].module.is_pyx:
            if e.func.id == "__sizeof__":
                return sym("sizeof(%s)" % (e.args[0].value if isinstance(e.args[0], ast.Constant) else "?"), "int")
            return self.eval(e.args[-1], st)
        f = self.eval(e.func, st)
        if st.dead:
            return f
        args, kw = [], {}
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                c = self.concrete(st, v)
                if c is None:
                    args.append(mk("star", self.freeze(st, v)))
                else:
                    args += c
            else:
                args.append(self.eval(x, st))
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                o = self.obj(st, v) if v.op == "ref" else None
                ks = self.concrete(st, v) if o is not None else None
                if ks is not None and all(is_c(x) for x in ks):
                    for x in ks:
                        kw[x.a[0]] = self.subscript(st, v, x, e)
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        if st.dead:
            return unk("dead")
        return self.call(st, f, args, kw, e)

    def call(self, st, f, args, kw, node):
        op = f.op
        if args and args[-1].op == "star" and not any(a.op == "star" for a in args[:-1]) and "**" not in kw:
            g = f.a[0] if op == "bound" else f
            if g.op in ("func", "lfunc"):
                fa = self.repo.by_uid[g.a[0]].node.args
                rest = [x.arg for x in fa.posonlyargs + fa.args][len(args) - 1 + (1 if op == "bound" else 0):]
                rest = [x for x in rest if x not in kw]
                if fa.vararg is None and not fa.defaults and rest:
                    args = list(args[:-1]) + [item(args[-1].a[0], i) for i in range(len(rest))]
        if any(a.op == "star" for a in args) and op in ("func", "lfunc", "class", "bound") and not (op == "bound" and f.a[0].op in ("c", "extf")):
            fs = [self.freeze(st, a) for a in args]
            r = mk("callstar", self.freeze(st, f) if f.op != "bound" else f, *fs)
            self.event("callstar", str(f), args, kw, st, node, r)
            return r
        if op == "ite":
            a, b = st.fork(), st.fork()
            c = f.a[0]
            self.assume(a, c)
            self.assume(b, bnot(c))
            va, vb = self.call(a, f.a[1], args, kw, node), self.call(b, f.a[2], args, kw, node)
            st.heap = self.merge_heaps([(c, a.heap), (bnot(c), b.heap)], st.heap)
            return ite(c, va, vb)
        if op in ("func", "lfunc"):
            fn = self.repo.by_uid[f.a[0]]
            return self.call_func(st, fn, args, kw, node)
        if op == "bound":
            g, self_ = f.a
            if g.op == "func":
                fn = self.repo.by_uid[g.a[0]]
                return self.call_func(st, fn, [self_] + list(args), kw, node)
            if g.op == "c":
                return self.method(st, self_, g.a[0], args, kw, node)
            return self.ext_call(st, g.a[0], [self_] + list(args), kw, node)
        if op == "class":
            return self.instantiate(st, self.class_of(f), args, kw, node)
        if op == "extf":
            return self.ext_call(st, f.a[0], args, kw, node)
        if op == "typeof":
            return self.new_model(st, f, self.repo.cls("AbstractMDP"), args, kw, node)
        if op == "attr":
            base, name = f.a
            return self.method(st, base, name, args, kw, node)
        fs = [self.freeze(st, a) for a in args]
        r = mk("app", f, *(fs + [tup(C(k), self.freeze(st, v)) for k, v in sorted(kw.items())]))
        self.event("app", "app", [f] + list(args), kw, st, node, r)
        return r

    def is_model_class(self, ci):
        return any(c.name == "AbstractMDP" for c in self.repo.mro(ci))

    inplace = {"pulp.LpProblem"}      # native objects that += changes in place
    model_ctor_opaque = True

    def new_model(self, st, tyterm, ci, args, kw, node):
        d = {}
        starkw = None
        names = None
        if ci is not None:
            f = self.repo.find_method(ci, "__init__")
            if f is not None:
                names = [p for p in f.params() if p != "self"]
        for n, v in zip(names or MODEL_PARAMS, args):
            d[n] = v
        for k, v in kw.items():
            if k == "**":
                starkw = v
            else:
                d[k] = v
        for k in ("label_to_actions", "label_to_states"):
            if k in d and d[k].op == "ref" and self.obj(st, d[k]).kind in ("dict", "ddict"):
                pass
        r = self.alloc(st, "model", node, cls=ci, attrs=d, extra={"type": tyterm, "star": starkw})
        self.event("new", "model", (tyterm,), d, st, node, r, extra=ci)
        return r

    def instantiate(self, st, ci, args, kw, node):
        if ci is None:
            return self.unknown("class")
        if self.is_model_class(ci) and self.model_ctor_opaque:
            return self.new_model(st, mk("class", ci.qual), ci, args, kw, node)
        if ci.name == "InvertibleDict" and getattr(self, "idict_opaque", True):
            return self.new_idict(st, ci, args, kw, node)
        if ci.qual in self.opaque or ci.module.is_pyx:
            fs = [self.freeze(st, a) for a in args]
            r = mk("new", ci.qual, *(fs + [tup(C(k), self.freeze(st, v)) for k, v in sorted(kw.items())]))
            self.event("new", ci.qual, args, kw, st, node, r, extra=ci)
            return r
        r = self.alloc(st, "inst", node, cls=ci)
        self.event("new", ci.qual, args, kw, st, node, r, extra=ci)
        f = self.repo.find_method(ci, "__init__")
        if f is not None:
            self.call_func(st, f, [r] + list(args), kw, node)
        return r

    def new_idict(self, st, ci, args, kw, node):
        a = dict(zip(["d", "is_default"], args))
        a.update(kw)
        d = a.get("d")
        if d is None:
            return self.unknown("InvertibleDict()")
        extra = {"is_default": a.get("is_default", FALSE), "idict": True}
        if d.op == "ref" and self.obj(st, d).kind in ("dict", "ddict"):
            o = self.obj(st, d)
            r = self.alloc(st, "ddict", node, base=o.base, extra=extra)
            n = st.heap[r.a[0]].copy()
            n.log = o.log
            st.heap[r.a[0]] = n
        elif d.op == "ref" and self.obj(st, d).kind == "gen":
            r = self.alloc(st, "ddict", node, base=d, extra=extra)
        else:
            r = self.alloc(st, "ddict", node, base=d, extra=extra)
        self.event("new", ci.qual, args, kw, st, node, r, extra=ci)
        return r

    # ------------------------------------------------------------------ method calls
    def pure(self, st, op, name, args, kw, node, base=None):
        fs = [self.freeze(st, a) for a in args]
        ks = [tup(C(k), self.freeze(st, v)) for k, v in sorted(kw.items())]
        return mk(op, name, *(fs + ks))

    def method(self, st, base, name, args, kw, node):
        if base.op == "ite":
            a, b = st.fork(), st.fork()
            c = base.a[0]
            self.assume(a, c)
            self.assume(b, bnot(c))
            va, vb = self.method(a, base.a[1], name, args, kw, node), self.method(b, base.a[2], name, args, kw, node)
            st.heap = self.merge_heaps([(c, a.heap), (bnot(c), b.heap)], st.heap)
            return ite(c, va, vb)
        o = self.obj(st, base) if base.op == "ref" else None
        if o is not None and o.kind in ("inst", "model"):
            f = self.getattr(st, base, name, node)
            if f.op not in ("attr",):
                return self.call(st, f, args, kw, node)
        if o is not None and o.kind in ("list", "set", "dict", "ddict", "bidict", "gen", "arr"):
            r = self.container_method(st, base, o, name, args, kw, node)
            if r is not None:
                return r
        if name in ("items", "keys", "values") and not args:
            if base.op == "empty":
                return mk("tuple")
            return mk(name, base)
        if name == "get" and base.op in ("sym", "attr", "inv", "get", "dict") and args:
            c = self.contains(st, args[0], base, node)
            return ite(c, self.subscript(st, base, args[0], node), args[1] if len(args) > 1 else NONE)
        if base.op == "inv" and base.a[0].op == "ref" and name in ("pop",):
            self.log(st, base.a[0], "delinv", args[0], NONE, node)
            return self.unknown("pop")
        if name in COPYLIKE or name == "A1":
            return self.copy_value(st, base, node, name)
        if name == "getcol" and len(args) == 1:
            return mk("getcol", self.val(st, base), args[0])
        if name == "getrow" and len(args) == 1:
            return mk("getrow", self.val(st, base), args[0])
        if name == "transpose" and not args:
            return self.transpose(st, self.val(st, base))
        if name == "dot" and len(args) == 1:
            return mk("dot", self.val(st, base), self.val(st, args[0]))
        if name in ("all", "any") and not args and base.op not in ("sym", "ref", "extf"):
            return mk("allv" if name == "all" else "anyv", truth(self.val(st, base)))
        if name in ("union", "intersection", "difference") and len(args) == 1 and self.is_set(st, base):
            return mk("setop", {"union": "|", "intersection": "&", "difference": "-"}[name], self.freeze(st, base), self.freeze(st, args[0]))
        if name == "join" and len(args) == 1:
            return mk("join", base, self.freeze(st, args[0]))
        if name == "format" and is_c(base):
            return self.str_format(st, base.a[0], args, kw)
        if name in ("reshape",):
            return self.val(st, base)
        if is_c(base) and isinstance(base.a[0], str) and name in STRFOLD and not kw and all(is_c(x) for x in args):
            try:
                v = getattr(base.a[0], name)(*[x.a[0] for x in args])
                return mk("tuple", *[C(x) for x in v]) if isinstance(v, (list, tuple)) else C(v)
            except Exception:
                pass
        if name in MUTATORS and self.argument_rooted(base):
            self.event("mutate", name, (base,) + tuple(args), kw, st, node)
        if base.op == "slot":
            return self.slot_method(st, base, name, args, kw, node)
        r = self.pure(st, "m", name, [base] + list(args), kw, node)
        self.event("mcall", name, (base,) + tuple(args), kw, st, node, r)
        return r

    def havoc(self, st, t, why, node):
        """the container is modified in a way that is not followed"""
        o = self.obj(st, t) if t.op == "ref" else None
        if o is None:
            if self.argument_rooted(t):
                self.event("mutate", why, (t,), {}, st, node)
            return
        n = o.copy()
        n.base, n.log = self.unknown(why), ()
        st.heap = dict(st.heap)
        st.heap[t.a[0]] = n

    def ufunc_at(self, st, name, args, node):
        """numpy.add.at(a, indices, values) / numpy.subtract.at with a followed index vector"""
        o = self.obj(st, args[0]) if args[0].op == "ref" else None
        if o is None or o.kind != "arr" or len(args) != 3 or name not in ("numpy.add.at", "numpy.subtract.at"):
            return None
        idx = self.freeze(st, args[1])
        if idx.op == "list" and len(idx.a) == 1 and idx.a[0].op == "for" and len(idx.a[0].a[0]) == 1 and idx.a[0].a[1] is TRUE:
            d = idx.a[0].a[0][0]
            if d.op == "range" and d.a[0] is ZERO:
                def bind(x, v):
                    x.env["$ix"] = v

                def body(x):
                    p = x.env["$ix"]
                    v = args[2] if tm.is_scalar(args[2]) else self.subscript(x, args[2], p, node)
                    self.log(x, args[0], "incr", self.subscript(x, args[1], p, node), v if name.endswith("add.at") else neg(v), node)
                    return x
                r = self.loop(st, mk("range", d.a[0], d.a[1]), bind, body, node)
                if r is not None:
                    st.heap = r.heap
                st.env.pop("$ix", None)
                return NONE
        return None

    def argument_rooted(self, t):
        while True:
            if t.op in ("attr", "get", "item", "inv", "sub", "getcol", "getrow", "keys", "items", "values", "nth", "T"):
                t = t.a[0]
            elif t.op == "pairof":
                t = t.a[1]
            else:
                break
        return t.op in ("sym", "empty", "it", "cur")

    def slot_method(self, st, base, name, args, kw, node):
        ref, k = base.a
        if name in ("add", "append"):
            self.log(st, ref, "add2", k, args[0], node)
            return NONE
        if name in ("update", "extend") and len(args) == 1:
            def bind(x, v):
                x.env["$el"] = v

            def body(x):
                self.log(x, ref, "add2", k, x.env["$el"], node)
                return x
            r = self.loop(st, args[0], bind, body, node)
            if r is not None:
                st.heap = r.heap
            st.env.pop("$el", None)
            return NONE
        if name in ("remove", "discard", "pop"):
            self.log(st, ref, "del2", k, args[0] if args else NONE, node)
            return NONE
        if name == "copy":
            return base
        return self.pure(st, "m", name, [base] + list(args), kw, node)

    def copy_value(self, st, base, node, name="copy"):
        if base.op == "ref":
            o = self.obj(st, base)
            n = self.alloc(st, o.kind, node, base=o.base, extra=o.extra, cls=o.cls, attrs=dict(o.attrs))
            x = st.heap[n.a[0]].copy()
            x.log = o.log
            st.heap[n.a[0]] = x
            return n
        if is_c(base):
            return base
        if base.op in ("slot",):
            return base
        kind = "arr"
        sk = self.seq_kind(st, base)
        if base.op == "attr" and base.a[1] == "index_by_state_action":
            kind = "bidict"
        elif base.op == "attr" and base.a[1] in ("states_by_label", "actions_by_label"):
            kind = "dict"
        elif sk == "set":
            kind = "set"
        elif name in ("tolist",):
            kind = "arr"
        elif base.op == "sym" and base.a[1] == "list":
            kind = "list"
        return self.alloc(st, kind, node, base=base)

    def container_method(self, st, base, o, name, args, kw, node):
        k = o.kind
        if name in COPYLIKE:
            return self.copy_value(st, base, node, name)
        if k in ("dict", "ddict", "bidict"):
            if name in ("items", "keys", "values") and not args:
                if o.base is None and not o.log:
                    return mk("tuple")
                return mk(name, base)
            if name == "get" and args:
                c = self.contains(st, args[0], base, node)
                c = self.known(st, c)
                v = self.subscript(st, base, args[0], node) if c is not FALSE else NONE
                return ite(c, v, args[1] if len(args) > 1 else NONE)
            if name == "pop" and args:
                known = self.concrete(st, base) if len(args) == 2 and is_c(args[0]) else None
                if known is not None and all(is_c(x) for x in known) and args[0] not in known:
                    return args[1]
                v = self.subscript(st, base, args[0], node)
                self.log(st, base, "del", args[0], NONE, node)
                return v
            if name == "setdefault" and args:
                v = args[1] if len(args) > 1 else NONE
                if v.op == "ref" and self.obj(st, v).kind in ("set", "list") and not self.obj(st, v).log:
                    return mk("slot", base, args[0])
                c = self.contains(st, args[0], base, node)
                x = st.fork()
                self.assume(x, bnot(c))
                self.log(x, base, "set", args[0], v, node)
                st.heap = x.heap
                return ite(c, self.subscript(st, base, args[0], node), v)
            if name == "update":
                if args:
                    self.dict_update(st, base, args[0], node)
                for kk, v in kw.items():
                    self.log(st, base, "set", C(kk), v, node)
                return NONE
            if name == "put" and len(args) == 2:
                self.log(st, base, "set", args[0], args[1], node)
                return NONE
            if name == "add" and len(args) == 2:       # InvertibleDict.add
                self.log(st, base, "add2", args[0], args[1], node)
                return NONE
            if name == "remove" and len(args) == 2:
                self.log(st, base, "del2", args[0], args[1], node)
                return NONE
            if name == "clear":
                n = o.copy()
                n.log, n.base = (), None
                st.heap[base.a[0]] = n
                return NONE
            return None
        if k in ("list", "gen"):
            if name == "append":
                self.log(st, base, "append", NONE, args[0], node)
                return NONE
            if name == "extend":
                self.append_all(st, base, args[0], node)
                return NONE
            if name in ("insert", "remove", "sort", "reverse", "clear"):
                self.log(st, base, name, args[0] if args else NONE, args[1] if len(args) > 1 else NONE, node)
                return NONE
            if name == "pop":
                conc = self.concrete(st, base)
                at = args[0].a[0] if args and is_num(args[0]) else (-1 if not args else None)
                if conc and isinstance(at, int) and -len(conc) <= at < len(conc) and len(conc) == len(o.log):
                    at %= len(conc)
                    n = o.copy()
                    n.log = o.log[:at] + o.log[at + 1:]
                    st.heap[base.a[0]] = n
                    return conc[at]
                self.log(st, base, "pop", args[0] if args else NONE, NONE, node)
                return self.unknown("pop")
            if name == "index":
                return mk("indexof", base, args[0])
            return None
        if k == "set":
            if name == "add":
                self.log(st, base, "add", args[0], NONE, node)
                return NONE
            if name == "update":
                for a in args:
                    self.extend(st, base, a, node)
                return NONE
            if name in ("remove", "discard"):
                self.log(st, base, "del", args[0], NONE, node)
                return NONE
            if name == "pop":
                c = self.concrete(st, base)
                if c is not None and len(c) == 1:
                    return c[0]
                if o.base is not None and not o.log:
                    return mk("anyof", o.base)
                return self.unknown("set.pop")
            return None
        if k == "arr":
            if name == "resize":
                n = o.copy()
                sh = args[0] if len(args) == 1 else mk("tuple", *args)
                n.base = mk("resize", self.freeze(st, base), sh)
                n.log = ()
                n.extra = None
                st.heap[base.a[0]] = n
                return NONE
            if name == "fill":
                sh = self.shape(st, base)
                n = o.copy()
                n.base, n.log = mk("full", sh if sh is not None else NONE, args[0]), ()
                st.heap[base.a[0]] = n
                return NONE
            if name in ("items",) and not args:
                return mk("items", base)
            if name in ("keys", "values") and not args:
                return mk(name, base)
            if name == "sum" and not args and not kw:
                return mk("sumv", self.freeze(st, base))
            if name in MUTATORS:
                n = o.copy()
                n.base, n.log = self.unknown(name), ()
                st.heap[base.a[0]] = n
                return NONE
            return None
        return None

    def str_format(self, st, s, args, kw):
        out, i, pos = [], 0, 0
        for m in re.finditer(r"\{(\w*)(?:![rs])?(?::([^}]*))?\}", s):
            out.append(C(s[pos:m.start()].replace("{{", "{").replace("}}", "}")))
            pos = m.end()
            nme = m.group(1)
            if nme == "":
                v = args[i] if i < len(args) else unk("fmt")
                i += 1
            elif nme.isdigit():
                v = args[int(nme)] if int(nme) < len(args) else unk("fmt")
            else:
                v = kw.get(nme, unk("fmt"))
            spec = m.group(2) or ""
            out.append(self.tostr(v) if spec in ("", "s") or spec == "d" and not self.keep_d else mk("fmt", spec, v))
        out.append(C(s[pos:]))
        return concat(out)

    # ------------------------------------------------------------------ functions that are not in the repository
    def ext_call(self, st, name, args, kw, node):
        if name in self.intercept:
            r = self.intercept[name](self, st, args, kw, node, name)
            if r is not NotImplemented:
                return r
        h = EXT.get(name)
        if name.endswith(".at") and name.startswith("numpy.") and len(args) >= 2:
            r = self.ufunc_at(st, name, args, node)
            if r is not None:
                return r
        if name in EXT_MUTATORS or (name.startswith("numpy.") and name.endswith(".at")):
            for a in args[:1]:
                self.havoc(st, a, name, node)
        if "out" in kw:
            self.havoc(st, kw["out"], name, node)
        if h is None and name.startswith("builtins.") and name[9:] in ("ValueError", "Exception", "AssertionError", "TypeError", "KeyError", "RuntimeError"):
            return mk("exc", name)
        if h is not None:
            self.extname = name.split(".")[-1]
            r = h(self, st, args, kw, node)
            if r is not None:
                return r
        r = self.pure(st, "ext", name, args, kw, node)
        self.event("ext", name, args, kw, st, node, r)
        return r


EXT = {}
EXT_MUTATORS = {"numpy.put", "numpy.copyto", "numpy.fill_diagonal", "numpy.place", "numpy.putmask", "numpy.put_along_axis", "random.shuffle",
                "numpy.random.shuffle", "heapq.heappush", "heapq.heappop", "heapq.heapify", "heapq.heapreplace", "heapq.heappushpop", "bisect.insort",
                "bisect.insort_left", "bisect.insort_right", "operator.setitem", "operator.delitem", "operator.iadd"}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def _np(*ns):
    return ["numpy." + n for n in ns]


@ext("numpy.empty")
def x_empty(I, st, a, kw, node):
    sh = a[0] if a else kw.get("shape")
    if sh is None or sh.op == "ref":
        return None
    return I.alloc(st, "arr", node, base=mk("uninit", sh))


@ext(*_np("zeros"))
def x_zeros(I, st, a, kw, node):
    sh = a[0] if a else kw.get("shape")
    if sh is None:
        return None
    if sh.op == "ref":
        sh = mk("tuple", *(I.concrete(st, sh) or [I.unknown("shape")]))
    return I.alloc(st, "arr", node, base=mk("zeros", sh))


@ext(*_np("ones"))
def x_ones(I, st, a, kw, node):
    sh = a[0] if a else kw.get("shape")
    return I.alloc(st, "arr", node, base=mk("ones", sh))


@ext(*_np("full"))
def x_full(I, st, a, kw, node):
    sh = a[0] if a else kw.get("shape")
    v = a[1] if len(a) > 1 else kw.get("fill_value")
    if is_c(v) and v.a[0] == 0:
        return I.alloc(st, "arr", node, base=mk("zeros", sh))
    return I.alloc(st, "arr", node, base=mk("full", sh, v))


@ext(*_np("zeros_like", "ones_like"))
def x_zl(I, st, a, kw, node):
    return None


@ext(*_np("array", "asarray", "matrix", "asmatrix", "asarray_chkfinite", "ascontiguousarray"))
def x_array(I, st, a, kw, node):
    v = a[0]
    if v.op == "ref" and I.obj(st, v).kind == "arr":
        return I.copy_value(st, v, node)
    if I.is_list(st, v) or v.op == "tuple":
        return I.alloc(st, "arr", node, base=I.freeze(st, v))
    return I.alloc(st, "arr", node, base=v)


@ext("scipy.sparse.dok_matrix", "scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix", "scipy.sparse.lil_matrix", "scipy.sparse.coo_matrix",
     "scipy.sparse.dok_array", "scipy.sparse.csr_array")
def x_dok(I, st, a, kw, node):
    v = a[0] if a else kw.get("shape") or kw.get("arg1")
    if v.op == "tuple" and len(v.a) == 2:
        return I.alloc(st, "arr", node, base=mk("zeros", v))
    if v.op == "ref":
        return I.copy_value(st, v, node)
    return I.alloc(st, "arr", node, base=v)


@ext("scipy.sparse.hstack", "scipy.sparse.vstack", "numpy.hstack", "numpy.vstack", "numpy.concatenate", "numpy.append")
def x_stack(I, st, a, kw, node):
    nm = node.func.attr if hasattr(node, "func") and hasattr(node.func, "attr") else getattr(getattr(node, "func", None), "id", "")
    return None


def _stack(which):
    def f(I, st, a, kw, node):
        parts = I.concrete(st, a[0])
        if parts is None:
            return None
        ps = [I.val(st, p) for p in parts]
        out = []
        for p in ps:
            out += list(p.a) if p.op == which else [p]
        return mk(which, *out)
    return f


for _n in ("scipy.sparse.", "numpy."):
    EXT[_n + "hstack"] = _stack("hstack")
    EXT[_n + "vstack"] = _stack("vstack")
del EXT["numpy.concatenate"], EXT["numpy.append"]


@ext(*_np("dot", "matmul"))
def x_dot(I, st, a, kw, node):
    return mk("dot", I.val(st, a[0]), I.val(st, a[1]))


@ext(*_np("arange"))
def x_arange(I, st, a, kw, node):
    if len(a) == 1:
        return mk("range", ZERO, a[0])
    if len(a) == 2:
        return mk("range", a[0], a[1])
    return None


@ext("builtins.range")
def x_range(I, st, a, kw, node):
    if len(a) == 1:
        return mk("range", ZERO, a[0])
    if len(a) == 2:
        return mk("range", a[0], a[1])
    if len(a) == 3 and a[2] is ONE:
        return mk("range", a[0], a[1])
    return None


@ext(*_np("count_nonzero"))
def x_cnz(I, st, a, kw, node):
    return mk("count", truth(I.val(st, a[0])))


@ext("builtins.sum", *_np("sum"))
def x_sum(I, st, a, kw, node):
    v = a[0]
    if tm.is_bool(v):
        return mk("count", v)
    conc = I.concrete(st, v)
    if conc is not None:
        r = ZERO
        for x in conc:
            r = add(r, x)
        return r
    if v.op == "ref" and I.obj(st, v).kind in ("list", "gen") and I.obj(st, v).base is None and all(e.op == "append" for e in I.obj(st, v).log):
        r = ZERO
        for e in I.obj(st, v).log:
            bs = tuple(b for b in e.binders if b not in st.binders)
            g = band(*[l for l in e.guard if l not in st.path])
            r = add(r, I.close_sum(bs, g, e.val))
        return r
    return mk("sumv", I.freeze(st, v))


@ext("builtins.len", *_np("size", "alen"))
def x_len(I, st, a, kw, node):
    return I.length(st, a[0])


@ext("builtins.enumerate")
def x_enum(I, st, a, kw, node):
    s = a[1] if len(a) > 1 else kw.get("start", ZERO)
    if s is ZERO:
        c = I.concrete(st, a[0])
        if c is not None:
            return mk("tuple", *[tup(C(i), x) for i, x in enumerate(c)])
        return mk("enumerate", a[0])
    return mk("enumerate", a[0], s)


@ext("builtins.zip")
def x_zip(I, st, a, kw, node):
    return mk("zip", *a)


@ext("builtins.map")
def x_map(I, st, a, kw, node):
    if len(a) == 2:
        c = I.concrete(st, a[1])
        if c is not None:
            return mk("tuple", *[I.call(st, a[0], [x], {}, node) for x in c])
        return mk("map", a[0], a[1])
    return None


@ext("builtins.iter")
def x_iter(I, st, a, kw, node):
    return mk("iter", a[0])


@ext("builtins.next")
def x_next(I, st, a, kw, node):
    if a[0].op == "iter":
        x = a[0].a[0]
        c = I.concrete(st, x)
        if c:
            return c[0]
        return mk("anyof", I.freeze(st, x))
    if I.is_list(st, a[0]):
        c = I.concrete(st, a[0])
        if c:
            return c[0]
    return mk("anyof", I.freeze(st, a[0]))


@ext("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.reversed")
def x_list(I, st, a, kw, node):
    nm = I.extname
    if not a:
        return I.alloc(st, "list", node) if nm != "tuple" else mk("tuple")
    v = a[0]
    c = I.concrete(st, v)
    if c is not None and nm in ("list", "tuple"):
        if nm == "tuple":
            return mk("tuple", *c)
        r = I.alloc(st, "list", node)
        for x in c:
            I.log(st, r, "append", NONE, x, node)
        return r
    if nm in ("sorted", "reversed") and (kw or nm == "reversed"):
        return mk(nm, I.freeze(st, v))
    if nm == "sorted" and c is not None and len(c) <= 1:
        return mk("tuple", *c)
    if v.op in ("keys", "items", "values", "zip", "map", "enumerate", "range") or v.op == "ref":
        r = I.alloc(st, "list", node)
        I.extend(st, r, v, node)
        return r
    if I.seq_kind(st, v) == "set":
        r = I.alloc(st, "list", node)
        I.extend(st, r, v, node)
        return r
    return I.alloc(st, "list", node, base=v)


@ext("builtins.set", "builtins.frozenset")
def x_set(I, st, a, kw, node):
    if not a:
        return I.alloc(st, "set", node)
    v = a[0]
    if v.op == "ref" and I.obj(st, v).kind == "set":
        return I.copy_value(st, v, node)
    c = I.concrete(st, v)
    r = I.alloc(st, "set", node)
    if c is not None:
        for x in c:
            I.log(st, r, "add", x, NONE, node)
        return r
    if v.op in ("values", "map") or I.is_list(st, v) or v.op == "ref":
        I.extend(st, r, v, node)
        return r
    n = st.heap[r.a[0]].copy()
    n.base = v
    st.heap[r.a[0]] = n
    return r


@ext("builtins.dict", "bidict.bidict", "collections.OrderedDict")
def x_dict(I, st, a, kw, node):
    nm = I.extname
    kind = "bidict" if "bidict" in nm else "dict"
    if not a:
        r = I.alloc(st, kind, node)
    else:
        v = a[0]
        if v.op == "items":
            v = v.a[0]
        o = I.obj(st, v) if v.op == "ref" else None
        if o is not None and o.kind in ("dict", "ddict", "bidict"):
            k2 = kind if not (kind == "dict" and any(e.op == "add2" for e in o.log)) else "ddict"
            r = I.alloc(st, k2, node, base=o.base)
            n = st.heap[r.a[0]].copy()
            n.log = o.log
            st.heap[r.a[0]] = n
        elif I.is_list(st, v) or v.op in ("zip", "map", "tuple", "enumerate"):
            r = I.alloc(st, kind, node)

            def bind(x, el):
                x.env["$el"] = el

            def body(x):
                el = x.env["$el"]
                I.log(x, r, "set", I.unpack(x, el, 0), I.unpack(x, el, 1), node)
                return x
            q = I.loop(st, v, bind, body, node)
            if q is not None:
                st.heap = q.heap
            st.env.pop("$el", None)
        else:
            r = I.alloc(st, kind, node, base=v)
    for k, v in kw.items():
        if k != "**":
            I.log(st, r, "set", C(k), v, node)
    return r


@ext("collections.defaultdict")
def x_ddict(I, st, a, kw, node):
    return I.alloc(st, "ddict", node, extra={"factory": a[0] if a else None})


@ext("builtins.isinstance")
def x_isinst(I, st, a, kw, node):
    x, c = a
    cs = c.a if c.op == "tuple" else (c,)
    out = []
    for k in cs:
        out.append(_isinst(I, st, x, k))
    return bor(*out)


def _isinst(I, st, x, k):
    o = I.obj(st, x) if x.op == "ref" else None
    if k.op == "class":
        kc = I.class_of(k)
        if o is not None and o.kind in ("inst", "model"):
            if o.cls is not None and kc in I.repo.mro(o.cls):
                return TRUE
            if o.kind == "inst":
                return FALSE
            return mk("isinst", x, k)
        if o is not None:
            if o.extra and o.extra.get("idict"):
                return B(kc.name == "InvertibleDict")
            return FALSE
        if is_c(x):
            return FALSE
        sc = I.sort_class(x)
        if sc is not None:
            if kc in I.repo.mro(sc):
                return TRUE
            if kc not in I.repo.subclasses(sc):
                return FALSE
        if x.op == "attr" and x.a[1] in ("states_by_label", "actions_by_label") and kc.name == "InvertibleDict":
            return TRUE
        return mk("isinst", x, k)
    if k.op == "extf":
        n = k.a[0].split(".")[-1]
        if o is not None:
            if n == "dict":
                return B(o.kind in ("dict", "ddict") and not (o.extra and o.extra.get("idict")))
            if n == "set":
                return B(o.kind == "set")
            if n == "list":
                return B(o.kind == "list")
            if n in ("int", "float", "str", "bool"):
                return FALSE
        if is_c(x):
            if x is NONE:
                return FALSE
            if n in ("int", "float", "str", "bool"):
                return B(isinstance(x.a[0], getattr(builtins, n)))
            if n in ("dict", "set", "list", "tuple"):
                return B(isinstance(x.a[0], getattr(builtins, n)))
        if x.op == "tuple" and n in ("dict", "set", "list", "int", "float", "str", "bool"):
            return FALSE
    return mk("isinst", x, k)


@ext("builtins.type")
def x_type(I, st, a, kw, node):
    if len(a) != 1:
        return None
    o = I.obj(st, a[0]) if a[0].op == "ref" else None
    if o is not None and o.kind == "inst" and o.cls is not None:
        return mk("class", o.cls.qual)
    if o is not None and o.kind == "model" and o.extra:
        return o.extra["type"]
    return mk("typeof", a[0])


@ext("builtins.int", "builtins.float", "builtins.bool", "builtins.str", "builtins.repr")
def x_conv(I, st, a, kw, node):
    nm = I.extname
    if not a:
        return None
    v = a[0]
    if nm == "bool":
        return truth(I.container_truth(st, I.val(st, v)))
    if nm == "str":
        return I.tostr(v)
    if nm == "repr":
        return mk("repr", v)
    if is_c(v):
        try:
            return C({"int": int, "float": float}[nm](v.a[0])) if not isinstance(v.a[0], bool) else C(int(v.a[0]))
        except Exception:
            return None
    if v.op in ("m", "ext", "str", "sym", "item", "get", "call") and not (v.op == "sym" and v.a[1] in ("int", "num")):
        # a text (or unknown) to number conversion stays visible
        if nm == "float" and v.op in ("get", "item") and tm.has_op(v, "attr") and not tm.has_op(v, "m", "ext"):
            return v
        return mk("conv", nm, v)
    return v


@ext("builtins.abs", *_np("abs", "absolute"))
def x_abs(I, st, a, kw, node):
    return mk("abs", I.val(st, a[0]))


@ext("builtins.any", "builtins.all", *_np("any", "all"))
def x_anyall(I, st, a, kw, node):
    nm = I.extname
    v = a[0]
    c = I.concrete(st, v)
    if c is not None:
        return bor(*[truth(x) for x in c]) if nm == "any" else band(*[truth(x) for x in c])
    if I.is_list(st, v) and v.op == "ref" and I.obj(st, v).base is None and all(e.op == "append" for e in I.obj(st, v).log):
        out = []
        for e in I.obj(st, v).log:
            bs = tuple(b for b in e.binders if b not in st.binders)
            g = band(*[l for l in e.guard if l not in st.path])
            t = truth(e.val)
            x = I.exists(bs, band(g, t if nm == "any" else bnot(t)))
            out.append(x if nm == "any" else bnot(x))
        return bor(*out) if nm == "any" else band(*out)
    return mk("allv" if nm == "all" else "anyv", truth(I.val(st, v)))


def _minmax(nm):
    def f(I, st, a, kw, node):
        if len(a) >= 2:
            xs = list(a)
        else:
            xs = I.concrete(st, a[0])
            if xs is None:
                return mk(nm + "v", I.freeze(st, a[0]))
        if all(is_num(x) for x in xs) and xs:
            return C((min if nm == "min" else max)(x.a[0] for x in xs))
        return mk(nm, *sorted(set(xs)))
    return f


for _p in ("builtins.", "numpy."):
    EXT[_p + "min"] = _minmax("min")
    EXT[_p + "max"] = _minmax("max")
EXT["numpy.minimum"] = _minmax("min")
EXT["numpy.maximum"] = _minmax("max")


@ext("builtins.print")
def x_print(I, st, a, kw, node):
    I.event("print", "print", a, kw, st, node)
    return NONE


@ext(*_np("multiply", "add", "subtract", "divide", "negative", "greater", "less", "greater_equal", "less_equal"))
def x_ufunc(I, st, a, kw, node):
    nm = I.extname
    v = [I.val(st, x) for x in a]
    if nm == "multiply":
        return mul(*v)
    if nm == "add":
        return add(*v)
    if nm == "subtract":
        return sub(*v)
    if nm == "divide":
        return div(*v)
    if nm == "negative":
        return neg(v[0])
    return {"greater": lambda x, y: lt(y, x), "less": lt, "greater_equal": lambda x, y: le(y, x), "less_equal": le}[nm](*v)


@ext(*_np("logical_and", "logical_or", "logical_not", "logical_xor"))
def x_logic(I, st, a, kw, node):
    nm = I.extname
    v = [truth(I.val(st, x)) for x in a]
    if nm == "logical_not":
        return bnot(v[0])
    return band(*v) if nm == "logical_and" else bor(*v) if nm == "logical_or" else None


@ext("copy.copy", "copy.deepcopy", *_np("copy"))
def x_copy(I, st, a, kw, node):
    return I.copy_value(st, a[0], node)


@ext("builtins.hasattr")
def x_hasattr(I, st, a, kw, node):
    return mk("has", *a)


@ext("builtins.getattr")
def x_getattr(I, st, a, kw, node):
    if is_c(a[1]) and isinstance(a[1].a[0], str):
        return I.getattr(st, a[0], a[1].a[0], node)
    return None
