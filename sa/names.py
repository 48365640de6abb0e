"""Names: every name that is read is bound somewhere (lexically), imported names exist, and locals are assigned on every path that reads them.

The assignment analysis is a forward dataflow over sets of (assigned names, facts about conditions); conditions over the same names are
correlated, tables of values (`assert x in [..]`) close chains of comparisons, loops are followed for up to three rounds. Where a path is
possible only outside of the documented values (no branch of a chain taken, a loop body never run) the read is left undecided."""
import ast
import builtins

NATIVE = {"NULL", "__cast__", "__addr__", "__sizeof__"}
IMPLICIT = {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__loader__", "__path__", "__builtins__", "__class__", "__dict__", "__qualname__", "__module__", "__debug__"}
BUILTINS = set(dir(builtins)) | IMPLICIT
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
STOP = {"exit", "quit", "sys.exit", "os._exit", "os.abort"}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        d = dotted(e.value)
        return d + "." + e.attr if d else None
    return None


def bound_here(body):
    """names that the statements bind in their own scope"""
    out, glob = set(), set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                walk(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                    walk(d)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults:
                walk(d)
            return
        if isinstance(n, COMPS):
            # only assignment expressions bind outside
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != "*":
                    out.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif type(n).__name__ in ("MatchAs", "MatchStar") and n.name:
            out.add(n.name)
        elif type(n).__name__ == "MatchMapping" and n.rest:
            out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    return out - glob, glob


class Scope:
    def __init__(self, kind, names, glob, node):
        self.kind, self.names, self.glob, self.node = kind, names, glob, node


class Module:
    """lexical resolution in one module"""

    def __init__(self, repo, m):
        self.repo, self.m = repo, m
        self.top, _ = bound_here(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                self.top |= set(n.names)
        self.stars = self.star_names(m, set())
        self.problems, self.reads, self.imports = [], 0, 0
        self.open = self.stars is None

    def star_names(self, m, seen):
        """what `from x import *` binds; None when x is not part of the repository"""
        out = set()
        for base in m.names.get("*", []):
            if base not in self.repo.modules:
                return None
            if base in seen:
                continue
            r = exported(self.repo, self.repo.modules[base], seen | {base})
            if r is None:
                return None
            out |= r
        return out

    def run(self):
        self.body(self.m.tree.body, [])
        return self

    def body(self, body, scopes):
        for s in body:
            self.visit(s, scopes)

    def read(self, n, scopes):
        self.reads += 1
        name = n.id
        for i in range(len(scopes) - 1, -1, -1):
            sc = scopes[i]
            if sc.kind == "class" and i != len(scopes) - 1 and not all(x.kind == "comp0" for x in scopes[i + 1:]):
                continue
            if name in sc.glob:
                break
            if name in sc.names:
                return
        if name in self.top or name in BUILTINS or self.m.is_pyx and name in NATIVE or self.open or name in (self.stars or ()):
            return
        if self.m.is_pkg and (self.m.name + "." + name) in self.repo.modules:
            return
        self.problems.append(("name", n, name, [sc.node.name for sc in scopes if hasattr(sc.node, "name")]))

    def function(self, n, scopes):
        a = n.args
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            self.visit(d, scopes)
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        body = [n.body] if isinstance(n, ast.Lambda) else n.body
        names, glob = bound_here(body)
        inner = scopes + [Scope("func", names | params, glob, n)]
        self.body(body, inner)

    def visit(self, n, scopes):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                self.visit(d, scopes)
            if not self.m.is_pyx:
                for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [y for y in (n.args.vararg, n.args.kwarg) if y]:
                    if x.annotation is not None:
                        self.visit(x.annotation, scopes)
                if n.returns is not None:
                    self.visit(n.returns, scopes)
            self.function(n, scopes)
        elif isinstance(n, ast.Lambda):
            self.function(n, scopes)
        elif isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, scopes)
            names, glob = bound_here(n.body)
            self.body(n.body, scopes + [Scope("class", names, glob, n)])
        elif isinstance(n, COMPS):
            gens = n.generators
            self.visit(gens[0].iter, scopes)
            names = set()
            for g in gens:
                names |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            inner = scopes + [Scope("comp", names, set(), n)]
            for i, g in enumerate(gens):
                if i:
                    self.visit(g.iter, inner)
                self.visit(g.target, inner)
                for c in g.ifs:
                    self.visit(c, inner)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.visit(e, inner)
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, (ast.Load, ast.Del)):
                self.read(n, scopes)
        elif isinstance(n, ast.AnnAssign):
            if not self.m.is_pyx:
                self.visit(n.annotation, scopes)
            self.visit(n.target, scopes)
            if n.value is not None:
                self.visit(n.value, scopes)
        elif isinstance(n, ast.Attribute):
            self.attribute(n, scopes)
            self.visit(n.value, scopes)
        elif isinstance(n, ast.ImportFrom):
            self.importfrom(n, scopes)
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.imports += 1
                r = self.repo.modules
                if a.name.split(".")[0] in {x.split(".")[0] for x in r} and a.name not in r and not guarded(self.m, n):
                    if not self.native(a.name):
                        self.problems.append(("import", n, a.name, [sc.node.name for sc in scopes if hasattr(sc.node, "name")]))
        elif isinstance(n, ast.Try):
            for f in (n.body, n.orelse, n.finalbody):
                self.body(f, scopes)
            for h in n.handlers:
                if h.type is not None:
                    self.visit(h.type, scopes)
                self.body(h.body, scopes)
        else:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr_context):
                    continue
                self.visit(c, scopes)

    def native(self, name):
        import os
        p = os.path.join(self.repo.root, *name.split("."))
        return os.path.exists(p + ".pyx") or os.path.exists(p + ".pxd") or os.path.exists(p + ".py") or os.path.exists(os.path.join(p, "__init__.py"))

    def absolute(self, n):
        base = n.module or ""
        if n.level:
            parts = self.m.name.split(".")
            if not self.m.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            base = ".".join(parts + ([n.module] if n.module else []))
        return base

    def importfrom(self, n, scopes):
        base = self.absolute(n)
        roots = {x.split(".")[0] for x in self.repo.modules}
        where = [sc.node.name for sc in scopes if hasattr(sc.node, "name")]
        for a in n.names:
            self.imports += 1
            if base.split(".")[0] not in roots or guarded(self.m, n):
                continue
            if base not in self.repo.modules:
                if not self.native(base):
                    self.problems.append(("import", n, base, where))
                continue
            if a.name == "*":
                continue
            if self.m.is_pyx and self.repo.modules[base].is_pyx:
                continue          # declared in a .pxd file
            if not provides(self.repo, self.repo.modules[base], a.name) and not self.native(base + "." + a.name):
                self.problems.append(("import", n, "%s.%s" % (base, a.name), where))

    def attribute(self, n, scopes):
        """attributes of modules of the repository"""
        d = dotted(n)
        if d is None or not isinstance(n.ctx, ast.Load):
            return
        head = d.split(".")[0]
        if any(head in sc.names for sc in scopes):
            return
        r = self.repo.resolve_expr(n.value, self.m) if head in self.m.names else None
        if r is not None and r[0] == "mod" and r[1] in self.repo.modules and not self.repo.modules[r[1]].is_pyx:
            if not provides(self.repo, self.repo.modules[r[1]], n.attr) and not self.native(r[1] + "." + n.attr):
                self.problems.append(("attribute", n, d, [sc.node.name for sc in scopes if hasattr(sc.node, "name")]))


def exported(repo, m, seen):
    out, _ = bound_here(m.tree.body)
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets) and isinstance(s.value, (ast.List, ast.Tuple)):
            return {e.value for e in s.value.elts if isinstance(e, ast.Constant)}
    for base in m.names.get("*", []):
        if base not in repo.modules:
            return None
        if base not in seen:
            r = exported(repo, repo.modules[base], seen | {base})
            if r is None:
                return None
            out |= r
    if m.is_pkg:
        out |= {x[len(m.name) + 1:].split(".")[0] for x in repo.modules if x.startswith(m.name + ".")}
    return {x for x in out if not x.startswith("_")}


def provides(repo, m, name):
    top, _ = bound_here(m.tree.body)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            top |= set(n.names)
    if name in top or (m.is_pkg and m.name + "." + name in repo.modules) or name in IMPLICIT or name == "__getattr__" or "__getattr__" in top:
        return True
    for base in m.names.get("*", []):
        if base not in repo.modules:
            return True
        r = exported(repo, repo.modules[base], {base})
        if r is None or name in r:
            return True
    return False


def guarded(m, n):
    """the statement stands in the body of a try with handlers"""
    def find(body, inside):
        for s in body:
            if s is n:
                return inside
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list):
                    r = find(b, inside or (f == "body" and isinstance(s, ast.Try) and bool(s.handlers)))
                    if r is not None:
                        return r
            for h in getattr(s, "handlers", []) or []:
                r = find(h.body, inside)
                if r is not None:
                    return r
        return None
    return bool(find(m.tree.body, False))


# ------------------------------------------------------------------------------------------------ definite assignment

class St:
    __slots__ = ("a", "d", "f", "x")

    def __init__(self, a, d, f, x):
        self.a, self.d, self.f, self.x = a, d, f, x      # assigned, maybe assigned, facts, path is doubtful

    def key(self):
        return (self.a, self.d, self.x, tuple(sorted(self.f.items(), key=str)))

    def copy(self):
        return St(self.a, self.d, dict(self.f), self.x)


class Assigned:
    """reads of locals before their assignment in one function"""
    CAP = 160

    def __init__(self, node, module=None):
        self.node = node
        a = node.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        body = [node.body] if isinstance(node, ast.Lambda) else node.body
        self.locals, _ = bound_here(body)
        self.locals |= self.params
        self.bad, self.unsure, self.reads, self.capped = {}, {}, 0, False
        self.loops = []
        # facts matter only for subjects that are tested more than once
        self.tested = {}
        for n in ast.walk(node):
            for t in ([n.test] if isinstance(n, (ast.If, ast.While, ast.Assert, ast.IfExp)) else []) + (n.ifs if isinstance(n, ast.comprehension) else []) + \
                    ([n.value] if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)) else []):
                for x in self.atoms(t):
                    k = self.atom(x)
                    if k:
                        u = subject(k[0])
                        self.tested[u] = self.tested.get(u, 0) + 1

        self.none_matters = set(self.tested)
        for n in ast.walk(node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and any(isinstance(t, ast.Name) and t.id in self.tested for t in n.targets):
                self.none_matters.add(n.value.id)

    def atoms(self, e):
        if isinstance(e, ast.BoolOp):
            return [x for v in e.values for x in self.atoms(v)]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.atoms(e.operand)
        return [e]

    def run(self):
        st = St(frozenset(self.params), frozenset(), {}, False)
        self.block(self.node.body, [st])
        return self

    def limit(self, sts):
        seen, out = set(), []
        for s in sts:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > self.CAP:
            # forget the facts; the names that only some paths assign are doubtful
            self.capped = True
            groups = {}
            a = frozenset.intersection(*[s.a for s in out])
            d = frozenset().union(*[s.a | s.d for s in out]) - a
            return [St(a, d, {}, any(s.x for s in out))]
        return out

    def block(self, body, sts):
        for s in body:
            if not sts:
                return []
            sts = self.limit(self.stmt(s, sts))
        return sts

    # ---- reads
    def reads_of(self, e, sts, skip=frozenset()):
        if e is None:
            return
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x is not None]:
                self.reads_of(d, sts, skip)
            return
        if isinstance(e, COMPS):
            self.reads_of(e.generators[0].iter, sts, skip)
            names = set(skip)
            for i, g in enumerate(e.generators):
                if i:
                    self.reads_of(g.iter, sts, names)
                names |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    self.reads_of(c, sts, names)
            # a generator's elements are computed later, but nothing is unassigned in between
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.reads_of(x, sts, names)
            return
        if isinstance(e, ast.NamedExpr):
            self.reads_of(e.value, sts, skip)
            for st in sts:
                self.store(st, e.target.id)
            return
        if isinstance(e, ast.BoolOp) or isinstance(e, ast.IfExp):
            if isinstance(e, ast.IfExp):
                t, f = self.cond(e.test, [s.copy() for s in sts], skip)
                self.reads_of(e.body, t, skip)
                self.reads_of(e.orelse, f, skip)
            else:
                self.cond(e, [s.copy() for s in sts], skip)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, (ast.Load, ast.Del)) and e.id in self.locals and e.id not in skip:
                self.reads += 1
                for st in sts:
                    if e.id in st.a:
                        continue
                    if e.id in st.d or st.x:
                        self.unsure.setdefault((e.id, e.lineno), e)
                    else:
                        self.bad.setdefault((e.id, e.lineno), e)
                    st.a = st.a | {e.id}
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.Slice, ast.comprehension, ast.FormattedValue)):
                self.reads_of(c, sts, skip)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and not e.attr.startswith("__") and e.value.id in self.none_matters and e.value.id in self.locals and e.value.id not in skip:
            # None has no such attribute: the path goes on only with something else
            for st in sts:
                st.f[e.value.id + " is None"] = False

    # ---- conditions
    def atom(self, e):
        """(fact, positive) of a condition whose value only names decide"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            k = self.atom(e.operand)
            return (k[0], not k[1]) if k else None
        if not self.stable(e):
            return None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r = ast.unparse(e.left), ast.unparse(e.comparators[0])
            op = e.ops[0]
            if isinstance(op, (ast.Eq, ast.NotEq)):
                if isinstance(e.left, ast.Constant) and not isinstance(e.comparators[0], ast.Constant):
                    l, r = r, l
                return ("%s == %s" % (l, r), isinstance(op, ast.Eq))
            if isinstance(op, (ast.Is, ast.IsNot)):
                if r in ("True", "False"):
                    return ("%s is %s" % (l, r), isinstance(op, ast.Is))
                return ("%s is %s" % (l, r), isinstance(op, ast.Is))
            if isinstance(op, (ast.In, ast.NotIn)):
                return ("%s in %s" % (l, r), isinstance(op, ast.In))
            if isinstance(op, (ast.Lt, ast.GtE)):
                return ("%s < %s" % (l, r), isinstance(op, ast.Lt))
            if isinstance(op, (ast.Gt, ast.LtE)):
                return ("%s > %s" % (l, r), isinstance(op, ast.Gt))
        return (ast.unparse(e), True)

    def stable(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                if not (isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "len", "callable", "type", "hasattr", "issubclass", "bool")):
                    return False
            elif isinstance(n, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda) + COMPS):
                return False
        return True

    def cond(self, e, sts, skip=frozenset()):
        """states in which the condition holds, and in which it does not"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, sts, skip)
            return f, t
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            done, cur = [], sts
            for v in e.values:
                t, f = self.cond(v, cur, skip)
                if isand:
                    done += f
                    cur = t
                else:
                    done += t
                    cur = f
            return (cur, done) if isand else (done, cur)
        self.reads_of(e, sts, skip)
        if isinstance(e, ast.Constant):
            return (sts, []) if e.value else ([], sts)
        k = self.atom(e)
        T, F = [], []
        for st in sts:
            if k is None:
                T.append(st)
                F.append(st.copy())
                continue
            v = self.known(st, k[0])
            for val in (True, False):
                if v is not None and v != (val == k[1]):
                    continue
                s2 = st.copy()
                if self.learn(s2, k[0], val == k[1], e):
                    (T if val else F).append(s2)
        return T, F

    def known(self, st, k):
        if k in st.f:
            return st.f[k]
        if " == " in k or " is " in k:
            sep = " == " if " == " in k else " is "
            l, r = k.split(sep, 1)
            for k2, v in st.f.items():
                if v is True and k2.startswith(l + " == ") and sep == " == " and const(k2.split(" == ", 1)[1]) and const(r):
                    return k2 == k
            if r == "None" and sep == " is ":
                if st.f.get(l) is True:
                    return False
                for k2, v in st.f.items():
                    if v is True and (k2.startswith("isinstance(%s, " % l) or (k2.startswith(l + " == ") and const(k2.split(" == ", 1)[1]) and not k2.endswith("None"))):
                        return False
        elif st.f.get(k + " is None") is True:
            return False
        m = st.f.get(" in " + k.split(" == ")[0]) if " == " in k else None
        if m is not None and const(k.split(" == ", 1)[1]) and k.split(" == ", 1)[1] not in m:
            return False
        return None

    def learn(self, st, k, v, e):
        """False when the path cannot exist"""
        if " in " in k and v:
            l, r = k.split(" in ", 1)
            try:
                vals = ast.parse(r, mode="eval").body
                if isinstance(vals, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(x, ast.Constant) for x in vals.elts):
                    st.f[" in " + l] = tuple(ast.unparse(x) for x in vals.elts)
            except SyntaxError:
                pass
        if self.tested.get(subject(k), 0) < 2:
            return True
        st.f[k] = v
        if not v:
            subj = None
            if " == " in k and const(k.split(" == ", 1)[1]):
                subj = k.split(" == ", 1)[0]
                others = [k2 for k2, v2 in st.f.items() if v2 is False and k2.startswith(subj + " == ")]
                dom = st.f.get(" in " + subj)
                if dom is not None:
                    return any(subj + " == " + c not in others for c in dom)
            elif k.startswith("isinstance("):
                subj = k[11:].split(",")[0]
                others = [k2 for k2, v2 in st.f.items() if v2 is False and k2.startswith("isinstance(%s," % subj)]
            if subj is not None and len(others) >= 2:
                st.x = True
        return True

    # ---- stores
    def store(self, st, name, value=None):
        st.a = st.a | {name}
        st.d = st.d - {name}
        for k in [k for k in st.f if mentions(k, name)]:
            del st.f[k]
        if name not in self.tested:
            return
        if isinstance(value, ast.Constant):
            c = value.value
            st.f[name + " is None"] = c is None
            st.f[name] = bool(c)
            if c is not None:
                st.f["%s == %s" % (name, ast.unparse(value))] = True
            if isinstance(c, bool):
                st.f["%s is %s" % (name, c)] = True
        elif isinstance(value, (ast.List, ast.Tuple, ast.Dict, ast.Set, ast.JoinedStr, ast.Lambda) + COMPS):
            st.f[name + " is None"] = False
        elif isinstance(value, ast.Name) and value.id != name and value.id + " is None" in st.f:
            st.f[name + " is None"] = st.f[value.id + " is None"]

    def target(self, t, sts, value=None):
        for n in ([t] if isinstance(t, ast.Name) else []):
            for st in sts:
                self.store(st, n.id, value)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [None] * len(t.elts)
            for x, v in zip(t.elts, vs):
                self.target(x, sts, v)
        elif isinstance(t, ast.Starred):
            self.target(t.value, sts)
        else:
            self.reads_of(t, sts)
            d = dotted(t) if isinstance(t, ast.Attribute) else None
            if d:
                for st in sts:
                    for k in [k for k in st.f if d in k]:
                        del st.f[k]

    def names_stored(self, body):
        return frozenset(bound_here(body)[0] & self.locals)

    def stmt(self, s, sts):
        if isinstance(s, ast.Assign):
            self.reads_of(s.value, sts)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)) and self.boolish(s.value):
                t, f = self.cond(s.value, sts)
                for x, v in ((t, True), (f, False)):
                    for st in x:
                        self.store(st, s.targets[0].id, ast.Constant(v))
                return t + f
            for t in s.targets:
                self.target(t, sts, s.value)
            return sts
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.reads_of(s.value, sts)
                self.target(s.target, sts, s.value)
            return sts
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.reads_of(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), sts)
            else:
                self.reads_of(s.target, sts)
            self.reads_of(s.value, sts)
            self.target(s.target, sts)
            return sts
        if isinstance(s, ast.If):
            t, f = self.cond(s.test, sts)
            return self.block(s.body, self.limit(t)) + self.block(s.orelse, self.limit(f))
        if isinstance(s, ast.Assert):
            t, f = self.cond(s.test, sts)
            return t
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.reads_of(s.iter, sts)
            return self.loop(s, sts, lambda x: (self.enter_for(s, x), [y.copy() for y in x]))
        if isinstance(s, ast.While):
            return self.loop(s, sts, lambda x: self.cond(s.test, x))
        if isinstance(s, (ast.Return,)):
            self.reads_of(s.value, sts)
            return []
        if isinstance(s, ast.Raise):
            self.reads_of(s.exc, sts)
            return []
        if isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1][0] += sts
            return []
        if isinstance(s, ast.Continue):
            if self.loops:
                self.loops[-1][1] += sts
            return []
        if isinstance(s, ast.Expr):
            self.reads_of(s.value, sts)
            if isinstance(s.value, ast.Call) and dotted(s.value.func) in STOP:
                return []
            return sts
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.reads_of(i.context_expr, sts)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, sts)
            return self.block(s.body, sts)
        if isinstance(s, ast.Try):
            return self.try_(s, sts)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.reads_of(d, sts)
            if isinstance(s, ast.FunctionDef):
                self.reads_of(s, sts)
            for st in sts:
                self.store(st, s.name)
            return sts
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if a.name != "*":
                    for st in sts:
                        self.store(st, a.asname or a.name.split(".")[0])
            return sts
        if isinstance(s, ast.Delete):
            for t in s.targets:
                self.reads_of(t, sts)
                if isinstance(t, ast.Name):
                    for st in sts:
                        st.a = st.a - {t.id}
            return sts
        if type(s).__name__ == "Match":
            self.reads_of(s.subject, sts)
            out = []
            for c in s.cases:
                b = [x.copy() for x in sts]
                for n in ast.walk(c.pattern):
                    for nm in (getattr(n, "name", None), getattr(n, "rest", None)):
                        if nm:
                            for st in b:
                                self.store(st, nm)
                if c.guard is not None:
                    b, _ = self.cond(c.guard, b)
                out += self.block(c.body, b)
                if c.guard is None and type(c.pattern).__name__ == "MatchAs" and c.pattern.pattern is None:
                    return out
            for x in sts:
                y = x.copy()
                y.x = True
                out.append(y)
            return out
        return sts

    def boolish(self, e):
        if isinstance(e, ast.Compare):
            return self.atom(e) is not None
        if isinstance(e, ast.UnaryOp):
            return isinstance(e.op, ast.Not)
        if isinstance(e, ast.BoolOp):
            return all(self.boolish(v) for v in e.values)
        return False

    def enter_for(self, s, sts):
        out = [x.copy() for x in sts]
        self.target(s.target, out)
        return out

    def loop(self, s, sts, test):
        exits, cur = [], sts
        stored = self.names_stored(s.body) | (self.names_stored([s]) if isinstance(s, ast.For) else frozenset())
        breaks = []
        seen = set()
        for round_ in range(3):
            t, f = test(cur)
            if round_ == 0 and not (isinstance(s, ast.While) and not t):
                for x in f:
                    # whether the body runs at all is not known
                    x.d = x.d | (stored - x.a)
            exits += f
            self.loops.append([[], []])
            end = self.block(s.body, self.limit(t))
            b, c = self.loops.pop()
            breaks += b
            cur = self.limit(end + c)
            cur = [x for x in cur if x.key() not in seen]
            seen |= {x.key() for x in cur}
            if not cur:
                break
        else:
            t, f = test(cur)
            exits += f
        exits = self.block(s.orelse, self.limit(exits)) if s.orelse else exits
        return self.limit(exits + breaks)

    def try_(self, s, sts):
        before = [x.copy() for x in sts]
        stored = self.names_stored(s.body)
        sure = self.raised_first(s.body)
        body = self.block(s.body, [x.copy() for x in sts])
        body = self.block(s.orelse, body)
        out = list(body)
        for h in s.handlers:
            hs = []
            for x in before:
                y = x.copy()
                for n in stored:
                    for k in [k for k in y.f if mentions(k, n)]:
                        del y.f[k]
                y.d = y.d | (stored - y.a - sure)
                hs.append(y)
            if h.name:
                for y in hs:
                    self.store(y, h.name)
            self.reads_of(h.type, hs)
            hs = self.block(h.body, hs)
            if h.name:
                for y in hs:
                    y.a = y.a - {h.name}
            out += hs
        if s.finalbody:
            fin = [x.copy() for x in before]
            for y in fin:
                y.d = y.d | (stored - y.a)
            self.block(s.finalbody, fin)
            out = self.block(s.finalbody, out)
        return out

    def raised_first(self, body):
        """names that are not assigned when the first thing that can fail fails"""
        done, out = set(), None
        for s in body:
            fails = any(isinstance(n, (ast.Call, ast.Subscript)) for n in ast.walk(s)) and not isinstance(s, ast.FunctionDef)
            if fails:
                return frozenset(self.names_stored(body)) - done
            done |= self.names_stored([s])
        return frozenset()


def subject(k):
    """what a fact is about"""
    for sep in (" == ", " is ", " in ", " < ", " > "):
        if sep in k:
            return k.split(sep, 1)[0]
    if k.startswith("isinstance("):
        return k[11:].split(",")[0]
    return k


def mentions(k, name):
    import re
    return re.search(r"(?<![\w.])%s(?!\w)" % re.escape(name), k) is not None


def const(t):
    try:
        return isinstance(ast.parse(t, mode="eval").body, ast.Constant)
    except SyntaxError:
        return False


# ------------------------------------------------------------------------------------------------ order of imports

class Imports:
    """executes only the import statements and bindings of module level, to see whether a module can be imported first"""

    def __init__(self, repo):
        self.repo = repo

    def start(self, name):
        self.bound, self.state, self.problems = {}, {}, []
        self.load(name, None)
        return self.problems

    def load(self, name, by):
        parts = name.split(".")
        for i in range(1, len(parts) + 1):
            n = ".".join(parts[:i])
            if n not in self.repo.modules or n in self.state:
                continue
            m = self.repo.modules[n]
            self.state[n] = "running"
            self.bound[n] = set()
            if not m.is_pyx:
                self.run(m, m.tree.body, False)
            else:
                self.bound[n] |= bound_here(m.tree.body)[0]
            self.state[n] = "done"
            if i > 1:
                p = ".".join(parts[:i - 1])
                if p in self.bound:
                    self.bound[p].add(parts[i - 1])

    def run(self, m, body, guard):
        for s in body:
            if isinstance(s, ast.ImportFrom):
                base = Module.absolute(_M(m), s)
                if base not in self.repo.modules:
                    for a in s.names:
                        self.bound[m.name].add(a.asname or a.name)
                    continue
                self.load(base, m)
                for a in s.names:
                    if a.name == "*":
                        self.bound[m.name] |= {x for x in self.bound.get(base, ()) if not x.startswith("_")}
                        continue
                    if a.name not in self.bound.get(base, ()) and base + "." + a.name in self.repo.modules:
                        self.load(base + "." + a.name, m)
                    if a.name not in self.bound.get(base, ()) and self.state.get(base) == "running" and not guard and self.state.get(base + "." + a.name) is None:
                        self.problems.append((m, s, "%s.%s" % (base, a.name)))
                    self.bound[m.name].add(a.asname or a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.name in self.repo.modules:
                        self.load(a.name, m)
                    self.bound[m.name].add(a.asname or a.name.split(".")[0])
            elif isinstance(s, ast.Try):
                self.run(m, s.body, guard or bool(s.handlers))
                for h in s.handlers:
                    self.run(m, h.body, True)
                self.run(m, s.orelse, guard)
                self.run(m, s.finalbody, guard)
            elif isinstance(s, (ast.If, ast.With, ast.For, ast.While)):
                self.run(m, s.body, guard)
                self.run(m, getattr(s, "orelse", []), guard)
            else:
                self.bound[m.name] |= bound_here([s])[0]


class _M:
    def __init__(self, m):
        self.m = m
