"""C22: both solver backends realise the same programs and statuses.

Each backend class is interpreted on short sequences of its own operations with symbolic bounds, coefficients and right-hand sides. The calls
that reach the native model (pulp, gurobipy) are replayed on an abstract native model with the documented meaning of these calls
(for example: pulp ignores the bounds of LpBinary variables, gurobi's default lower bound is 0, an expression given as pairs keeps
the last coefficient of a repeated variable); its final state is compared with what was requested.

R1 variables   R2 constraints   R3 objective   R4 removal   R5 from_coefficients   R6 solver selection   R7 statuses and values"""
from .common import *
from . import c07

BACKENDS = ("MILP", "GurobiMILP")
PULPCAT = {"LpContinuous": "real", "LpInteger": "integer", "LpBinary": "binary", "Continuous": "real", "Integer": "integer", "Binary": "binary"}
GRBCAT = {"BINARY": "binary", "CONTINUOUS": "real", "INTEGER": "integer", "B": "binary", "C": "real", "I": "integer"}
PULPSENSE = {"LpConstraintLE": "<=", "LpConstraintEQ": "=", "LpConstraintGE": ">=", "-1": "<=", "0": "=", "1": ">="}
DIRECTION = {"LpMinimize": "min", "LpMaximize": "max", "1": "min", "-1": "max", "MINIMIZE": "min", "MAXIMIZE": "max"}


class Lost(Exception):
    """the replay met something it has no meaning for"""


def last_name(t):
    if t.op == "extf":
        return t.a[0].split(".")[-1]
    if t.op == "c":
        return str(t.a[0])
    if t.op == "attr" and isinstance(t.a[1], str):
        return t.a[1]
    raise Lost("constant " + tm.show(t)[:80])


def bindargs(args, kw, names):
    d = dict(zip(names, args))
    d.update(kw)
    return d


class Native:
    """state of the native model after the recorded events"""

    def __init__(self, I, st, facts):
        self.I, self.st, self.facts = I, st, facts
        self.vars, self.cons, self.objective, self.direction, self.model = {}, [], None, None, None
        self.kind = None
        self.params = []
        self.solver = None
        self.solved = None
        self.varnames = []
        for e in list(I.events):
            self.event(e)

    def fz(self, t):
        return self.I.freeze(self.st, t)

    def clean(self, t):
        return tm.assume(t, *self.facts)

    def guard(self, e):
        """condition of an event beyond the facts"""
        c = [l for l in (tm.assume(l, *self.facts) for l in e.path) if l is not TRUE]
        return c

    def event(self, e):
        k = e.kind
        if k == "ext":
            n = e.name.split(".")[-1]
            if e.name == "pulp.LpProblem":
                a = bindargs(e.args, e.kw, ("name", "sense"))
                self.model, self.kind = e.result, "pulp"
                self.direction = DIRECTION.get(last_name(a["sense"])) if "sense" in a else "min"
            elif e.name == "gurobipy.Model":
                self.model, self.kind = e.result, "gurobi"
            elif e.name == "pulp.LpVariable":
                self.need(e)
                a = bindargs(e.args, e.kw, ("name", "lowBound", "upBound", "cat"))
                cat = PULPCAT.get(last_name(a["cat"]) if "cat" in a else "LpContinuous")
                lo, hi = a.get("lowBound", NONE), a.get("upBound", NONE)
                if cat == "binary":
                    lo, hi = C(0), C(1)
                self.newvar(e, cat, lo, hi, a.get("name"))
            elif e.name in ("pulp.LpVariable.dicts", "pulp.LpVariable.matrix"):
                raise Lost(e.name)
            return
        if self.model is None:
            return
        if k == "aug" and e.args[0] is self.model:
            self.need(e)
            self.add(self.fz(e.args[1]), e)
        elif k == "mcall" and e.args and e.args[0] is self.model:
            self.mcall(e)
        elif k == "mcall" and e.args and e.args[0].op == "attr" and e.args[0].a[0] is self.model:
            fld = e.args[0].a[1]
            if fld == "constraints" and e.name == "pop":
                self.need(e)
                self.drop_name(e.args[1])
            elif fld == "constraints" and e.name in ("get", "items", "values", "keys"):
                pass
            elif fld == "objective" and e.name in ("value", "items", "keys"):
                pass
            elif fld == "objective" and e.name == "clear":
                self.objective = {}
            elif fld == "objective" and e.name == "addterm":
                self.need(e)
                self.objective[e.args[1]] = tm.add(self.objective.get(e.args[1], C(0)), e.args[2])
            else:
                raise Lost("%s.%s" % (fld, e.name))
        elif k == "mcall" and e.args and e.args[0] in self.vars:
            if e.name in ("value", "roundedValue", "getAttr"):
                return
            raise Lost("variable." + e.name)
        elif k == "mutate" and e.args and e.args[0].op == "attr" and e.args[0].a[0] is self.model:
            fld = e.args[0].a[1]
            if e.name == "del" and fld == "constraints":
                self.need(e)
                self.drop_name(e.args[1])
            elif e.name == "setitem" and fld == "objective" and self.objective is not None:
                if e.binders:
                    key = e.args[1]
                    if e.args[2] is C(0) and any(e.args[0] in set(tm.subterms(d)) for b in e.binders for d in self.domains(b)):
                        self.objective = {}
                        return
                    raise Lost("objective entries set in a loop")
                self.need(e)
                self.objective[e.args[1]] = e.args[2]
            else:
                raise Lost("%s of %s" % (e.name, fld))
        elif k == "setattr" and e.args and e.args[0] is self.model:
            self.need(e)
            if e.name == "objective":
                self.objective = self.linear(self.fz(e.args[1]))
            elif e.name in ("sense", "ModelSense"):
                self.direction = DIRECTION.get(last_name(e.args[1]))
            elif e.name in ("Params", "name"):
                pass
            else:
                raise Lost("model.%s is set" % e.name)
        elif k == "setattr" and e.args and e.args[0] in self.vars:
            self.need(e)
            v = self.vars[e.args[0]]
            if e.name in ("lowBound", "LB", "lb"):
                v["lo"] = e.args[1]
            elif e.name in ("upBound", "UB", "ub"):
                v["hi"] = e.args[1]
            elif e.name == "cat":
                v["cat"] = PULPCAT.get(last_name(e.args[1]))
            else:
                raise Lost("variable.%s is set" % e.name)

    def domains(self, b):
        return [x for x in list(getattr(b, "doms", ())) + [getattr(b, "dom", None)] if x is not None and hasattr(x, "op")]

    def need(self, e):
        if self.guard(e):
            raise Lost("only under a condition: " + tm.show(self.guard(e)[0])[:100])
        if e.binders:
            raise Lost("in a loop over " + str(e.binders[0])[:60])

    def newvar(self, e, cat, lo, hi, name):
        if cat is None:
            raise Lost("category of a variable")
        if e.result in self.vars:
            raise Lost("two native variables that cannot be told apart")
        if name is not None and name.op == "c":
            self.varnames.append(name.a[0])
        self.vars[e.result] = dict(cat=cat, lo=self.clean(lo), hi=self.clean(hi), file=e.file, line=e.line, order=len(self.vars))

    def mcall(self, e):
        n = e.name
        if self.kind == "pulp":
            if n == "addConstraint":
                self.need(e)
                a = bindargs(e.args[1:], e.kw, ("constraint", "name"))
                self.add(tup(self.fz(a["constraint"]), a.get("name", NONE)) if "name" in a else self.fz(a["constraint"]), e)
            elif n == "setObjective":
                self.need(e)
                self.objective = self.linear(self.fz(e.args[1]))
            elif n == "setSolver":
                self.need(e)
                self.solver = e.args[1] if len(e.args) > 1 else e.kw.get("solver", NONE)
            elif n == "solve":
                self.need(e)
                a = bindargs(e.args[1:], e.kw, ("solver",))
                self.solved = a["solver"] if a.get("solver", NONE) is not NONE else (self.solver if self.solver is not None else NONE)
            elif n in ("addVariable", "addVariables", "variables", "numVariables", "numConstraints", "sequentialSolve", "writeLP"):
                pass
            else:
                raise Lost("model." + n)
            return
        if n == "addVar":
            self.need(e)
            a = bindargs(e.args[1:], e.kw, ("lb", "ub", "obj", "vtype", "name"))
            cat = GRBCAT.get(last_name(a["vtype"])) if "vtype" in a else "real"
            lo, hi = self.clean(a.get("lb", C(0))), self.clean(a.get("ub", C(10 ** 100)))
            if lo is NONE or hi is NONE:
                self.newvar(e, cat, mk("badbound", lo), mk("badbound", hi), a.get("name"))
                return
            inf = [x for x in (lo, hi) for y in tm.subterms(x) if y.op == "extf" and y.a[0].endswith("INFINITY")]
            lo = self.unbounded(lo, -1)
            hi = self.unbounded(hi, 1)
            if cat == "binary":
                lo = C(max(0, lo.a[0])) if tm.is_num(lo) else (C(0) if lo is NONE else mk("max", lo))
                hi = C(min(1, hi.a[0])) if tm.is_num(hi) else (C(1) if hi is NONE else mk("min", hi))
            self.newvar(e, cat, lo, hi, a.get("name"))
        elif n in ("addConstr", "addLConstr"):
            self.need(e)
            a = bindargs(e.args[1:], e.kw, ("rel", "name")) if len(e.args) <= 3 else None
            if a is None:
                raise Lost("addConstr with separate sides")
            rel = self.clean(a.get("rel", a.get("tempConstr", a.get("constr", NONE))))
            self.cons.append((e.result, rel, e.line))
        elif n == "remove":
            self.need(e)
            before = len(self.cons)
            self.cons = [c for c in self.cons if c[0] is not e.args[1]]
            if len(self.cons) == before:
                self.cons.append((None, mk("removed", e.args[1]), e.line))
        elif n == "setObjective":
            self.need(e)
            a = bindargs(e.args[1:], e.kw, ("expr", "sense"))
            self.objective = self.linear(self.clean(a["expr"]))
            if "sense" in a and a["sense"] is not NONE:
                self.direction = DIRECTION.get(last_name(a["sense"]))
            elif self.direction is None:
                self.direction = "min"
        elif n == "setParam":
            self.params.append((e.args[1:], e.path, e.line))
        elif n == "optimize":
            self.need(e)
            self.solved = self.model
        elif n in ("update", "setAttr", "reset", "dispose", "getVars"):
            if n == "setAttr":
                raise Lost("model.setAttr")
        else:
            raise Lost("model." + n)

    def unbounded(self, t, s):
        for y in tm.subterms(t):
            if y.op == "extf" and y.a[0].endswith("INFINITY"):
                v = tm.subst(t, {y: C(10 ** 100)})
                if tm.is_num(v):
                    return self.unbounded(v, s)
        if tm.is_num(t) and s * t.a[0] >= 1e20:
            return NONE
        return t

    # ---------------------------------------------------------------- expressions
    def pairs(self, t):
        """entries of a list of pairs or a mapping"""
        if t.op in ("list", "dict", "tuple"):
            out = []
            for x in t.a:
                if x.op != "tuple" or len(x.a) != 2:
                    raise Lost("expression entry " + tm.show(x)[:80])
                out.append((x.a[0], x.a[1]))
            return out
        raise Lost("expression " + tm.show(t)[:80])

    def linear(self, t):
        """{native variable: coefficient}"""
        t = self.clean(t)
        if t.op == "ext" and t.a[0] == "pulp.LpAffineExpression":
            pos = [x for x in t.a[1:] if not (x.op == "tuple" and len(x.a) == 2 and x.a[0].op == "c" and x.a[0].a[0] in ("e", "constant", "name"))]
            kw = {x.a[0].a[0]: x.a[1] for x in t.a[1:] if x not in pos}
            e = pos[0] if pos else kw.get("e", mk("list"))
            if len(pos) > 1 or kw.get("constant", C(0)) is not C(0):
                raise Lost("expression with a constant")
            if e.op in ("list", "dict", "tuple"):
                return dict(self.pairs(e))           # the last coefficient of a repeated variable
            return self.linear(e)
        if t.op == "ext" and t.a[0] == "pulp.lpSum" and len(t.a) == 2 and t.a[1].op in ("list", "tuple"):
            d = {}
            for x in t.a[1].a:
                for v, c in self.linear(x).items():
                    d[v] = tm.add(d.get(v, C(0)), c)
            return d
        if t.op == "ext" and t.a[0] in ("gurobipy.LinExpr", "gurobipy.quicksum") and len(t.a) == 2 and t.a[1].op == "list":
            d = {}
            for x in t.a[1].a:
                for v, c in ([(x.a[1], x.a[0])] if x.op == "tuple" and len(x.a) == 2 else self.linear(x).items()):
                    d[v] = tm.add(d.get(v, C(0)), c)
            return d
        if t in self.vars:
            return {t: C(1)}
        inner = [x for x in tm.subterms(t) if x.op == "ext" and x.a[0] in ("pulp.LpAffineExpression", "pulp.lpSum")]
        if inner:
            raise Lost("expression " + tm.show(t)[:80])
        zero = {v: C(0) for v in self.vars}
        if tm.subst(t, zero) is not C(0):
            raise Lost("expression " + tm.show(t)[:80])
        d = {}
        for v in self.vars:
            c = tm.subst(t, dict(zero, **{}) | {v: C(1)})
            if c is not C(0):
                d[v] = c
        if self.poly(d) is not t:
            raise Lost("expression " + tm.show(t)[:80])
        return d

    def poly(self, d):
        s = C(0)
        for v, c in d.items():
            s = tm.add(s, tm.mul(c, v))
        return s

    def relation(self, x):
        """normal form of a native constraint, with its name"""
        name = NONE
        if x.op == "tuple" and len(x.a) == 2:
            x, name = x.a
        if x.op == "ext" and x.a[0] == "pulp.LpConstraint":
            pos = [y for y in x.a[1:] if not (y.op == "tuple" and len(y.a) == 2 and y.a[0].op == "c" and y.a[0].a[0] in ("e", "sense", "name", "rhs"))]
            a = bindargs(pos, {y.a[0].a[0]: y.a[1] for y in x.a[1:] if y not in pos}, ("e", "sense", "name", "rhs"))
            if a.get("name", NONE) is not NONE:
                name = a["name"]
            s = PULPSENSE.get(last_name(a["sense"])) if "sense" in a else "="
            if s is None:
                raise Lost("sense")
            return rel(self.poly(self.linear(a["e"])), s, self.clean(a["rhs"]) if a.get("rhs", NONE) is not NONE else C(0)), name
        return self.clean(x), name

    def add(self, x, e):
        y = x.a[0] if x.op == "tuple" and len(x.a) == 2 else x
        if y.op in ("le", "lt", "eq", "not", "and", "or") or tm.is_bool(y) or (y.op == "ext" and y.a[0] == "pulp.LpConstraint"):
            r, name = self.relation(x)
            if name is NONE:
                name = mk("auto", C(len(self.cons)))
            name = self.now(name)
            if name.op not in ("c", "auto"):
                raise Lost("name of a constraint: " + tm.show(name)[:80])
            hit = [c for c in self.cons if c[0] is name]
            if hit:
                # pulp replaces a constraint of the same name
                self.cons = [c for c in self.cons if c[0] is not name]
            self.cons.append((name, r, e.line))
        else:
            self.objective = self.linear(y)

    def now(self, t):
        """t with the current number of native constraints put in"""
        d = {mk("len", mk("attr", self.model, "constraints")): C(len(self.cons)), mk("m", "numConstraints", self.model): C(len(self.cons))} if self.model is not None else {}
        t = tm.subst(t, d)

        def fold(x):
            if x.op in ("str", "cat") and all(hasattr(y, "op") for y in x.a):
                ys = [fold(y) for y in x.a]
                if all(y.op == "c" for y in ys):
                    return C("".join(str(y.a[0]) for y in ys))
            return x
        return fold(t)

    def drop_name(self, name):
        name = self.now(name)
        before = len(self.cons)
        self.cons = [c for c in self.cons if c[0] is not name]
        if len(self.cons) == before:
            self.cons.append((None, mk("removed", name), 0))


def rel(lhs, s, rhs):
    return le(lhs, rhs) if s == "<=" else (le(rhs, lhs) if s == ">=" else eq(lhs, rhs))


# ---------------------------------------------------------------- scenarios
class Run:
    def __init__(self, ctx, cname, objective="min", facts=()):
        self.ctx, self.repo, self.cname, self.facts = ctx, ctx.repo, cname, tuple(facts)
        self.I = interp(ctx.repo, module="switss.solver.milp")
        self.st = self.I.new_state()
        self.st.path = self.facts
        self.obj = self.I.instantiate(self.st, ctx.repo.cls(cname), [C(objective)] if objective else [], {}, None)

    def f(self, name):
        g = self.repo.find_method(self.repo.cls(self.cname), name)
        if g is None:
            raise Lost("%s has no %s" % (self.cname, name))
        return g

    def lst(self, xs):
        r = self.I.alloc(self.st, "list", None)
        for x in xs:
            self.I.log(self.st, r, "append", NONE, x, None)
        return r

    def call(self, name, *args, **kw):
        a = [self.lst(x) if isinstance(x, list) else x for x in args]
        n = Native(self.I, self.st, self.facts) if name == "add_constraint" else None
        v = self.I.call_func(self.st, self.f(name), [self.obj] + a, kw, None)
        v = tm.assume(self.I.freeze(self.st, v), *self.facts)
        return n.now(v) if n is not None else v

    def native(self):
        self.ctx.used(self.I)
        if self.I.unknowns:
            raise Lost("not resolved: " + ", ".join(sorted(self.I.unknowns))[:120])
        return Native(self.I, self.st, self.facts)


def known(*syms):
    return tuple(bnot(eq(s, NONE)) for s in syms)


def want_bounds(dom, lb, ub):
    if dom != "binary":
        return lb, ub
    lo = C(0) if lb is NONE else C(max(0, lb.a[0]))
    hi = C(1) if ub is NONE else C(min(1, ub.a[0]))
    return lo, hi


def shape_of(v):
    """category and bounds; a binary variable is an integer between 0 and 1"""
    cat = "integer" if v["cat"] == "binary" else v["cat"]
    return cat, v["lo"], v["hi"]


def bound(t):
    return "none" if t is NONE else tm.show(t)


def variables(ctx, cname):
    R = "C22.R1"
    l, u = sym("l", "num"), sym("u", "num")
    cases = [(d, a, b) for d in ("real", "integer") for a in (NONE, l, C(0)) for b in (NONE, u, C(1))]
    cases += [("binary", a, b) for a in (NONE, C(0), C(1)) for b in (NONE, C(0), C(1)) if not (a is C(1) and b is C(0))]
    for d, a, b in cases:
        con = "%s variable %s with bounds %s, %s" % (cname, d, bound(a), bound(b))

        def go():
            r = Run(ctx, cname, facts=known(l, u))
            i = r.call("add_variables_w_bounds", [tup(C(d), a, b)])
            n = r.native()
            f = r.f("add_variables_w_bounds")
            if len(n.vars) != 1:
                ctx.violation(R, con, "%d native variables are created" % len(n.vars), *where(ctx.repo, f))
                return
            v = list(n.vars.values())[0]
            want = ("integer" if d == "binary" else d,) + want_bounds(d, a, b)
            got = shape_of(v)
            ok = got == want
            if not ok and not all(resolved(x, extra=("badbound",)) for x in got[1:]):
                ok = None
            ctx.decide(R, con, ok, "the native variable is %s in [%s, %s]" % (v["cat"], bound(v["lo"]), bound(v["hi"])), v["file"], v["line"])
        attempt(ctx, R, con, go)
    for d in ("real", "integer", "binary"):
        con = "%s variables of domain %s without bounds" % (cname, d)

        def go():
            r = Run(ctx, cname)
            i = r.call("add_variables", [C(d)])
            n = r.native()
            want = ("integer" if d == "binary" else d,) + want_bounds(d, NONE, NONE)
            got = [shape_of(v) for v in n.vars.values()]
            ctx.decide(R, con, got == [want], "the native variables are %s" % [(c, bound(x), bound(y)) for c, x, y in got], *where(ctx.repo, r.f("add_variables")))
        attempt(ctx, R, con, go)


def attempt(ctx, R, con, go):
    try:
        go()
    except Lost as e:
        ctx.undecided(R, con, str(e)[:200])


LS = [sym("l%d" % i, "num") for i in range(4)]
CO = [sym("c%d" % i, "num") for i in range(6)]
RH = [sym("r%d" % i, "num") for i in range(4)]


def start(ctx, cname, objective="min", n=3):
    r = Run(ctx, cname, objective, facts=known(*LS))
    idx = r.call("add_variables_w_bounds", [tup(C("real"), LS[i], NONE) for i in range(n)])
    return r, idx


def native_vars(ctx, cname, r, n, idx, R, con):
    """native variable of each requested one, found by its lower bound"""
    f = r.f("add_variables_w_bounds")
    out = []
    for i in range(3):
        c = [t for t, v in n.vars.items() if v["lo"] is LS[i]]
        if len(c) != 1:
            raise Lost("native variable %d" % i)
        out.append(c[0])
    if len(set(n.varnames)) != len(n.varnames):
        ctx.violation(R, con + " names", "native variables share a name: %s" % n.varnames, *where(ctx.repo, f))
    return out


def indices(ctx, cname, R):
    con = "%s indices of new variables" % cname

    def go():
        r, idx = start(ctx, cname)
        f = r.f("add_variables_w_bounds")
        one = r.call("add_variables_w_bounds", [tup(C("real"), LS[3], NONE)])
        ok = idx.op in ("list", "tuple") and all(x.op == "c" for x in idx.a)
        n = r.native()
        if idx.op not in ("list", "tuple") or any(not tm.is_num(x) for x in idx.a):
            ctx.decide(R, con, False if resolved(idx) and idx.op not in ("for",) and tm.is_num(idx) or idx is NONE else None, "three new variables give %s" % tm.show(idx)[:80], *where(ctx.repo, f))
            return
        ctx.decide(R, con, len(set(idx.a)) == 3 and (one not in idx.a), "three new variables give %s, the next one %s" % (tm.show(idx), tm.show(one)), *where(ctx.repo, f))
        ctx.decide(R, con + ", a single variable", tm.is_num(one), "a single new variable gives %s" % tm.show(one), *where(ctx.repo, f))
    attempt(ctx, R, con, go)


def ix(idx, i):
    if idx.op in ("list", "tuple") and i < len(idx.a):
        return idx.a[i]
    raise Lost("indices " + tm.show(idx)[:80])


def constraints(ctx, cname):
    R = "C22.R2"
    indices(ctx, cname, "C22.R1")
    for s in ("<=", "=", ">="):
        con = "%s constraint %s" % (cname, s)

        def go():
            r, idx = start(ctx, cname)
            f = r.f("add_constraint")
            e = [tup(ix(idx, 2), CO[2]), tup(ix(idx, 0), CO[0])]
            r.call("add_constraint", e, C(s), RH[0])
            r.call("add_constraint", [tup(ix(idx, 1), CO[1])], C(s), RH[1])
            r.call("add_constraint", [tup(ix(idx, 1), CO[3]), tup(ix(idx, 0), CO[4]), tup(ix(idx, 1), CO[5])], C(s), RH[2])
            n = r.native()
            v = native_vars(ctx, cname, r, n, idx, "C22.R1", cname + " variables")
            want = [("two variables", rel(n.poly({v[2]: CO[2], v[0]: CO[0]}), s, RH[0])),
                    ("one variable", rel(n.poly({v[1]: CO[1]}), s, RH[1])),
                    ("a repeated variable", rel(n.poly({v[1]: tm.add(CO[3], CO[5]), v[0]: CO[4]}), s, RH[2]))]
            got = [c[1] for c in n.cons]
            lines = {c[1]: c[2] for c in n.cons}
            for (nm, w), g in zip(want, got if len(got) == 3 else [None] * 3):
                ctx.decide(R, con + " with " + nm, w in got or (False if g is None or resolved(g, methods=("addVar",), extra=("ext",)) else None),
                           "the native constraint is %s" % (show(n, v, g) if g is not None else "missing (%d constraints of 3)" % len(got)), where(ctx.repo, f)[0], lines.get(g) or where(ctx.repo, f)[1])
            ctx.decide(R, con + " adds nothing else", len(got) == 3, "three constraints give %d native ones" % len(got), *where(ctx.repo, f))
        attempt(ctx, R, con, go)


def show(n, v, t):
    return tm.show(tm.subst(t, {x: sym("x%d" % i, "num") for i, x in enumerate(v)}))[:150]


def same_obj(a, b):
    strip = lambda d: {k: x for k, x in d.items() if x is not C(0)}
    return strip(a) == strip(b)


def objective(ctx, cname):
    R = "C22.R3"
    for dr in ("min", "max", None):
        con = "%s objective %s" % (cname, dr or "with default direction")

        def go():
            r, idx = start(ctx, cname, dr)
            f = r.f("set_objective_function")
            sets = [[(0, CO[0]), (1, CO[1])], [(2, CO[2]), (0, CO[3])], [(1, CO[4]), (1, CO[5])]]
            for k, s in enumerate(sets):
                r.call("set_objective_function", [tup(ix(idx, i), c) for i, c in s])
                n = r.native()
                v = native_vars(ctx, cname, r, n, idx, "C22.R1", cname + " variables")
                want = {}
                for i, c in s:
                    want[v[i]] = tm.add(want.get(v[i], C(0)), c)
                got = n.objective
                ok = got is not None and same_obj(got, want)
                if got is not None and not ok and not all(resolved(x, methods=("addVar",), extra=("ext",)) for x in got.values()):
                    ok = None
                ctx.decide(R, con + ", set %d times" % (k + 1), ok, "the native objective is %s" % ("missing" if got is None else show(n, v, n.poly(got))), *where(ctx.repo, f))
                ctx.decide(R, con + " direction, set %d times" % (k + 1), n.direction == (dr or "min"), "the native direction is %s" % n.direction, *where(ctx.repo, f))
        attempt(ctx, R, con, go)


def removal(ctx, cname):
    R = "C22.R4"
    con = "%s removal" % cname

    def go():
        r, idx = start(ctx, cname)
        f = r.f("remove_constraint")
        add = lambda k: r.call("add_constraint", [tup(ix(idx, k), CO[k])], C("<="), RH[k])
        i0, i1 = add(0), add(1)
        steps = [("the first of two", lambda: r.call("remove_constraint", i0), {1})]
        i2 = None

        def third():
            nonlocal i2
            i2 = add(2)
            if all(x.op == "c" for x in (i1, i2)):
                ctx.decide(R, con + ": names", i1 is not i2, "the same index %s is given to two constraints that are both present" % tm.show(i2), *where(ctx.repo, r.f("add_constraint")))
        steps.append(("and adding another one", third, {1, 2}))
        steps.append(("the latest", lambda: r.call("remove_constraint", i2), {1}))
        steps.append(("the last one", lambda: r.call("remove_constraint", i1), set()))
        for nm, step, left in list(steps):
            if not steps:
                break
            step()
            if nm == "and adding another one" and i2 is i1:
                break
            n = r.native()
            v = native_vars(ctx, cname, r, n, idx, "C22.R1", cname + " variables")
            want = {rel(n.poly({v[k]: CO[k]}), "<=", RH[k]) for k in left}
            got = [c[1] for c in n.cons]
            ok = set(got) == want and len(got) == len(want)
            if not ok and any(g.op == "removed" and g.a[0].op not in ("c", "m") for g in got):
                ok = None
            if ok is False:
                steps.clear()
            ctx.decide(R, con + ": " + nm, ok, "left are %s" % [show(n, v, g) for g in got], *where(ctx.repo, f))
    attempt(ctx, R, con, go)


# ---------------------------------------------------------------- from_coefficients
def coefficients(ctx, cname):
    repo, R = ctx.repo, "C22.R5"
    f = repo.find_method(repo.cls(cname), "from_coefficients")
    L = LPModel(repo)
    ics = {k: v for k, v in L.intercepts().items() if not k.endswith(".from_coefficients")}
    A, b, o, dom, bnd = sym("A", "matrix"), sym("b", "matrix"), sym("opt", "matrix"), sym("domains", "list"), sym("bounds", "list")
    sp = mk("extf", "scipy.sparse.spmatrix")
    file, line = where(repo, f)
    for opt in (True, False):
        for wb in ((True, False) if cname != "LP" else (False,)):
            con = "%s.from_coefficients%s%s" % (cname, "" if opt else " without objective", " with bounds" if wb else "")
            L.created, L.snap = [], {}
            I = interp(repo, module=f.module.name, intercept=ics)
            st = I.new_state()
            facts = tuple(mk("isinst", x, sp) for x in (A, b, o)) + known(A, b, o, dom, bnd)
            st.path = facts
            lists = []
            if cname == "LP":
                for q in ("MILP.from_coefficients", "GurobiMILP.from_coefficients"):
                    g = repo.maybe(q)
                    if g is None:
                        continue

                    def stub(I, st, a, k, n, fn):
                        env = I.bind(st, fn, a, k, n)
                        if env is not None and env.get("domains") is not None:
                            lists.append((fn.qual, env["domains"]))
                        return NotImplemented
                    I.intercept[g.qual] = stub
            args = [mk("class", repo.cls(cname).qual), A, b, o if opt else NONE] + ([dom] if cname != "LP" else [])
            kw = {"sense": sym("sense", "str"), "objective": sym("objective", "str")}
            if cname != "LP":
                kw["bounds"] = bnd if wb else NONE
            v = I.call_func(st, f, args, kw, None)
            ctx.used(I)
            if cname == "LP":
                for con1, t in lists:
                    n, w = tm.assume(I.freeze(st, t), *facts), item(mk("attr", A, "shape"), 1)
                    ln = tm.mul(C(len(n.a[0].a)), n.a[1]) if n.op == "repeat" and n.a[0].op == "list" and all(x.op != "for" for x in n.a[0].a) else None
                    ctx.decide(R, con + " domains", None if ln is None else (ln is w or (False if resolved(ln) else None)), "%s domains are given for %s columns" % (ln and tm.show(ln), tm.show(w)), file, line)
            if v.op != "ref" or I.obj(st, v) is None or "$cons" not in I.obj(st, v).attrs:
                ctx.undecided(R, con, "returns %s" % tm.show(v)[:100])
                continue

            def clean(t):
                for _ in range(4):
                    refs = {}
                    for x in tm.subterms(t):
                        if x.op == "ref":
                            y = I.freeze(st, x)
                            if y is not x:
                                refs[x] = y
                    if not refs:
                        break
                    t = tm.subst(t, refs)
                return tm.assume(t, *facts)
            at = {k: clean(I.freeze(st, x)) for k, x in I.obj(st, v).attrs.items() if k.startswith("$")}
            ci = I.obj(st, v).cls
            native = "GurobiMILP" if cname == "GurobiMILP" else "MILP"
            isg = ci is not None and any(c.name == "GurobiMILP" for c in repo.mro(ci))
            ctx.decide(R, con + " backend", isg == (cname == "GurobiMILP"), "a %s is built" % (ci.name if ci else "?"), file, line)
            dims = [item(mk("attr", A, "shape"), 0), item(mk("attr", A, "shape"), 1)]

            # variables: one per column
            es = log_entries(at["$vars"])
            if es is None or len(es) != 1 or es[0][0] is not None:
                ctx.undecided(R, con + " variables", tm.show(at["$vars"])[:200])
            else:
                nm, d = es[0][1].a
                ok, msg = columns(d, dims[1], lambda i: (tup(get(dom, i), get(get(bnd, i), C(0)), get(get(bnd, i), C(1))) if wb else (get(dom, i) if cname != "LP" else C("real"))), nm.a[0], wb)
                ctx.decide(R, con + " variables", ok, msg, file, line)
            # objective
            if opt:
                ok, msg = columns(at["$objective"], dims[1], lambda i: tup(i, get(o, tup(i, C(0)))), "objective", False)
                ctx.decide(R, con + " objective", ok, msg, file, line)
            else:
                ctx.decide(R, con + " objective", at["$objective"] is NONE or (False if resolved(at["$objective"]) else None), "an objective is set: %s" % tm.show(at["$objective"])[:100], file, line)
            ctx.decide(R, con + " direction", at["$direction"] is kw["objective"] or (False if resolved(at["$direction"]) else None), "the direction is %s" % tm.show(at["$direction"])[:80], file, line)
            # constraints: one per row
            es = log_entries(at["$cons"])
            if es is None or len(es) != 1 or es[0][0] is None:
                ctx.undecided(R, con + " constraints", tm.show(at["$cons"])[:200])
                continue
            doms, g, val, syms = opened(es[0][0])
            if len(doms) != 1 or doms[0].op != "range" or val.op != "tuple" or len(val.a) != 3:
                ctx.undecided(R, con + " constraints", tm.show(at["$cons"])[:200])
                continue
            i = syms[0]
            full = doms[0] is mk("range", C(0), dims[0]) and g is TRUE
            ctx.decide(R, con + " one constraint per row", full or (False if resolved(doms[0], extra=("m",)) and resolved(g, extra=("m",)) else None),
                       "rows %s, documented all rows" % tm.show(doms[0])[:120], file, line)
            ctx.decide(R, con + " sense", val.a[1] is kw["sense"] or (False if resolved(val.a[1]) else None), "the sense is %s" % tm.show(val.a[1])[:80], file, line)
            w = get(b, tup(i, C(0)))
            ctx.decide(R, con + " right-hand side", val.a[2] is w or (False if resolved(val.a[2]) else None), "the right-hand side of row i is %s" % tm.show(val.a[2])[:100], file, line)
            ok, msg = row_entries(val.a[0], A, i, dims[1])
            ctx.decide(R, con + " coefficients", ok, msg, file, line)


def columns(d, n, want, kind, wb):
    """d lists want(i) for i = 0..n-1"""
    if d.op == "repeat" and d.a[0].op == "list" and len(d.a[0].a) == 1:
        k = sym("$k", "int")
        return (True if d.a[0].a[0] is want(k) and d.a[1] is n else (False if resolved(d.a[1]) and resolved(d.a[0]) else None)), "the entries are %s" % tm.show(d)[:150]
    if d.op != "list" or len(d.a) != 1 or d.a[0].op != "for":
        return None, tm.show(d)[:200]
    doms, g, v, s = opened(d.a[0])
    if len(doms) != 1 or doms[0].op != "range":
        return None, tm.show(d)[:200]
    w = want(s[0])
    ok = doms[0] is mk("range", C(0), n) and g is TRUE and v is w
    return (True if ok else (False if all(resolved(x) for x in (doms[0], g, v)) else None)), "entry i of %s is %s, documented %s for every column" % (tm.show(doms[0])[:60], tm.show(v)[:100], tm.show(w)[:80])


def row_entries(lhs, A, i, ncols):
    """the pairs (column, value) of the nonzero entries of row i"""
    for _ in range(4):
        nm = lambda x: x.a[0].a[0] if hasattr(x.a[0], "op") else x.a[0]
        d = {x: mk("attr", x.a[1], nm(x)) if x.op == "bound" else x.a[1] for x in tm.subterms(lhs) if (x.op == "bound" and nm(x) in ("indices", "data", "indptr", "nnz")) or (x.op == "conv" and nm(x) == "float")}
        if not d:
            break
        lhs = tm.subst(lhs, d)
    base = lhs
    if lhs.op == "upd" and lhs.a[1].op == "for":
        base = lhs.a[0]
        if base.op != "repeat":
            return None, tm.show(lhs)[:200]
        doms, g, v, s = opened(lhs.a[1], "$r")
        if v.op != "tuple" or len(v.a) != 2 or v.a[0] is not s[0]:
            return (False if resolved(v, methods=("getrow",)) and v.op == "tuple" else None), "entry %s of a row is filled with %s" % (tm.show(v.a[0])[:60] if v.op == "tuple" else "?", tm.show(v)[:100])
        n = base.a[1]
        v = v.a[1]
        fill = True
    elif lhs.op == "list" and len(lhs.a) == 1 and lhs.a[0].op == "for":
        doms, g, v, s = opened(lhs.a[0], "$r")
        n, fill = None, False
    else:
        return None, tm.show(lhs)[:200]
    if v.op != "tuple" or len(v.a) != 2:
        return None, tm.show(lhs)[:200]
    col, val = v.a
    # compressed rows
    sl = mk("slice", get(mk("attr", A, "indptr"), i), get(mk("attr", A, "indptr"), tm.add(i, C(1))))
    forms = [(mk("attr", mk("getrow", A, i), "indices"), mk("attr", mk("getrow", A, i), "data"), mk("attr", mk("getrow", A, i), "nnz")),
             (mk("sub", mk("attr", A, "indices"), sl), mk("sub", mk("attr", A, "data"), sl), tm.sub(sl.a[1], sl.a[0]))]
    ptr = [get(mk("attr", A, "indptr"), i), get(mk("attr", A, "indptr"), tm.add(i, C(1)))]
    csr = any((x.op == "getrow") or (x.op == "attr" and x.a[1] in ("indices", "data", "indptr")) for x in tm.subterms(lhs))
    if len(doms) != 1 or doms[0].op != "range":
        return None, tm.show(lhs)[:200]
    what = "row i gets the pairs %s for %s" % (tm.show(v)[:200], tm.show(doms[0])[:120])
    if csr:
        if doms[0] is mk("range", *ptr) and not fill and g is TRUE and col is get(mk("attr", A, "indices"), s[0]) and val is get(mk("attr", A, "data"), s[0]):
            return True, ""
        for ind, dat, nnz in forms:
            lens = {mk("len", ind), mk("len", dat), nnz}
            hi = doms[0].a[1]
            whole = doms[0].a[0] is C(0) and (hi in lens or (hi.op == "min" and set(hi.a) <= lens)) and g is TRUE and (not fill or n in lens)
            if whole and col is get(ind, s[0]) and val is get(dat, s[0]):
                return True, ""
        # only plain reads of rows are understood well enough to reject
        simple = all(x.op in ("get", "attr", "getrow", "sym", "c", "tuple", "len", "min", "range", "poly", "item", "slice", "sub", "le", "lt") for t in (v, doms[0], g) for x in tm.subterms(t))
        rows_ = {x for t in (v, doms[0]) for x in tm.subterms(t) if x.op == "getrow"}
        return (False if simple and rows_ and g is TRUE and not any(x.op == "attr" and x.a[1] == "indptr" for x in tm.subterms(v)) else None), what
    whole = doms[0] is mk("range", C(0), ncols)
    nz = g is TRUE or g is bnot(eq(get(A, tup(i, s[0])), C(0)))
    pair = col is s[0] and val is get(A, tup(i, s[0]))
    return (True if whole and nz and pair else (False if resolved(v) and resolved(g) and resolved(doms[0]) else None)), what


# ---------------------------------------------------------------- solver selection
FAMILY = {"gurobi": {"GUROBI_CMD", "GUROBI"}, "cbc": {"PULP_CBC_CMD", "COIN_CMD", "COINMP_DLL"}, "glpk": {"GLPK_CMD", "GLPK", "PYGLPK"}, "cplex": {"CPLEX_PY", "CPLEX_CMD", "CPLEX", "CPLEX_DLL"}}
LIMITS = {"gurobi": "TimeLimit", "glpk": "--tmlim", "cbc": "sec", "cplex": "set timelimit"}
GAPS = ("gapRel", "gapAbs", "fracGap", "MIPGap", "MIPGapAbs", "FeasibilityTol", "IntFeasTol", "OptimalityTol")


def solvers(ctx):
    R = "C22.R6"
    T, P = sym("timeout", "int"), sym("print_output", "bool")
    for name in ("cbc", "gurobi", "glpk", "cplex"):
        for t in (T, NONE):
            con = "MILP.solve with %s%s" % (name, "" if t is T else " without timeout")

            def go():
                r = Run(ctx, "MILP", facts=known(T) + (mk("isinst", T, mk("extf", "builtins.int")),))
                f = r.f("solve")
                r.call("set_objective_function", [])
                r.call("solve", C(name), t, P)
                n = r.native()
                file, line = where(ctx.repo, f)
                cmd = n.solved
                if cmd is None or cmd is NONE:
                    ctx.violation(R, con, "the program is not solved by a selected solver" if cmd is NONE else "the program is not solved", file, line)
                    return
                cmd = tm.assume(n.fz(cmd), *r.facts)
                if cmd.op != "ext":
                    raise Lost("solver " + tm.show(cmd)[:100])
                cls = cmd.a[0].split(".")[-1]
                kw = {x.a[0].a[0]: x.a[1] for x in cmd.a[1:] if x.op == "tuple" and len(x.a) == 2 and x.a[0].op == "c"}
                pos = [x for x in cmd.a[1:] if not (x.op == "tuple" and len(x.a) == 2 and x.a[0].op == "c")]
                if cls == "getSolver" and pos and pos[0].op == "c":
                    cls = pos.pop(0).a[0]
                ctx.decide(R, con + ": solver", (cls in FAMILY[name]) or (False if any(cls in x for x in FAMILY.values()) else None), "pulp's %s is used" % cls, file, line)
                if pos:
                    ctx.undecided(R, con, "positional options of %s" % cls)
                    return
                o = kw.get("options", mk("list"))
                opts = list(o.a) if o.op in ("list", "tuple") else ([] if o is NONE else None)
                if opts is None:
                    raise Lost("options " + tm.show(o)[:100])
                flat = []
                for x in opts:
                    flat += list(x.a) if x.op == "tuple" else [x]
                lim = [flat[i + 1] for i, x in enumerate(flat[:-1]) if x is C(LIMITS[name])]
                lim += [kw["timeLimit"]] if kw.get("timeLimit", NONE) is not NONE else []
                plain = {T: 1, mk("str", T): 1, mk("conv", "str", T): 1, mk("conv", C("str"), T): 1}
                if t is T:
                    good = bool(lim) and all(strip_str(x) is T for x in lim)
                    bad = (not lim and not any(T in set(tm.subterms(x)) for x in flat + list(kw.values()))) or (lim and all(resolved(x) for x in lim))
                    ctx.decide(R, con + ": time limit", good or (False if bad else None), "the time limit is %s" % ", ".join(tm.show(x) for x in lim) if lim else "no time limit is set", file, line)
                else:
                    ctx.decide(R, con + ": time limit", not lim or (False if all(resolved(x) for x in lim) else None), "a time limit is set: %s" % ", ".join(tm.show(x) for x in lim), file, line)
                msg = kw.get("msg", TRUE)
                ctx.decide(R, con + ": verbosity", msg is P or tm.truth(msg) is tm.truth(P) or (False if resolved(msg) else None), "msg is %s" % tm.show(msg)[:60], file, line)
                gaps = [(k, x) for k, x in kw.items() if k in GAPS] + [(x.a[0], flat[i + 1]) for i, x in enumerate(flat[:-1]) if x.op == "c" and x.a[0] in GAPS]
                for k, x in gaps:
                    ctx.decide(R, con + ": " + k, None if not tm.is_num(x) and x is not NONE else (x is NONE or x.a[0] <= 1e-6), "%s is %s: solutions that are not optimal are accepted" % (k, tm.show(x)), file, line)
            attempt(ctx, R, con, go)
    for t in (T, NONE):
        con = "GurobiMILP.solve%s" % ("" if t is T else " without timeout")

        def go():
            r = Run(ctx, "GurobiMILP", facts=known(T))
            f = r.f("solve")
            r.call("solve", C("gurobi"), t, P)
            n = r.native()
            file, line = where(ctx.repo, f)
            ctx.decide(R, con, n.solved is not None, "the program is not solved", file, line)
            ps = {}
            for (a, path, ln) in n.params:
                c = [l for l in (tm.assume(l, *r.facts) for l in path) if l is not TRUE]
                if len(a) == 2 and a[0].op == "c":
                    ps[a[0].a[0]] = (a[1], c)
            lim = ps.get("TimeLimit")
            if t is T:
                good = lim is not None and lim[0] is T and not lim[1]
                ctx.decide(R, con + ": time limit", good or (None if lim is not None and not resolved(lim[0]) else False), "the time limit is %s" % (tm.show(lim[0]) if lim else "not set"), file, line)
            else:
                ctx.decide(R, con + ": time limit", lim is None or lim[0].op == "extf" or (False if resolved(lim[0]) else None), "a time limit is set: %s" % (lim and tm.show(lim[0])), file, line)
            out = ps.get("OutputFlag")
            v = out[0] if out and not out[1] else None
            good = v is not None and (v is P or (tm.truth(tm.assume(v, P)) is TRUE and tm.truth(tm.assume(v, bnot(P))) is FALSE) or v.op == "conv")
            ctx.decide(R, con + ": verbosity", good or (False if v is not None and resolved(v) else None), "OutputFlag is %s" % (tm.show(v) if v is not None else "not set"), file, line)
            for k in ("MIPGap", "MIPGapAbs"):
                g = ps.get(k)
                ctx.decide(R, con + ": " + k, None if g is not None and not tm.is_num(g[0]) else (g is not None and g[0].a[0] <= 1e-6), "%s is %s: solutions that are not optimal are accepted" % (k, tm.show(g[0]) if g else "gurobi's default"), file, line)
        attempt(ctx, R, con, go)


def strip_str(t):
    if t.op in ("str", "conv", "fmt") and hasattr(t.a[-1], "op"):
        return t.a[-1]
    return t


# ---------------------------------------------------------------- values of the result
def values(ctx, cname):
    R = "C22.R7"
    con = "%s.solve result" % cname

    def go():
        r, idx = start(ctx, cname)
        f = r.f("solve")
        r.call("set_objective_function", [tup(ix(idx, 0), CO[0])])
        v = r.I.call_func(r.st, f, [r.obj, C("cbc") if cname == "MILP" else C("gurobi")], {}, None)
        n = r.native()
        file, line = where(ctx.repo, f)
        nv = native_vars(ctx, cname, r, n, idx, "C22.R1", cname + " variables")
        order = {ix(idx, i).a[0]: nv[i] for i in range(3)}
        seen = False
        for c, t in ite_cases(v):
            o = r.I.obj(r.st, t) if t.op == "ref" else None
            if o is None or "result_vector" not in o.attrs:
                raise Lost("result " + tm.show(t)[:80])
            vec = tm.assume(n.fz(o.attrs["result_vector"]), *r.facts)
            val = tm.assume(n.fz(o.attrs["value"]), *r.facts)
            if vec is NONE and val is NONE:
                continue
            while vec.op in ("ext", "conv", "app") and len(vec.a) >= 2 and vec.a[-1].op in ("list", "tuple"):
                vec = vec.a[-1]
            if vec.op not in ("list", "tuple") or len(vec.a) != 3:
                ctx.undecided(R, con + " vector", tm.show(vec)[:150])
                continue
            seen = True
            for i, x in enumerate(vec.a):
                w = {mk("m", "value", order[i]), mk("attr", order[i], "varValue"), mk("attr", order[i], "x"), mk("attr", order[i], "X")} if i in order else set()
                hit = x in w
                if not hit and len(order) > i:
                    hit = any(y is order[i] for y in tm.subterms(x)) and None
                    if hit is False:
                        hit = False
                ctx.decide(R, con + " entry %d" % i, hit, "entry %d is %s" % (i, show(n, nv, x)), file, line)
            obj = mk("attr", n.model, "objective")
            w = {mk("m", "value", obj), mk("attr", n.model, "objVal"), mk("attr", n.model, "ObjVal"), mk("ext", "pulp.value", obj)}
            leaves = [x for _, x in ite_cases(val) if x is not NONE]
            ctx.decide(R, con + " value", (bool(leaves) and all(x in w for x in leaves)) or (False if all(resolved(x, methods=("value", "addVar"), extra=("ext",)) for x in leaves) else None), "the value is %s" % show(n, nv, val), file, line)
        if not seen:
            ctx.undecided(R, con, "no result with a vector")
    attempt(ctx, R, con, go)


def lp(ctx):
    """the facade: a number of real variables"""
    R = "C22.R1"
    con = "LP.add_variables"

    def go():
        r = Run(ctx, "LP")
        r.call("add_variables", C(3))
        n = r.native()
        ctx.decide(R, con, [shape_of(v) for v in n.vars.values()] == [("real", NONE, NONE)] * 3, "three variables give %s" % [shape_of(v)[0] for v in n.vars.values()], *where(ctx.repo, r.f("add_variables")))
    attempt(ctx, R, con, go)


def run(ctx):
    ctx.rule("C22.R1", "native variables have the requested domain and bounds and distinct indices")
    ctx.rule("C22.R2", "native constraints have the requested coefficients, relation and right-hand side")
    ctx.rule("C22.R3", "the native objective is the last one set, in the requested direction")
    ctx.rule("C22.R4", "exactly the removed constraints are gone")
    ctx.rule("C22.R5", "from_coefficients builds one variable per column and one constraint per row")
    ctx.rule("C22.R6", "the solver name selects the solver, with the given time limit and verbosity")
    ctx.rule("C22.R7", "native statuses, vectors and values are reported with their meaning")
    for c in BACKENDS:
        ctx.part(c + " variables", variables, ctx, c)
        ctx.part(c + " constraints", constraints, ctx, c)
        ctx.part(c + " objective", objective, ctx, c)
        ctx.part(c + " removal", removal, ctx, c)
        ctx.part(c + " values", values, ctx, c)
        ctx.part(c + " status", c07.statuses, ctx, c, "C22.R7", True)
    for c in BACKENDS + ("LP",):
        ctx.part(c + " coefficients", coefficients, ctx, c)
    ctx.part("LP", lp, ctx)
    ctx.part("solvers", solvers, ctx)
