"""C06: the program built for a witness search is the documented one.

R1  construct_MILP, for every combination of mode, exact/relaxed, and kind of upper bound: system, bounds of every variable, domain
    and bounds of the indicator of every group, the coupling constraint of every member of a group, objective and direction.
R2  groups_from_labels, with the arguments construct_MILP uses, relates exactly the documented variables to each group.
R3  compute_upper_bounds solves the documented program and returns its solution (DTMCs) or value.
R4  the searches set exactly the weights of the chosen initialiser/updater, and take the certificate from the first entries.
R5  initialisers and updaters give every group one weight, by their documented formula."""
from .common import *
from .c05 import subst_fork

FORM = "switss.problem.formulations."
ITER = C(3)
METHS = ("fark_z_constraints", "fark_y_constraints", "in_proper_ec")
G = sym("groups", "groupmap")


def env(repo, I):
    rf = sym("rf", "rf")
    plain = mk("isinst", rf, mk("class", repo.cls("ReachabilityForm").qual))
    ecfree = tm.truth(mk("attr", rf, "is_ec_free"))
    return rf, plain, ecfree


CONFIGS = []
for _mode in ("min", "max"):
    for _relaxed in (True, False):
        for _ub in ("known", "plain", "solved", "infeasible", "none"):
            if _ub == "plain" and _mode == "max":
                continue
            for _back in ("pulp", "gurobi"):
                if _back == "gurobi" and _ub != "none":
                    continue
                CONFIGS.append((_mode, _relaxed, _ub, _back))


def construct(ctx, mode, relaxed, ub, back):
    repo = ctx.repo
    f = repo.func(FORM + "construct_MILP")
    con = "construct_MILP(%s, %s, upper bounds %s, %s)" % (mode, "relaxed" if relaxed else "exact", ub, back)
    L = LPModel(repo)
    ics = L.intercepts()
    gcalls, ucalls = [], []
    UB = sym("upper_bounds", "vec")
    thr, solver = sym("threshold", "num"), sym("upper_bound_solver", "str")

    def groups(I, st, a, k, n, fn):
        e = I.bind(st, fn, a, k, n)
        gcalls.append({x: I.freeze(st, y) for x, y in e.items()})
        return G

    def upper(I, st, a, k, n, fn):
        e = I.bind(st, fn, a, k, n)
        ucalls.append({x: I.freeze(st, y) for x, y in e.items()})
        return tup(C({"solved": "optimal", "infeasible": "infeasible", "none": "timeout"}.get(ub, "optimal")), UB)
    for nm, h in (("groups_from_labels", groups), ("compute_upper_bounds", upper)):
        if repo.maybe(FORM + nm) is not None:
            ics[FORM + nm] = h
        else:
            ctx.undecided("C06.R1", con, "%s does not exist" % nm)
            return
    I = interp(repo, module="switss.problem.formulations", intercept=ics)
    st = I.new_state()
    rf, plain, ecfree = env(repo, I)
    labels = sym("labels", "array")
    facts = [bnot(eq(UB, NONE))]
    facts.append(plain if ub in ("plain", "known") else bnot(plain) if mode == "min" else plain)
    facts.append(ecfree if ub in ("solved", "infeasible") else bnot(ecfree) if ub == "none" else TRUE)
    st.path = tuple(x for x in facts if x is not TRUE)
    kw = {"mode": C(mode), "labels": labels, "relaxed": TRUE if relaxed else FALSE, "upper_bound_solver": solver, "modeltype_str": C(back)}
    if ub == "known":
        kw["known_upper_bounds"] = UB
    v = I.freeze(st, I.call_func(st, f, [rf, thr], kw, None))
    ctx.used(I)
    R = "C06.R1"
    fails = any(e.kind == "assert" and e.args[0] is FALSE for e in I.events) or st.dead
    if ub == "none" and not relaxed and back == "pulp":
        ctx.decide(R, con, True if fails else (None if not resolved(v, refs=tuple(L.created), extra=("newvar",), methods=METHS + ("fark_constraints",)) else False),
                   "an exact search without upper bounds is not refused for a backend without indicator constraints", *where(repo, f))
        return
    if ub == "infeasible":
        ok = v.op == "tuple" and v.a and v.a[0] is NONE
        ctx.decide(R, con, True if ok else (False if v.op == "tuple" and v.a[0].op == "ref" else None), "does not report an infeasible bound computation: returns %s" % tm.show(v)[:150], *where(repo, f))
        return
    if fails:
        ctx.violation(R, con, "fails although the program can be built", *where(repo, f))
        return
    if v.op != "tuple" or len(v.a) != 2 or v.a[0].op != "ref" or v.a[0] not in L.created:
        ctx.undecided(R, con, "returns %s" % tm.show(v)[:200])
        return
    if ucalls:
        u = ucalls[0]
    o = I.obj(st, v.a[0])
    prog = {k: subst_fork(I.freeze(st, x)) for k, x in o.attrs.items() if k.startswith("$")}
    if prog["$coeff"] is NONE or prog["$coeff"].op != "tuple":
        ctx.undecided(R, con, "not built from coefficients")
        return
    cname = o.cls.name
    ctx.decide(R, con + " backend", cname == ("GurobiMILP" if back == "gurobi" else "MILP"), "built with %s" % cname, *where(repo, f))
    A, b, opt, dom, sns, _, bnds = prog["$coeff"].a
    sysc = mk("m", METHS[0] if mode == "min" else METHS[1], rf, thr)
    M, rhs = item(sysc, 0), item(sysc, 1)
    sysm = mk("attr", rf, "system")
    D = tm.add(mk("attr", sysm, "N" if mode == "min" else "C"), C(-2))
    k = sym("k", "int")
    fk = [le(C(0), k), lt(k, D)]
    refs = tuple(L.created)
    cmp_ = lambda nm, g, w, what: compare(ctx, R, con + " " + nm, g, w, f, what, methods=METHS, refs=refs, extra=("newvar",))
    cmp_("matrix", A, M, "matrix of the program")
    cmp_("right-hand side", b, rhs, "right-hand side of the program")
    cmp_("relation", sns if sns is not NONE else C("<="), C("<="), "relation of the rows")
    cmp_("direction", prog["$direction"] if prog["$direction"] is not NONE else C("min"), C("min"), "direction")
    g = tm.assume(get(dom, k), *fk) if dom is not NONE else C("real")
    cmp_("domains", g, C("real"), "domain of a variable")
    # bounds
    want_ub = {"plain": C(1), "known": get(UB, k), "solved": get(UB, k), "none": NONE}[ub]
    if mode == "min":
        want_ub = ite(tm.truth(mk("m", "in_proper_ec", rf, k)), C(0), want_ub)
    if bnds is NONE:
        only = log_entries(prog["$cons"])
        ctx.decide(R, con + " bounds", False if only is not None and len(only) == 1 else None, "the variables have no bounds", *where(repo, f))
    else:
        bd = get(bnds, k)
        cmp_("lower bound", tm.assume(item(bd, 0), *fk), C(0), "lower bound of a variable")
        cmp_("upper bound", tm.assume(item(bd, 1), *fk), want_ub, "upper bound of a variable")
    # indicators
    domain = "real" if relaxed else "binary"
    hi = NONE if ub == "none" else C(1)
    vs = log_entries(prog["$vars"])
    spec_ = mk("list", tup(C(domain), C(0), hi))
    indexpr = None
    if vs is None or len(vs) != 1 or vs[0][0] is None:
        ctx.undecided(R, con + " indicators", tm.show(prog["$vars"])[:200])
    else:
        doms, gd, val, syms = opened(vs[0][0])
        if not (len(doms) == 1 and doms[0] in (mk("keys", G), G) and gd is TRUE and val.op == "tuple" and len(val.a) == 2):
            ctx.undecided(R, con + " indicators", tm.show(prog["$vars"])[:200])
        else:
            sp = val.a[1]
            if ub == "none" and domain == "binary":
                # a binary variable is bounded by its domain
                ok = sp.op == "list" and len(sp.a) == 1 and item(sp.a[0], 0) is C("binary")
                ctx.decide(R, con + " indicator of a group", True if ok else None, tm.show(sp))
            else:
                cmp_("indicator of a group", sp, spec_, "domain and bounds of an indicator")
            indexpr = lambda key: mk("newvar", v.a[0], tup(key), sp)
    # returned mapping and objective
    ind = v.a[1]
    obj = prog["$objective"]
    if indexpr is not None:
        r = relation(ind)
        if r is None or len(r) != 1:
            ctx.undecided(R, con + " mapping", tm.show(ind)[:200])
        else:
            doms, gd, key_, el, syms = r[0]
            if len(doms) == 2 and doms[0] in (mk("keys", G), G) and gd is TRUE:
                cmp_("mapping of indicators", tup(key_, doms[1], el), tup(indexpr(syms[0]), get(G, syms[0]), syms[1]), "indicator, group and member")
            else:
                ctx.undecided(R, con + " mapping", tm.show(ind)[:200])
        oe = log_entries(obj) if obj is not NONE else None
        if oe is None or len(oe) != 1 or oe[0][0] is None:
            ctx.undecided(R, con + " objective", tm.show(obj)[:200])
        else:
            doms, gd, val, syms = opened(oe[0][0])
            if len(doms) == 1 and gd is TRUE and val.op == "tuple" and len(val.a) == 2:
                if doms[0] is mk("keys", ind) or doms[0] is ind:
                    cmp_("objective", val, tup(syms[0], C(1)), "objective entry of an indicator")
                elif doms[0] in (mk("keys", G), G):
                    cmp_("objective", val, tup(indexpr(syms[0]), C(1)), "objective entry of an indicator")
                else:
                    ctx.undecided(R, con + " objective", tm.show(obj)[:200])
            else:
                ctx.undecided(R, con + " objective", tm.show(obj)[:200])
    elif obj is NONE and False:
        pass
    zero = tm.assume(get(opt, k), *fk)
    if obj is NONE:
        ctx.violation(R, con + " objective", "no objective over the indicators is set", *where(repo, f))
    elif zero is not C(0) and opt is not NONE:
        # replaced by the objective that is set later
        pass
    # coupling
    if indexpr is not None:
        coupling(ctx, R, con, f, prog["$cons"], indexpr, UB, ub, back, refs)
    # groups
    if len(gcalls) != 1:
        ctx.undecided("C06.R2", con, "%d calls of groups_from_labels" % len(gcalls))
    else:
        group_rule(ctx, con, mode, relaxed, gcalls[0], rf, labels)
    # bound computation
    for u in ucalls[:1]:
        ps = list(u)
        u2 = {x: subst_fork(y) for x, y in u.items()}
        cmp_("bound computation", tup(u2.get(ps[0], NONE), u2.get(ps[1], NONE), u2.get("solver", NONE)), tup(M, rhs, solver), "matrix, right-hand side and solver of the bound computation")
    ctx.count("programs")


def coupling(ctx, R, con, f, cons, indexpr, UB, ub, back, refs):
    repo = ctx.repo
    es = log_entries(cons)
    real = ub == "none" and back == "gurobi" and "exact" in con
    if es is None or len(es) != 1 or es[0][0] is None:
        if es is not None and not es:
            ctx.violation(R, con + " coupling", "no constraint couples variables and indicators", *where(repo, f))
        else:
            ctx.undecided(R, con + " coupling", tm.show(cons)[:200])
        return
    doms, gd, val, syms = opened(es[0][0])
    if not (len(doms) == 2 and doms[0] in (mk("keys", G), G) and doms[1] is get(G, syms[0])):
        ctx.undecided(R, con + " coupling", tm.show(cons)[:200])
        return
    if gd is not TRUE:
        ctx.decide(R, con + " coupling", False if resolved(gd, methods=METHS) else None, "members of a group are coupled only if %s" % tm.show(gd)[:150], *where(repo, f))
        return
    x, s = syms[1], indexpr(syms[0])
    if real:
        want = tup(C("indicator"), s, x)
        compare(ctx, R, con + " coupling", val, want, f, "indicator constraint", methods=METHS, refs=refs, extra=("newvar",))
        return
    want_c = {"plain": C(1), "none": C(1)}.get(ub, get(UB, x))
    r = linear(val)
    if r is None or set(r[0]) != {x, s}:
        bad = r is not None and resolved(val, methods=METHS, refs=refs, extra=("newvar",))
        ctx.decide(R, con + " coupling", False if bad else None, "the constraint of a member is %s" % tm.show(val)[:200], *where(repo, f))
        return
    co, sense, rhs = r
    cx = co[x]
    if not tm.is_num(cx) or cx.a[0] == 0:
        ctx.undecided(R, con + " coupling", tm.show(val)[:200])
        return
    if cx.a[0] < 0:
        sense = FLIP.get(sense, sense)
    got = tup(C(sense), tm.div(tm.neg(co[s]), cx), tm.div(rhs, cx))
    compare(ctx, R, con + " coupling", got, tup(C("<="), want_c, C(0)), f, "relation, factor of the indicator and right-hand side of a member's constraint",
            methods=METHS, refs=refs, extra=("newvar",))


def linear(v):
    """{variable: coefficient}, sense, rhs of a recorded constraint"""
    if v.op != "tuple" or len(v.a) != 3 or v.a[0].op not in ("list", "tuple") or v.a[1].op != "c":
        return None
    co = {}
    for t in v.a[0].a:
        if t.op != "tuple" or len(t.a) != 2:
            return None
        co[t.a[0]] = tm.add(co[t.a[0]], t.a[1]) if t.a[0] in co else t.a[1]
    return co, v.a[1].a[0], v.a[2]


def ints(t):
    """strict comparisons of integers as non-strict ones"""
    m = {}
    for x in tm.subterms(t):
        if x.op == "lt":
            m[x] = tm.le0(tm.add(x.a[0], C(1)))
    return tm.subst(t, m) if m else t


def group_rule(ctx, con, mode, relaxed, call, rf, labels):
    repo = ctx.repo
    f = repo.func(FORM + "groups_from_labels")
    sysm = mk("attr", rf, "system")
    D = tm.add(mk("attr", sysm, "N" if mode == "min" else "C"), C(-2))
    iba = mk("attr", rf, "index_by_state_action")
    iba2 = mk("attr", sysm, "index_by_state_action")
    e0, e1, e2 = (sym("$w%d" % i, "any") for i in range(3))
    sbl = get(mk("attr", sysm, "states_by_label"), get(labels, e0))
    for given in (False, True):
        I = interp(repo, module="switss.problem.formulations")
        st = I.new_state()
        st.path = (bnot(eq(labels, NONE)),)
        args = dict(call)
        if not given:
            args = {k: (tm.subst(x, {labels: NONE})) for k, x in args.items()}
        v = I.freeze(st, I.call_func(st, f, [], args, None))
        ctx.used(I)
        name = "%s groups %s" % (con.split(",")[0] + ", " + ("relaxed" if relaxed else "exact") + ")", "with labels" if given else "without labels")
        if given and mode == "min":
            want = [([mk("range", C(0), mk("len", labels)), sbl], tm.le0(tm.add(tm.sub(e1, D), C(1))), get(labels, e0), e1, [e0, e1])]
        elif given:
            row = get(iba2, tup(e1, e2))
            want = [([mk("range", C(0), mk("len", labels)), sbl, get(mk("attr", sysm, "actions_by_state"), e1)],
                     tm.le0(tm.add(tm.sub(row, D), C(1))), get(labels, e0), row, [e0, e1, e2])]
        elif mode == "max" and not relaxed:
            want = [([mk("range", C(0), D)], TRUE, item(get(tm.inv(iba), e0), 0), e0, [e0])]
        else:
            want = [([mk("range", C(0), D)], TRUE, e0, e0, [e0])]
        got = relation(v)
        if got is not None:
            got = [(d, ints(same_index(g)), same_index(k_), same_index(x), s) for d, g, k_, x, s in got]
            want = [(d, ints(same_index(g)), same_index(k_), same_index(x), s) for d, g, k_, x, s in want]
        r = same_relation(got, want)
        if r is not True and (got is None or not all(resolved(x, methods=()) for e in got for x in list(e[0]) + [e[1], e[2], e[3]])):
            r = None
        if r is None and got is not None and all(resolved(x) for e in got for x in list(e[0]) + [e[1], e[2], e[3]]) and comparable(got, want):
            r = False
        ctx.decide("C06.R2", name, r, "relates %s ; documented: %s" % (show_rel(got), show_rel(want)), *where(repo, f))


def same_index(t):
    """the form's index map is its system's"""
    rf = sym("rf", "rf")
    return tm.subst(t, {mk("attr", rf, "index_by_state_action"): mk("attr", mk("attr", rf, "system"), "index_by_state_action")})


def comparable(a, b):
    """an entry of the result ranges over fewer or other domains than documented"""
    return len(a) == len(b) and all(len(x[0]) <= len(y[0]) and all(d.op == "range" or d.op == "get" for d in x[0]) for x, y in zip(a, b))


def show_rel(r):
    if r is None:
        return None
    return "; ".join("%s -> %s for %s if %s" % (tm.show(k), tm.show(x), ", ".join("%s in %s" % (tm.show(s), tm.show(d)) for s, d in zip(sy, ds)), tm.show(g)) for ds, g, k, x, sy in r)[:500]


# ---------------------------------------------------------------- R3
def upper_bounds(ctx):
    repo = ctx.repo
    f = repo.func(FORM + "compute_upper_bounds")
    con = "compute_upper_bounds"
    L = LPModel(repo)
    I = interp(repo, module="switss.problem.formulations", intercept=L.intercepts())
    st = I.new_state()
    M, rhs, solver, timeout = sym("matr", "array"), sym("rhs", "vec"), sym("solver", "str"), sym("timeout", "num")
    v = I.freeze(st, I.call_func(st, f, [M, rhs], {"solver": solver, "timeout": timeout}, None))
    ctx.used(I)
    R = "C06.R3"
    s = L.last()
    if len(s) != 1 or s[0]["prog"]["$coeff"].op != "tuple":
        ctx.undecided(R, con, "%d programs" % len(s))
        return
    s = s[0]
    A, b, opt, dom, sns, _, bnds = s["prog"]["$coeff"].a
    n = item(mk("attr", M, "shape"), 1)
    rowsn = item(mk("attr", M, "shape"), 0)
    k = sym("k", "int")
    fk = [le(C(0), k), lt(k, n)]
    cmp_ = lambda nm, g, w, what: compare(ctx, R, con + " " + nm, g, w, f, what, refs=(s["lp"],))
    cmp_("matrix", A, M, "matrix")
    cmp_("right-hand side", b, rhs, "right-hand side")
    cmp_("relation", sns if sns is not NONE else C("<="), C("<="), "relation")
    cmp_("direction", s["prog"]["$direction"], C("max"), "direction")
    cmp_("objective", tm.assume(get(opt, k), *fk), C(1), "objective coefficient")
    cmp_("solver", s["opts"].get("solver", NONE), solver, "solver")
    cmp_("timeout", s["opts"].get("timeout", NONE), timeout, "time limit")
    single, other, bad = var_constraints(s["prog"]["$cons"], k, fk)
    if bad or other or bnds is not NONE:
        ctx.undecided(R, con + " bounds", "; ".join(bad or ["not resolved"]))
    else:
        r, msg = same_bounds(single, [(TRUE, ">=", C(0))])
        ctx.decide(R, con + " bounds", r, msg, *where(repo, f))
    asserted = [e.args[0] for e in I.events if e.kind == "assert"]
    v = tm.assume(v, *asserted)
    res = s["result"]
    st_, vec = item(v, 0), item(v, 1)
    cmp_("status", st_, mk("attr", res, "status"), "reported status")
    sq = eq(tm.add(n, C(1)), rowsn)
    for nm, cond, w in (("one action per state", sq, get(mk("attr", res, "result_vector"), k)), ("several actions", bnot(sq), mk("attr", res, "value"))):
        cmp_("bounds, " + nm, tm.assume(get(tm.assume(vec, cond), k), cond, *fk), w, "bound of a variable")


# ---------------------------------------------------------------- R4
def searches(ctx, cname):
    repo = ctx.repo
    f = repo.func(cname + "._solveiter")
    L = LPModel(repo)
    ics = L.intercepts()
    lp = []
    IND = sym("indicators", "groupmap")
    ccalls = []

    def construct_(I, st, a, k, n, fn):
        e = I.bind(st, fn, a, k, n)
        ccalls.append({x: I.freeze(st, y) for x, y in e.items()})
        r = L.fresh(I, st, n, "MILP")
        lp.append(r)
        return tup(r, IND)
    ics[FORM + "construct_MILP"] = construct_
    opq = {repo.cls("Subsystem").qual}
    I = interp(repo, module=f.module.name, intercept=ics, opaque=opq)
    I.sorts = {"model": "AbstractMDP"}
    st = I.new_state()
    rf, thr, mode, labels, timeout = sym("rf", "rf"), sym("threshold", "num"), sym("mode", "str"), sym("labels", "array"), sym("timeout", "num")
    ci = repo.cls(cname)
    ini, upd = sym("initializertype", "any"), sym("updatertype", "any")
    init = [sym("solver", "str")] if cname == "MILPExact" else []
    kwi = {} if cname == "MILPExact" else {"iterations": ITER, "initializertype": ini, "updatertype": upd, "solver": sym("solver", "str")}
    obj = I.instantiate(st, ci, init, kwi, None)
    st.path = (mk("in", mode, tup(C("min"), C("max"))),)
    v = I.call_func(st, f, [obj, rf, thr, mode, labels], {"timeout": timeout}, None)
    ctx.used(I)
    R = "C06.R4"
    if len(ccalls) < 1:
        ctx.undecided(R, cname, "does not call construct_MILP")
        return
    c = ccalls[0]
    w = dict(rf=rf, threshold=thr, mode=mode, labels=labels, relaxed=FALSE if cname == "MILPExact" else TRUE)
    for n, x in w.items():
        g = c.get(n, NONE)
        ctx.decide(R, "%s builds the program with %s" % (cname, n), True if g is x else (False if resolved(g) else None), "%s is %s, documented %s" % (n, tm.show(g), tm.show(x)), *where(repo, f))
    return I, st, f, L, lp, v, obj


def exact(ctx):
    r = searches(ctx, "MILPExact")
    if r is None:
        return
    I, st, f, L, lp, v, obj = r
    R = "C06.R4"
    ss = L.last()
    if len(ss) != 1:
        ctx.undecided(R, "MILPExact", "%d programs are solved" % len(ss))
        return
    p = ss[0]["prog"]
    changed = [k for k in ("$cons", "$vars") if p[k].a] + [k for k in ("$objective",) if p[k] is not NONE]
    ctx.decide(R, "MILPExact solves the program it built", not changed and ss[0]["lp"] in lp, "the program is changed before it is solved: %s" % ", ".join(changed), *where(ctx.repo, f))


def qsheur(ctx):
    """objective and constraints of every program that is solved, over three iterations"""
    repo = ctx.repo
    r = searches(ctx, "QSHeur")
    if r is None:
        return
    I, st, f, L, lp, v, obj = r
    R = "C06.R4"
    ss = L.last()
    n = ITER.a[0]
    if len(ss) != n:
        full = not any(x["binders"] for x in ss)
        ctx.decide(R, "QSHeur iterations", False if full else None, "%d programs are solved in %d iterations" % (len(ss), n), *where(repo, f))
        if not full:
            return
    want = dict(reachability_form=sym("rf", "rf"), mode=sym("mode", "str"), indicator_to_group=sym("indicators", "groupmap"))
    solver = sym("solver", "str")

    def app(t, kind, typ):
        """the receiver is the chosen type's object for this search"""
        if t.op != "app" or t.a[0] is not typ:
            return None if not resolved(t, extra=("m", "app")) else False
        kw = {x.a[0].a[0]: x.a[1] for x in t.a[1:] if x.op == "tuple" and len(x.a) == 2 and x.a[0].op == "c" and isinstance(x.a[0].a[0], str)}
        for k, w in want.items():
            if kw.get(k) is not w:
                return None if k not in kw else False
        if kind == "initialize" and kw.get("solver", solver) is not solver:
            return False
        return True
    vec = lambda s: mk("attr", s["result"], "result_vector")
    for i, s in enumerate(ss):
        o = s["prog"]["$objective"]
        con = "QSHeur objective of iteration %d" % i
        if o is NONE:
            ctx.decide(R, con, False, "no weights are set", *where(repo, f))
        elif o.op != "m":
            ctx.undecided(R, con, tm.show(o)[:200])
        else:
            name = o.a[0]
            w = "initialize" if i == 0 else "update"
            if name != w:
                ctx.decide(R, con, False if name in ("initialize", "update") else None, "the weights are %s" % tm.show(o)[:150], *where(repo, f))
            else:
                a = app(o.a[1], name, sym("initializertype" if i == 0 else "updatertype", "any"))
                ctx.decide(R, con + " from", a, "computed by %s" % tm.show(o.a[1])[:200], *where(repo, f))
                if i:
                    ctx.decide(R, con + " last result", True if o.a[2:] == (vec(ss[i - 1]),) else (False if all(tm.has_op(x, "solution") and resolved(x, refs=tuple(lp)) for x in o.a[2:]) else None),
                               "the weights are computed from %s, not the last result" % tm.show(o)[-120:], *where(repo, f))
                else:
                    ctx.ok(R, con + " last result", "initial weights")
        cons = s["prog"]["$cons"]
        con = "QSHeur constraints of iteration %d" % i
        es = log_entries(cons)
        if es is None:
            ctx.undecided(R, con, tm.show(cons)[:200])
            continue
        got = []
        for fr, val in es:
            d = fr.a[0] if fr is not None else ()
            if len(d) == 1 and d[0].op == "m" and d[0].a[0] == "constraints" and fr.a[1] is TRUE:
                got.append(d[0])
            else:
                got.append(None)
        if None in got:
            ctx.undecided(R, con, tm.show(cons)[:200])
            continue
        need = [vec(x) for x in ss[:i]]
        have = [g.a[2] for g in got if len(g.a) == 3]
        ctx.decide(R, con, True if have == need else False, "the program has the updater's constraints for %s, documented: for every earlier result" % [tm.show(x) for x in have], *where(repo, f))
    ctx.count("iterations unrolled", n)


# ---------------------------------------------------------------- R5
def large(t):
    """a bound that is only meant to keep numbers representable"""
    if tm.is_num(t):
        return t.a[0] >= 1e5
    if t.op in ("max", "maxv"):
        xs = t.a[0].a if len(t.a) == 1 and t.a[0].op == "list" else t.a
        return any(large(x) for x in xs if x.op == "c")
    if t.op in ("min", "minv"):
        xs = t.a[0].a if len(t.a) == 1 and t.a[0].op == "list" else t.a
        return bool(xs) and all(large(x) for x in xs)
    return False


def strip_caps(t):
    """the cap of a weight is an implementation constant"""
    m = {}
    for x in tm.subterms(t):
        if x.op in ("min", "minv"):
            xs = x.a[0].a if len(x.a) == 1 and x.a[0].op == "list" else x.a
            rest = [y for y in xs if not large(y)]
            if len(rest) == 1 and rest[0].op != "for":
                m[x] = rest[0]
    return tm.subst(t, m) if m else t


def weights(ctx, cname, kind):
    repo = ctx.repo
    ci = repo.cls(cname)
    f = repo.find_method(ci, kind) if hasattr(repo, "find_method") else repo.func("%s.%s" % (cname, kind))
    f = f if f is not None else repo.func("%s.%s" % (cname, kind))
    for mode in ("min", "max"):
        I = interp(repo, module=ci.module.name)
        st = I.new_state()
        rf, IND, solver, last = sym("rf", "rf"), sym("indicators", "groupmap"), sym("solver", "str"), sym("last_result", "vec")
        obj = I.instantiate(st, ci, [], {"reachability_form": rf, "mode": C(mode), "indicator_to_group": IND, **({"solver": solver} if cname.startswith("Inverse") and kind == "initialize" else {})}, None)
        v = I.freeze(st, I.call_func(st, f, [obj] + ([last] if kind == "update" else []), {}, None))
        ctx.used(I)
        R = "C06.R5"
        con = "%s.%s (%s)" % (cname, kind, mode)
        es = log_entries(v)
        if es is None or len(es) < 1 or any(x is None for x, _ in es):
            ctx.undecided(R, con, tm.show(v)[:200])
            continue
        keys = mk("keys", IND)
        total = []
        bad = False
        for fr, _ in es:
            doms, gd, val, syms = opened(fr, "$g")
            if val.op == "ite" and len(doms) == 1:
                for c2, v2 in ite_cases(val):
                    if len(doms) == 1 and doms[0] in (keys, IND) and v2.op == "tuple" and len(v2.a) == 2:
                        total.append((band(gd, c2), v2, syms[0]))
                    else:
                        bad = True
                if bad:
                    ctx.undecided(R, con, tm.show(v)[:200])
                    break
                continue
            if len(doms) != 1 or doms[0] not in (keys, IND) or val.op != "tuple" or len(val.a) != 2:
                ctx.undecided(R, con, tm.show(v)[:200])
                bad = True
                break
            total.append((gd, val, syms[0]))
        if bad:
            continue
        g = sym("$g0", "any")
        cover = bor(*[x[0] for x in total])
        if not tm.bool_equiv(cover, TRUE):
            ctx.decide(R, con + " groups", False if resolved(cover, methods=("max_z_state",)) else None, "only groups with %s get a weight" % tm.show(cover)[:150], *where(repo, f))
            continue
        ctx.ok(R, con + " groups", "one weight for every group")
        var = lambda nm: mk("m", nm, rf, ("solver", solver)) if False else None
        members = get(IND, g)
        for gd, val, _ in total:
            wt = strip_caps(tm.assume(item(val, 1), gd))
            if item(val, 0) is not g:
                ctx.decide(R, con + " index", False if resolved(item(val, 0)) else None, "the weight is given to %s" % tm.show(item(val, 0)), *where(repo, f))
                continue
            base, expect, zero = formula(cname, kind, mode, rf, IND, g, members, last, wt, solver)
            if expect is None:
                ctx.undecided(R, con, "no documented formula; " + tm.show(wt)[:200])
                continue
            pos = lt(C(0), base) if base is not None else TRUE
            if base is not None and tm.assume(gd, pos) is FALSE:
                if item(val, 1) is not zero and zero is not None:
                    ctx.decide(R, con + " otherwise", False if resolved(wt) else None, "groups without value get %s" % tm.show(wt)[:150], *where(repo, f))
                continue
            meths = ("max_z_state", "max_z_state_action", "max_y_state", "max_y_state_action", "pr_min")
            nonempty = bnot(eq(mk("len", members), C(0)))
            got = tm.assume(wt, pos, nonempty, lt(C(0), mk("len", members)), bnot(eq(base, C(0))) if base is not None else TRUE)
            if cname == "AllOnesInitializer":
                got = wt
            if cname == "InverseResultUpdater":
                z = tm.assume(item(val, 1), gd, eq(base, C(0)), le(base, C(0)), bnot(pos))
                if z is not item(val, 1):
                    lg = large(z) or (z.op in ("min", "minv", "max", "maxv") and large(strip_caps(z)))
                    ctx.decide(R, con + " without value", True if lg else (False if tm.is_num(z) else None), "groups without value get weight %s, documented: a large one" % tm.show(z)[:150], *where(repo, f))
            if got is expect:
                ctx.ok(R, con, tm.show(got)[:200])
            elif resolved(got, methods=meths):
                ctx.violation(R, con, "the weight of a group is %s, documented: %s" % (tm.show(got)[:250], tm.show(expect)[:250]), *where(repo, f))
            else:
                ctx.undecided(R, con, tm.show(got)[:250])


def given_weights(ctx):
    """given weights are the initial ones and are factors of the updated ones"""
    repo = ctx.repo
    R = "C06.R5"
    W = sym("weights", "array")
    IND, last = sym("indicators", "groupmap"), sym("last_result", "vec")
    g = sym("$g0", "any")
    for cname, kind in (("AllOnesInitializer", "initialize"), ("InverseResultUpdater", "update"), ("InverseResultFixedZerosUpdater", "update")):
        ci = repo.cls(cname)
        f = repo.find_method(ci, kind)
        I = interp(repo, module=ci.module.name)
        st = I.new_state()
        st.path = (bnot(eq(W, NONE)),)
        obj = I.instantiate(st, ci, [], {"reachability_form": sym("rf", "rf"), "mode": C("min"), "indicator_to_group": IND, "weights": W}, None)
        v = I.freeze(st, I.call_func(st, f, [obj] + ([last] if kind == "update" else []), {}, None))
        ctx.used(I)
        con = "%s with weights" % cname
        es = log_entries(v)
        if es is None or not es or any(x is None for x, _ in es):
            ctx.undecided(R, con, tm.show(v)[:200])
            continue
        for fr, _ in es:
            doms, gd, val, syms = opened(fr, "$g")
            pos = lt(C(0), get(last, g))
            if len(doms) != 1:
                ctx.undecided(R, con, tm.show(v)[:200])
                continue
            x = tm.assume(val, pos)
            if tm.assume(gd, pos) is FALSE:
                continue
            got = strip_caps(item(x, 1))
            want = get(W, g) if kind == "initialize" else tm.div(get(W, g), get(last, g))
            compare(ctx, R, con, got, want, f, "weight of a group")


def zero_constraints(ctx):
    repo = ctx.repo
    R = "C06.R5"
    IND, last = sym("indicators", "groupmap"), sym("last_result", "vec")
    for cname in ("InverseResultUpdater", "InverseResultFixedZerosUpdater"):
        ci = repo.cls(cname)
        f = repo.find_method(ci, "constraints")
        I = interp(repo, module=ci.module.name)
        st = I.new_state()
        obj = I.instantiate(st, ci, [], {"reachability_form": sym("rf", "rf"), "mode": C("min"), "indicator_to_group": IND}, None)
        v = I.freeze(st, I.call_func(st, f, [obj, last], {}, None))
        ctx.used(I)
        con = cname + ".constraints"
        es = log_entries(v)
        if es is None:
            ctx.undecided(R, con, tm.show(v)[:200])
            continue
        if cname == "InverseResultUpdater":
            ctx.decide(R, con, not es, "adds constraints: %s" % tm.show(v)[:150], *where(repo, f))
            continue
        if len(es) != 1 or es[0][0] is None:
            ctx.decide(R, con, False if not es else None, "adds no constraints" if not es else tm.show(v)[:200], *where(repo, f))
            continue
        doms, gd, val, syms = opened(es[0][0], "$g")
        if len(doms) != 1 or doms[0] not in (mk("keys", IND), IND):
            ctx.undecided(R, con, tm.show(v)[:200])
            continue
        x = syms[0]
        q = get(last, x)
        zero = tm.assume(gd, eq(q, C(0)))
        nonzero = tm.assume(gd, lt(C(0), q), bnot(eq(q, C(0))), bnot(le(q, C(0))))
        ctx.decide(R, con + " groups", (zero is TRUE and nonzero is FALSE) or (None if not resolved(gd) else False), "constrains groups with %s, documented: those without value" % tm.show(gd)[:150], *where(repo, f))
        r = linear(val)
        if r is None or list(r[0]) != [x]:
            ctx.undecided(R, con + " constraint", tm.show(val)[:200])
            continue
        ok = r[2] is C(0) and tm.is_num(r[0][x]) and r[0][x].a[0] != 0 and r[1] in ("=",)
        if not ok and r[1] == "<=" and r[2] is C(0) and tm.is_num(r[0][x]) and r[0][x].a[0] > 0:
            ok = True
        ctx.decide(R, con + " constraint", ok or (False if resolved(val) else None), "the constraint is %s" % tm.show(val)[:150], *where(repo, f))


def vector_call(wt, name):
    for x in tm.subterms(wt):
        if x.op == "m" and x.a[0] == name:
            return x
    return None


def formula(cname, kind, mode, rf, IND, g, members, last, wt, solver):
    """(quantity that must be positive, documented weight, constant otherwise)"""
    one = C(1)
    z, y = ("max_z_state", "max_y_state") if mode == "min" else ("max_z_state_action", "max_y_state_action")
    bv = mk("bv", 0)

    def vec(nm):
        return mk("m", nm, rf, tup(C("solver"), solver))

    def total(v):
        return mk("sum", (members,), TRUE, v(bv))
    if cname == "AllOnesInitializer":
        return None, one, None
    if cname in ("InverseResultUpdater", "InverseResultFixedZerosUpdater"):
        q = get(last, g)
        return q, tm.div(one, q), None
    if cname == "InverseReachabilityInitializer":
        s_ = total(lambda i: get(vec(z), i))
        return tm.div(s_, mk("len", members)), tm.div(mk("len", members), s_), None
    if cname == "InverseFrequencyInitializer":
        q = total(lambda i: get(vec(y), i))
        return q, tm.div(one, q), None
    if cname == "InverseCombinedInitializer":
        q = total(lambda i: tm.mul(get(vec(z), i), get(vec(y), i)))
        return q, tm.div(one, q), None
    return None, None, None


def run(ctx):
    ctx.rule("C06.R1", "construct_MILP builds the documented program")
    ctx.rule("C06.R2", "groups are exactly the documented sets of variables")
    ctx.rule("C06.R3", "upper bounds are computed by the documented program")
    ctx.rule("C06.R4", "the searches build and weight the documented program")
    ctx.rule("C06.R5", "weights follow the documented formula for every group")
    ctx.notes.append("the Farkas systems are decided by C04, the translation of programs to the backends by C22")
    for c in CONFIGS:
        ctx.part("construct %s" % (c,), construct, ctx, *c)
    ctx.part("upper bounds", upper_bounds, ctx)
    ctx.part("MILPExact", exact, ctx)
    ctx.part("QSHeur", qsheur, ctx)
    for c in ("AllOnesInitializer", "InverseReachabilityInitializer", "InverseFrequencyInitializer", "InverseCombinedInitializer"):
        ctx.part(c, weights, ctx, c, "initialize")
    for c in ("InverseResultUpdater", "InverseResultFixedZerosUpdater"):
        ctx.part(c, weights, ctx, c, "update")
    ctx.part("given weights", given_weights, ctx)
    ctx.part("constraints", zero_constraints, ctx)
