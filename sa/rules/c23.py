"""C23: the vectors offered by reachability forms are solutions of the documented linear programs.

R1  every query solves exactly one program whose matrix/right-hand side are the documented Farkas system (threshold 0 resp. 1;
    decided by C04), with the documented relation, direction, objective and bounds of every single variable.
R2  the returned vector is the solution vector, or the documented function of it for every index."""
from .common import *
from .c04 import build, vecfacts, canon, unresize


def lp_query(ctx, cname, meth, system, thr, sense, direction, objective, bounds, n_is):
    """n_is: 'N' or 'C' (number of variables)"""
    repo = ctx.repo
    con = "%s.%s" % (cname, meth)
    f = repo.func(con)
    L = LPModel(repo)
    I = interp(repo, intercept=L.intercepts())
    st, m, rf = build(ctx, cname, I)
    v = I.freeze(st, I.call_func(st, f, [rf, sym("solver", "str")], {}, None))
    ctx.used(I)
    s = L.last()
    R = "C23.R1"
    if len(s) != 1 or s[0]["prog"]["$coeff"] is NONE or s[0]["prog"]["$coeff"].op != "tuple":
        ctx.undecided(R, con, "%d programs solved" % len(s))
        return None
    s = s[0]
    A, b, opt, dom, sns, _, bnds = s["prog"]["$coeff"].a
    dr = s["prog"]["$direction"]
    if s["prog"]["$objective"] is not NONE:
        ctx.undecided(R, con, "objective replaced")
        return None
    # the system
    if system == "A":
        wA, wb = I.freeze(st, I.getattr(st, rf, "A", None)), sym("reward_vector", "vec")
    else:
        sysv = I.freeze(st, I.call_func(st, repo.func("%s.%s" % (cname, system)), [rf, C(thr)], {}, None))
        wA, wb = I.freeze(st, item(sysv, 0)), I.freeze(st, item(sysv, 1))
    Cn, Nn = tm.add(mk("attr", m, "C"), C(-2)), tm.add(mk("attr", m, "N"), C(-2))
    i, j, k = sym("row", "int"), sym("col", "int"), sym("k", "int")
    n = Nn if n_is == "N" else Cn
    body = {"A": Cn, "fark_z_constraints": Cn, "fark_y_constraints": Nn}[system]
    facts = [le(C(0), i), lt(i, body), le(C(0), j), lt(j, n), le(C(0), k), lt(k, n)]
    same_matrix(ctx, R, con, I, st, vecfacts(A), vecfacts(wA), f, facts, i, j, body)
    for nm, idx in (("right-hand side", i), ("last right-hand side", body)):
        if nm.startswith("last") and system == "A":
            continue
        g = tm.assume(unresize(get(vecfacts(b), idx)), *facts) if nm[0] == "r" else get(vecfacts(b), body)
        w = tm.assume(unresize(get(vecfacts(wb), idx)), *facts) if nm[0] == "r" else get(vecfacts(wb), body)
        compare(ctx, R, con + " " + nm, canon(g), canon(w), f, nm)
    compare(ctx, R, con + " relation", sns, C(sense), f, "relation of the rows")
    if dr is NONE:
        dr = C("min")
    compare(ctx, R, con + " direction", dr, C(direction), f, "direction of optimisation")
    o = tm.assume(unresize(elem1(vecfacts(opt), k)), *facts)
    w = {"ones": C(1), "to_target": get(mk("attr", m, "P"), tup(k, Nn)), "reward": get(sym("reward_vector", "vec"), k)}[objective]
    compare(ctx, R, con + " objective", o, w, f, "coefficient of variable k in the objective")
    shp = I.shape(st, opt)
    single, other, bad = var_constraints(vecfacts(s["prog"]["$cons"]), k, facts)
    if bad or other:
        ctx.undecided(R, con + " bounds", "; ".join(bad) or "constraints over several variables")
    elif bnds is not NONE:
        ctx.undecided(R, con + " bounds", "bounds given to the constructor")
    else:
        mecs = I.freeze(st, I.call_func(st, repo.func("AbstractMDP.maximal_end_components"), [m], {}, None))
        ec = tm.truth(get(item(mecs, 1), get(item(mecs, 0), k)))
        want = {"min01": [(ec, "=", C(0)), (bnot(ec), ">=", C(0)), (bnot(ec), "<=", C(1))],
                "01": [(TRUE, ">=", C(0)), (TRUE, "<=", C(1))],
                ">=0": [(TRUE, ">=", C(0))]}[bounds]
        if not all(resolved(c, methods=("maximal_end_components",)) for c, _, _ in single):
            ctx.undecided(R, con + " bounds", "condition not resolved")
        else:
            r, msg = same_bounds(single, want)
            ctx.decide(R, con + " bounds", r, msg, *where(repo, f))
    res = mk("attr", s["result"], "result_vector")
    sv = s["opts"].get("solver")
    if v is res:
        ctx.ok("C23.R2", con, "returns the solution vector")
    elif not resolved(v, refs=(s["lp"],)):
        ctx.undecided("C23.R2", con, tm.show(v)[:200])
    else:
        ctx.violation("C23.R2", con, "returns %s, documented: the solution vector" % tm.show(v)[:300], *where(repo, f))
    ctx.count("linear programs")


def same_matrix(ctx, R, con, I, st, A, wA, f, facts, i, j, body):
    if A is wA:
        ctx.ok(R, con + " matrix")
        return
    def blocks(M):
        rs = rows(I, st, M)
        if len(rs) == 2 and rs[0][1] == "many" and rs[1][1] == "one":
            return tm.assume(get(rs[0][0], tup(i, j)), *facts), tm.assume(elem1(rs[1][0], j), *facts)
        if len(rs) == 1:
            return tm.assume(get(M, tup(i, j)), *facts), tm.assume(get(M, tup(body, j)), *facts)
        return None, None
    g, w = blocks(A), blocks(wA)
    if None in g or None in w:
        ctx.undecided(R, con + " matrix", tm.show(A)[:200])
        return
    for nm, a, b in zip(("rows", "threshold row"), g, w):
        compare(ctx, R, con + " " + nm, canon(a), canon(b), f, "entry (row,col)")


def derived(ctx, cname, meth, base, expect):
    """meth must be the documented function of the vector returned by base"""
    repo = ctx.repo
    con = "%s.%s" % (cname, meth)
    f = repo.func(con)
    g = repo.func("%s.%s" % (cname, base))
    vec = sym("solution_vector", "vec")
    calls = []

    def icept(I, st, args, kw, node, fn):
        env = I.bind(st, fn, args, kw, node)
        calls.append({k: I.freeze(st, v) for k, v in env.items() if k != "self"} if env else None)
        return vec
    ics = {}
    for other in ("max_z_state", "max_z_state_action", "max_y_state", "max_y_state_action", "pr_min", "pr_max", "rew_min", "rew_max"):
        h = repo.maybe("%s.%s" % (cname, other))
        if h is not None and h.qual != f.qual:
            ics[h.qual] = lambda I, st, args, kw, node, fn, o=other: sym("result of " + o, "vec")
    ics[g.qual] = icept
    I = interp(repo, intercept=ics)
    st, m, rf = build(ctx, cname, I)
    v = vecfacts(I.freeze(st, I.call_func(st, f, [rf, sym("solver", "str")], {}, None)))
    ctx.used(I)
    R = "C23.R2"
    if not calls:
        L = LPModel(repo)
        ctx.undecided(R, con, "does not call %s" % base)
        return
    Cn, Nn = tm.add(mk("attr", m, "C"), C(-2)), tm.add(mk("attr", m, "N"), C(-2))
    P, iba = mk("attr", m, "P"), mk("attr", m, "index_by_state_action")
    k = sym("k", "int")
    if expect == "same":
        got, want = v, vec
    elif expect in ("P.x+b", "P.x+r"):
        n = Cn
        facts = [le(C(0), k), lt(k, n)]
        got = tm.assume(elem1(v, k), *facts)
        b = get(P, tup(k, Nn)) if expect == "P.x+b" else get(sym("reward_vector", "vec"), k)
        Psub = mk("sub", P, mk("slice", NONE, Cn), mk("slice", NONE, Nn))
        want = tm.add(get(mk("dot", Psub, vec), k), b)
    else:
        n = Nn
        facts = [le(C(0), k), lt(k, n)]
        got = tm.assume(elem1(v, k), *facts)
        bv = mk("bv", 0)
        want = mk("sum", (mk("range", C(0), Cn),), eq(item(get(tm.inv(iba), bv), 0), k), get(vec, bv))
        if v.op == "upd" and v.a[1].op == "for" and v.a[1].a[2].op == "tuple":
            key_ = v.a[1].a[2].a[0]
            if key_.op == "item" and key_.a[0].op == "get" and key_.a[0].a[0] is tm.inv(iba):
                ctx.violation(R, con, "the entry of a state is overwritten by each of its actions instead of summed", *where(repo, f))
                return
        if got is not want and tm.has_op(got, "sum", "dot", "sumv") and not comparable_sum(got, want):
            ctx.undecided(R, con, tm.show(got)[:200])
            return
    compare(ctx, R, con, canon(got), canon(want), f, "element k")


def comparable_sum(a, b):
    """both sum over the same domain"""
    sa = [x for x in tm.subterms(a) if x.op == "sum"]
    return bool(sa) and all(x.a[0] == b.a[0] for x in sa)


def run(ctx):
    ctx.rule("C23.R1", "each query solves exactly the documented program")
    ctx.rule("C23.R2", "each query returns the documented function of the solution vector")
    ctx.notes.append("the Farkas systems themselves are decided by C04, the translation of programs to the backends by C22")
    a, b = "ReachabilityForm", "RewardReachabilityForm"
    q = lambda *x: ctx.part("%s.%s" % x[:2], lp_query, ctx, *x)
    d = lambda *x: ctx.part("%s.%s" % x[:2], derived, ctx, *x)
    q(a, "max_z_state", "fark_z_constraints", 0, "<=", "max", "ones", "min01", "N")
    q(a, "max_y_state_action", "fark_y_constraints", 0, "<=", "max", "to_target", ">=0", "C")
    q(a, "pr_max", "fark_z_constraints", 1, ">=", "min", "ones", "01", "N")
    q(b, "max_z_state", "fark_z_constraints", 0, "<=", "max", "ones", ">=0", "N")
    q(b, "max_y_state_action", "fark_y_constraints", 0, "<=", "max", "reward", ">=0", "C")
    q(b, "rew_max", "A", None, ">=", "min", "ones", ">=0", "N")
    d(a, "pr_min", "max_z_state", "same")
    d(b, "rew_min", "max_z_state", "same")
    d(a, "max_z_state_action", "max_z_state", "P.x+b")
    d(b, "max_z_state_action", "max_z_state", "P.x+r")
    d(a, "max_y_state", "max_y_state_action", "sum")
    d(b, "max_y_state", "max_y_state_action", "sum")
