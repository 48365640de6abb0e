"""C04: the Farkas systems and the certificate check, for every mode and sense.

R1  fark_z_constraints / fark_y_constraints of both reachability forms are, element by element, the documented matrices
    (A over -delta_init; A^T over -b^T) with the documented right-hand sides, also when served from the cache.
R2  __get_right_constraint_set / check_farkas_certificate evaluate, for each of the eight mode/sense pairs, exactly the documented
    conjunction of row conditions, strict last row, proper-end-component entries and nonnegativity."""
from .common import *

Z, Y = "fark_z_constraints", "fark_y_constraints"


def build(ctx, cname, I):
    """a reachability form over the symbolic system M"""
    repo = ctx.repo
    st = I.new_state()
    m = sym("system", "model")
    rf = I.instantiate(st, repo.cls("ReachabilityForm"), [m, sym("initial_label", "str"), sym("target_label", "str"), sym("fail_label", "str"), TRUE], {}, None)
    if cname == "RewardReachabilityForm":
        rf = I.instantiate(st, repo.cls(cname), [rf, sym("reward_vector", "vec")], {}, None)
    return st, m, rf


def spec(m, cname):
    """element-wise documented values"""
    Cn, Nn = tm.add(mk("attr", m, "C"), C(-2)), tm.add(mk("attr", m, "N"), C(-2))
    P = mk("attr", m, "P")
    iba = mk("attr", m, "index_by_state_action")

    def A(i, j):
        return tm.sub(ite(eq(item(get(inv_(iba), i), 0), j), C(1), C(0)), get(P, tup(i, j)))

    def b(i):
        return get(sym("reward_vector", "vec"), i) if cname == "RewardReachabilityForm" else get(P, tup(i, tm.add(mk("attr", m, "N"), C(-2))))
    init = mk("anyof", get(mk("attr", m, "states_by_label"), sym("initial_label", "str")))
    return Cn, Nn, A, b, init


def inv_(x):
    return tm.inv(x)


def system(ctx, cname):
    repo = ctx.repo
    for kind in (Z, Y):
        for mode_entry in (None, "via fark_constraints"):
            for second in (False, True):
                con = "%s.%s%s%s" % (cname, kind, " (second call)" if second else "", " " + mode_entry if mode_entry else "")
                I = interp(repo)
                st, m, rf = build(ctx, cname, I)
                Cn, Nn, A, b, init = spec(m, cname)
                f = repo.func("%s.%s" % (cname, kind))
                if mode_entry:
                    g = repo.func("%s.fark_constraints" % cname)
                    call = lambda thr: I.call_func(st, g, [rf, thr, C("min" if kind == Z else "max")], {}, None)
                else:
                    call = lambda thr: I.call_func(st, f, [rf, thr], {}, None)
                if second:
                    call(sym("earlier_threshold", "num"))
                thr = sym("threshold", "num")
                v = I.freeze(st, call(thr))
                ctx.used(I)
                M, rhs = item(v, 0), item(v, 1)
                M, rhs = vecfacts(I.freeze(st, M)), vecfacts(I.freeze(st, rhs))
                i, j = sym("row", "int"), sym("col", "int")
                R = "C04.R1"
                body, width = (Cn, Nn) if kind == Z else (Nn, Cn)
                facts = [le(C(0), i), lt(i, body), le(C(0), j), lt(j, width)]
                # matrix
                rs = rows(I, st, M)
                if len(rs) == 2 and rs[0][1] == "many" and rs[1][1] == "one":
                    g0 = tm.assume(get(rs[0][0], tup(i, j)), *facts)
                    g1 = tm.assume(elem1(rs[1][0], j), *facts)
                elif len(rs) == 2 and rs[0][1] == "one" and rs[1][1] == "many":
                    ctx.violation(R, con + " matrix", "the threshold row comes first", *where(repo, f))
                    continue
                elif len(rs) == 1:
                    g0 = tm.assume(get(M, tup(i, j)), *facts)
                    g1 = tm.assume(get(M, tup(body, j)), *facts)
                else:
                    ctx.undecided(R, con + " matrix", "matrix not resolved: %s" % tm.show(M)[:150])
                    g0 = g1 = None
                if g0 is not None:
                    w0 = A(i, j) if kind == Z else A(j, i)
                    w1 = ite(eq(init, j), C(-1), C(0)) if kind == Z else tm.neg(b(j))
                    bad = ("upd", "updincr")
                    for nm, g, w in (("rows", g0, w0), ("threshold row", g1, w1)):
                        g = canon(g)
                        w = canon(w)
                        if g is not w and tm.has_op(g, *bad):
                            ctx.undecided(R, con + " " + nm, tm.show(g)[:200])
                        else:
                            compare(ctx, R, con + " " + nm, g, w, f, "entry (row,col) of the %s" % nm)
                    shp = I.shape(st, M)
                    if shp is not None:
                        compare(ctx, R, con + " shape", shp, tup(tm.add(body, C(1)), width), f, "shape of the matrix")
                # right-hand side
                g0 = tm.assume(get(rhs, i), *facts)
                g0 = unresize(g0)
                g1 = get(rhs, body)
                w0 = b(i) if kind == Z else ite(eq(init, i), C(1), C(0))
                for nm, g, w in (("right-hand side", g0, w0), ("threshold", g1, tm.neg(thr))):
                    if nm == "threshold" and kind == Y:
                        g = tm.assume(g, bnot(eq(init, body)))
                    if g is not w and tm.has_op(g, "upd", "updincr"):
                        ctx.undecided(R, con + " " + nm, tm.show(g)[:200])
                    else:
                        compare(ctx, R, con + " " + nm, canon(g), canon(w), f, nm)


def vecfacts(t):
    """reward_vector is a one-dimensional numpy array"""
    rv = sym("reward_vector", "vec")
    m = {}
    for x in tm.subterms(t):
        if x.op == "isinst" and x.a[0] is rv:
            m[x] = FALSE if "ndarray" not in tm.show(x) else TRUE
        if x.op == "eq" and tm.show(x).replace("(", "").replace(")", "") == "lenreward_vector.shape==1":
            m[x] = TRUE
        if x.op == "list" and x.a == (rv,):
            m[x] = rv
        if x.op == "len" and x.a[0] is rv:
            m[x] = tm.add(mk("attr", sym("system", "model"), "C"), C(-2))
    return tm.subst(t, m) if m else t


def unresize(t):
    """elements below the old length are kept by resize"""
    m = {}
    for x in tm.subterms(t):
        if x.op == "get" and x.a[0].op == "resize":
            m[x] = get(x.a[0].a[0], x.a[1])
    return tm.subst(t, m) if m else t


def canon(t):
    """index maps are total on their range: the row's own pair is a key"""
    m = {}
    for x in tm.subterms(t):
        if x.op == "in" and x.a[0].op == "get" and x.a[0].a[0].op == "inv" and x.a[1].op == "keys" and x.a[0].a[0].a[0] in set(tm.subterms(x.a[1])):
            m[x] = TRUE
    return tm.subst(t, m) if m else t


def expected_check(rf, mode, sense, thr, vec, tol, M, rhs):
    """the documented condition"""
    zform = (mode == "min") == (sense in (">=", ">"))
    n, d = item(mk("attr", M, "shape"), 0), item(mk("attr", M, "shape"), 1)
    res = mk("dot", M, vec)
    out = []
    if sense in (">=", ">"):
        out.append(mk("allv", tm.le0(tm.sub(tm.sub(res, tol), rhs))))
        if sense == ">":
            last = tm.sub(n, C(1))
            out.append(tm.lt0(tm.sub(tm.sub(get(res, last), tol), get(rhs, last))))
    else:
        out.append(mk("allv", tm.le0(tm.sub(rhs, tm.add(res, tol)))))
        if sense == "<":
            last = tm.sub(n, C(1))
            out.append(tm.lt0(tm.sub(get(rhs, last), tm.add(get(res, last), tol))))
    if not zform:
        out.append(mk("allv", tm.le0(tm.sub(tm.neg(tol), vec))))
    return band(*out), zform, d


def check(ctx):
    repo = ctx.repo
    f = repo.func("switss.certification.certificates.check_farkas_certificate")
    rf, thr, vec, tol = sym("rf", "rf"), sym("threshold", "num"), sym("farkas_vec", "vec"), sym("tol", "num")
    for mode in ("min", "max"):
        for sense in ("<=", "<", ">=", ">"):
            con = "check_farkas_certificate(%s, %s)" % (mode, sense)
            I = interp(repo)
            st = I.new_state()
            v = I.call_func(st, f, [rf, C(mode), C(sense), thr, vec, tol], {}, None)
            ctx.used(I)
            v = I.freeze(st, v)
            if st.dead:
                ctx.violation("C04.R2", con, "always fails for these documented arguments", *where(repo, f))
                continue
            asserted = [e.args[0] for e in I.events if e.kind == "assert"]
            v = tm.assume(v, *asserted)
            calls = {e.name for e in I.events if e.kind == "mcall" and e.name in (Z, Y, "fark_constraints")}
            zform = (mode == "min") == (sense in (">=", ">"))
            sysname = Z if zform else Y
            if "fark_constraints" in calls:
                m = {}
                for x in tm.subterms(v):
                    if x.op == "m" and x.a[0] == "fark_constraints":
                        md = x.a[3] if len(x.a) > 3 else None
                        if md is not None and md.op == "c":
                            m[x] = mk("m", Z if md.a[0] == "min" else Y, x.a[1], x.a[2])
                v = tm.subst(v, m)
            got = {x.a[0] for x in tm.subterms(v) if x.op == "m" and x.a[0] in (Z, Y)}
            if got != {sysname}:
                ctx.decide("C04.R2", con + " system", False if got and not got & {sysname} else None,
                           "evaluates %s, documented is %s" % (sorted(got), sysname), *where(repo, f))
                continue
            ctx.ok("C04.R2", con + " system", sysname)
            sysc = mk("m", sysname, rf, thr)
            M, rhs = item(sysc, 0), item(sysc, 1)
            want, zf, d = expected_check(rf, mode, sense, thr, vec, tol, M, rhs)
            if mode == "min":
                k = mk("bv", 0)
                state = k if zform else item(get(tm.inv(mk("attr", rf, "index_by_state_action")), k), 0)
                ex = mk("exists", (mk("range", C(0), d),), band(bnot(eq(get(vec, k), C(0))), tm.truth(mk("m", "in_proper_ec", rf, state))))
                want = band(bnot(ex), want)
            v2 = normal(v)
            want = normal(want)
            if tm.bool_equiv(v2, want):
                ctx.ok("C04.R2", con, "the documented condition")
                continue
            if resolved(v2, methods=(Z, Y, "in_proper_ec")):
                ctx.violation("C04.R2", con, "accepts exactly if %s ; documented: %s" % (tm.show(v2)[:500], tm.show(want)[:500]), *where(repo, f))
            else:
                ctx.undecided("C04.R2", con, tm.show(v2)[:300])


def normal(v):
    """negative constant indices count from the end (the number of rows)"""
    m = {}
    for x in tm.subterms(v):
        if x.op == "get" and tm.is_num(x.a[1]) and x.a[1].a[0] < 0:
            for y in tm.subterms(x.a[0]):
                if y.op == "m" and y.a[0] in (Z, Y):
                    m[x] = get(x.a[0], tm.add(item(mk("attr", item(y, 0), "shape"), 0), x.a[1]))
    return tm.subst(v, m) if m else v


def run(ctx):
    ctx.rule("C04.R1", "Farkas matrices and right-hand sides are element by element the documented ones")
    ctx.rule("C04.R2", "check_farkas_certificate is the documented predicate for each mode and sense")
    ctx.notes.append("scipy/numpy operations (vstack, hstack, dot, resize, slicing, transposition) have their documented meaning")
    for c in ("ReachabilityForm", "RewardReachabilityForm"):
        ctx.part(c, system, ctx, c)
    ctx.part("check", check, ctx)
