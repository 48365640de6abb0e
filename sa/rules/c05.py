"""C05: a certificate is only handed out after it passed the check it is meant for.

R1  generate_farkas_certificate: every value other than None is returned under the condition that check_farkas_certificate succeeded
    on exactly that value, with the requested system, mode, sense, threshold and tolerance.
R2  the program solved for it is the documented one: rows of the (negated) system with one slack column, nonnegative entries,
    zero in proper end components for min, minimal slack.
R3  the command line checks a stored certificate under the mode and threshold it is stored with, checks a computed one under the mode
    and threshold it was computed with, and prints VALID exactly if the check succeeded."""
from .common import *

CHECK = "switss.certification.certificates.check_farkas_certificate"
GEN = "switss.certification.certificates.generate_farkas_certificate"
NAMES = ("reach_form", "mode", "sense", "threshold", "farkas_vec", "tol")


def check_args(call):
    """arguments of a call(check, ...) term by parameter position/name"""
    out = {}
    for i, x in enumerate(call.a[1:]):
        if x.__class__ is tuple and len(x) == 2:
            out[x[0]] = x[1]
        elif x.op == "tuple" and len(x.a) == 2 and x.a[0].op == "c" and x.a[0].a[0] in NAMES:
            out[x.a[0].a[0]] = x.a[1]
        else:
            out[NAMES[i] if i < len(NAMES) else i] = x
    return out


def literals(c):
    if c.op == "and":
        return [y for x in c.a for y in literals(x)]
    return [c]


def generate(ctx, mode, sense):
    repo = ctx.repo
    f = repo.func(GEN)
    con = "generate_farkas_certificate(%s, %s)" % (mode, sense)
    L = LPModel(repo)
    I = interp(repo, module="switss.certification.certificates", intercept=L.intercepts(), opaque={CHECK})
    st = I.new_state()
    rf, thr, tol, solver = sym("rf", "rf"), sym("threshold", "num"), sym("tol", "num"), sym("solver", "str")
    v = I.freeze(st, I.call_func(st, f, [rf, C(mode), C(sense), thr, tol, solver], {}, None))
    ctx.used(I)
    asserted = [e.args[0] for e in I.events if e.kind == "assert"]
    v = tm.assume(v, *asserted)
    want = dict(reach_form=rf, mode=C(mode), sense=C(sense), threshold=thr, tol=tol)
    some = False
    for cond, leaf in ite_cases(v):
        leaf = tm.assume(leaf, cond)
        if leaf is NONE:
            continue
        some = True
        passed = None
        lits = literals(cond)
        why = "no successful check among the conditions: " + tm.show(cond)[:200]
        for lit in lits:
            if lit.op == "truth" and lit.a[0].op == "call" and lit.a[0].a[0] == CHECK or lit.op == "call" and lit.a[0] == CHECK:
                call = lit.a[0] if lit.op == "truth" else lit
                got = check_args(call)
                vec = got.get("farkas_vec")
                others = [x for x in lits if x is not lit]
                vec = tm.assume(vec, *others) if vec is not None else None
                got["farkas_vec"] = vec
                w = dict(want, farkas_vec=leaf)
                diff = [n for n in NAMES if got.get(n, NONE) is not w[n]]
                if not diff:
                    passed = True
                else:
                    why = "checked with other values of %s (%s) than requested/returned (%s)" % (
                        ", ".join(diff), "; ".join(tm.show(got.get(n, sym("default of %s" % n)))[:120] for n in diff), "; ".join(tm.show(w[n])[:120] for n in diff))
        if passed:
            ctx.ok("C05.R1", con, tm.show(leaf)[:100])
        else:
            t = band(cond)
            clean = resolved(leaf, extra=("call",), methods=("fark_z_constraints", "fark_y_constraints", "in_proper_ec", "fark_constraints"), refs=tuple(s["lp"] for s in L.solves)) \
                and resolved(t, extra=("call",), methods=("fark_z_constraints", "fark_y_constraints", "in_proper_ec", "fark_constraints"), refs=tuple(s["lp"] for s in L.solves))
            ctx.decide("C05.R1", con, False if clean else None, "returns %s: %s" % (tm.show(leaf)[:150], why), *where(repo, f))
    if not some:
        ctx.decide("C05.R1", con + " returns", False if v is NONE else None, "never returns a certificate", *where(repo, f))

    # ---- the program
    R = "C05.R2"
    s = L.last()
    if len(s) != 1 or s[0]["prog"]["$coeff"] is NONE or s[0]["prog"]["$coeff"].op != "tuple":
        ctx.undecided(R, con, "%d programs solved" % len(s))
        return
    s = s[0]
    A, b, opt, dom, sns, _, bnds = s["prog"]["$coeff"].a
    zform = (mode == "min") == (sense in (">=", ">"))
    meths = ("fark_z_constraints", "fark_y_constraints", "in_proper_ec")
    fork = lambda t: subst_fork(t)
    A, b, opt, cons = (fork(x) for x in (A, b, opt, s["prog"]["$cons"]))
    sysc = mk("m", meths[0] if zform else meths[1], rf, thr)
    M, rhs = item(sysc, 0), item(sysc, 1)
    N, D = item(mk("attr", M, "shape"), 0), item(mk("attr", M, "shape"), 1)
    i, j, k = sym("row", "int"), sym("col", "int"), sym("k", "int")
    facts = [le(C(0), i), lt(i, N), le(C(0), j), lt(j, D), le(C(0), k), lt(k, D)]
    neg = sense in ("<=", "<")
    sg = (lambda x: tm.neg(x)) if neg else (lambda x: x)
    cmp_ = lambda nm, g, w, what: compare(ctx, R, con + " " + nm, g, w, f, what, methods=meths)
    deep = lambda t: tm.assume(unsized(t, facts), *facts)
    cmp_("rows", deep(get(A, tup(i, j))), sg(get(M, tup(i, j))), "entry (row,col) of the program")
    cmp_("slack column", deep(get(A, tup(i, D))), C(-1), "entry of the slack column")
    cmp_("right-hand side", deep(get(b, i)), sg(get(rhs, i)), "right-hand side")
    rel = sns
    cmp_("relation", rel, C("<="), "relation of the rows")
    cmp_("direction", s["prog"]["$direction"] if s["prog"]["$direction"] is not NONE else C("min"), C("min"), "direction")
    cmp_("objective", deep(get(opt, k)), C(0), "objective coefficient of an entry")
    cmp_("objective of the slack", deep(get(opt, D)), C(1), "objective coefficient of the slack")
    cmp_("solver", s["opts"].get("solver", NONE), solver, "solver used")
    # bounds
    es = log_entries(cons)
    if es is None or bnds is not NONE:
        ctx.undecided(R, con + " bounds", "constraints not resolved")
        return
    slack = tup(D, C(1))
    strip = []
    for fr, v2 in es:
        if v2.op == "tuple" and len(v2.a) == 3 and v2.a[0].op == "list" and slack in v2.a[0].a and len(v2.a[0].a) == 2:
            # x_k + s >= c: a lower bound up to the slack, like every other row
            v2 = tup(mk("list", *[x for x in v2.a[0].a if x is not slack]), v2.a[1], v2.a[2])
        strip.append(mk("for", fr.a[0], fr.a[1], v2) if fr is not None else v2)
    single, other, bad = var_constraints(mk("list", *strip), k, facts)
    if bad or other:
        ctx.undecided(R, con + " bounds", "; ".join(bad) or "constraints over several variables")
        return
    want = [(TRUE, ">=", C(0))]
    if mode == "min":
        stt = k if zform else item(get(tm.inv(mk("attr", rf, "index_by_state_action")), k), 0)
        want.append((tm.truth(mk("m", "in_proper_ec", rf, stt)), "=", C(0)))
    if not all(resolved(c, methods=meths) for c, _, _ in single):
        ctx.undecided(R, con + " bounds", "condition not resolved")
        return
    r, msg = same_bounds(single, want)
    ctx.decide(R, con + " bounds", r, msg, *where(repo, f))


def subst_fork(t):
    m = {}
    for x in tm.subterms(t):
        if x.op == "m" and x.a[0] == "fark_constraints" and len(x.a) > 3 and x.a[3].op == "c":
            m[x] = mk("m", "fark_z_constraints" if x.a[3].a[0] == "min" else "fark_y_constraints", x.a[1], x.a[2])
    return tm.subst(t, m) if m else t


def unsized(t, facts):
    """elements inside the old size are kept by resize"""
    for _ in range(3):
        m = {}
        for x in tm.subterms(t):
            if x.op == "get" and x.a[0].op == "resize":
                m[x] = get(x.a[0].a[0], x.a[1])
        if not m:
            break
        t = tm.subst(t, m)
    return t


# ---------------------------------------------------------------- command line
def cli(ctx, fname):
    repo = ctx.repo
    f = repo.func("bin.switss." + fname)
    opq = {CHECK, repo.cls("ReachabilityForm").qual, repo.cls("Subsystem").qual}
    opq |= {x.qual for x in repo.funcs.values() if x.name in ("from_file", "solve", "solveiter", "save") and x.cls is not None}
    I = interp(repo, module="bin.switss", opaque=opq)
    st = I.new_state()
    args = sym("args", "args")
    I.call_func(st, f, [args], {}, None)
    ctx.used(I)
    checks = [e for e in I.events if e.kind == "call" and e.name == CHECK]
    fi = repo.func(CHECK)
    R = "C05.R3"
    if not checks:
        ctx.violation(R, fname, "does not check certificates", *where(repo, f))
        return
    rep = []
    for e in checks:
        line = e.line
        got = dict(zip(fi.params(), e.args))
        got.update({k: v for k, v in e.kw.items() if k != "**"})
        got = {k: I.freeze(st, v) if v.op == "ref" and k == "farkas_vec" else v for k, v in got.items()}
        con = "%s, check" % fname
        w = (e.file, line)

        def cmp_(n, want):
            g = got.get(n)
            if g is want:
                ctx.ok(R, con + " " + n, tm.show(want)[:120])
            elif g is None:
                ctx.violation(R, con + " " + n, "%s is not passed (documented: %s)" % (n, tm.show(want)[:100]), *w)
            elif resolved(g, extra=("ext", "new", "call", "ref")):
                ctx.violation(R, con + " " + n, "%s is %s, documented: %s" % (n, tm.show(g)[:200], tm.show(want)[:200]), *w)
            else:
                ctx.undecided(R, con + " " + n, tm.show(g)[:200])
        cmp_("sense", C(">="))
        cmp_("tol", mk("attr", args, "tolerance"))
        rfn = got.get("reach_form")
        ctx.decide(R, con + " system", True if rfn is not None and rfn.op == "new" and rfn.a[0].endswith("ReachabilityForm") else None, tm.show(rfn)[:80] if rfn is not None else "")
        if fname == "certargs":
            info = mk("ext", "json.load", mk("ext", "builtins.open", mk("attr", args, "certificate")))
            cmp_("mode", get(get(info, C("method")), C("mode")))
            vec = got.get("farkas_vec")
            inst = None
            for x in tm.subterms(vec) if vec is not None else ():
                if x.op == "get" and x.a[1] is C("certificate"):
                    inst = x.a[0]
            if inst is None or not (inst.op == "get" and inst.a[0] is get(info, C("instances"))):
                bad = vec is not None and resolved(vec, extra=("ext",))
                ctx.decide(R, con + " vector", False if bad else None, "the checked vector is %s, not the stored certificate" % (tm.show(vec)[:200] if vec is not None else None), *w)
            else:
                ctx.ok(R, con + " vector", tm.show(vec)[:120])
                for n in list(got):
                    got[n] = same_counter(got[n])
                cmp_("threshold", same_counter(get(inst, C("threshold"))))
        else:
            solves = [x for x in I.events if x.kind == "call" and x.name.rsplit(".", 1)[-1] in ("solve", "solveiter")]
            if not solves:
                ctx.undecided(R, con + " mode", "no search found")
                continue
            modes = {x.kw.get("mode") for x in solves}
            thrs = set()
            for x in solves:
                t = x.kw.get("threshold")
                if t is None and "**" in x.kw:
                    t = I.index(st, x.kw["**"], C("threshold"), None) if hasattr(I, "index") else get(x.kw["**"], C("threshold"))
                thrs.add(t)
            for n, vals in (("mode", modes), ("threshold", thrs)):
                if len(vals) != 1 or None in vals:
                    ctx.undecided(R, con + " " + n, "searches called with %s" % [tm.show(x) if x is not None else None for x in vals])
                    continue
                cmp_(n, next(iter(vals)))
        # report
        res = e.result
        shown = False
        for p in I.events:
            if p.kind not in ("print",) and p.name not in ("print", "builtins.print"):
                continue
            for a in p.args:
                a = I.freeze(st, a)
                if not mentions(a, res):
                    continue
                t1 = tm.show(tm.assume(a, tm.truth(res)))
                t0 = tm.show(tm.assume(a, bnot(tm.truth(res))))
                if "VALID" not in t1 + t0:
                    continue
                shown = True
                ok = "VALID" in t1 and "INVALID" not in t1 and "INVALID" in t0
                known = "VALID" in t1 and "VALID" in t0
                ctx.decide(R, con + " report", ok or (False if known else None),
                           "prints %s if the check succeeds and %s if not" % (t1[-60:], t0[-60:]), p.file, p.line)
        if not shown:
            ctx.undecided(R, con + " report", "report not found")
        # only after the status was examined
        if fname == "minargs":
            v = e.args[4] if len(e.args) > 4 else e.kw.get("farkas_vec")
            for cond, leaf in ite_cases(v):
                rs = {x.a[0] for x in tm.subterms(leaf) if x.op == "attr" and x.a[1] == "farkas_cert"}
                for r in rs:
                    need = eq(mk("attr", r, "status"), C("success"))
                    cond2 = band(*e.path, cond)
                    t = tm.bool_equiv(band(cond2, bnot(need)), FALSE)
                    ctx.decide(R, con + " after success", True if t else (False if not mentions(cond2, mk("attr", r, "status")) else None),
                               "the certificate is used on paths on which the search was not found successful", *w)


def same_counter(t):
    """loop counters of different passes over the same loop get one name (if there is only one loop)"""
    cs = {x for x in tm.subterms(t) if x.op == "it"}
    return tm.subst(t, {x: sym("n#", "int") for x in cs}) if len(cs) == 1 else t


def mentions(t, x):
    return any(y is x for y in tm.subterms(t))


def run(ctx):
    ctx.rule("C05.R1", "a returned certificate passed the check for the request")
    ctx.rule("C05.R2", "the program for certificates is the documented one")
    ctx.rule("C05.R3", "the command line judges certificates under their own mode and threshold")
    ctx.notes.append("check_farkas_certificate itself is decided by C04")
    for mode in ("min", "max"):
        for sense in ("<=", "<", ">=", ">"):
            ctx.part("generate %s %s" % (mode, sense), generate, ctx, mode, sense)
    ctx.part("certargs", cli, ctx, "certargs")
    ctx.part("minargs", cli, ctx, "minargs")
