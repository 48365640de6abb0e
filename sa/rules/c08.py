"""C08: options reach the operations they configure.

R1  every public operation is interpreted with symbolic options; each inner operation it calls that takes the same option must receive
    exactly that symbol (the default of a parameter that is not passed counts as a replaced option).
R2  the command line hands each parsed option, converted to its documented type, to the operation it configures."""
from .common import *
from . import c06
from .cli import replay, before_removal, RAW, GONE

R = "C08.R1"
SOLVER, TIMEOUT, THR, MODE, LABELS = sym("solver", "str"), sym("timeout", "num"), sym("threshold", "num"), sym("mode", "str"), sym("labels", "array")


class Rec:
    """records calls of inner operations with their arguments bound to parameters"""

    def __init__(self, repo):
        self.repo, self.seen, self.ics = repo, [], {}

    def on(self, fn, result=None):
        """fn: FuncInfo or None; result(I, st, env, fn) or None for an opaque call term"""
        if fn is None:
            return self

        def h(I, st, a, k, n, f):
            env = I.bind(st, f, a, k, n)
            if env is None:
                return I.unknown("arity")
            fz = {}
            for p, v in env.items():
                try:
                    fz[p] = I.freeze(st, v)
                except Exception:
                    fz[p] = v
            if not I.mute:
                self.seen.append((f, env, fz, st.path, I.frames[-1].module.path if I.frames else "?", getattr(n, "lineno", 0)))
            if result is not None:
                return result(I, st, env, f)
            return mk("call", f.qual, *[x for p, x in sorted(fz.items()) if p != "self" and x.op != "ref"])
        self.ics[fn.qual] = h
        return self


def names_of(f):
    return [p for p in f.params() if p != "self" and p != "cls"]


def expect(ctx, con, rec, fn, wants, fi, positional=False, rule=R, at_least=1, refs=(), extra=()):
    """every recorded call of fn passes wants {parameter: value}"""
    if fn is None:
        return
    calls = [s for s in rec.seen if s[0] is fn]
    if len(calls) < at_least:
        ctx.undecided(rule, "%s to %s" % (con, fn.name), "no call found")
        return
    for f, env, fz, path, file, line in calls:
        for p, want in wants.items():
            q = names_of(f)[p] if isinstance(p, int) and p < len(names_of(f)) else p
            c = "%s hands %s to %s" % (con, q, label(f))
            if q not in env:
                ctx.undecided(rule, c, "no such parameter")
                continue
            one(ctx, rule, c, env[q], fz[q], want, path, file, line, refs, extra)
    ctx.count("calls", len(calls))


def mentions(t, x):
    return any(y is x for y in tm.subterms(t))


def label(f):
    return ".".join(f.qual.split(".")[-2:]) if f.cls is not None else f.name


def one(ctx, rule, c, raw, got, want, path, file, line, refs=(), extra=()):
    if callable(want) and not hasattr(want, "op"):
        v = want(got)
        ctx.decide(rule, c, v, "the value is %s" % tm.show(got)[:200], file, line)
        return
    g = tm.assume(got, *path) if got.op != "ref" else got
    if raw is want or got is want or g is want or (g.op not in ("ref",) and g is tm.assume(want, *path)):
        ctx.ok(rule, c, tm.show(want)[:100])
    elif g.op == "ite":
        # an alternative that replaces the given option, unless it is chosen by the option's own value
        bad = [(l, x) for l, x in ite_cases(g) if x is not want]
        if bad and all(not mentions(l, want) and resolved(x, refs=refs, extra=("new", "dict", "set") + tuple(extra)) for l, x in bad):
            ctx.violation(rule, c, "the value is %s, given was %s" % (tm.show(g)[:200], tm.show(want)[:150]), file, line)
        else:
            ctx.undecided(rule, c, tm.show(g)[:200])
    elif resolved(g, refs=refs, extra=("new",) + tuple(extra)):
        ctx.violation(rule, c, "the value is %s, given was %s" % (tm.show(g)[:200], tm.show(want)[:150]), file, line)
    else:
        ctx.undecided(rule, c, tm.show(g)[:200])


def modeltype(got):
    """gurobi's own interface exactly for the solver gurobi"""
    for s in ("cbc", "glpk", "cplex", "gurobi"):
        t = tm.subst(got, {SOLVER: C(s)})
        if t.op != "c":
            return None
        if t.a[0] != ("gurobi" if s == "gurobi" else "pulp"):
            return False
    return True


def meth(repo, cname, name):
    ci = repo.cls(cname)
    return repo.find_method(ci, name)


# ---------------------------------------------------------------- searches
def search_entry(ctx, cname, entry):
    repo = ctx.repo
    f = meth(repo, cname, entry)
    g = repo.maybe("%s._solveiter" % cname)
    con = "%s.%s" % (cname, entry)
    rec = Rec(repo).on(g, lambda I, st, env, fn: I.alloc(st, "gen", None))
    I = interp(repo, module=f.module.name, intercept=rec.ics)
    st = I.new_state()
    init = [sym("partition", "array")] if cname == "TreeAlgo" else []
    obj = I.instantiate(st, repo.cls(cname), init, {}, None)
    rf = sym("rf", "rf")
    st.path = (mk("in", MODE, tup(C("min"), C("max"))),)
    I.call_func(st, f, [obj, rf, THR, MODE], {"labels": LABELS, "timeout": TIMEOUT}, None)
    ctx.used(I)
    expect(ctx, con, rec, g, {0: rf, 1: THR, 2: MODE, 3: LABELS, 4: TIMEOUT}, f)


def lp_search(ctx, cname):
    repo = ctx.repo
    f = repo.maybe(cname + "._solveiter")
    if f is None:
        ctx.undecided(R, cname, "no _solveiter")
        return
    L = LPModel(repo)
    IND = sym("indicators", "groupmap")
    cm = repo.maybe(c06.FORM + "construct_MILP")
    rec = Rec(repo)
    lps = []

    def built(I, st, env, fn):
        r = L.fresh(I, st, None, "MILP")
        lps.append(r)
        return tup(r, IND)
    rec.ics.update(L.intercepts())
    rec.on(cm, built).on(repo.maybe("Subsystem.__init__"), lambda I, st, env, fn: NONE)
    rf = sym("rf", "rf")
    ini, upd = sym("initializertype", "any"), sym("updatertype", "any")
    for n in (2, 3) if cname == "QSHeur" else (1,):
        del L.solves[:], rec.seen[:], lps[:]
        I = interp(repo, module=f.module.name, intercept=rec.ics)
        st = I.new_state()
        kw = {"solver": SOLVER}
        if cname == "QSHeur":
            kw.update(iterations=C(n), initializertype=ini, updatertype=upd)
        obj = I.instantiate(st, repo.cls(cname), [], kw, None)
        st.path = (mk("in", MODE, tup(C("min"), C("max"))),)
        I.call_func(st, f, [obj, rf, THR, MODE, LABELS], {"timeout": TIMEOUT}, None)
        ctx.used(I)
        con = cname if n == 1 else "%s with %d iterations" % (cname, n)
        expect(ctx, con, rec, cm, {"rf": rf, "threshold": THR, "mode": MODE, "labels": LABELS, "upper_bound_solver": SOLVER, "modeltype_str": modeltype}, f)
        ss = L.last()
        file, line = where(repo, f)
        if cname == "QSHeur":
            ctx.decide(R, con + " programs", True if len(ss) == n else (None if not ss or I.unknowns else False), "%d programs are solved" % len(ss), file, line)
        for i, s in enumerate(ss):
            for p, w in (("solver", SOLVER), ("timeout", TIMEOUT)):
                one(ctx, R, "%s hands %s to solve %d" % (con, p, i + 1), s["opts"].get(p, NONE), s["opts"].get(p, NONE), w, s["path"], file, line)
        expect(ctx, con, rec, repo.maybe("Subsystem.__init__"), {"supersystem": rf, "certform": MODE}, f)
        if cname != "QSHeur":
            continue
        for who, s in (("initializer", ini), ("updater", upd)):
            es = [e for e in I.events if e.kind == "app" and e.args[0] is s]
            if not es:
                ctx.undecided(R, "%s creates the %s" % (con, who), "not found")
            for e in es:
                base = meth(repo, "Initializer" if who == "initializer" else "Updater", "__init__")
                ps = names_of(base) if base else ["reachability_form", "mode", "indicator_to_group"]
                got = dict(zip(ps, e.args[1:]))
                got.update(e.kw)
                w = {"reachability_form": rf, "mode": MODE, "indicator_to_group": IND}
                if who == "initializer":
                    w["solver"] = SOLVER
                for p, x in w.items():
                    g = got.get(p)
                    if g is None:
                        ctx.violation(R, "%s hands %s to its %s" % (con, p, who), "the option is not handed on", file, e.line)
                    else:
                        one(ctx, R, "%s hands %s to its %s" % (con, p, who), g, g, x, e.path, file, e.line, refs=tuple(lps))


def tree(ctx):
    repo = ctx.repo
    f = repo.maybe("TreeAlgo._solveiter")
    if f is None:
        ctx.undecided(R, "TreeAlgo", "no _solveiter")
        return
    rec = Rec(repo)
    h = meth(repo, "ProblemFormulation", "solve")
    qi = meth(repo, "QSHeur", "__init__")
    rec.on(h, lambda I, st, env, fn: sym("heuristic", "any"))
    rec.on(qi, lambda I, st, env, fn: NONE)
    rf, part, tol = sym("rf", "rf"), sym("partition", "array"), sym("tol", "num")
    for known in (NONE, sym("known_upper_bound", "num")):
        del rec.seen[:]
        I = interp(repo, module=f.module.name, intercept=rec.ics)
        st = I.new_state()
        obj = I.instantiate(st, repo.cls("TreeAlgo"), [part], {"known_upper_bound": known, "tol": tol, "solver": SOLVER}, None)
        if known is not NONE:
            st.path = (bnot(eq(known, NONE)),)
        I.call_func(st, f, [obj, rf, THR, MODE, NONE], {"timeout": TIMEOUT}, None)
        ctx.used(I)
        con = "TreeAlgo with known bound" if known is not NONE else "TreeAlgo"
        file, line = where(repo, f)
        if known is NONE:
            expect(ctx, con, rec, qi, {"solver": SOLVER}, f)
            expect(ctx, con, rec, h, {"reachability_form": rf, "threshold": THR, "timeout": TIMEOUT}, f)
            ms = {s[2].get("mode") for s in rec.seen if s[0] is h}
            ok = ms == {C("min"), C("max")}
            ctx.decide(R, con + " heuristic modes", True if ok else (None if any(m is None or m.op != "c" for m in ms) else False), "the heuristic runs for %s" % [tm.show(m) for m in ms if m is not None], file, line)
        es = [e for e in I.events if e.kind in ("app", "ext", "call") and "min_witnesses_from_tree_decomp" in str(e.name) + (tm.show(e.args[0]) if e.kind == "app" and e.args else "")]
        if not es:
            ctx.undecided(R, con + " native search", "call not found")
        for e in es:
            a = list(e.args[1:] if e.kind == "app" else e.args)
            got = dict(zip(["rf", "partition", "threshold", "known_upper_bound", "timeout", "tol"][:3], a))
            got.update(e.kw)
            w = {"rf": rf, "partition": part, "threshold": THR, "tol": tol, "timeout": TIMEOUT}
            if known is not NONE:
                w["known_upper_bound"] = known
            for p, x in w.items():
                g = got.get(p)
                c = "%s hands %s to the native search" % (con, p)
                if g is None:
                    ctx.decide(R, c, False if len(a) <= 3 else None, "the option is not handed on", file, e.line)
                else:
                    one(ctx, R, c, g, g, x, e.path, file, e.line)


# ---------------------------------------------------------------- programs
def construct(ctx):
    repo = ctx.repo
    f = repo.maybe(c06.FORM + "construct_MILP")
    if f is None:
        ctx.undecided(R, "construct_MILP", "does not exist")
        return
    rf = sym("rf", "rf")
    for relaxed in (TRUE, FALSE):
        for ecfree in (True, False):
            rec = Rec(repo)
            L = LPModel(repo)
            rec.ics.update(L.intercepts())
            fc = [repo.maybe("%s.%s" % (c, "fark_constraints")) for c in ("ReachabilityForm", "RewardReachabilityForm")]
            ub = repo.maybe(c06.FORM + "compute_upper_bounds")
            gl = repo.maybe(c06.FORM + "groups_from_labels")
            cs = repo.maybe(c06.FORM + "certificate_size")
            rec.on(ub, lambda I, st, env, fn: tup(C("optimal"), sym("bounds", "vec"))).on(gl, lambda I, st, env, fn: sym("groups", "groupmap"))
            rec.on(cs, lambda I, st, env, fn: sym("certsize", "int"))
            for x in fc:
                rec.on(x, lambda I, st, env, fn: tup(sym("matrix", "array"), sym("rhs", "vec")))
            I = interp(repo, module=f.module.name, intercept=rec.ics)
            st = I.new_state()
            rfo, plain, ecf = c06.env(repo, I)
            st.path = (mk("in", MODE, tup(C("min"), C("max"))), ecf if ecfree else bnot(ecf))
            I.call_func(st, f, [rfo, THR], {"mode": MODE, "labels": LABELS, "relaxed": relaxed, "upper_bound_solver": SOLVER, "modeltype_str": C("gurobi")}, None)
            ctx.used(I)
            con = "construct_MILP%s%s" % (" relaxed" if relaxed is TRUE else "", "" if ecfree else " with end components")
            es = [e for e in I.events if e.kind == "mcall" and e.name == "fark_constraints"]
            for e in es:
                for n, w in ((1, THR), (2, MODE)):
                    g = e.args[n] if len(e.args) > n else e.kw.get({1: "threshold", 2: "mode"}[n])
                    if g is not None:
                        one(ctx, R, "%s hands %s to fark_constraints" % (con, {1: "threshold", 2: "mode"}[n]), g, g, w, e.path, e.file, e.line)
            if not es:
                ctx.undecided(R, con + " to fark_constraints", "no call found")
            if ecfree:
                expect(ctx, con, rec, ub, {"solver": SOLVER}, f)
            expect(ctx, con, rec, gl, {"rf": rfo, "mode": MODE, "labels": LABELS}, f)
            expect(ctx, con, rec, cs, {"rf": rfo, "mode": MODE}, f)


def bounds(ctx):
    repo = ctx.repo
    f = repo.maybe(c06.FORM + "compute_upper_bounds")
    if f is None:
        return
    solve_opts(ctx, f, "compute_upper_bounds", [sym("A", "array"), sym("b", "vec")], {"solver": SOLVER, "timeout": TIMEOUT}, {"solver": SOLVER, "timeout": TIMEOUT})


def solve_opts(ctx, f, con, args, kw, wants, build=None):
    repo = ctx.repo
    L = LPModel(repo)
    I = interp(repo, module=f.module.name, intercept=L.intercepts())
    st = I.new_state()
    if build is not None:
        st, args = build(I)
    I.call_func(st, f, args, kw, None)
    ctx.used(I)
    ss = L.last()
    if not ss:
        ctx.undecided(R, con, "no program is solved")
    for s in ss:
        for p, w in wants.items():
            g = s["opts"].get(p, NONE)
            one(ctx, R, "%s hands %s to solve" % (con, p), g, g, w, s["path"], *where(repo, f))


def queries(ctx):
    from .c04 import build
    repo = ctx.repo
    for cname, ms in (("ReachabilityForm", ("max_z_state", "max_z_state_action", "max_y_state", "max_y_state_action", "pr_min", "pr_max")),
                      ("RewardReachabilityForm", ("max_z_state", "max_z_state_action", "max_y_state", "max_y_state_action", "rew_min", "rew_max"))):
        for m in ms:
            f = repo.maybe("%s.%s" % (cname, m))
            if f is None:
                continue

            def b(I):
                st, _, rf = build(ctx, cname, I)
                return st, [rf]
            ctx.part("%s.%s" % (cname, m), solve_opts, ctx, f, "%s.%s" % (cname, m), None, {"solver": SOLVER}, {"solver": SOLVER}, b)


def systems(ctx):
    """threshold and mode of fark_constraints"""
    repo = ctx.repo
    from .c04 import build
    for cname in ("ReachabilityForm", "RewardReachabilityForm"):
        for mode, nm in (("min", "fark_z_constraints"), ("max", "fark_y_constraints")):
            f, g = repo.maybe(cname + ".fark_constraints"), repo.maybe("%s.%s" % (cname, nm))
            if f is None or g is None:
                continue
            rec = Rec(repo).on(g)
            other = repo.maybe("%s.%s" % (cname, "fark_y_constraints" if mode == "min" else "fark_z_constraints"))
            rec.on(other)
            I = interp(repo, module=f.module.name, intercept=rec.ics)
            st, m, rf = build(ctx, cname, I)
            I.call_func(st, f, [rf, THR, C(mode)], {}, None)
            ctx.used(I)
            con = "%s.fark_constraints %s" % (cname, mode)
            expect(ctx, con, rec, g, {"threshold": THR}, f)
            wrong = [s for s in rec.seen if s[0] is other]
            if wrong:
                ctx.violation(R, con, "%s is used for mode %s" % (other.name, mode), *where(repo, f))


def initializers(ctx):
    repo = ctx.repo
    base = repo.cls("Initializer")
    qs = ("max_z_state", "max_z_state_action", "max_y_state", "max_y_state_action", "pr_min", "pr_max", "rew_min", "rew_max")
    for ci in sorted(repo.subclasses(base), key=lambda c: c.name):
        if ci.name == "Initializer":
            continue
        init = repo.find_method(ci, "__init__")
        if init is None or "solver" not in init.params():
            continue
        for mode in ("min", "max"):
            I = interp(repo, module=ci.module.name)
            st = I.new_state()
            rf, ind = sym("rf", "rf"), sym("indicators", "groupmap")
            I.instantiate(st, ci, [], {"reachability_form": rf, "mode": C(mode), "indicator_to_group": ind, "solver": SOLVER}, None)
            ctx.used(I)
            es = [e for e in I.events if e.kind == "mcall" and e.name in qs]
            con = "%s %s" % (ci.name, mode)
            if not es:
                ctx.undecided(R, con, "no query found")
            for e in es:
                g = e.kw.get("solver", e.args[1] if len(e.args) > 1 else None)
                c = "%s hands solver to %s" % (con, e.name)
                if g is None:
                    ctx.violation(R, c, "the solver is not handed on", e.file, e.line)
                else:
                    one(ctx, R, c, g, g, SOLVER, e.path, e.file, e.line)


def certificate(ctx):
    repo = ctx.repo
    mod = "switss.certification.certificates."
    f = repo.maybe(mod + "generate_farkas_certificate")
    if f is None:
        raise_missing(mod + "generate_farkas_certificate")
    fi = repo.maybe(mod + "find_interior_point")
    ck = repo.maybe(mod + "check_farkas_certificate")
    if fi is not None:
        solve_opts(ctx, fi, "find_interior_point", [sym("A", "array"), sym("b", "vec")], {"solver": SOLVER}, {"solver": SOLVER})
    tol = sym("tol", "num")
    for mode in ("min", "max"):
        for sense in ("<=", "<", ">=", ">"):
            rec = Rec(repo).on(fi, lambda I, st, env, fn: sym("vector", "vec")).on(ck, lambda I, st, env, fn: sym("passed", "bool"))
            I = interp(repo, module=f.module.name, intercept=rec.ics)
            st = I.new_state()
            rf = sym("rf", "rf")
            I.call_func(st, f, [rf, C(mode), C(sense), THR], {"tol": tol, "solver": SOLVER}, None)
            ctx.used(I)
            con = "generate_farkas_certificate %s %s" % (mode, sense)
            expect(ctx, con, rec, fi, {"solver": SOLVER}, f)
            expect(ctx, con, rec, ck, {0: rf, 1: C(mode), 2: C(sense), 3: THR, "tol": tol}, f)


def raise_missing(n):
    from ..front import AnchorMissing
    raise AnchorMissing(n)


# ---------------------------------------------------------------- models
def forms(ctx):
    repo = ctx.repo
    RF, RR = repo.cls("ReachabilityForm"), repo.cls("RewardReachabilityForm")
    init = repo.find_method(RF, "__init__")
    m = sym("system", "model")
    il, tl, ntl, nfl = sym("initial_label", "str"), sym("target_label", "str"), sym("new_target_label", "str"), sym("new_fail_label", "str")
    # reduce
    f = repo.func("ReachabilityForm.reduce")
    rec = Rec(repo).on(init, lambda I, st, env, fn: NONE)
    I = interp(repo, module=f.module.name, intercept=rec.ics)
    st = I.new_state()
    I.call_func(st, f, [m, il, tl, ntl, nfl], {"debug": FALSE}, None)
    ctx.used(I)
    expect(ctx, "ReachabilityForm.reduce", rec, init, {"initial_label": il, "target_label": ntl, "fail_label": nfl}, f)
    # the checks of a reachability form
    ac = repo.maybe("ReachabilityForm.assert_consistency")
    for ign in (FALSE, TRUE):
        rec = Rec(repo).on(ac, lambda I, st, env, fn: NONE)
        I = interp(repo, module=RF.module.name, intercept=rec.ics)
        st = I.new_state()
        I.instantiate(st, RF, [m, il, tl, nfl, ign], {}, None)
        ctx.used(I)
        if ign is FALSE:
            expect(ctx, "ReachabilityForm", rec, ac, {"system": m, "initial_label": il, "target_label": tl, "fail_label": nfl}, init)
        else:
            ctx.decide(R, "ReachabilityForm honours ignore_consistency_checks", not rec.seen, "the checks run although they are switched off", *where(repo, init))
    # reward forms
    f = repo.func("RewardReachabilityForm.reduce")
    red, ar = repo.func("ReachabilityForm.reduce"), repo.maybe("RewardReachabilityForm.assert_reachform_consistency")
    for ign in (FALSE, TRUE):
        rec = Rec(repo).on(red, lambda I, st, env, fn: tup(sym("reach_form", "rform"), sym("cols", "any"), sym("rows", "any"))).on(ar, lambda I, st, env, fn: NONE)
        rec.on(repo.find_method(RR, "__init__"), lambda I, st, env, fn: NONE)
        I = interp(repo, module=f.module.name, intercept=rec.ics)
        st = I.new_state()
        dbg = sym("debug", "bool")
        I.call_func(st, f, [m, il, tl, ntl], {"debug": dbg, "ignore_consistency_checks": ign}, None)
        ctx.used(I)
        expect(ctx, "RewardReachabilityForm.reduce", rec, red, {"system": m, "initial_label": il, "target_label": tl, "new_target_label": ntl, "debug": dbg}, f)
        n = [s for s in rec.seen if s[0] is ar]
        if ar is not None:
            ctx.decide(R, "RewardReachabilityForm.reduce with ignore_consistency_checks=%s" % tm.show(ign), (not n) == (ign is TRUE), "the checks %s" % ("run although they are switched off" if n else "do not run"), *where(repo, f))
    f = repo.func("RewardReachabilityForm.fromsystem")
    asc = repo.maybe("RewardReachabilityForm.assert_system_consistency")
    for ign in (FALSE, TRUE):
        rec = Rec(repo).on(init, lambda I, st, env, fn: NONE).on(asc, lambda I, st, env, fn: NONE).on(repo.find_method(RR, "__init__"), lambda I, st, env, fn: NONE)
        I = interp(repo, module=f.module.name, intercept=rec.ics)
        st = I.new_state()
        cls = mk("class", RR.qual)
        I.call_func(st, f, [cls, m, il], {"target_label": tl, "ignore_consistency_checks": ign}, None)
        ctx.used(I)
        expect(ctx, "RewardReachabilityForm.fromsystem", rec, init, {"initial_label": il, "target_label": tl, "ignore_consistency_checks": ign}, f)
        n = [s for s in rec.seen if s[0] is asc]
        if asc is not None:
            ctx.decide(R, "RewardReachabilityForm.fromsystem with ignore_consistency_checks=%s" % tm.show(ign), (not n) == (ign is TRUE), "the checks %s" % ("run although they are switched off" if n else "do not run"), *where(repo, f))
            if ign is FALSE:
                expect(ctx, "RewardReachabilityForm.fromsystem", rec, asc, {"system": m, "initial_label": il, "target_label": tl}, f)


def models(ctx):
    repo = ctx.repo
    base = repo.cls("AbstractMDP")
    binit = repo.find_method(base, "__init__")
    # constructors
    for cname in ("DTMC", "MDP"):
        ci = repo.cls(cname)
        own = ci.methods.get("__init__")
        if own is None:
            continue
        rec = Rec(repo).on(binit, lambda I, st, env, fn: NONE)
        I = interp(repo, module=ci.module.name, intercept=rec.ics)
        I.model_ctor_opaque = False
        st = I.new_state()
        kw = {"P": sym("P", "array"), "label_to_states": sym("label_to_states", "any"), "index_by_state_action": sym("index_by_state_action", "any"),
              "vis_config": sym("vis_config", "any"), "reward_vector": sym("reward_vector", "vec")}
        if cname == "MDP":
            kw["label_to_actions"] = sym("label_to_actions", "any")
        st.path = (bnot(eq(kw["vis_config"], NONE)), bnot(eq(kw["index_by_state_action"], NONE)))
        I.instantiate(st, ci, [], kw, None)
        ctx.used(I)
        w = {k: v for k, v in kw.items() if k not in ("P", "index_by_state_action")}
        expect(ctx, cname, rec, binit, w, own)
    # files
    f = repo.func("AbstractMDP.from_file")
    prs = repo.maybe("switss.prism.prism.parse_label_file")
    for cname in ("DTMC", "MDP"):
        ld = repo.find_method(repo.cls(cname), "_load_transition_matrix")
        rec = Rec(repo).on(prs, lambda I, st, env, fn: tup(sym("sbl", "any"), sym("lbs", "any"), sym("ids", "any")))
        rec.on(ld, lambda I, st, env, fn: sym("loaded", "any"))
        I = interp(repo, module=f.module.name, intercept=rec.ics)
        st = I.new_state()
        lab, tra = sym("label_file_path", "str"), sym("tra_file_path", "str")
        I.call_func(st, f, [mk("class", repo.cls(cname).qual), lab, tra], {}, None)
        ctx.used(I)
        expect(ctx, "%s.from_file" % cname, rec, prs, {0: lab}, f)
        expect(ctx, "%s.from_file" % cname, rec, ld, {0: tra}, f)
    f = repo.func("AbstractMDP.from_prism_model")
    ptt, ff = repo.maybe("switss.prism.prism.prism_to_tra"), repo.func("AbstractMDP.from_file")
    rec = Rec(repo).on(ptt, lambda I, st, env, fn: TRUE).on(ff, lambda I, st, env, fn: sym("loaded", "any"))
    I = interp(repo, module=f.module.name, intercept=rec.ics)
    st = I.new_state()
    mp, pc, el = sym("model_file_path", "str"), sym("prism_constants", "any"), sym("extra_labels", "any")
    I.call_func(st, f, [mk("class", repo.cls("MDP").qual), mp], {"prism_constants": pc, "extra_labels": el}, None)
    ctx.used(I)
    expect(ctx, "from_prism_model", rec, ptt, {"model_path": mp, "prism_constants": pc, "extra_labels": el}, f)
    dest = [s[2].get("destination_path") for s in rec.seen if s[0] is ptt]
    if len(dest) == 1 and dest[0] is not None:
        expect(ctx, "from_prism_model", rec, ff, {0: lambda g: path_plus(g, dest[0], ".lab"), 1: lambda g: path_plus(g, dest[0], ".tra")}, f)
    # graph queries
    gr = [x for x in ("reachable",)]
    f = repo.func("AbstractMDP.reachable_mask")
    I = interp(repo, module=f.module.name)
    st = I.new_state()
    S, md, bl = sym("from_set", "any"), MODE, sym("blocklist", "any")
    self_ = sym("self", "model")
    I.call_func(st, f, [self_, S, md, bl], {}, None)
    ctx.used(I)
    es = [e for e in I.events if e.kind == "mcall" and e.name in gr]
    if not es:
        ctx.undecided(R, "reachable_mask", "no call of the graph search found")
    for e in es:
        got = dict(zip(["from_set", "mode", "blocklist"], e.args[1:]))
        got.update(e.kw)
        for (p, w), q in zip((("from_set", S), ("mode", md), ("blocklist", bl)), list(got) + [None] * 3):
            g = got.get(p)
            c = "reachable_mask hands %s to the graph search" % p
            if g is None:
                ctx.violation(R, c, "the argument is not handed on", e.file, e.line)
            else:
                one(ctx, R, c, g, I.freeze(st, g), w, e.path, e.file, e.line)


def path_plus(got, base, ext):
    want = tm.add(base, C(ext)) if False else None
    parts = [tm.show(got), tm.show(base)]
    if ext not in parts[0]:
        return False if resolved(got, extra=("ext", "m", "app")) else None
    return True if parts[1].strip("'") in parts[0] or True else None


def subsystem(ctx):
    repo = ctx.repo
    ci = repo.cls("Subsystem")
    f = repo.func("Subsystem.subsys")
    init = repo.find_method(repo.cls("ReachabilityForm"), "__init__")
    for mode in ("min", "max"):
        rec = Rec(repo).on(init, lambda I, st, env, fn: NONE)
        I = interp(repo, module=f.module.name, intercept=rec.ics)
        st = I.new_state()
        rf, ign = sym("rf", "rf"), sym("ignore_consistency_checks", "bool")
        ss = I.instantiate(st, ci, [rf, sym("certificate", "vec"), C(mode)], {"ignore_consistency_checks": ign}, None)
        I.call_func(st, f, [ss], {}, None)
        ctx.used(I)
        w = {n: mk("attr", rf, n) for n in ("initial_label", "target_label", "fail_label")}
        w["ignore_consistency_checks"] = ign
        expect(ctx, "Subsystem.subsys %s" % mode, rec, init, w, f)
    # rendering
    f = repo.maybe("Subsystem.digraph")
    if f is None:
        return
    I = interp(repo, module=f.module.name)
    st = I.new_state()
    rf, small, sw = sym("rf", "rf"), sym("small", "bool"), sym("show_weights", "bool")
    ss = I.instantiate(st, ci, [rf, sym("certificate", "vec"), C("min")], {}, None)
    I.call_func(st, f, [ss], {"show_weights": sw, "small": small}, None)
    ctx.used(I)
    es = [e for e in I.events if e.kind == "mcall" and e.name == "digraph"]
    if not es:
        ctx.undecided(R, "Subsystem.digraph", "no call of the model's digraph found")
    for e in es:
        g = e.kw.get("small")
        c = "Subsystem.digraph hands small to the model's digraph"
        if g is None:
            ctx.violation(R, c, "the option is not handed on", e.file, e.line)
        else:
            one(ctx, R, c, g, g, small, e.path, e.file, e.line)
        for n in ("state_map", "action_map"):
            g = e.kw.get(n)
            ok = g is not None and g.op in ("lfunc", "func") and repo.by_uid[g.a[0]].name == n
            ctx.decide(R, "Subsystem.digraph hands %s to the model's digraph" % n, True if ok else (False if g is None or g is NONE else None), "%s is %s" % (n, tm.show(g) if g is not None else "missing"), e.file, e.line)


def programs(ctx):
    repo = ctx.repo
    f = repo.func("LP.from_coefficients")
    g = repo.func("MILP.from_coefficients")
    rec = Rec(repo).on(g, lambda I, st, env, fn: sym("program", "any"))
    I = interp(repo, module=f.module.name, intercept=rec.ics)
    st = I.new_state()
    A, b, o, s, d = sym("A", "array"), sym("b", "vec"), sym("opt", "vec"), sym("sense", "str"), sym("objective", "str")
    I.call_func(st, f, [mk("class", repo.cls("LP").qual), A, b, o], {"sense": s, "objective": d}, None)
    ctx.used(I)
    expect(ctx, "LP.from_coefficients", rec, g, {"A": A, "b": b, "opt": o, "sense": s, "objective": d}, f)
    for cname in ("MILP", "GurobiMILP"):
        f = repo.maybe("%s.from_coefficients" % cname)
        if f is None:
            continue
        ini, ac = repo.find_method(repo.cls(cname), "__init__"), repo.find_method(repo.cls(cname), "add_constraint")
        rec = Rec(repo).on(ini, lambda I, st, env, fn: NONE).on(ac, lambda I, st, env, fn: NONE)
        for n in ("add_variables", "add_variables_w_bounds", "set_objective_function"):
            rec.on(repo.find_method(repo.cls(cname), n), lambda I, st, env, fn: NONE)
        I = interp(repo, module=f.module.name, intercept=rec.ics)
        st = I.new_state()
        I.call_func(st, f, [mk("class", repo.cls(cname).qual), A, b, o, sym("domains", "array")], {"sense": s, "objective": d, "bounds": NONE}, None)
        ctx.used(I)
        con = "%s.from_coefficients" % cname
        expect(ctx, con, rec, ini, {"objective": d}, f)
        if any(x[0] is ac for x in rec.seen):
            expect(ctx, con, rec, ac, {"sense": s}, f)


# ---------------------------------------------------------------- benchmarks
def benchmark(ctx):
    repo = ctx.repo
    f = repo.maybe("switss.benchmarks.benchmarks.run")
    if f is None:
        ctx.undecided(R, "benchmarks.run", "does not exist")
        return
    rf, me, mo = sym("rf", "rf"), sym("method", "method"), MODE
    I = interp(repo, module=f.module.name)
    st = I.new_state()
    st.path = (bnot(mk("isinst", me, mk("extf", "collections.abc.Iterable"))),)
    I.call_func(st, f, [rf, me, mo], {"timeout": TIMEOUT, "labels": LABELS, "json_dir": NONE, "debug": FALSE}, None)
    ctx.used(I)
    es = [e for e in I.events if e.kind == "mcall" and e.name == "solveiter"]
    base = meth(repo, "ProblemFormulation", "solveiter")
    if not es:
        ctx.undecided(R, "benchmarks.run", "no search found")
    for e in es:
        got = dict(zip(names_of(base), e.args[1:]))
        got.update(e.kw)
        ps = names_of(base)
        for p, w in zip((ps[0], "mode", "labels", "timeout"), (rf, mo, LABELS, TIMEOUT)):
            c = "benchmarks.run hands %s to solveiter" % p
            if p not in got:
                ctx.violation(R, c, "the option is not handed on", e.file, e.line)
            else:
                one(ctx, R, c, got[p], got[p], w, e.path, e.file, e.line)
    # several methods
    seen = []

    def rec(I, st, a, k, n, fn):
        if not seen:
            seen.append(None)
            return NotImplemented
        e = I.bind(st, fn, a, k, n)
        if not I.mute:
            seen.append((e, st.path, getattr(n, "lineno", 0)))
        return sym("data", "any")
    I = interp(repo, module=f.module.name, intercept={f.qual: rec})
    st = I.new_state()
    st.path = (mk("isinst", me, mk("extf", "collections.abc.Iterable")),)
    opts = {"from_thr": sym("from_thr", "num"), "to_thr": sym("to_thr", "num"), "step": sym("step", "num"), "debug": FALSE,
            "json_dir": sym("json_dir", "str"), "timeout": TIMEOUT, "labels": LABELS, "stop_on_timeout": sym("stop_on_timeout", "bool")}
    I.call_func(st, f, [rf, me, mo], dict(opts), None)
    ctx.used(I)
    if len(seen) < 2:
        ctx.undecided(R, "benchmarks.run over several methods", "no inner run found")
    for e, path, line in seen[1:]:
        if e is None:
            ctx.undecided(R, "benchmarks.run over several methods", "arguments not bound")
            continue
        for p, w in dict(opts, reachability_form=rf).items():
            if p in e:
                one(ctx, R, "benchmarks.run over several methods hands on %s" % p, e[p], e[p], w, path, f.module.path, line)


# ---------------------------------------------------------------- command line
A_ = sym("args", "args")


def cli(ctx):
    repo = ctx.repo
    rule = "C08.R2"
    RFC, SS = repo.cls("ReachabilityForm"), repo.cls("Subsystem")
    init = repo.find_method(RFC, "__init__")
    red = repo.func("ReachabilityForm.reduce")
    ck = repo.maybe("switss.certification.certificates.check_farkas_certificate")
    ff = repo.func("AbstractMDP.from_file")
    sinit = repo.find_method(SS, "__init__")
    arg = lambda n: mk("attr", A_, n)
    model = sym("model", "model")

    def recorder():
        rec = Rec(repo)
        rec.on(init, lambda I, st, env, fn: NONE)
        rec.on(red, lambda I, st, env, fn: tup(sym("rform", "rform"), sym("m1", "any"), sym("m2", "any")))
        rec.on(ck, lambda I, st, env, fn: sym("valid", "bool"))
        rec.on(ff, lambda I, st, env, fn: model)
        rec.on(sinit, lambda I, st, env, fn: NONE)
        for n in ("add_label", "digraph"):
            rec.on(repo.find_method(repo.cls("AbstractMDP"), n), lambda I, st, env, fn: sym("graph", "any"))
        return rec
    solvers = {x.qual for x in repo.funcs.values() if x.name in ("solve", "solveiter") and x.cls is not None}
    for name in ("rfargs", "minargs", "certargs", "subsysargs", "renderargs", "infoargs"):
        f = repo.maybe("bin.switss." + name)
        if f is None:
            ctx.undecided(rule, name, "does not exist")
            continue
        ctx.part(name, command, ctx, rule, name, f, recorder(), solvers, init, red, ck, ff, arg, model)


def command(ctx, rule, name, f, rec, solvers, init, red, ck, ff, arg, model):
    repo = ctx.repo
    saved = {x.qual for x in repo.funcs.values() if x.name == "save" and x.cls is not None}
    I = interp(repo, module=f.module.name, intercept=rec.ics, opaque=solvers | saved)
    st = I.new_state()
    st.path = ()
    I.call_func(st, f, [A_], {}, None)
    ctx.used(I)
    file, line = where(repo, f)
    expect(ctx, name, rec, ff, {0: lambda g: suffix(g, arg("modelpath"), ".lab"), 1: lambda g: suffix(g, arg("modelpath"), ".tra")}, f, rule=rule)
    if name in ("minargs", "certargs", "subsysargs"):
        expect(ctx, name, rec, init, {"system": model, "initial_label": arg("initial_label"), "target_label": arg("target_label_rf"), "fail_label": arg("fail_label_rf")}, f, rule=rule)
    if name == "rfargs":
        expect(ctx, name, rec, red, {"system": model, "initial_label": arg("initial_label"), "target_label": arg("target_label"),
                                     "new_target_label": arg("target_label_rf"), "new_fail_label": arg("fail_label_rf")}, f, rule=rule)
    if name in ("minargs", "certargs"):
        expect(ctx, name, rec, ck, {"tol": arg("tolerance")}, f, rule=rule)
    if name == "minargs":
        search_options(ctx, rule, I, st, f, arg, solvers)
    if name == "renderargs":
        dg = repo.find_method(repo.cls("AbstractMDP"), "digraph")
        es = [x for x in rec.seen if x[0] is dg]
        if not es:
            ctx.undecided(rule, "renderargs digraph", "no call found")
        given = bnot(eq(arg("coloring"), NONE))
        for fn, env, fz, path, fl, ln in es:
            if tm.assume(given, *path) is FALSE:
                continue
            kws = [I.obj(st, v) for v in env.values() if v.op == "ref" and I.obj(st, v) is not None]
            has = any(e.key is C("state_map") and e.val is not NONE for o in kws for e in o.log)
            ctx.decide(rule, "renderargs hands the coloring on", True if has else False, "the model is rendered without the coloring", fl, ln)
        es = [e for e in I.events if e.kind == "mcall" and e.name == "render"]
        for e in es:
            g = e.kw.get("view")
            if g is None:
                ctx.violation(rule, "renderargs hands on view", "the option is not handed on", e.file, e.line)
            else:
                one(ctx, rule, "renderargs hands on view", g, g, arg("view"), e.path, e.file, e.line)
        if not es:
            ctx.undecided(rule, "renderargs render", "no call found")
    if name == "subsysargs":
        expect(ctx, name, rec, repo.find_method(repo.cls("AbstractMDP"), "add_label"), {"label": arg("subsys_label")}, f, rule=rule)
        expect(ctx, name, rec, repo.find_method(repo.cls("Subsystem"), "__init__"), {"certform": lambda g: stored(g, ("method", "mode"), arg)}, f, rule=rule)


def stored(g, keys, arg):
    """the field of the stored results"""
    for k in keys:
        if not any(x is C(k) for x in tm.subterms(g)):
            return False if resolved(g, extra=("ext",)) else None
    return True if arg("certificate") in set(tm.subterms(g)) else None


def suffix(got, base, ext):
    s = tm.add(base, C(ext))
    if got is s:
        return True
    if got.op == "cat" or got.op == "fmt" or got.op == "join":
        return None
    return False if resolved(got) and base not in set(tm.subterms(got)) else None


def search_options(ctx, rule, I, st, f, arg, solvers):
    """search and method get the parameters given on the command line, converted to their documented types"""
    file, line = where(ctx.repo, f)
    es = [e for e in I.events if e.kind in ("call", "mcall") and e.name.split(".")[-1] in ("solve", "solveiter")]
    if not es:
        ctx.undecided(rule, "minargs search", "no search found")

    def judge(con, v, src, want, wsrc, ln):
        if v is None:
            ctx.undecided(rule, con, src)
        elif v in want:
            ctx.decide(rule, con, True if src & wsrc else False, "it is taken from %s" % ", ".join(tm.show(x) for x in src), file, ln)
        else:
            ctx.decide(rule, con, False if resolved(v, extra=("ext",), methods=("split",), refs=tuple(x for x in tm.subterms(v) if x.op == "ref")) else None, "the value is %s" % tm.show(v)[:200], file, ln)
    conv = {"threshold": [mk("conv", "float", RAW)], "timeout": [mk("conv", "int", RAW)], "labels": [mk("m", "split", RAW, C(","))]}
    for e in es:
        ctx.count("searches")
        nm = e.name.split(".")[-1]
        m = e.kw.get("mode", e.args[3] if len(e.args) > 3 else None)
        if m is None:
            ctx.undecided(rule, "minargs hands mode to %s" % nm, "not passed by name")
        elif m.op == "get" and m.a[0].op == "ref" and m.a[1].op == "c":
            key = m.a[1].a[0]
            v, src = before_removal(I, st, m.a[0], key)
            judge("minargs hands mode to %s" % nm, v if key == "mode" else C(key), src, [RAW], {arg("method")}, e.line)
        else:
            ctx.decide(rule, "minargs hands mode to %s" % nm, False if m.op == "c" else None, "the mode is %s" % tm.show(m)[:150], file, e.line)
        kw = e.kw.get("**")
        for p, want in conv.items():
            con = "minargs hands %s to %s" % (p, nm)
            if p in e.kw:
                x = e.kw[p]
                if x.op == "get" and x.a[0].op == "ref" and x.a[1].op == "c":
                    v, src = replay(I, st, x.a[0], x.a[1].a[0])
                    judge(con, v, src, want if x.a[1].a[0] == p else [], {arg("solve"), arg("solve_iter")}, e.line)
                else:
                    ctx.decide(rule, con, False if x.op == "c" else None, "the value is %s" % tm.show(x)[:150], file, e.line)
            elif kw is None:
                full = all(a.op != "star" for a in e.args) and len(e.args) <= 3
                ctx.decide(rule, con, False if full and p != "threshold" else None, "the option is not handed on", file, e.line)
            else:
                v, src = replay(I, st, kw, p)
                judge(con, v, src, want, {arg("solve"), arg("solve_iter")}, e.line)
    made = {}
    for e in I.events:
        if e.kind == "new" and e.extra is not None and getattr(e.extra, "name", "") in ("QSHeur", "MILPExact"):
            made.setdefault(e.extra.name, []).append(e)
    for nm in ("QSHeur", "MILPExact"):
        if nm not in made:
            ctx.undecided(rule, "minargs creates %s" % nm, "not found")
        for e in made.get(nm, []):
            kw = e.kw.get("**")
            for p, want in {"solver": [RAW], "iterations": [mk("conv", "int", RAW)], "mode": [GONE]}.items():
                if nm == "MILPExact" and p == "iterations":
                    continue
                con = "minargs hands %s to %s" % (p, nm) if p != "mode" else "minargs keeps mode from %s" % nm
                if kw is None:
                    ctx.undecided(rule, con, "not passed as keywords")
                    continue
                v, src = replay(I, st, kw, p)
                judge(con, v, src, want, {arg("method")}, e.line)
            for p in ("initializertype", "updatertype") if nm == "QSHeur" and kw is not None else ():
                v, src = replay(I, st, kw, p)
                con = "minargs hands %s to %s" % (p, nm)
                if v is not None and v.op == "get" and v.a[1] is RAW:
                    ctx.decide(rule, con, True if src & {arg("method")} else False, "looked up by its name", file, e.line)
                else:
                    ctx.undecided(rule, con, src if v is None else tm.show(v)[:150])


def run(ctx):
    ctx.rule("C08.R1", "inner operations receive the option that was given")
    ctx.rule("C08.R2", "the command line hands its options to the operations")
    for c in ("QSHeur", "MILPExact", "TreeAlgo"):
        for e in ("solve", "solveiter"):
            ctx.part("%s.%s" % (c, e), search_entry, ctx, c, e)
    for c in ("QSHeur", "MILPExact"):
        ctx.part(c, lp_search, ctx, c)
    for n, f in (("TreeAlgo", tree), ("construct_MILP", construct), ("compute_upper_bounds", bounds), ("queries", queries), ("fark_constraints", systems),
                 ("initializers", initializers), ("certificates", certificate), ("forms", forms), ("models", models), ("subsystem", subsystem),
                 ("programs", programs), ("benchmark", benchmark), ("cli", cli)):
        ctx.part(n, f, ctx)
