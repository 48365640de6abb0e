"""C07: success is only reported together with an optimal solution.

R1  every result that a search yields: success only where the path contains the optimal status of the program whose vector is the
    certificate; other results carry the status of what failed and nothing else, and nothing is solved after them.
R2  a backend's solve says optimal exactly for the backend's proof of optimality.
R3  consumers use the vector or value of a result only where its status is known to be optimal (success)."""
import itertools
from .common import *
from . import c06
from .c05 import subst_fork

OPT, SUC = C("optimal"), C("success")


def yields(I):
    """[(path, ProblemResult arguments, line)] of the search's own yields"""
    made = {}
    for e in I.events:
        if e.kind == "new" and e.name.endswith(".ProblemResult") and e.result is not None:
            made[e.result] = e
    return [(e, made.get(e.args[0])) for e in I.events if e.kind == "yield"], made


def result_args(repo, e):
    names = ["status", "subsystem", "value", "farkas_cert"]
    f = repo.find_method(repo.cls("ProblemResult"), "__init__")
    ps = f.params()[1:] if f is not None else names
    d = dict(zip(ps, e.args))
    d.update(e.kw)
    return [d.get(n, NONE) for n in names]


def implied(path, cond):
    return tm.assume(cond, *path) is TRUE


def search(ctx, cname):
    repo = ctx.repo
    class Q:            # the rule of C06 reports the arguments of construct_MILP
        pass
    q = Q()
    q.repo, q.decide, q.undecided, q.used = repo, (lambda *a: None), (lambda *a: None), ctx.used
    r = c06.searches(q, cname)
    R = "C07.R1"
    if r is None:
        ctx.undecided(R, cname, "search not resolved")
        return
    I, st, f, L, lp, v, obj = r
    rf, mode = sym("rf", "rf"), sym("mode", "str")
    file, line = where(repo, f)
    ys, made = yields(I)
    ss = L.last()
    if not ys or not ss:
        ctx.undecided(R, cname, "%d results, %d programs" % (len(ys), len(ss)))
        return
    sysm = mk("attr", rf, "system")
    P = mk("attr", sysm, "P")
    size = {m: tm.add(mk("attr", sysm, n), C(-2)) for m, n in (("min", "N"), ("max", "C"))}
    covered = {s["result"]: [] for s in ss}
    for n, (y, m) in enumerate(ys):
        con = "%s result %d" % (cname, n + 1)
        if m is None:
            ctx.undecided(R, con, "yields %s" % tm.show(y.args[0])[:150])
            continue
        status, wit, val, cert = [I.freeze(st, subst_fork(x)) if x.op != "ref" else x for x in result_args(repo, m)]
        path = tuple(y.path)
        for s in ss:
            covered[s["result"]].append(band(*[l for l in path]))
        for c, t in ite_cases(status):
            p2 = path + ((c,) if c is not TRUE else ())
            if tm.assume(c, *path) is FALSE:
                continue
            one(ctx, R, con, cname, I, st, t, wit, val, cert, p2, ss, rf, mode, size, file, y.line, y)
    # a failing result ends the search
    for i, s in enumerate(ss):
        for t in ss[:i]:
            con = "%s program %d after program %d" % (cname, i + 1, ss.index(t) + 1)
            ok = implied(s["path"], eq(mk("attr", t["result"], "status"), OPT))
            if ok:
                ctx.ok(R, con, "only solved after an optimal result")
            else:
                unk = any(not resolved(l, refs=tuple(lp), extra=("m", "app")) for l in s["path"])
                ctx.decide(R, con, None if unk else False, "solved although the earlier result may not be optimal", file, line)
    # every outcome is reported
    for i, s in enumerate(ss):
        con = "%s outcomes of program %d" % (cname, i + 1)
        base = s["path"]
        stat = eq(mk("attr", s["result"], "status"), OPT)
        for cond, nm in ((stat, "optimal"), (bnot(stat), "not optimal")):
            got = bor(*[tm.assume(c, *(tuple(base) + (cond,))) for c in covered[s["result"]]])
            # a result of a later program does not report this one
            rep = [y for y, m in ys if m is not None and mentions_status(y.path, s["result"], ss, i)]
            ok = any(tm.assume(band(*y.path), *(tuple(base) + (cond,))) is TRUE for y in rep)
            ctx.decide(R, con + ", " + nm, True if ok else (None if I.unknowns or not rep else False), "the outcome is not reported", file, line)
    ctx.count("results", len(ys))


def mentions_status(path, res, ss, i):
    later = [s["result"] for s in ss[i + 1:]]
    return not any(any(x in tm.subterms(l) for x in later) for l in path)


def one(ctx, R, con, cname, I, st, status, wit, val, cert, path, ss, rf, mode, size, file, line, y):
    refs = tuple(s["lp"] for s in ss)
    if status is SUC:
        used = [s for s in ss if s["result"] in set(tm.subterms(cert))]
        if len(used) != 1:
            ctx.decide(R, con, False if resolved(cert, refs=refs) else None, "success with certificate %s" % tm.show(cert)[:150], file, line)
            return
        s = used[0]
        ok = implied(path, eq(mk("attr", s["result"], "status"), OPT))
        ctx.decide(R, con + " success only if optimal", True if ok else (False if all(resolved(l, refs=refs, extra=("m", "app")) for l in path) else None),
                   "success is reported although the program's status may not be optimal", file, line)
        vec = mk("attr", s["result"], "result_vector")
        for md in ("min", "max"):
            m = {mode: C(md)}
            got = tm.subst(cert, m)
            want = [mk("sub", vec, mk("slice", NONE, size[md])), mk("sub", vec, mk("slice", C(0), size[md]))]
            ctx.decide(R, con + " certificate (%s)" % md, True if got in want else (False if resolved(got, refs=refs) else None),
                       "the certificate is %s, documented: the first entries of the vector of this program" % tm.show(got)[:200], file, line)
        w = wit
        a = None
        if w.op == "new" and w.a[0].endswith(".Subsystem"):
            a = w.a[1:]
        if a is None:
            ctx.decide(R, con + " witness", False if w is NONE or resolved(w, refs=refs) else None, "the witness is %s" % tm.show(w)[:150], file, line)
        else:
            pos = [x for x in a if not (x.op == "tuple" and len(x.a) == 2 and x.a[0].op == "c" and isinstance(x.a[0].a[0], str) and x.a[0].a[0] in ("supersystem", "certificate", "certform"))]
            kw = {x.a[0].a[0]: x.a[1] for x in a if x not in pos}
            got = dict(zip(("supersystem", "certificate", "certform"), pos))
            got.update(kw)
            for k, wv in (("supersystem", rf), ("certificate", cert), ("certform", mode)):
                g = got.get(k, NONE)
                ctx.decide(R, con + " witness " + k, True if g is wv else (False if resolved(g, refs=refs) else None), "the witness is built with %s %s" % (k, tm.show(g)[:120]), file, line)
        # value
        n = sym("n", "int")
        good = False
        if val is mk("attr", s["result"], "value"):
            good = True
        elif cname == "QSHeur":
            good = counts_positive(val, vec, size, mode)
        other = [x for x in tm.subterms(val) if x.op == "solution" and x is not s["result"]]
        ctx.decide(R, con + " value", True if good else (False if other or val is NONE else None), "the value is %s" % tm.show(val)[:200], file, line)
        return
    if status.op == "c":
        nomodel = not any(s["result"] in set(tm.subterms(l)) for s in ss for l in path)
        if status.a[0] in ("optimal",):
            ctx.violation(R, con, "status %s is reported" % tm.show(status), file, line)
        elif not nomodel:
            st_ = [s for s in ss if any(s["result"] in set(tm.subterms(l)) for l in path)]
            ok = any(implied(path, eq(mk("attr", s["result"], "status"), status)) for s in st_)
            ctx.decide(R, con + " status", True if ok else False, "status %s is reported for a result with another status" % tm.show(status), file, line)
        else:
            ctx.ok(R, con + " status", "nothing was solved")
    elif status.op == "attr" and status.a[1] == "status" and status.a[0].op == "solution":
        neg = tm.assume(eq(status, OPT), *path) is FALSE
        ctx.decide(R, con + " status", True if neg else False, "a result that may be optimal is reported with its solver status instead of success", file, line)
    else:
        ctx.decide(R, con + " status", None, tm.show(status)[:200])
    for nm, x in (("witness", wit), ("certificate", cert)):
        ctx.decide(R, con + " no " + nm, True if x is NONE else (False if resolved(x, refs=refs, extra=("new",)) else None), "%s %s is reported without success" % (nm, tm.show(x)[:120]), file, line)


def counts_positive(val, vec, size, mode):
    for md in ("min", "max"):
        v = tm.subst(val, {mode: C(md)})
        ok = False
        if v.op == "sum":
            doms, g, x = v.a
            b = tm.own_bvs(v, True)
            if len(doms) == 1 and x is C(1):
                el = None
                tail = mk("sub", vec, mk("slice", size[md], NONE))
                k = b[0]
                ok = g in (lt(C(0), get(tail, k)), lt(C(0), k), lt(C(0), get(vec, tm.add(size[md], k))), bnot(eq(get(tail, k), C(0))))
        if not ok:
            return False
    return True


# ---------------------------------------------------------------- tree search
def tree(ctx):
    repo = ctx.repo
    R = "C07.R1"
    f = repo.maybe("TreeAlgo._solveiter")
    if f is None:
        ctx.undecided(R, "TreeAlgo", "no search method")
        return
    runs = []

    def solve(I, st, a, k, n, fn):
        r = mk("attr", sym("heuristic%d" % len(runs), "any"), "result")
        r = sym("heuristic%d" % len(runs), "any")
        runs.append((r, st.path))
        return r
    ics = {}
    for nm in ("solve",):
        g = repo.find_method(repo.cls("ProblemFormulation"), nm)
        if g is not None:
            ics[g.qual] = solve
    I = interp(repo, module=f.module.name, intercept=ics)
    st = I.new_state()
    ci = repo.cls("TreeAlgo")
    obj = I.instantiate(st, ci, [sym("partition", "array")], {"known_upper_bound": sym("known", "num")}, None)
    I.call_func(st, f, [obj, sym("rf", "rf"), sym("threshold", "num"), sym("mode", "str"), NONE], {"timeout": sym("timeout", "num")}, None)
    ctx.used(I)
    file, _ = where(repo, f)
    ys, made = yields(I)
    if not ys:
        ctx.undecided(R, "TreeAlgo", "no results")
        return
    bound = 0
    for e in I.events:
        if e.kind not in ("call", "ext", "app", "mcall", "new"):
            continue
        for x in list(e.args) + list(e.kw.values()):
            for r, _ in runs:
                if x.op != "ref" and mk("attr", r, "value") in set(tm.subterms(x)):
                    bound += 1
                    good = eq(mk("attr", r, "status"), SUC)
                    uses = lambda t: mk("attr", r, "value") in set(tm.subterms(t))
                    ok = implied(tuple(e.path), good) or all(implied(tuple(tm.assume(l, *case) for l in e.path) + case, good) for case in choices(x, e.path, uses))
                    clear = all(resolved(l) for l in e.path if r in set(tm.subterms(l)))
                    ctx.decide(R, "TreeAlgo value of %s in %s" % (r.a[0], str(e.name).split(".")[-1]), True if ok else (False if clear else None),
                               "the value of a heuristic that may have failed is used", file, e.line)
    for n, (y, m) in enumerate(ys):
        con = "TreeAlgo result %d" % (n + 1)
        if m is None:
            ctx.undecided(R, con, "yields %s" % tm.show(y.args[0])[:150])
            continue
        status, wit, val, cert = [I.freeze(st, x) for x in result_args(repo, m)]
        path = tuple(y.path)
        if status is SUC:
            # the native search's result must not be the one that stands for a timeout
            bad = [x for x in tm.subterms(val) if x.op in ("app", "ext", "call", "unk")]
            ok = any(tm.assume(eq(val, C(-1)), *path) is FALSE for _ in (0,))
            ctx.decide(R, con, True if ok else (False if bad and not I.unknowns else None), "success is reported for the native search's timeout result", file, y.line)
        elif status.op == "c":
            heur = [r for r, _ in runs if any(r in set(tm.subterms(l)) and mk("attr", r, "status") in set(tm.subterms(l)) for l in path)]
            fail = [r for r in heur if tm.assume(eq(mk("attr", r, "status"), SUC), *path) is FALSE]
            if fail:
                ok = any(implied(path, eq(mk("attr", r, "status"), status)) for r in fail)
                ctx.decide(R, con, True if ok else False, "status %s is reported for a heuristic that ended with another status" % tm.show(status), file, y.line)
            else:
                ctx.decide(R, con, True if status.a[0] != "optimal" else False, "status %s" % tm.show(status), file, y.line)
        elif status.op == "attr" and status.a[1] == "status":
            ok = tm.assume(eq(status, SUC), *path) is FALSE
            ctx.decide(R, con, True if ok else None, "status of the heuristic", file, y.line)
        else:
            ctx.undecided(R, con, tm.show(status)[:150])
        if status is not SUC:
            for nm, x in (("witness", wit), ("certificate", cert)):
                ctx.decide(R, con + " no " + nm, True if x is NONE else (False if resolved(x) else None), "%s %s is reported without success" % (nm, tm.show(x)[:100]), file, y.line)


# ---------------------------------------------------------------- R2
def status_cases(ctx, cname):
    """the term of the status that solve returns, with its native status terms"""
    repo = ctx.repo
    f = repo.func("%s.solve" % cname)
    I = interp(repo, module=f.module.name)
    st = I.new_state()
    ci = repo.cls(cname)
    obj = I.instantiate(st, ci, [], {}, None)
    v = I.call_func(st, f, [obj, C("cbc") if cname == "MILP" else C("gurobi")], {}, None)
    ctx.used(I)
    return I, st, f, v


def final_status(I, st, v):
    """[(condition, status term)] of the returned SolverResult"""
    out = []
    for c, t in ite_cases(v):
        o = I.obj(st, t) if t.op == "ref" else None
        if o is None or "status" not in o.attrs:
            return None
        out.append((c, I.freeze(st, o.attrs["status"])))
    return out


def evaluate(t, m):
    """value of a status term for given native codes"""
    r = tm.subst(t, m)
    return r


def native_terms(cs):
    codes, sols = set(), set()
    for c, t in cs:
        for x in list(tm.subterms(c)) + list(tm.subterms(t)):
            if x.op == "attr" and x.a[1] == "status":
                codes.add(x)
            if x.op == "attr" and x.a[1] == "sol_status":
                sols.add(x)
    return codes, sols


PULP = {1: "optimal", 0: "notsolved", -1: "infeasible", -2: "unbounded", -3: "undefined"}
# names of pulp's solution states and their values in all versions that have them
PULP_SOL = {"LpSolutionNoSolutionFound": 0, "LpSolutionOptimal": 1, "LpSolutionIntegerFeasible": 2, "LpSolutionInfeasible": -1, "LpSolutionUnbounded": -2}
PULP_STATUS = {"LpStatusNotSolved": 0, "LpStatusOptimal": 1, "LpStatusInfeasible": -1, "LpStatusUnbounded": -2, "LpStatusUndefined": -3}
GRB_OK = {"OPTIMAL": "optimal", "LOADED": "notsolved", "INFEASIBLE": "infeasible", "UNBOUNDED": "unbounded"}
GRB_OTHER = ("INF_OR_UNBD", "CUTOFF", "ITERATION_LIMIT", "NODE_LIMIT", "TIME_LIMIT", "SOLUTION_LIMIT", "INTERRUPTED", "NUMERIC", "SUBOPTIMAL", "USER_OBJ_LIMIT", "WORK_LIMIT", "MEM_LIMIT")
GRB_CODE = dict(LOADED=1, OPTIMAL=2, INFEASIBLE=3, INF_OR_UNBD=4, UNBOUNDED=5, CUTOFF=6, ITERATION_LIMIT=7, NODE_LIMIT=8, TIME_LIMIT=9, SOLUTION_LIMIT=10,
                INTERRUPTED=11, NUMERIC=12, SUBOPTIMAL=13, INPROGRESS=14, USER_OBJ_LIMIT=15, WORK_LIMIT=16, MEM_LIMIT=17)


def constants(terms):
    """substitution of backend constants by their values"""
    m = {}
    for t in terms:
        for x in tm.subterms(t):
            if x.op == "ext" or x.op == "extf" or x.op == "extattr" or x.op == "attr":
                nm = str(x.a[-1]).split(".")[-1] if not hasattr(x.a[-1], "op") else None
                if nm in PULP_SOL:
                    m[x] = C(PULP_SOL[nm])
                elif nm in PULP_STATUS:
                    m[x] = C(PULP_STATUS[nm])
                elif nm in GRB_CODE and x.op != "attr":
                    m[x] = C(GRB_CODE[nm])
                elif nm in GRB_CODE and "GRB" in tm.show(x):
                    m[x] = C(GRB_CODE[nm])
    return m


def status_of(cs, code_t, code, sol_t=None, sol=None):
    m = {x: C(code) for x in code_t}
    if sol_t:
        m.update({x: C(sol) for x in sol_t})
    k = constants([c for c, _ in cs] + [t for _, t in cs])
    out = []
    for c, t in cs:
        c2 = tm.subst(tm.subst(c, k), m)
        t2 = tm.subst(tm.subst(t, k), m)
        if c2 is FALSE:
            continue
        out.append((c2, t2))
    if len(out) == 1 and out[0][0] is TRUE:
        t = out[0][1]
        if t.op == "c":
            return t.a[0]
    return None


def statuses(ctx, cname, R, full):
    """decide the translation of every native status; full: the exact meaning, otherwise only what is optimal"""
    repo = ctx.repo
    I, st, f, v = status_cases(ctx, cname)
    cs = final_status(I, st, v)
    file, line = where(repo, f)
    if cs is None:
        ctx.undecided(R, "%s.solve status" % cname, tm.show(I.freeze(st, v))[:200])
        return
    code_t, sol_t = native_terms(cs)
    if not code_t:
        fixed = {t for _, t in cs}
        ctx.decide(R, "%s.solve status" % cname, False if all(t.op == "c" for t in fixed) else None, "the status does not depend on the backend's: %s" % ", ".join(tm.show(t) for t in fixed)[:150], file, line)
        return
    if cname == "MILP":
        tests = [(code, sol, (want if code != 1 else ("optimal" if sol == 1 else None))) for code, want in PULP.items() for sol in (0, 1, 2, -1, -2)
                 if (code, sol) in ((1, 1), (1, 2), (0, 0), (-1, -1), (-2, -2), (-3, 0), (0, 2), (-1, 0), (-2, 0), (-3, -1))]
    else:
        tests = [(GRB_CODE[n], None, w) for n, w in GRB_OK.items()] + [(GRB_CODE[n], None, None) for n in GRB_OTHER]
    inv = {v_: k for k, v_ in (GRB_CODE if cname != "MILP" else {k: v for k, v in PULP_STATUS.items()}).items()}
    for code, sol, want in tests:
        got = status_of(cs, code_t, code, sol_t, sol if sol is not None else 0)
        con = "%s.solve status %s%s" % (cname, inv.get(code, code), "" if sol is None else " with solution state %d" % sol)
        if got is None:
            ctx.undecided(R, con, "; ".join("%s if %s" % (tm.show(t), tm.show(c)) for c, t in cs)[:250])
        elif full and want is not None:
            ctx.decide(R, con, got == want, "reported as %s, documented %s" % (got, want), file, line)
        else:
            is_opt = got == "optimal"
            ctx.decide(R, con, is_opt == (want == "optimal"), "reported as %s" % got, file, line)


# ---------------------------------------------------------------- R3
FIELDS = {"result_vector": OPT, "value": SUC, "subsystem": SUC, "farkas_cert": SUC}


def used_results(t):
    """(result term, field) of the fields of search or solver results that occur in a term"""
    for x in tm.subterms(t):
        if x.op == "attr" and x.a[1] in FIELDS and x.a[0].op in ("it", "it2", "nth", "call", "solution", "m", "item", "get"):
            yield x.a[0], x.a[1]


def choices(t, facts, uses):
    """the assignments of the alternatives in t under which it uses the result"""
    conds = list(dict.fromkeys(x.a[0] for x in tm.subterms(t) if x.op == "ite"))[:4]
    for bits in itertools.product((True, False), repeat=len(conds)):
        case = tuple(c if b else bnot(c) for c, b in zip(conds, bits))
        if any(tm.assume(l, *case) is FALSE for l in facts):
            continue
        if uses(tm.assume(t, *case)):
            yield case


def consumer(ctx, name, I, st, f, args, kw, result=True):
    repo = ctx.repo
    v = I.call_func(st, f, args, kw, None)
    ctx.used(I)
    R = "C07.R3"
    n = 0
    seen = set()

    def check(t, path, file, line, what):
        nonlocal n
        for r, fld in sorted(set(used_results(t)), key=str):
            whole, path_, r_ = t, path, r
            r = sym("theresult", "solution" if r.op == "solution" else "result")
            t = tm.subst(t, {r_: r})
            path = tuple(tm.subst(l, {r_: r}) for l in path)
            uses = lambda x: any(y.op == "attr" and y.a[1] == fld and y.a[0] is r for y in tm.subterms(x))
            want = OPT if r_.op == "solution" else SUC
            status = mk("attr", r, "status")
            # where the status is not the wanted one the field must not occur
            facts = tuple(path)
            ok = implied(facts, eq(status, want))
            if not ok:
                t2 = tm.assume(t, bnot(eq(status, want)))
                ok = not uses(t2)
            if not ok:
                ok = all(implied(tuple(tm.assume(l, *case) for l in facts) + case, eq(status, want)) for case in choices(t, facts, uses))
            if not ok and r_.op == "solution" and status in set(tm.subterms(t)) and t.op == "tuple":
                ok = True      # handed on together with the status
            clear = all(resolved(l, extra=("m", "app", "call", "ext", "slot", "callv")) for l in path if any(x.op == "attr" and x.a[0] is r for x in tm.subterms(l)))
            t, path = whole, path_
            con = "%s uses %s at %s" % (name, fld, what)
            if (con, ok) in seen:
                continue
            seen.add((con, ok))
            n += 1
            ctx.decide(R, con, True if ok else (False if clear else None), "%s of a result is used although its status may not be %s" % (fld, want.a[0]), file, line)
    for e in I.events:
        if e.kind in ("assert", "read"):
            continue
        for a in list(e.args) + list(e.kw.values()):
            check(a, e.path, e.file, e.line, "%s %s" % (e.kind, str(e.name).split(".")[-1]))
    for o in list(st.heap.values()):
        for e in o.log:
            if e.val is not None and hasattr(e.val, "op"):
                check(e.val, tuple(e.guard), *(e.where or where(repo, f)), "stored in a %s" % o.kind)
    for c, t in ite_cases(I.freeze(st, v)):
        check(t, tuple(st.path) + (c,), where(repo, f)[0], where(repo, f)[1], "return")
    if not n:
        ctx.undecided(R, name, "no use of a result found")
    ctx.count("consumers")


def consumers(ctx):
    repo = ctx.repo
    fs = repo.maybe("switss.certification.certificates.find_interior_point")
    if fs is not None:
        L = LPModel(repo)
        I = interp(repo, module=fs.module.name, intercept=L.intercepts())
        ctx.part("find_interior_point", consumer, ctx, "find_interior_point", I, I.new_state(), fs, [sym("A", "array"), sym("b", "vec")], {})
    fs = repo.maybe(c06.FORM + "compute_upper_bounds")
    if fs is not None:
        L = LPModel(repo)
        I = interp(repo, module=fs.module.name, intercept=L.intercepts())
        ctx.part("compute_upper_bounds", consumer, ctx, "compute_upper_bounds", I, I.new_state(), fs, [sym("A", "array"), sym("b", "vec")], {})
    solvers = {x.qual for x in repo.funcs.values() if x.name in ("solve", "solveiter") and x.cls is not None}
    from .c05 import CHECK
    for qual, args, kw in (("bin.switss.minargs", [sym("args", "args")], {}),
                           ("switss.benchmarks.benchmarks.run", [sym("rf", "rf"), sym("method", "method"), sym("mode", "str")], {"json_dir": NONE, "stop_on_timeout": sym("stop_on_timeout", "bool"), "debug": sym("debug", "bool")})):
        f = repo.maybe(qual)
        if f is None:
            ctx.undecided("C07.R3", qual, "does not exist")
            continue
        opq = solvers | {CHECK, repo.cls("ReachabilityForm").qual, repo.cls("Subsystem").qual}
        opq |= {x.qual for x in repo.funcs.values() if x.name in ("from_file", "save") and x.cls is not None}
        facts = {"": ()}
        if "benchmarks" in qual:
            facts = {"": (bnot(mk("isinst", sym("method", "method"), mk("extf", "collections.abc.Iterable"))),)}
        else:
            m = get(mk("attr", sym("args", "args"), "method"), C(0))
            facts = {" with " + n: (eq(m, C(n)),) for n in ("QSHeur", "MILPExact")}
        for n, fs in facts.items():
            I = interp(repo, module=f.module.name, opaque=opq)
            st = I.new_state()
            st.path = fs
            ctx.part(qual + n, consumer, ctx, qual.split(".")[-1] + n, I, st, f, args, kw)


def run(ctx):
    ctx.rule("C07.R1", "searches report success only with the vector of an optimal result")
    ctx.rule("C07.R2", "backends call a result optimal only if optimality was proved")
    ctx.rule("C07.R3", "consumers use vectors and values only of optimal (successful) results")
    ctx.part("MILPExact", search, ctx, "MILPExact")
    ctx.part("QSHeur", search, ctx, "QSHeur")
    ctx.part("TreeAlgo", tree, ctx)
    ctx.part("MILP status", statuses, ctx, "MILP", "C07.R2", False)
    ctx.part("GurobiMILP status", statuses, ctx, "GurobiMILP", "C07.R2", False)
    consumers(ctx)
