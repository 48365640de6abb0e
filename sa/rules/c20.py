"""C20: weights of the heuristic are finite, nonnegative and never divide by zero.

R1  every division carried out by an initialiser or updater (constructor, initialize, update, constraints and what they call): on the
    path to it the divisor is not zero, for every result vector, probability and group, the empty one included.
R2  every weight is nonnegative (sign analysis of its term) and there is one whatever the value of the group.
R3  a group with value zero gets the documented constant."""
from .common import *

VECS = ("max_z_state", "max_z_state_action", "max_y_state", "max_y_state_action", "pr_min", "pr_max")


def quantity(t, nonneg=False):
    """a run-time number that can be zero: an entry of a vector, a sum of entries, a number of elements"""
    if t.op == "get":
        return True
    if t.op == "len" or t.op == "m" and t.a[0] in VECS:
        return True
    if t.op == "sum":
        return True
    return t.op == "sym" and t.a[1] in ("num", "float", "int", "real")


def zero_cases(d):
    """[(condition, quantity)]: d is zero exactly if one of the conditions holds and the quantity under it is zero; None if unknown"""
    if tm.is_num(d):
        return [(TRUE, None)] if d.a[0] == 0 else []
    if d.op == "ite":
        r = []
        for c, v in ((d.a[0], d.a[1]), (bnot(d.a[0]), d.a[2])):
            z = zero_cases(v)
            if z is None:
                return None
            r += [(band(c, g), q) for g, q in z]
        return r
    if quantity(d):
        return [(TRUE, d)]
    if d.op == "inv1":
        return []
    ms = tm._poly(d)
    if len(ms) == 1:
        (m, c), = ms.items()
        if m != (d,):
            r = []
            for x in m:
                z = zero_cases(x)
                if z is None:
                    return None
                r += z
            return r
    if positive(d) is True:
        return []
    return None


def positive(t, facts=()):
    """True: greater than zero for nonnegative quantities"""
    if tm.is_num(t):
        return t.a[0] > 0
    if implied(facts, lt(C(0), t)):
        return True
    if t.op == "ite":
        return both(positive(tm.assume(t.a[1], t.a[0]), facts + parts(t.a[0])), positive(tm.assume(t.a[2], bnot(t.a[0])), facts + parts(bnot(t.a[0]))))
    if t.op in ("max", "maxv"):
        return True if any(positive(x, facts) is True for x in args_of(t)) else None
    if t.op in ("min", "minv"):
        r = True
        for x in args_of(t):
            r = both(r, positive(x, facts))
        return r
    if t.op == "inv1":
        return positive(t.a[0], facts)
    ms = tm._poly(t)
    if list(ms) == [(t,)]:
        return None
    if all(c > 0 and all(nonneg(x, facts) is True for x in m) for m, c in ms.items()):
        return True if any(all(positive(x, facts) is True for x in m) for m in ms) else None
    return None


def parts(c):
    return tuple(c.a) if c.op == "and" else (c,)


def implied(facts, c):
    return bool(facts) and tm.assume(c, *facts) is TRUE


def both(a, b):
    if a is False or b is False:
        return False
    return True if a is True and b is True else None


def args_of(t):
    xs = []
    for y in (t.a[0].a if len(t.a) == 1 and t.a[0].op == "list" else t.a):
        xs.append(y.a[-1] if y.op == "for" else y)
    return xs


def nonneg(t, facts=()):
    """sign of a weight; vectors, sums of entries, given weights and numbers of elements count as nonnegative"""
    if tm.is_num(t):
        return t.a[0] >= 0
    if t.op == "sum":
        return nonneg(t.a[-1], facts)
    if quantity(t):
        return True
    if implied(facts, lt(C(0), t)) or implied(facts, le(C(0), t)):
        return True
    if t.op == "ite":
        return both(nonneg(tm.assume(t.a[1], t.a[0]), facts + parts(t.a[0])), nonneg(tm.assume(t.a[2], bnot(t.a[0])), facts + parts(bnot(t.a[0]))))
    if t.op in ("max", "maxv"):
        rs = [nonneg(x, facts) for x in args_of(t)]
        return True if True in rs else (None if None in rs else False)
    if t.op in ("min", "minv"):
        r = True
        for x in args_of(t):
            r = both(r, nonneg(x, facts))
        return r
    if t.op == "inv1":
        return nonneg(t.a[0], facts)
    ms = tm._poly(t)
    if list(ms) == [(t,)]:
        return None
    sg = []
    for m, c in ms.items():
        rs = [nonneg(x, facts) for x in m]
        if None in rs:
            return None
        sg.append((sum(1 for r in rs if r is False) % 2 == 0) == (c > 0))
    return True if all(sg) else False if not any(sg) else None


def divisions(ctx, I, n0, con, f0):
    R = "C20.R1"
    for e in I.events[n0:]:
        if e.kind != "div":
            continue
        ctx.count("divisions")
        d = I.freeze(I.now, e.args[1]) if False else e.args[1]
        path = band(*e.path)
        c = "%s: division by %s" % (con, tm.show(d)[:120])
        zs = zero_cases(d)
        if zs is None:
            # not a known quantity: the path itself may exclude zero
            ok = tm.assume(path, eq(d, C(0))) is FALSE or tm.assume(bnot(eq(d, C(0))), *e.path) is TRUE
            ctx.decide(R, c, True if ok else None, "", e.file, e.line)
            continue
        bad = unknown = None
        for g, q in zs:
            if q is None:
                p = band(path, g)
                left = p
            else:
                m = {q: C(0)}
                p = band(tm.subst(path, m), tm.subst(g, m))
                p = tm.assume(p, eq(q, C(0)))
                left = p
            if p is FALSE or tm.assume(path, *([eq(q, C(0))] if q is not None else []), g) is FALSE:
                continue
            if q is not None and related(left, q):
                unknown = (p, q)
            elif resolvedish(left):
                bad = (p, q)
            else:
                unknown = (p, q)
        if bad is not None:
            ctx.violation(R, c, "the divisor is zero if %s%s" % ("%s is zero" % tm.show(bad[1])[:120] if bad[1] is not None else "it is reached",
                                                                 "" if bad[0] is TRUE else " and " + tm.show(bad[0])[:120]), e.file, e.line)
        elif unknown is not None:
            ctx.undecided(R, c, "reached if %s" % tm.show(unknown[0])[:200])
        else:
            ctx.ok(R, c)


def related(p, q):
    """the condition still says something about what q is computed from"""
    own = {x for x in tm.subterms(q) if x.op in ("get", "sum", "len")}
    return any(x in own for x in tm.subterms(p))


def resolvedish(p):
    return resolved(p, extra=("get", "sum", "len", "in", "keys", "bv", "inv", "div", "m"), methods=VECS)


def entries(v):
    es = log_entries(v)
    if es is None or not es or any(x is None for x, _ in es):
        return None
    return es


def weights(ctx, ci, f, kind, mode, given):
    repo = ctx.repo
    I = interp(repo, module=ci.module.name)
    st = I.new_state()
    st.path = ()
    rf, IND, solver, last, W = sym("rf", "rf"), sym("indicators", "groupmap"), sym("solver", "str"), sym("last_result", "vec"), sym("weights", "array")
    init = repo.find_method(ci, "__init__")
    names = {a.arg for a in init.node.args.args + init.node.args.kwonlyargs} if init is not None else set()
    kw = {"reachability_form": rf, "mode": C(mode), "indicator_to_group": IND}
    if "solver" in names or init is not None and init.node.args.kwarg:
        kw["solver"] = solver
    if given:
        kw["weights"] = W
        st.path = (bnot(eq(W, NONE)),)
    con = "%s.%s (%s%s)" % (ci.name, kind, mode, ", weights given" if given else "")
    n0 = len(I.events)
    obj = I.instantiate(st, ci, [], kw, None)
    r = I.call_func(st, f, [obj] + ([last] if kind != "initialize" else []), {}, None)
    v = I.freeze(st, r)
    ctx.used(I)
    divisions(ctx, I, n0, con, f)
    if kind == "constraints":
        return
    R = "C20.R2"
    file, line = where(repo, f)
    es = entries(v)
    if es is None:
        ctx.undecided(R, con, tm.show(v)[:200])
        return
    zero_seen = []
    for fr, _ in es:
        doms, gd, val, syms = opened(fr, "$g")
        for c, x in ite_cases(val):
            if x.op != "tuple" or len(x.a) != 2:
                ctx.undecided(R, con, tm.show(x)[:200])
                continue
            w = item(x, 1)
            g = item(x, 0)
            facts = parts(gd) + parts(c)
            ctx.decide(R, con + ": nonnegative", nonneg(w, facts), "the weight of a group is %s" % tm.show(w)[:200], file, line)
            zero_seen.append((band(gd, c), w, g))
    zero_value(ctx, con, ci, kind, mode, IND, last, zero_seen, file, line)


def zero_value(ctx, con, ci, kind, mode, IND, last, ws, file, line):
    """the weight of a group without value"""
    R = "C20.R3"
    known = {"InverseResultUpdater": (1e8, 1e9), "InverseResultFixedZerosUpdater": (0, 0), "InverseReachabilityInitializer": (1e8, 1e9),
             "InverseFrequencyInitializer": (1e8, 1e9), "InverseCombinedInitializer": (1e8, 1e9)}
    if ci.name not in known:
        return
    lo, hi = known[ci.name]
    got = []
    for gd, w, g in ws:
        qs = {x for t in (gd, w) for x in tm.subterms(t) if x.op == "sum" and kind == "initialize" or x.op == "get" and x.a[0] is last and x.a[1] is g}
        n = mk("len", get(IND, g))
        W = get(sym("weights", "array"), g)          # the constant may be multiplied by the group's weight
        for empty in ((False, True) if kind == "initialize" else (False,)):
            m = {q: C(0) for q in qs}
            m[W] = C(1)
            if empty:
                m[n] = C(0)
            c = tm.subst(gd, m)
            x = tm.subst(w, m)
            if not empty and kind == "initialize":
                c, x = tm.assume(c, lt(C(0), n), bnot(eq(n, C(0)))), tm.assume(x, lt(C(0), n), bnot(eq(n, C(0))))
            if c is FALSE:
                continue
            got.append((empty, c, x))
    for empty in ((False, True) if kind == "initialize" else (False,)):
        name = con + (": empty group" if empty else ": group without value")
        xs = [(c, x) for e, c, x in got if e == empty]
        if not xs:
            ctx.decide(R, name, False if all(resolvedish(gd) for gd, _, _ in ws) else None, "it has no weight", file, line)
        for c, x in xs:
            r = rng(x)
            ctx.decide(R, name, None if r is None else lo <= r[0] and r[1] <= hi, "its weight is %s" % tm.show(x)[:150], file, line)


def rng(t):
    """interval of a term whose other parts are positive"""
    if tm.is_num(t):
        return float(t.a[0]), float(t.a[0])
    if t.op == "ite":
        a, b = rng(t.a[1]), rng(t.a[2])
        return None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))
    if t.op in ("max", "maxv", "min", "minv"):
        rs = [rng(x) or (0.0, float("inf")) for x in args_of(t)]
        f = max if t.op.startswith("max") else min
        return f(r[0] for r in rs), f(r[1] for r in rs)
    return None


def run(ctx):
    ctx.rule("C20.R1", "no initialiser or updater divides by zero")
    ctx.rule("C20.R2", "weights are nonnegative")
    ctx.rule("C20.R3", "a group without value gets the documented constant")
    ctx.notes.append("arithmetic is exact: overflow of the quotient by a denormal number is not modelled")
    repo = ctx.repo
    n = 0
    for base, kinds in (("Initializer", ("initialize",)), ("Updater", ("update", "constraints"))):
        b = repo.cls(base)
        for ci in sorted(repo.subclasses(b), key=lambda c: c.name):
            if ci is b:
                continue
            for kind in kinds:
                f = repo.find_method(ci, kind)
                if f is None:
                    continue
                for mode in ("min", "max"):
                    ctx.part("%s.%s %s" % (ci.name, kind, mode), weights, ctx, ci, f, kind, mode, False)
                    init = repo.find_method(ci, "__init__")
                    if init is not None and any(a.arg == "weights" for a in init.node.args.args) and kind != "constraints":
                        ctx.part("%s.%s %s weights" % (ci.name, kind, mode), weights, ctx, ci, f, kind, mode, True)
