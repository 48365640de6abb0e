"""C19: invalid models and arguments are rejected when they are given.

R1  constructing a model: the condition under which all assertions hold is that of the specification program (sa/spec/checks.py), over
    an arbitrary matrix, index map and reward vector.
R2  reachability forms, reward forms and reductions: the same, over an arbitrary system; the checks are made unless disabled.
R3  options with finitely many legal values (mode, sense, solver, domain, status, ...): each legal constant passes, another one does not, and
    nothing is solved or built before.
R4  thresholds outside the documented range and certificates of another length are rejected."""
import os
from .common import *
from . import native
from .summary import spec_func, MODEL
from ..terms import truth, is_c

METHODS = MODEL + ("maximal_end_components", "sum", "copy", "keys", "items", "reachable", "successors", "predecessors", "round",
                   "fark_constraints", "fark_y_constraints", "fark_z_constraints")
EXTRA = ("m", "get", "keys", "bv", "inv", "in", "len", "allv", "anyof", "ext", "isinst", "attr", "sum", "nth", "upd", "zeros", "shape", "forall", "sumv", "values")


class Conj:
    def __init__(self, term, e):
        self.term, self.file, self.line = term, e.file, e.line


class Heap:
    """the objects at the time of an event"""
    def __init__(self, I, e):
        self.I = I
        self.st = I.new_state()
        self.st.heap = e.heap
        self.done = {}

    def deep(self, t, depth=0):
        if depth > 8:
            return t
        m = {}
        for x in tm.atoms(t):
            if x.op == "ref":
                if x not in self.done:
                    self.done[x] = x
                    v = self.I.freeze(self.st, x)
                    self.done[x] = self.deep(v, depth + 1) if v is not x else x
                if self.done[x] is not x:
                    m[x] = self.done[x]
        return tm.subst(t, m) if m else t


def forall(doms, c):
    if c is TRUE or c is FALSE and False:
        return TRUE
    if c.op == "and":
        return band(*[forall(doms, x) for x in c.a])
    if len(doms) == 1:
        d = doms[0]
        bvs = sorted({x for x in tm.subterms(c) if x.op == "bv"}, key=lambda x: x.a[0])
        if len(bvs) == 1:
            b = bvs[0]
            if d.op == "range" and d.a[0] is C(0) and d.a[1].op == "len":
                v = d.a[1].a[0]
                m = {x: b for x in (mk("nth", v, b), get(v, b))}
                c2 = tm.subst(c, {k: sym("$el", "any") for k in m})
                if b not in set(tm.subterms(c2)):
                    return mk("truth", mk("forall", mk("elements", v), tm.subst(c2, {sym("$el", "any"): b})))
            if d.op == "values":
                return mk("truth", mk("forall", mk("keys", d.a[0]), tm.subst(c, {b: get(d.a[0], b)})))
            if d.op == "items":
                return mk("truth", mk("forall", mk("keys", d.a[0]), tm.subst(c, {item(b, 0): b, item(b, 1): get(d.a[0], b)})))
        if not bvs and d.op not in ("range", "keys", "items", "values"):
            return c
        if d.op not in ("range", "keys"):
            d = mk("elements", d)
        return mk("truth", mk("forall", d, c))
    return mk("truth", mk("forall", tup(*doms), c))


IX = sym("position", "int")
REACH = ("reachable", "reachable_mask")


def pointwise(v, b):
    """element b of a mask"""
    if v.op == "truth":
        return pointwise(v.a[0], b)
    if v.op in ("and", "or"):
        return (band if v.op == "and" else bor)(*[pointwise(x, b) for x in v.a])
    if v.op == "not":
        return bnot(pointwise(v.a[0], b))
    if v.op == "eq":
        x, y = (pointwise(z, b) for z in v.a)
        return bor(band(x, y), band(bnot(x), bnot(y)))
    if v.op == "upd":
        r = pointwise(v.a[0], b)
        for kv in v.a[1:]:
            if kv.op != "tuple" or len(kv.a) != 2:
                return truth(mk("nth", v, b))
            r = bor(band(eq(b, kv.a[0]), truth(kv.a[1])), band(bnot(eq(b, kv.a[0])), r))
        return r
    if v.op == "zeros":
        return FALSE
    if is_c(v):
        return truth(v)
    return truth(mk("nth", v, b))


def apart(y, k):
    """y: this position reaches a single state other than k"""
    if y.op == "truth" and y.a[0].op == "nth" and y.a[0].a[1] is IX:
        v = y.a[0].a[0]
        return v.op == "m" and v.a[0] in REACH and C("backward") in v.a and any(x.op == "set" and len(x.a) == 1 and x.a[0] is not k for x in v.a if isinstance(x, tm.T))
    return False


def everywhere(c):
    """for all positions c, with c as a table over its literals"""
    c = tm.subst(c, {x: mk("nth", x.a[0], IX) for x in tm.subterms(c) if x.op == "get" and x.a[1] is IX and x.a[0].op == "m"})
    ats = sorted(tm.bool_atoms(c, set()), key=tm.show)
    if len(ats) > 8:
        return mk("truth", mk("forall", IX, c))
    rows_ = []
    for bits in range(1 << len(ats)):
        on = [x for i, x in enumerate(ats) if bits >> i & 1]
        # an absorbing state does not reach another one
        if any(x.op == "eq" and IX in x.a and any(apart(y, [z for z in x.a if z is not IX][0]) for y in on) for x in on):
            continue
        if tm.bool_eval(c, {x: bool(bits >> i & 1) for i, x in enumerate(ats)}):
            rows_.append(band(*[x if bits >> i & 1 else bnot(x) for i, x in enumerate(ats)]))
    return mk("truth", mk("forall", IX, bor(*rows_)))


def labelled(t):
    return t.op == "get" and t.a[0].op == "attr" and t.a[0].a[1] == "states_by_label"


def normal(c):
    """conditions on masks position by position, on sets of names pair by pair, on lengths as bounds"""
    m = {x: item(x.a[0], x.a[1].a[0]) for x in tm.subterms(c) if x.op == "get" and is_c(x.a[1]) and isinstance(x.a[1].a[0], int)
         and x.a[0].op == "get" and x.a[0].a[0].op == "list"}
    c, m = tm.subst(c, m) if m else c, {}
    for x in tm.subterms(c):
        # the member of a set with one, the first of a list
        if x.op == "get" and x.a[1] is C(0) and x.a[0].op == "list" and len(x.a[0].a) == 1 and x.a[0].a[0].op == "for":
            doms, g, v = x.a[0].a[0].a
            if len(doms) == 1 and g is TRUE and v.op == "bv" and labelled(doms[0]):
                m[x] = mk("anyof", doms[0])
        elif x.op == "item" and x.a[1] in (0, C(0)):
            if labelled(x.a[0]):
                m[x] = mk("anyof", x.a[0])
            elif x.a[0].op == "list":
                m[x] = mk("get", x.a[0], C(0))
    c, m = tm.subst(c, m) if m else c, {}
    for a in tm.bool_atoms(c, set()):
        x = a.a[0] if a.op == "truth" else a
        if x.op == "allv":
            y = x.a[0].a[0] if x.a[0].op == "truth" else x.a[0]
            if y.op == "get" and y.a[1].op in ("upd", "zeros", "not", "and", "or", "eq", "lt", "le"):
                # selected by a mask
                m[a] = everywhere(bor(bnot(pointwise(y.a[1], IX)), pointwise(y.a[0], IX)))
            else:
                m[a] = everywhere(pointwise(x.a[0], IX))
        elif x.op == "anyv":
            m[a] = bnot(everywhere(bnot(pointwise(x.a[0], IX))))
        elif x.op == "forall" and x.a[0].op == "range" and len({y for y in tm.subterms(x.a[1]) if y.op == "bv"}) == 1:
            (b,) = {y for y in tm.subterms(x.a[1]) if y.op == "bv"}
            if any(y.op == "m" and y.a[0] in REACH for y in tm.subterms(x.a[1])):
                m[a] = everywhere(tm.subst(x.a[1], {b: IX}))
        elif x.op == "forall" and x.a[0].op == "elements" and x.a[0].a[0].op == "m" and x.a[0].a[0].a[0] in REACH:
            (b,) = {y for y in tm.subterms(x.a[1]) if y.op == "bv"} or (IX,)
            m[a] = everywhere(tm.subst(x.a[1], {b: mk("nth", x.a[0].a[0], IX)}))
        elif x.op == "exists" and len(x.a) == 2:
            m[a] = bnot(normal(forall(x.a[0].a if isinstance(x.a[0], tm.T) else tuple(x.a[0]), bnot(x.a[1]))))
        elif x.op == "forall":
            n = normal(x.a[1])
            if n is not x.a[1]:
                m[a] = mk("truth", mk("forall", x.a[0], n))
        elif a.op == "eq" and any(is_c(y) for y in a.a):
            k, l = sorted(a.a, key=is_c, reverse=True)
            if l.op == "len" and l.a[0].op == "set" and k is C(len(l.a[0].a)) and all(y.op == "sym" for y in l.a[0].a):
                ys = l.a[0].a
                m[a] = band(*[bnot(eq(ys[i], ys[j])) for i in range(len(ys)) for j in range(i)])
            elif l.op == "len" and k is C(0):
                m[a] = lt(l, C(1))
    for a in tm.subterms(c):
        if a.op in ("lt", "le") and a not in m:
            # |x - 1| bounded by a rounding error
            p = tm._poly(a.a[0])
            own = [k for k in p if k]
            if len(own) == 1 and own[0][0].op == "abs" and len(own[0]) == 1 and abs(p[own[0]]) == 1 and 1e-10 <= -p.get((), 0) * p[own[0]] <= 1.01e-9:
                n = eq(mk("ext", "numpy.round", tm.add(own[0][0].a[0], C(1)), C(9)), C(1))
                m[a] = n if p[own[0]] == 1 else bnot(n)
    return tm.subst(c, m) if m else c


def conjuncts(I, events):
    out, known, inloop = [], [], {}
    for e in events:
        if e.kind not in ("assert", "raise"):
            continue
        H = Heap(I, e)
        cond = H.deep(truth(e.args[0])) if e.kind == "assert" else FALSE
        path = H.deep(band(*e.path))
        path = tm.assume(path, *known) if known else path
        lits = path.a if path.op == "and" else (path,)
        path = band(*[l for l in lits if not I.domain_fact(l, e.binders)])
        if e.binders:
            before = inloop.setdefault(tuple(e.binders), [])
            path = tm.assume(path, *before) if before else path
            if e.kind == "assert":
                before.append(cond)
        imp = bor(bnot(path), cond)
        if e.binders:
            m = {b.dom: H.deep(b.dom) for b in e.binders}
            doms, (imp,), _ = I.close(e.binders, imp)
            imp = forall(tuple(H.deep(d) for d in doms), imp)
        elif e.kind == "assert":
            known.append(cond)
        imp = tm.assume(imp, *[c.term for c in out]) if out and not e.binders else imp
        for c in (imp.a if imp.op == "and" else (imp,)):
            c = normal(c)
            for d in (c.a if c.op == "and" else (c,)):
                if d is not TRUE:
                    out.append(Conj(d, e))
    return out


def leaves(t):
    return frozenset(x for x in tm.subterms(t) if x.op in ("sym", "attr") or x.op == "m") if True else None


def names(t):
    r = set()
    for x in tm.subterms(t):
        if x.op == "sym":
            r.add(x.a[0])
        elif x.op == "attr":
            r.add(x.a[1])
        elif x.op == "m":
            r.add(x.a[0])
        elif x.op in ("shape", "len", "sum", "forall", "keys", "elements"):
            r.add(x.op)
    return frozenset(r)


def clean(t):
    return resolved(t, extra=EXTRA, methods=METHODS)


def against(ctx, R, con, code, spec, f):
    """code's acceptance condition against the specification's"""
    file, line = where(ctx.repo, f)
    cs, ss = [c.term for c in code], [c.term for c in spec]
    satoms, catoms = set(), set()
    for t in ss:
        tm.bool_atoms(t, satoms)
    for t in cs:
        tm.bool_atoms(t, catoms)
    foreign = [c for c in code if not tm.bool_atoms(c.term, set()) <= satoms]
    equal = equalities(cs)
    for s in spec:
        what = "%s: %s" % (con, tm.show(s.term)[:160])
        if s.term in cs or tm.assume(s.term, *cs) is TRUE or substituted(s.term, equal) in {substituted(c, equal) for c in cs if c is not s.term and c.op != "eq"} | \
                {substituted(c, [e for e in equal if e[2] is not c]) for c in cs if c.op == "eq"}:
            ctx.ok(R, what)
            continue
        alike = [c for c in foreign if names(c.term) == names(s.term) and not tm.bool_atoms(c.term, set()) <= satoms]
        if not foreign:
            ctx.violation(R, what, "this is not checked", file, line)
        elif alike and all(clean(c.term) for c in alike):
            ctx.violation(R, what, "the check is %s" % tm.show(alike[0].term)[:250], alike[0].file, alike[0].line)
        elif not any(calls(c.term) & calls(s.term) for c in foreign) and not any(names(c.term) & (names(s.term) - common(ss)) for c in foreign) and all(clean(c.term) for c in foreign):
            ctx.violation(R, what, "this is not checked", file, line)
        else:
            ctx.undecided(R, what, "; ".join(tm.show(c.term)[:160] for c in foreign))
    for c in code:
        if tm.bool_atoms(c.term, set()) <= satoms and c.term not in ss and tm.assume(c.term, *ss) is not TRUE:
            r = tm.assume(c.term, *ss)
            ctx.decide(R, con + ": nothing else is rejected", False if clean(c.term) else None, "also demanded: %s" % tm.show(r)[:200], c.file, c.line)
    ctx.ok(R, con + ": compared", "%d conditions" % len(code))


def calls(t):
    return {x for x in tm.subterms(t) if x.op == "m"}


def equalities(cs):
    """(larger term, smaller term, condition) of the equations among the conditions"""
    r = []
    for c in cs:
        if c.op == "eq" and not is_c(c.a[0]) and not is_c(c.a[1]) and c.a[0].op != "poly" and c.a[1].op != "poly":
            a, b = sorted(c.a, key=lambda x: (len(tm.show(x)), tm.show(x)))
            if b not in set(tm.subterms(a)):
                r.append((b, a, c))
    return r


def substituted(t, equal):
    pairs = {x: mk("get", x.a[0], mk("pair", item(x.a[1], 0), item(x.a[1], 1))) for x in tm.subterms(t)
             if x.op == "get" and x.a[0].op == "attr" and x.a[0].a[1] == "index_by_state_action"}
    t = tm.subst(t, pairs) if pairs else t
    for _ in range(3):
        n = tm.subst(t, {a: b for a, b, c in equal})
        if n is t:
            break
        t = n
    return t


def common(ss):
    """names that most conditions mention"""
    n = {}
    for s in ss:
        for x in names(s):
            n[x] = n.get(x, 0) + 1
    return {x for x, k in n.items() if k > 1}


def known_isinst(st, *cs):
    st.path = st.path + tuple(cs)


P_, INDEX, REW = sym("P", "mat"), sym("index", "bidict"), sym("rew", "any")


def cast(I, st, args, kw, node, name=None):
    return args[0]


def construct(ctx, cname):
    repo = ctx.repo
    R = "C19.R1"
    spec_func(repo, "checks", "model_spec")
    ci = repo.cls(cname)
    init = repo.find_method(ci, "__init__")

    def setup(module):
        I = interp(repo, module=module)
        st = I.new_state()
        st.path = ()
        I.model_ctor_opaque = False
        I.intercept["switss.utils.graph.Graph.__cinit__"] = lambda I, st, x, k, n, f: NONE
        I.intercept["switss.utils.casting.cast_dok_matrix"] = lambda I, st, x, k, n, f: x[0]
        return I, st
    I, st = setup(ci.module.name)
    m = I.alloc(st, "inst", None, cls=ci)
    L = I.alloc(st, "dict", None, base=sym("L", "any"))
    I.call_func(st, init, [m], {"P": P_, "index_by_state_action": INDEX, "label_to_states": L, "vis_config": sym("vis", "any"), "reward_vector": REW,
                                **({"label_to_actions": L} if cname == "MDP" else {})}, None)
    ctx.used(I)
    code = [c for c in conjuncts(I, I.events) if not c.file.endswith("invertible_dict.py")]
    J, s2 = setup("spec_checks")
    if cname == "DTMC":
        J.call_func(s2, spec_func(repo, "checks", "dtmc_spec"), [P_, INDEX], {}, None)
    J.call_func(s2, spec_func(repo, "checks", "model_spec"), [P_, REW], {}, None)
    against(ctx, R, cname, code, conjuncts(J, J.events), init)


def forms(ctx):
    repo = ctx.repo
    R = "C19.R2"
    SYS = sym("system", "model")
    il, tl, fl, ntl, nfl = (sym(n, "str") for n in ("il", "tl", "fl", "ntl", "nfl"))

    def side(f, args, kw, spec=False, module=None, inst=None):
        I = interp(repo, module=module)
        st = I.new_state()
        st.path = ()
        if inst is not None:
            args = [I.alloc(st, "inst", None, cls=inst)] + args
        n0 = len(I.events)
        I.call_func(st, f, args, kw, None)
        if not spec:
            ctx.used(I)
        return I, conjuncts(I, I.events[n0:])

    def drop(cs):
        return [c for c in cs if not any(x.op in ("isinst", "typeof") for x in tm.subterms(c.term))]
    sp = lambda n, *a: side(spec_func(repo, "checks", n), list(a), {}, True, "spec_checks")[1]
    rf, rw = repo.cls("ReachabilityForm"), repo.cls("RewardReachabilityForm")
    init = repo.find_method(rf, "__init__")
    _, code = side(init, [SYS, il, tl, fl], {}, module=rf.module.name, inst=rf)
    against(ctx, R, "ReachabilityForm", drop(code), sp("form_spec", SYS, il, tl, fl), repo.maybe("ReachabilityForm.assert_consistency") or init)
    _, code = side(init, [SYS, il, tl, fl], {"ignore_consistency_checks": TRUE}, module=rf.module.name, inst=rf)
    ctx.decide(R, "ReachabilityForm without checks", not any("reachable_mask" in names(c.term) for c in code), "disabled checks are made", *where(repo, init))
    f = repo.maybe("RewardReachabilityForm.assert_system_consistency")
    if f is not None:
        _, code = side(f, [SYS, il, tl], {}, module=rw.module.name)
        against(ctx, R, "reward form from a system", drop(code), sp("reward_form_spec", SYS, il, tl), f)
    f = repo.maybe("RewardReachabilityForm.assert_reachform_consistency")
    RF = sym("reachform", "rf")
    if f is not None:
        _, code = side(f, [RF], {}, module=rw.module.name)
        against(ctx, R, "reward form from a reachability form", drop(code), sp("reward_reachform_spec", RF), f)
    f = repo.func("ReachabilityForm.reduce")
    _, code = side(f, [SYS, il, tl, ntl, nfl], {}, module=rf.module.name)
    code = [c for c in drop(code) if c.file.endswith("reachability_form.py") and (set(names(c.term)) & {"il", "tl", "ntl", "nfl"}) and "reachable_mask" not in names(c.term)]
    against(ctx, R, "reduction", code, sp("reduce_spec", SYS, il, tl, ntl, nfl), f)


def checks_called(ctx):
    """the forms' constructors call their checks unless told otherwise"""
    repo = ctx.repo
    R = "C19.R2"
    rw = repo.cls("RewardReachabilityForm")
    for con, f, checks in (("RewardReachabilityForm.reduce", repo.find_method(rw, "reduce"), "assert_reachform_consistency"),
                           ("RewardReachabilityForm.fromsystem", repo.find_method(rw, "fromsystem"), "assert_system_consistency")):
        g = repo.find_method(rw, checks)
        if f is None or g is None:
            continue
        for ign in (False, True):
            I = interp(repo, module=rw.module.name)
            st = I.new_state()
            st.path = ()
            hits = []
            I.intercept["switss.model.reachability_form.ReachabilityForm.reduce"] = lambda I, st, a, k, n, f: tup(sym("reachform", "rf"), sym("cols", "any"), sym("rows", "any"))
            I.intercept[g.qual] = lambda I, st, a, k, n, f: (hits.append((st.path, a, k)), NONE)[1]
            names_ = [a.arg for a in f.node.args.args]
            kw = {}
            if "ignore_consistency_checks" in names_:
                kw["ignore_consistency_checks"] = TRUE if ign else FALSE
            elif ign:
                continue
            args = []
            for n in (names_[1:] if names_[0] in ("self", "cls") else names_):
                if n == "system":
                    kw[n] = sym("system", "model")
                elif n in ("reach_form", "reachability_form", "reachform", "rf"):
                    kw[n] = sym("reachform", "rf")
                elif n == "ignore_consistency_checks":
                    pass
                elif n.endswith("_label"):
                    kw[n] = sym(n, "str")
                elif n == "reward_vector":
                    kw[n] = REW
            first = [I.alloc(st, "inst", None, cls=rw)] if names_[0] == "self" else [mk("class", rw.qual)] if f.kind == "class" else []
            try:
                I.call_func(st, f, first, kw, None)
            except Exception as e:
                ctx.undecided(R, con, "%s: %s" % (type(e).__name__, e))
                continue
            ctx.used(I)
            called = any(band(*[l for l in p]) is not FALSE for p, a, k in hits)
            c = "%s %s checks" % (con, "without" if ign else "with")
            ctx.decide(R, c, called != ign, "the form is %schecked" % ("" if called else "not "), *where(repo, f))


# ---------------------------------------------------------------- R3/R4
BAD = "no such value"


def doomed(I, start, n0, legal=False):
    """(True: rejected on every run; None: on some, False: no, event, position)"""
    some, I.partly = None, []
    facts = list(start)
    for i, e in enumerate(I.events[n0:]):
        if e.kind not in ("assert", "raise", "missing"):
            continue
        p = tm.assume(band(*e.path), *[f for f in facts if f is not FALSE]) if facts else band(*e.path)
        c = tm.assume(truth(e.args[0]), *e.path) if e.kind == "assert" else FALSE
        if p is FALSE:
            continue
        if c is FALSE and p is TRUE and not e.binders:
            return True, e, n0 + i
        if c is FALSE:
            some = some or (e, n0 + i)
            # the loop may have no iterations
            I.partly.append((e.file, e.line, band(p, sym("iterations%d" % i, "bool")) if e.binders else p))
        if e.kind == "assert" and not e.binders and c is not FALSE:
            facts.append(truth(e.args[0]))
    if some is not None:
        return None, some[0], some[1]
    return False, None, None


WORK = ("solve", "optimize", "addConstr", "addVar", "set_objective_function", "from_coefficients", "initialize", "construct_MILP")


def values(ctx):
    R = "C19.R3"
    repo = ctx.repo
    RFs, TH = sym("rf", "rf"), C(0.5)
    rf = repo.cls("ReachabilityForm")
    any_ = lambda n: sym(n, "any")
    table = []

    def add(con, legal, call, param, loops=False):
        table.append((con, legal, call, param, loops))
    for fn in ("check_farkas_certificate", "generate_farkas_certificate"):
        f = repo.func("switss.certification.certificates." + fn) if repo.maybe("switss.certification.certificates." + fn) else repo.func(fn)
        base = {"reach_form": RFs, "mode": C("min"), "sense": C(">="), "threshold": TH}
        if fn.startswith("check"):
            base["farkas_vec"] = sym("vec", "array")
        add(fn, ["min", "max"], (f, base), "mode")
        add(fn, ["<=", "<", ">=", ">"], (f, base), "sense")
    for cname in ("MILP", "GurobiMILP"):
        ci = [c for c in repo.classes.values() if c.name == cname]
        if not ci:
            continue
        ci = ci[0]
        add(cname + ".__init__", ["min", "max"], (ci, "__init__", {}), "objective")
        add(cname + ".add_constraint", ["<=", "=", ">="], (ci, "add_constraint", {"lhs": tup(tup(C(0), C(1))), "rhs": C(1)}), "sense")
        add(cname + ".add_variables_w_bounds", ["integer", "real", "binary"], (ci, "add_variables_w_bounds", "domain"), "domain")
    ci = [c for c in repo.classes.values() if c.name == "MILP"]
    if ci:
        add("MILP.solve", ["gurobi", "cbc", "glpk", "cplex"], (ci[0], "solve", {}), "solver")
    for cname in ("SolverResult",):
        add(cname, ["optimal", "infeasible", "unbounded", "undefined", "notsolved"], (repo.cls(cname), "__init__", {"result_vector": any_("v"), "value": any_("x")}), "status")
    for cname in ("QSHeur", "MILPExact"):
        f = repo.find_method(repo.cls(cname), "solveiter")
        add(cname + ".solveiter", ["min", "max"], (repo.cls(cname), "solveiter", {"reachability_form": RFs, "threshold": TH, "labels": NONE}), "mode")
    add("construct_MILP", ["min", "max"], (repo.func("construct_MILP"), {"rf": RFs, "threshold": TH, "relaxed": TRUE}), "mode")
    add("construct_MILP", ["gurobi", "pulp"], (repo.func("construct_MILP"), {"rf": RFs, "threshold": TH, "relaxed": TRUE, "mode": C("min")}), "modeltype_str")
    add("Subsystem", ["min", "max"], (repo.cls("Subsystem"), "__init__", {"supersystem": RFs, "certificate": sym("vec", "array")}), "certform")
    for cname in ("AllOnesInitializer", "InverseReachabilityInitializer", "InverseResultUpdater", "InverseFrequencyInitializer"):
        if cname != "AllOnesInitializer":
            add(cname, ["min", "max"], (repo.cls(cname), "__init__", {"reachability_form": RFs, "indicator_to_group": sym("indicators", "groupmap")}), "mode")
    for cname in ("ReachabilityForm", "RewardReachabilityForm"):
        f = repo.find_method(repo.cls(cname), "fark_constraints")
        if f is not None:
            add(cname + ".fark_constraints", ["min", "max"], (repo.cls(cname), "fark_constraints", {"threshold": TH}), "mode")
    g = [f for f in repo.funcs.values() if f.name == "reachable_mask" and f.cls is not None and f.cls.name == "Graph"] if False else []
    for con, legal, call, param, loops in table:
        usual = set()
        for v in legal + [BAD]:
            ctx.part("%s %s=%r" % (con, param, v), one_value, ctx, R, con, call, param, v, v in legal, usual)


def enter(ctx, call, extra, pre=()):
    """interprets a call, returns (I, state, first event, function)"""
    I, st, n0, f = enter_(ctx, call, extra, pre)
    if not any(e.kind == "enter" and e.name == f.qual for e in I.events[n0:]):
        raise ValueError("%s was not entered" % f.qual)
    return I, st, n0, f


def enter_(ctx, call, extra, pre=()):
    repo = ctx.repo
    if isinstance(call[0], object) and hasattr(call[0], "node") and len(call) == 2:
        f = call[0]
        I = interp(repo, module=f.module.name)
        st = I.new_state()
        st.path = tuple(pre)
        n0 = len(I.events)
        I.call_func(st, f, [], {**call[1], **extra}, None)
        return I, st, n0, f
    ci, meth, base = call
    f = repo.find_method(ci, meth)
    I = interp(repo, module=ci.module.name)
    st = I.new_state()
    st.path = tuple(pre)
    if meth == "__init__":
        n0 = len(I.events)
        I.call_func(st, f, [I.alloc(st, "inst", None, cls=ci)], {**base, **extra}, None)
        return I, st, n0, f
    init = repo.find_method(ci, "__init__")
    o = I.alloc(st, "inst", None, cls=ci)
    if init is not None:
        I.call_func(st, init, [o], {}, None)
    if base == "domain":
        base, extra = {"var_descr": tup(tup(extra["domain"], NONE, NONE), tup(C("real"), NONE, NONE))}, {}
    elif meth == "add_constraint":
        I.call_func(st, repo.find_method(ci, "add_variables_w_bounds"), [o], {"var_descr": tup(tup(C("real"), NONE, NONE), tup(C("real"), NONE, NONE))}, None)
    n0 = len(I.events)
    I.call_func(st, f, [o], {**base, **extra}, None)
    return I, st, n0, f


def early_work(I, n0, i):
    return [x for x in I.events[n0:i] if x.kind in ("mcall", "call", "ext", "new", "app") and str(x.name).split(".")[-1] in WORK and band(*x.path) is not FALSE]


def verdict(ctx, R, con, I, pre, n0, f, legal, mention, usual=()):
    """usual: places that reject legal values under some conditions, too"""
    file, line = where(ctx.repo, f)
    d, e, i = doomed(I, pre, n0)
    if legal:
        ctx.decide(R, con + " is accepted", not d, "this is rejected", e.file if d else file, e.line if d else line)
        return
    # an assertion that could not be decided may be the one that rejects
    open_ = [x for x in I.events[n0:] if x.kind == "assert" and mention(truth(x.args[0])) and not clean(truth(x.args[0]))]
    partly = [p for fl, ln, p in I.partly if (fl, ln) not in usual]
    ctx.decide(R, con + " is rejected", True if d else (None if open_ or d is None and partly and (
        not all(clean(p) for p in partly) or tm.bool_equiv(bor(*partly), TRUE) is not False) else False), "this is accepted", file, line)
    if d:
        early = early_work(I, n0, i)
        ctx.decide(R, con + " is rejected first", not early, "%s is called before" % (early and early[0].name), e.file, e.line)


def one_value(ctx, R, con, call, param, v, legal, usual):
    I, st, n0, f = enter(ctx, call, {param: C(v)})
    ctx.used(I)
    ctx.count("argument values")
    verdict(ctx, R, "%s(%s=%r)" % (con, param, v), I, (), n0, f, legal, lambda t: any(y.op == "c" and y.a[0] == v for y in tm.subterms(t)), usual)
    if legal:
        usual |= {(fl, ln) for fl, ln, p in I.partly}


def thresholds(ctx):
    R = "C19.R4"
    repo = ctx.repo
    T = sym("threshold", "num")
    RFs = sym("rf", "rf")
    calls = []
    for fn in ("check_farkas_certificate", "generate_farkas_certificate"):
        f = repo.func(fn)
        base = {"reach_form": RFs, "mode": C("min"), "sense": C(">=")}
        if fn.startswith("check"):
            base["farkas_vec"] = sym("vec", "array")
        calls.append((fn, (f, base), (True, None)))
    for cname in ("QSHeur", "MILPExact"):
        calls.append((cname + ".solveiter", (repo.cls(cname), "solveiter", {"reachability_form": RFs, "labels": NONE, "mode": C("min")}), (True, False)))
    rw = repo.cls("RewardReachabilityForm")
    for con, call, reward in calls:
        for rew in reward:
            form = () if rew is None else (mk("isinst", RFs, mk("class", rw.qual)),) if not rew else (mk("isinst", RFs, mk("class", rw.qual)),)
            if rew is True:
                form = (bnot(form[0]),) if form else ()
            name = con + ("" if rew is None else " (plain form)" if rew else " (reward form)")
            usual = set()
            for what, pre, extra, legal in (("threshold 0", (), {"threshold": C(0)}, True), ("threshold 1", (), {"threshold": C(1)}, True),
                                            ("0 < threshold < 1", (lt(C(0), T), lt(T, C(1))), {}, True),
                                            ("threshold < 0", (lt(T, C(0)),), {}, False), ("threshold > 1", (lt(C(1), T),), {}, rew is False)):
                if rew is None and "farkas" not in con:
                    continue
                ctx.count("threshold ranges")
                I, st, n0, f = enter(ctx, call, {"threshold": T, **extra}, pre + form)
                ctx.used(I)
                verdict(ctx, R, "%s: %s" % (name, what), I, pre + form, n0, f, legal, lambda t: directly(t, T), usual)
                if legal:
                    usual |= {(fl, ln) for fl, ln, p in I.partly}


def directly(t, x):
    """x is compared with something in t, not only part of a computed value"""
    for a in tm.bool_atoms(t, set()):
        if a is x or any(y is x for y in a.a) or a.op in ("le", "lt", "eq") and any((x,) == m for y in a.a if isinstance(y, tm.T) for m in tm._poly(y)):
            return True
    return False


def sizes(ctx):
    """vectors of another length than the system of constraints or the form demands"""
    R = "C19.R4"
    repo = ctx.repo
    RFs, V, SYS = sym("rf", "rf"), sym("vec", "array"), None

    def legal(I, st, kind):
        """the documented number of entries, in every way the code can express it"""
        s = I.getattr(st, RFs, "system", None)
        P, A = I.getattr(st, s, "P", None), I.getattr(st, RFs, "A", None)
        i = 0 if kind == "C" else 1
        r = {tm.sub(I.getattr(st, s, kind, None), C(2)), tm.sub(mk("shape", P, C(i)), C(2)), mk("shape", A, C(i))}
        r.add(tm.sub(I.subscript(st, I.getattr(st, P, "shape", None), C(i), None), C(2)))
        r.add(I.subscript(st, I.getattr(st, A, "shape", None), C(i), None))
        return r
    f = repo.func("check_farkas_certificate")
    for mode, sense in (("min", ">="), ("min", "<="), ("max", ">="), ("max", "<=")):
        I, st, n0, g = enter(ctx, (f, {"reach_form": RFs, "mode": C(mode), "sense": C(sense), "threshold": C(0.5), "farkas_vec": V}), {})
        ctx.used(I)
        kind = "N" if (mode == "min") == (sense == ">=") else "C"
        ok = legal(I, st, kind)
        cs = I.method(st, RFs, "fark_z_constraints" if kind == "N" else "fark_y_constraints", [C(0.5)], {}, None)
        m = item(cs, 0)
        ok |= {mk("shape", m, C(1)), I.subscript(st, I.getattr(st, m, "shape", None), C(1), None)}
        size_rule(ctx, R, "check_farkas_certificate(%s %s)" % (mode, sense), I, n0, g, V, ok)
    for mode in ("min", "max"):
        I, st, n0, g = enter(ctx, (repo.cls("Subsystem"), "__init__", {"supersystem": RFs, "certificate": V, "certform": C(mode)}), {})
        ctx.used(I)
        size_rule(ctx, R, "Subsystem(%s)" % mode, I, n0, g, V, legal(I, st, "N" if mode == "min" else "C"))


def lengths(V):
    return {mk("shape", V, C(0)), mk("len", V), item(mk("attr", V, "shape"), 0), mk("attr", V, "size")}


def dimension(got, V):
    """the terms the vector's length is demanded to equal: [(term, event)], and whether every demand was understood"""
    n = lengths(V)
    res, ok = [], True
    for c, e in got:
        for x in (c.a if c.op == "and" else (c,)):
            if not any(y in n for y in tm.subterms(x)):
                continue
            if x.op == "eq":
                # linear in the length
                p = tm._poly(tm.sub(x.a[0], x.a[1])) if hasattr(tm, "_poly") else {}
                own = [m for m in p if any(y in n for y in m)]
                if len(own) == 1 and len(own[0]) == 1 and p[own[0]] in (1, -1):
                    res.append((tm.mul(C(-p[own[0]]), tm.sub(tm.sub(x.a[0], x.a[1]), tm.mul(C(p[own[0]]), own[0][0]))), e))
                    continue
            ok = False
    return res, ok


def size_rule(ctx, R, con, I, n0, f, V, legal):
    file, line = where(ctx.repo, f)
    got = [(c.term, c) for c in conjuncts(I, [e for e in I.events[n0:] if not e.binders]) if any(x in lengths(V) for x in tm.subterms(c.term))]
    what = con + ": size of the vector"
    if not got:
        ctx.decide(R, what, False, "the size is not checked", file, line)
        return
    dims, ok = dimension(got, V)
    good = [d for d, e in dims if d in legal]
    bad = [(d, e) for d, e in dims if d not in legal]
    if bad:
        d, e = bad[0]
        ctx.decide(R, what, False if clean(d) else None, "the size is compared with %s" % tm.show(d)[:200], e.file, e.line)
    else:
        ctx.decide(R, what, True if good else None, "; ".join(tm.show(c)[:200] for c, e in got), got[0][1].file, got[0][1].line)


def others(ctx):
    """expressions over variables that do not exist, labels where none are supported, values that are no sets, unknown states"""
    R = "C19.R3"
    repo = ctx.repo

    def judge(con, I, n0, f, legal, about=()):
        ctx.used(I)
        ctx.count("argument values")
        verdict(ctx, R, con, I, tuple(I.start), n0, f, legal, lambda t: bool(set(about) & set(tm.subterms(t))))
    for cname in ("MILP", "GurobiMILP"):
        for ci in [c for c in repo.classes.values() if c.name == cname]:
            for meth, args in (("add_constraint", lambda ex: {"lhs": ex, "rhs": C(1), "sense": C("=")}), ("set_objective_function", lambda ex: {"expression": ex})):
                for v, legal in ((0, True), (1, True), (2, False), (-1, False)):
                    f = repo.find_method(ci, meth)
                    I = interp(repo, module=ci.module.name)
                    I.start = ()
                    st = I.new_state()
                    st.path = ()
                    o = I.alloc(st, "inst", None, cls=ci)
                    I.call_func(st, repo.find_method(ci, "__init__"), [o], {}, None)
                    two = tup(*[tup(C("real"), NONE, NONE)] * 2)
                    I.call_func(st, repo.find_method(ci, "add_variables_w_bounds"), [o], {"var_descr": two}, None)
                    n0 = len(I.events)
                    I.call_func(st, f, [o], args(tup(tup(C(v), C(1)))), None)
                    judge("%s.%s over variable %d of 2" % (cname, meth, v), I, n0, f, legal)
    # values of an invertible dictionary, keys that are removed
    for ci in [c for c in repo.classes.values() if c.name == "InvertibleDict"]:
        f = repo.find_method(ci, "__init__")
        for con, v, legal in (("a set", "set", True), ("a list", "list", False), ("a text", "text", False)):
            I = interp(repo, module=ci.module.name)
            I.start = ()
            st = I.new_state()
            st.path = ()
            val = C("abc") if v == "text" else I.alloc(st, v, None)
            d = I.alloc(st, "dict", None)
            I.log(st, d, "set", C("k"), val, None)
            n0 = len(I.events)
            I.call_func(st, f, [I.alloc(st, "inst", None, cls=ci), d], {}, None)
            judge("InvertibleDict over %s" % con, I, n0, f, legal)
    for ci in [c for c in repo.classes.values() if c.name == "TreeAlgo"]:
        f = repo.find_method(ci, "solveiter")
        for con, v, legal in (("no labels", NONE, True), ("labels", tup(C("a")), False)):
            I, st, n0, g = enter(ctx, (ci, "solveiter", {"reachability_form": sym("rf", "rf"), "threshold": C(0.5), "mode": C("min")}), {"labels": v})
            I.start = ()
            judge("TreeAlgo.solveiter with %s" % con, I, n0, g, legal)


def graph_states(ctx):
    """the native graph rejects states that do not exist and unknown directions"""
    R = "C19.R3"
    repo = native.full(ctx)
    G = repo.cls("Graph")
    NC, S = sym("nodecount", "int"), sym("s", "int")
    facts = (lt(C(0), NC),)
    for con, pre, legal in (("below 0", (lt(S, C(0)),), False), ("nodecount or more", (bnot(lt(S, NC)),), False), ("an existing state", (bnot(lt(S, C(0))), lt(S, NC)), True)):
        for meth, arg in (("successors", "one"), ("predecessors", "one"), ("reachable", "from"), ("reachable", "block")):
            f = repo.find_method(G, meth)
            I = interp(repo, module=G.module.name)
            native.memory(I)
            native.stacks(I, repo)
            st = I.new_state()
            I.start = facts + pre
            st.path = I.start
            o = I.alloc(st, "inst", None, cls=G)
            st.heap[o.a[0]].attrs["nodecount"] = NC
            if arg == "one":
                args = [S]
            elif arg == "from":
                args = [native.items(I, st, [S]), C("forward")]
            else:
                args = [native.items(I, st, [C(0)]), C("forward"), native.items(I, st, [S])]
            n0 = len(I.events)
            I.call_func(st, f, [o] + args, {}, None)
            ctx.used(I)
            ctx.count("argument values")
            verdict(ctx, R, "Graph.%s %s state %s" % (meth, arg, con), I, I.start, n0, f, legal, lambda t: S in set(tm.subterms(t)))
    for d in ("forward", "backward", BAD):
        f = repo.find_method(G, "reachable")
        I = interp(repo, module=G.module.name)
        native.memory(I)
        native.stacks(I, repo)
        st = I.new_state()
        I.start = facts
        st.path = facts
        o = I.alloc(st, "inst", None, cls=G)
        st.heap[o.a[0]].attrs["nodecount"] = NC
        n0 = len(I.events)
        I.call_func(st, f, [o, native.items(I, st, [C(0)]), C(d)], {}, None)
        ctx.used(I)
        verdict(ctx, R, "Graph.reachable direction %r" % d, I, I.start, n0, f, d != BAD, lambda t: any(x.op == "c" and x.a[0] == d for x in tm.subterms(t)))


def run(ctx):
    ctx.rule("C19.R1", "a model is rejected exactly under the documented conditions")
    ctx.rule("C19.R2", "a form or reduction is rejected exactly under the documented conditions")
    ctx.rule("C19.R3", "options outside their documented values are rejected before any work")
    ctx.rule("C19.R4", "thresholds and certificate sizes outside the documented range are rejected")
    for c in ("MDP", "DTMC"):
        ctx.part("model " + c, construct, ctx, c)
    ctx.part("forms", forms, ctx)
    ctx.part("checks called", checks_called, ctx)
    ctx.part("values", values, ctx)
    ctx.part("other arguments", others, ctx)
    ctx.part("states of the graph", graph_states, ctx)
    ctx.part("thresholds", thresholds, ctx)
    ctx.part("sizes", sizes, ctx)
