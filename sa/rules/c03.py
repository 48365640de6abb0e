"""C03: an extracted subsystem is the supersystem restricted to its states.

The summaries of `Subsystem.subsystem_mask` and `Subsystem.subsys` (every entry that ends up in the transition matrix, the
index, the label maps and the rewards, as closed terms over supersystem and mask) are compared with those of the
specification program sa/spec/subsystem.py.

R1 mask   R2 states and rows   R3 transitions   R4 labels   R5 rewards   R6 construction"""
from .common import *
from .summary import *


def facts(rf, mask):
    s = mk("attr", rf, "system")
    return s


class Env:
    def __init__(self, rf, mask):
        self.rf, self.mask = rf, mask
        self.sys = mk("attr", rf, "system")
        P = mk("attr", self.sys, "P")
        self.N, self.C = mk("attr", self.sys, "N"), mk("attr", self.sys, "C")
        self.index = mk("attr", self.sys, "index_by_state_action")
        n = tm.add(self.N, C(-2))
        c = tm.add(self.C, C(-2))
        self.n, self.c = n, c
        tt = mk("attr", rf, "to_target")
        self.m = {mk("len", tt): c, mk("len", mask): n, item(mk("attr", tt, "shape"), 0): c, item(mk("attr", mask, "shape"), 0): n,
                  mk("attr", rf, "index_by_state_action"): mk("attr", rf, "index_by_state_action")}

    def rewrite(self, t):
        return tm.subst(t, self.m)

    def lit(self, l):
        """canonical form of a literal; conditions that only keep indices below C-2 and N-2 are implied by the mask's"""
        neg = l.op == "not"
        x = l.a[0] if neg else l
        if x.op in ("le", "lt"):
            # linear in one number below N-2 / C-2
            p = x.a[0]
            if p.op == "poly":
                ats = [y for y in tm.atoms(p) if y not in (self.N, self.C)] if False else None
                for hi in (self.N, self.C):
                    # k - (hi - 2) < 0
                    k = tm.add(p, tm.add(hi, C(-2))) if x.op == "lt" else tm.add(p, tm.add(hi, C(-3)))
                    if hi not in tm.atoms(k) and k.op in ("item", "get", "sym", "bv"):
                        return TRUE if not neg else l
        k = None
        if neg and x.op == "eq" and C(0) in x.a:
            k = [y for y in x.a if y is not C(0)][0]
        elif x.op == "lt" and x.a[0].op == "poly" and not neg:
            k = tm.sub(C(0), x.a[0])
        if k is not None and k.op == "get" and k.a[0] is mk("attr", self.sys, "P"):
            return TRUE      # entries of P are not negative, and zeros add nothing
        return l

    def known(self, l):
        def atom(x):
            if x.op == "truth" and x.a[0].op == "get" and x.a[0].a[0] is self.mask:
                return True
            return x.op in ("lt", "le", "eq") and resolved(x) and not tm.has_op(x, "ext", "m", "app", "ref", "len", "last")
        return boolean(l, atom)


def mask(ctx):
    repo, R = ctx.repo, "C03.R1"
    f = repo.func("Subsystem.subsystem_mask")
    ci = repo.cls("Subsystem")
    for form in ("min", "max"):
        I = interp(repo, module="switss.problem.subsystem")
        st = I.new_state()
        me = I.alloc(st, "inst", None, cls=ci)
        rf, cert = sym("rf", "ReachabilityForm"), sym("cert", "vec")
        I.call_func(st, repo.find_method(ci, "__init__"), [me, rf, cert, C(form)], {}, None)
        v = I.call_func(st, f, [me], {}, None)
        ctx.used(I)
        E = Env(rf, sym("$m", "vec"))
        file, line = where(repo, f)
        con = "Subsystem.subsystem_mask (%s)" % form
        k = sym("k", "int")
        if form == "min":
            S = Summary(I, st)
            g = I.freeze(st, v)
            x = tm.truth(elem1(g, k))
            w = lt(C(0), get(cert, k))
            ctx.decide(R, con, x is w or (False if resolved(x) and all(y.op in ("lt", "le", "eq", "not", "get", "sym", "poly", "c", "and", "or", "abs", "truth") for y in tm.subterms(x)) else None),
                       "state k is in the subsystem if %s, documented: if its entry is positive" % tm.show(x)[:200], file, line)
            continue
        S = Summary(I, st, lit=lambda l: E.lit(l), rewrite=E.rewrite)
        tab = S.entries(v)
        sp = spec_func(repo, "subsystem", "mask_spec")
        I2 = interp(repo, module="spec_subsystem")
        s2 = I2.new_state()
        w = Summary(I2, s2, lit=lambda l: E.lit(l), rewrite=E.rewrite)
        want = w.entries(I2.call_func(s2, sp, [rf, cert], {}, None))
        compare_tables(ctx, R, con, norm_true(tab), norm_true(want), lambda l: E.known(l) or (l.op in ("lt", "le", "not", "eq") and cert in tm.atoms(l) and resolved(l)), "entry", file, line)


def norm_true(tab):
    if tab is None:
        return None
    for e in tab[1]:
        if e.val is C(1) or e.val is C(1.0):
            e.val = TRUE
        elif e.val is not TRUE and tm.is_bool(e.val):
            pass
    b = tab[0]
    return b, tab[1]


def build(ctx, flag=None):
    """interpretation of Subsystem.subsys with a symbolic mask: (I, st, env, result, constructor event)"""
    repo = ctx.repo
    ci = repo.cls("Subsystem")
    I = interp(repo, module="switss.problem.subsystem")
    st = I.new_state()
    rf, cert, m = sym("rf", "ReachabilityForm"), sym("cert", "vec"), sym("mask", "vec")
    fm = repo.find_method(ci, "subsystem_mask")
    made = []

    def ctor(I, st, a, k, n, fn):
        made.append((a, k, n, fn, dict(st.heap)))
        return NONE
    I.intercept = {fm.qual: lambda *a: m}
    for c in ("ReachabilityForm", "RewardReachabilityForm"):
        I.intercept[repo.find_method(repo.cls(c), "__init__").qual] = ctor
    me = I.alloc(st, "inst", None, cls=ci)
    I.call_func(st, repo.find_method(ci, "__init__"), [me, rf, cert, sym("form", "str"), flag if flag is not None else sym("ignore", "bool")], {}, None)
    v = I.call_func(st, repo.find_method(ci, "subsys"), [me], {}, None)
    ctx.used(I)
    return I, st, Env(rf, m), v, made


def extraction(ctx):
    repo = ctx.repo
    f = repo.func("Subsystem.subsys")
    file, line = where(repo, f)
    I, st, E, v, made = build(ctx)
    news = [e for e in I.events if e.kind == "new" and (e.name == "model" or (e.extra is not None and getattr(e.extra, "name", "") in ("MDP", "DTMC")))]
    if len(news) != 1:
        ctx.undecided("C03.R6", "Subsystem.subsys", "%d models are built" % len(news))
        return
    ev = news[0]
    ps = ("P", "index_by_state_action", "label_to_actions", "label_to_states", "vis_config", "reward_vector")
    typ = ev.args[0] if ev.args else None
    a = dict(zip(ps, ev.args[1:])) if ev.name == "model" else dict(zip(ps, ev.args))
    a.update(ev.kw)
    want_t = mk("typeof", E.sys)
    ctx.decide("C03.R6", "type of the model", None if ev.name != "model" else (typ is want_t or (False if resolved(typ) else None)), "a %s is built" % (typ is not None and tm.show(typ)), file, ev.line)
    sp = spec_func(repo, "subsystem", "subsystem_spec")
    I2 = interp(repo, module="spec_subsystem")
    s2 = I2.new_state()
    w = I2.call_func(s2, sp, [E.rf, E.mask], {}, None)
    names = ("P", "index_by_state_action", "label_to_actions", "label_to_states", "reward_vector")
    want = {n: item(w, i) for i, n in enumerate(names)}
    IDX = sym("INDEX", "map")
    S = Summary(I, st, {a.get("index_by_state_action"): IDX} if a.get("index_by_state_action") is not None else {}, E.lit, E.rewrite)
    W = Summary(I2, s2, {want["index_by_state_action"]: IDX}, E.lit, E.rewrite)
    rules = {"P": "C03.R3", "index_by_state_action": "C03.R2", "label_to_actions": "C03.R4", "label_to_states": "C03.R4", "reward_vector": "C03.R5"}
    what = {"P": "transition", "index_by_state_action": "row", "label_to_actions": "action label", "label_to_states": "state label", "reward_vector": "reward"}
    S.facts = W.facts = (bnot(eq(mk("attr", E.sys, "reward_vector"), NONE)),)
    wanted = {n: W.entries(tm.assume(want[n], *W.facts), n.startswith("label")) for n in names}
    S.facts = W.facts = ()
    family(*wanted.values())
    for n in names:
        g = a.get(n)
        R, con = rules[n], "subsystem's " + n
        if g is None:
            ctx.violation(R, con, "%s is not handed to the model" % n, file, ev.line)
            continue
        rv = mk("attr", E.sys, "reward_vector")
        if n == "reward_vector":
            none = eq(rv, NONE)
            for case, c in (("without rewards", none), ("with rewards", bnot(none))):
                x, y = tm.assume(g, c), tm.assume(want[n], c)
                if case == "without rewards":
                    ctx.decide(R, con + " " + case, x is NONE or (False if x.op == "ref" else None), "%s although the supersystem has none" % tm.show(x)[:80], file, ev.line)
                else:
                    S.facts = W.facts = (c,)
                    if x is NONE:
                        ctx.violation(R, con + " " + case, "the rewards are dropped", file, ev.line)
                    else:
                        compare_tables(ctx, R, con + " " + case, S.entries(x), W.entries(y), E.known, "reward", file, line)
                    S.facts = W.facts = ()
            continue
        pairs = n.startswith("label")
        g0 = g
        compare_tables(ctx, R, con, S.entries(g0, pairs), W.entries(want[n], pairs), E.known, what[n], file, line)
    family()
    # reachability form
    con = "reachability form"
    R = "C03.R6"
    o = I.obj(st, v) if v.op == "ref" else None
    if len(made) != 1 or o is None or o.cls is None or o.cls.name != "ReachabilityForm":
        ctx.undecided(R, con, tm.show(v)[:100])
        return
    args, kw, node, fn, heap = made[0]
    env = I.bind(st, fn, args, kw, node)
    if env is None:
        ctx.undecided(R, con, "arguments")
        return
    ln = getattr(node, "lineno", line)
    ctx.decide(R, con + " over the model", env["system"] is ev.result or (False if resolved(env["system"]) else None), "another model is wrapped", file, ln)
    for n in ("initial_label", "target_label", "fail_label"):
        w_ = mk("attr", E.rf, n)
        ctx.decide(R, con + " " + n, env[n] is w_ or (False if resolved(env[n]) else None), "%s is %s" % (n, tm.show(env[n])[:80]), file, ln)
    fl = env["ignore_consistency_checks"]
    ctx.decide(R, con + " checks", fl is sym("ignore", "bool") or (False if resolved(fl) else None), "ignore_consistency_checks is %s" % tm.show(fl)[:80], file, ln)


def run(ctx):
    ctx.rule("C03.R1", "a state is in the subsystem exactly if its entry, or one of its actions' entries, is positive")
    ctx.rule("C03.R2", "every action of every kept state gets its own row, target and fail come last")
    ctx.rule("C03.R3", "kept transitions keep their probability, the rest goes to fail")
    ctx.rule("C03.R4", "kept states and actions keep their labels; target and fail carry theirs")
    ctx.rule("C03.R5", "kept actions keep their rewards")
    ctx.rule("C03.R6", "the subsystem has the supersystem's type and labels")
    ctx.part("mask", mask, ctx)
    ctx.part("extraction", extraction, ctx)
