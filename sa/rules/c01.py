"""C01: reduction to a reachability form keeps labels, rewards and probabilities attached to their states.

Every entry that `ReachabilityForm.reduce` writes into the new model and the returned mappings, as a closed term over the
given system and the numbering of the kept states, is compared with the specification program sa/spec/reduction.py.

R1 numbering and mappings   R2 rows   R3 transitions   R4 labels   R5 rewards   R6 construction   R7 reward variant"""
from .common import *
from .summary import *

SYS = sym("system", "AbstractMDP")
SIGMA = sym("SIGMA", "map")
NAMES = ("P", "index_by_state_action", "label_to_actions", "label_to_states", "reward_vector", "state_map", "pair_map")


class Env:
    def __init__(self):
        self.N, self.C = mk("attr", SYS, "N"), mk("attr", SYS, "C")
        self.P = mk("attr", SYS, "P")
        self.index = mk("attr", SYS, "index_by_state_action")

    def rewrite(self, t):
        m = {item(mk("attr", self.P, "shape"), 0): self.C, item(mk("attr", self.P, "shape"), 1): self.N}
        return tm.subst(t, m)

    def element(self, dom, e):
        if dom.op == "m" and dom.a[0] == "successors" and len(dom.a) == 3:
            s = dom.a[2]
            return {item(e, 2): get(self.P, tup(get(self.index, tup(s, item(e, 1))), item(e, 0)))}
        return {}

    def lit(self, l):
        neg = l.op == "not"
        x = l.a[0] if neg else l
        k = None
        if neg and x.op == "eq" and C(0) in x.a:
            k = [y for y in x.a if y is not C(0)][0]
        elif x.op == "lt" and x.a[0].op == "poly" and not neg:
            k = tm.sub(C(0), x.a[0])
        if k is not None and k.op == "get" and k.a[0] is self.P:
            return TRUE      # entries of P are not negative, and zeros add nothing
        return l

    def known(self, l):
        def atom(x):
            if x.op == "truth" and x.a[0].op == "get" and x.a[0].a[0].op == "m" and x.a[0].a[0].a[0] == "reachable_mask":
                return True
            if x.op == "in" and resolved(x) and x.a[1].op == "get":
                return True
            return x.op in ("lt", "le", "eq") and clean(x) and not tm.has_op(x, "ext", "app", "ref", "len", "last")
        return boolean(l, atom)


def member(t):
    """k in keys of a mapping with a single entry: the entry's condition at k"""
    m = {}
    for x in tm.subterms(t):
        if x.op == "in" and x.a[1].op == "keys" and x.a[1].a[0].op == "dict" and len(x.a[1].a[0].a) == 1 and x.a[1].a[0].a[0].op == "for":
            f = x.a[1].a[0].a[0]
            doms, g, kv = f.a
            own = set(tm.own_bvs(f))
            h = sym("$k", "any")
            g2 = tm.subst(g, {kv.a[0]: h})
            if not any(b in tm.free_bvs(g2) for b in own):
                m[x] = tm.subst(g2, {h: x.a[0]})
    return tm.subst(t, m) if m else t


def run_reduce(ctx):
    """(I, st, result, [model events], [constructor calls], env)"""
    repo = ctx.repo
    f = repo.func("ReachabilityForm.reduce")
    I = interp(repo, module="switss.model.reachability_form")
    st = I.new_state()
    made = []

    def ctor(I, st, a, k, n, fn):
        made.append((a, k, n, fn))
        return NONE
    I.intercept[repo.find_method(repo.cls("ReachabilityForm"), "__init__").qual] = ctor
    for n in ("__adapt_style",):
        m = repo.find_method(repo.cls("ReachabilityForm"), n)
        if m is not None:
            I.intercept[m.qual] = lambda *a: NONE
    v = I.call_func(st, f, [SYS] + [sym(x, "str") for x in ("il", "tl", "ntl", "nfl")], {}, None)
    ctx.used(I)
    return I, st, v, made


class Reduction(Summary):
    def element(self, dom, e):
        return Env().element(dom, e)

    def _canon(self, t):
        for r, n in self.I.numrefs.items():
            self.roles.setdefault(r, SIGMA)
            self.roles.setdefault(n, SIGMA)
        t = super()._canon(t)
        t = member(t)
        m = {}
        for x in tm.subterms(t):
            if x.op == "distinct" and not tm.free_bvs(x):
                m[x] = named(mk("distinct", x.a[0], self.guard(x.a[1]), x.a[2]), "distinct", "int")
        return tm.subst(t, m) if m else t


def reduction(ctx):
    repo = ctx.repo
    f = repo.func("ReachabilityForm.reduce")
    file, line = where(repo, f)
    I, st, v, made = run_reduce(ctx)
    E = Env()
    news = [e for e in I.events if e.kind == "new" and (e.name == "model" or (e.extra is not None and getattr(e.extra, "name", "") in ("MDP", "DTMC")))]
    if len(news) != 1 or v.op != "tuple" or len(v.a) != 3:
        ctx.undecided("C01.R6", "ReachabilityForm.reduce", "%d models are built" % len(news))
        return
    ev = news[0]
    ps = ("P", "index_by_state_action", "label_to_actions", "label_to_states", "vis_config", "reward_vector")
    a = dict(zip(ps, ev.args[1:] if ev.name == "model" else ev.args))
    a.update(ev.kw)
    a["state_map"], a["pair_map"] = v.a[1], v.a[2]
    want_t = mk("typeof", SYS)
    typ = ev.args[0] if ev.name == "model" else None
    ctx.decide("C01.R6", "type of the model", None if typ is None else (typ is want_t or (False if resolved(typ) else None)), "a %s is built" % (typ is not None and tm.show(typ)), ev.file or file, ev.line)
    sp = spec_func(repo, "reduction", "reduction_spec")
    I2 = interp(repo, module="spec_reduction")
    s2 = I2.new_state()
    w = I2.call_func(s2, sp, [SYS] + [sym(x, "str") for x in ("il", "tl", "ntl", "nfl")] + [SIGMA], {}, None)
    want = {n: item(w, i) for i, n in enumerate(NAMES)}
    S = Reduction(I, st, {}, E.lit, E.rewrite)
    W = Reduction(I2, s2, {}, E.lit, E.rewrite)
    rules = dict(P="C01.R3", index_by_state_action="C01.R2", label_to_actions="C01.R4", label_to_states="C01.R4", reward_vector="C01.R5", state_map="C01.R1", pair_map="C01.R1")
    what = dict(P="transition", index_by_state_action="row", label_to_actions="action label", label_to_states="state label", reward_vector="reward", state_map="state", pair_map="pair")
    for n, (init, g, key, b) in sorted(I.nums.items(), key=lambda x: str(x[0].a)):
        ctx.decide("C01.R1", "numbering of the kept states", init is C(0) or (False if tm.is_num(init) else None), "starts at %s" % tm.show(init), file, line)
    rv = bnot(eq(mk("attr", SYS, "reward_vector"), NONE))
    S.facts = W.facts = (rv,)
    wanted = {n: W.entries(tm.assume(want[n], rv), n.startswith("label")) for n in NAMES}
    family(*wanted.values())
    for n in NAMES:
        g = a.get(n)
        R, con = rules[n], ("reduced system's " if n not in ("state_map", "pair_map") else "returned ") + n
        if g is None:
            ctx.violation(R, con, "%s is not handed to the model" % n, ev.file or file, ev.line)
            continue
        if n == "reward_vector":
            x = tm.assume(g, bnot(rv))
            ctx.decide(R, con + " without rewards", x is NONE or (False if x.op == "ref" else None), "%s although the system has none" % tm.show(x)[:80], ev.file or file, ev.line)
            g = tm.assume(g, rv)
            if g is NONE:
                ctx.violation(R, con, "the rewards are dropped", ev.file or file, ev.line)
                continue
        compare_tables(ctx, R, con, S.entries(g, n.startswith("label")), wanted[n], E.known, what[n], file, line)
    family()
    # the reachability form
    R, con = "C01.R6", "reachability form"
    o = I.obj(st, v.a[0]) if v.a[0].op == "ref" else None
    if len(made) != 1 or o is None or o.cls is None or o.cls.name != "ReachabilityForm":
        ctx.undecided(R, con, tm.show(v.a[0])[:100])
        return
    args, kw, node, fn = made[0]
    env = I.bind(st, fn, args, kw, node)
    if env is None:
        ctx.undecided(R, con, "arguments")
        return
    ln = getattr(node, "lineno", line)
    ctx.decide(R, con + " over the model", env["system"] is ev.result or (False if resolved(env["system"]) else None), "another model is wrapped", file, ln)
    for n, x in (("initial_label", "il"), ("target_label", "ntl"), ("fail_label", "nfl")):
        ctx.decide(R, con + " " + n, env[n] is sym(x, "str") or (False if resolved(env[n]) else None), "%s is %s" % (n, tm.show(env[n])[:80]), file, ln)


def differs(x, w):
    """x is certainly not always w"""
    for c, v in ite_cases(x):
        if v is not w and clean(v) and not tm.has_op(v, "ext", "sub", "ite", "slice") and all(y.op in ("poly", "c", "sym", "attr", "le", "lt", "eq", "not", "and", "item") for y in tm.subterms(c)):
            return True
    return False


def reward_variant(ctx):
    repo, R = ctx.repo, "C01.R7"
    ci = repo.cls("RewardReachabilityForm")
    rfc = repo.cls("ReachabilityForm")
    k = sym("k", "int")
    for name in ("fromsystem", "reduce"):
        f = repo.find_method(ci, name)
        if f is None:
            raise_missing(name)
        file, line = where(repo, f)
        I = interp(repo, module="switss.model.reward_reachability_form")
        st = I.new_state()
        made = []

        def ctor(I, st, a, kw, n, fn):
            made.append((fn, I.bind(st, fn, a, kw, n), n))
            return NONE
        for c in (ci, rfc):
            I.intercept[repo.find_method(c, "__init__").qual] = ctor
        RF, COLS, ROWS = sym("RF", "ReachabilityForm"), sym("COLS", "map"), sym("ROWS", "map")
        red = repo.find_method(rfc, "reduce")
        I.intercept[red.qual] = lambda *a: tm.tup(RF, COLS, ROWS)
        a = [SYS, sym("il", "str"), sym("tl", "str")] + ([] if name == "fromsystem" else [sym("ntl", "str")])
        v = I.call_func(st, f, ([mk("class", ci.qual)] if f.kind == "class" else []) + a, {"ignore_consistency_checks": TRUE}, None)
        ctx.used(I)
        con = "RewardReachabilityForm.%s" % name
        last = [m for m in made if m[0] is repo.find_method(ci, "__init__")]
        if len(last) != 1 or last[0][1] is None:
            ctx.undecided(R, con, "%d reward reachability forms are built" % len(last))
            continue
        env, n = last[0][1], last[0][2]
        ln = getattr(n, "lineno", line)
        vec = env["reward_vector"]
        x = elem1(I.freeze(st, vec), k)
        facts = [le(C(0), k)]
        if name == "reduce":
            ctx.decide(R, con + " form", env["reachability_form"] is RF or (False if resolved(env["reachability_form"]) else None), "another reachability form is wrapped", file, ln)
            w = get(mk("attr", mk("attr", RF, "system"), "reward_vector"), k)
            ctx.decide(R, con + " rewards", x is w or (False if differs(x, w) else None), "reward of pair k is %s" % tm.show(x)[:120], file, ln)
            ok = v.op == "tuple" and len(v.a) == 3 and v.a[1] is COLS and v.a[2] is ROWS
            ctx.decide(R, con + " mappings", ok or (False if v.op == "tuple" and all(y.op == "sym" for y in v.a[1:]) else None), "returned mappings are %s" % tm.show(v)[:100], file, line)
            continue
        Cn = mk("attr", SYS, "C")
        E = Env()
        facts += [lt(k, Cn), le(tm.add(k, C(1)), Cn), lt(k, tm.add(Cn, C(-1))), le(tm.add(k, C(2)), Cn)]
        w = get(mk("attr", SYS, "reward_vector"), k)
        x = tm.assume(E.rewrite(x), *facts)
        ctx.decide(R, con + " rewards", x is w or (False if differs(x, w) else None), "reward of pair k is %s" % tm.show(x)[:120], file, ln)
        news = [e for e in I.events if e.kind == "new" and (e.name == "model" or (e.extra is not None and getattr(e.extra, "name", "") in ("MDP", "DTMC")))]
        rf = [m for m in made if m is not last[0]]
        if len(news) != 1 or len(rf) != 1 or rf[0][1] is None:
            ctx.undecided(R, con, "%d models are built" % len(news))
            continue
        ev = news[0]
        ps = ("P", "index_by_state_action", "label_to_actions", "label_to_states", "vis_config", "reward_vector")
        args = dict(zip(ps, ev.args[1:] if ev.name == "model" else ev.args))
        args.update(ev.kw)
        typ = ev.args[0] if ev.name == "model" else None
        ctx.decide(R, con + " type", None if typ is None else (typ is mk("typeof", SYS) or (False if resolved(typ) else None)), "a %s is built" % (typ is not None and tm.show(typ)), file, ev.line)
        sp = spec_func(repo, "reduction", "fromsystem_spec")
        I2 = interp(repo, module="spec_reduction")
        s2 = I2.new_state()
        wt = I2.call_func(s2, sp, [SYS, sym("il", "str"), sym("tl", "str")], {}, None)
        S, W = Summary(I, st, {}, E.lit, E.rewrite), Summary(I2, s2, {}, E.lit, E.rewrite)
        for i, nm in enumerate(("P", "index_by_state_action", "label_to_states")):
            if nm not in args:
                ctx.violation(R, con + " " + nm, "not handed to the model", file, ev.line)
                continue
            compare_tables(ctx, R, con + " " + nm, S.entries(args[nm]), W.entries(item(wt, i)), E.known, "entry", file, line)
        la = I.freeze(st, args["label_to_actions"]) if "label_to_actions" in args else NONE
        w = mk("attr", SYS, "actions_by_label")
        ctx.decide(R, con + " label_to_actions", la is w or (False if la is NONE or (la.op in ("dict", "attr") and not tm.has_op(la, "for")) else None), "action labels are %s" % tm.show(la)[:100], file, ev.line)
        rw = args.get("reward_vector", NONE)
        y = tm.assume(E.rewrite(elem1(I.freeze(st, rw), k)), *facts) if rw is not NONE else NONE
        w = get(mk("attr", SYS, "reward_vector"), k)
        ctx.decide(R, con + " model's rewards", y is w or (False if differs(y, w) else None), "reward of pair k is %s" % tm.show(y)[:120], file, ev.line)
        e2 = rf[0][1]
        ctx.decide(R, con + " model", e2["system"] is ev.result or (False if resolved(e2["system"]) else None), "another model is wrapped", file, ev.line)
        for q, w in (("initial_label", sym("il", "str")), ("target_label", sym("tl", "str")), ("fail_label", C("rf_fail"))):
            ctx.decide(R, con + " " + q, e2[q] is w or (False if resolved(e2[q]) else None), "%s is %s" % (q, tm.show(e2[q])[:60]), file, ev.line)


def raise_missing(name):
    from ..front import AnchorMissing
    raise AnchorMissing("RewardReachabilityForm." + name)


def run(ctx):
    ctx.rule("C01.R1", "the returned mappings name the new state and pair of every kept state and pair")
    ctx.rule("C01.R2", "every kept pair has its own row, target and fail come last")
    ctx.rule("C01.R3", "kept transitions keep their probability, old targets move to the target, the rest goes to fail")
    ctx.rule("C01.R4", "kept states and pairs keep their labels; target and fail carry theirs")
    ctx.rule("C01.R5", "kept pairs keep their rewards")
    ctx.rule("C01.R6", "the reduced system has the type and labels that were asked for")
    ctx.rule("C01.R7", "the reward variant keeps the system and its rewards")
    ctx.part("reduction", reduction, ctx)
    ctx.part("reward variant", reward_variant, ctx)
