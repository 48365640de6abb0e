"""C02: a reduction keeps exactly the relevant states, with target and fail last.

R1 kept states: the condition and the arguments of both searches, the positions, rows and labels of target and fail, compared
   with the specification program of C01
R2 the models hand every search and neighbour query to their graph unchanged, and build it from their matrix and index
R3 adjacency lists: every transition is added at its source and at its target, queries return all of them
R4 the search: for each direction, the abstract loop body must keep the invariant of a work list (every found state is on the
   stack or marked; neighbours of marked, unblocked states are found; nothing else is)"""
from .native import *
from .summary import family, literals, clean, Summary, spec_func, compare_tables
from . import c01

G = sym("G", "Graph")


def kept(ctx):
    """the parts of the reduction's specification that concern states, target and fail"""
    sub = Filter(ctx)
    c01.reduction(sub)


class Filter:
    """passes on the decisions of C01 that C02 is about"""

    def __init__(self, ctx):
        self.ctx, self.repo, self.undec = ctx, ctx.repo, []

    def used(self, I):
        self.ctx.used(I)

    def keep(self, rule, con):
        if rule == "C01.R1":
            return "state" in con
        if "initial contents" in con:
            return True
        if rule in ("C01.R2", "C01.R3", "C01.R4"):
            return " for " not in con       # single entries: target and fail
        return False

    def decide(self, rule, con, v, text="", file=None, line=None):
        if self.keep(rule, con):
            self.ctx.decide("C02.R1", con, v, text, file, line)
        elif v is None:
            self.undec.append((rule, con, text))

    def ok(self, rule, con, text=""):
        if self.keep(rule, con):
            self.ctx.ok("C02.R1", con, text)

    def undecided(self, rule, con, text=""):
        self.undec.append((rule, con, text))
        if self.keep(rule, con):
            self.ctx.undecided("C02.R1", con, text)

    def violation(self, rule, con, text="", file=None, line=None):
        if self.keep(rule, con):
            self.ctx.violation("C02.R1", con, text, file, line)


# ---------------------------------------------------------------- models and their graph
def models(ctx):
    R, repo = "C02.R2", ctx.repo
    ci = repo.cls("AbstractMDP")
    GR = sym("GRAPH", "Graph")
    # the graph is found in the constructor
    init = repo.find_method(ci, "__init__")
    I = interp(repo, module="switss.model.amdp")
    st = I.new_state()
    I.push_module(init.module)
    me = I.alloc(st, "inst", None, cls=repo.cls("MDP"))
    made = []
    old = I.ext_call

    def ext(st_, name_, args, kw, node):
        if name_.split(".")[-1] == "Graph":
            made.append((args, kw, node))
            return GR
        return old(st_, name_, args, kw, node)
    I.ext_call = ext
    Pm, ix = sym("P", "matrix"), sym("index", "map")
    I.call_func(st, init, [me, Pm, ix, sym("la", "map"), sym("ls", "map")], {}, None)
    file, line = where(repo, init)
    ctx.used(I)
    seen = {}
    for args, kw, node in made:
        d = dict(zip(("P", "index_by_state_action"), args))
        d.update(kw)
        for k, want in (("P", Pm), ("index_by_state_action", ix)):
            v = I.freeze(st, d.get(k, NONE))
            seen[k] = v
            ok = v is want or tm.assume(v, bnot(eq(want, NONE))) is want
            w = v
            while w.op in ("m", "copy", "attr") and not ok:
                # a copy or another format of the same
                if w.op == "m" and w.a[0] in ("copy", "todok", "tocsr", "tocsc", "tocoo"):
                    w = w.a[1]
                else:
                    break
            ok = ok or w is want or any(x is want for _, x in ite_cases(w))      # other forms of matrices are converted first
            o = I.obj(st, d.get(k, NONE)) if d.get(k, NONE).op == "ref" else None
            ctx.decide(R, "graph's %s" % k, ok or (None if o is not None else (False if clean(v) and not tm.has_op(v, "m", "ext", "app") else None)), "the graph is built from %s" % tm.show(v)[:100], file, getattr(node, "lineno", line))
        break
    attr = [k for k, v in st.heap[me.a[0]].attrs.items() if v is GR]
    if not attr:
        ctx.undecided(R, "graph", "not stored")
        return
    for mname, n, params in (("reachable_mask", "reachable", 3), ("successors", "successors", 1), ("predecessors", "predecessors", 1)):
        for c in [x for x in repo.subclasses(ci)] + [ci]:
            f = repo.find_method(c, mname)
            if f is None or (c is not ci and f is repo.find_method(ci, mname)):
                continue
            I = interp(repo, module=f.module.name)
            st = I.new_state()
            I.push_module(f.module)
            me = I.alloc(st, "inst", None, cls=c)
            st.heap[me.a[0]].attrs.update({k: GR for k in attr})
            a = [sym("from", "set" if params == 3 else "int"), sym("dir", "str"), sym("block", "set")][:params]
            v = I.call_func(st, f, [me] + a, {}, None)
            ctx.used(I)
            want = mk("m", n, GR, *a)
            v = I.freeze(st, v)
            w = v
            while w.op == "m" and w.a[0] in ("astype", "copy") or w.op in ("list", "iter"):
                w = w.a[1] if w.op == "m" else w.a[0]
            file, line = where(repo, f)
            got = None
            if w.op == "m" and w.a[0] == n and w.a[1] is GR:
                names = ("fromset", "direction", "blocklist") if params == 3 else ("nodeidx", "actionidx")
                d = {}
                for i, x in enumerate(w.a[2:]):
                    if x.op == "tuple" and len(x.a) == 2 and x.a[0].op == "c" and x.a[0].a[0] in names:
                        d[x.a[0].a[0]] = x.a[1]
                    elif isinstance(x, tuple) and len(x) == 2:
                        d[x[0]] = x[1]
                    else:
                        d[names[i]] = x
                got = all(d.get(names[i]) is a[i] for i in range(params)) and len(d) == params
                if not got:
                    missing = [names[i] for i in range(params) if d.get(names[i]) is not a[i]]
                    got = False if all(clean(d[x]) if x in d else True for x in missing) else None
            elif w.op == "m" and w.a[1] is GR and clean(mk("x", *w.a[2:])):
                got = False
            ctx.decide(R, "%s.%s" % (c.name, mname), got, "is %s" % tm.show(v)[:120], file, line)


# ---------------------------------------------------------------- adjacency lists
def adjacency(ctx):
    R, repo = "C02.R3", full(ctx)
    mod = "switss.utils.graph"
    f = repo.maybe("Graph.add_successor")
    ci = repo.cls("Graph")
    N = sym("N", "int")

    def graph(I, st, same):
        def node(n):
            r = I.alloc(st, "inst", None)
            st.heap[r.a[0]].attrs.update(succcount=sym("ns" + n, "int"), predcount=sym("np" + n, "int"), successors=name("S" + n), predecessors=name("P" + n))
            return r
        A = node("a")
        B_ = A if same else node("b")
        g = I.alloc(st, "inst", None, cls=ci)
        st.heap[g.a[0]].attrs.update(nodes=items(I, st, [A] if same else [A, B_]), nodecount=N)
        return g, A, B_
    if f is not None:
        file, line = where(repo, f)
        ps = [a.arg for a in f.node.args.args]
        for same in (False, True):
            I = interp(repo, module=mod)
            memory(I, True)
            st = I.new_state()
            I.push_module(repo.modules[mod])
            g, A, B_ = graph(I, st, same)
            a, p = sym("action", "int"), sym("p", "num")
            to = C(0 if same else 1)
            vals = dict(fromidx=C(0), action=a, prob=p, toidx=to)
            if set(ps[1:]) != set(vals):
                ctx.undecided(R, "Graph.add_successor", "parameters")
                break
            I.call_func(st, f, [g] + [vals[x] for x in ps[1:]], {}, None)
            ctx.used(I)
            for who, obj, cnt, arr, old, want in (("source", A, "succcount", "successors", ("nsa", "Sa"), tup(to, a, p)), ("target", B_, "predcount", "predecessors", ("npa", "Pa") if same else ("npb", "Pb"), tup(C(0), a, p))):
                con = "Graph.add_successor%s: %s of the %s" % (" (self loop)" if same else "", arr, who)
                at = st.heap[obj.a[0]].attrs
                n0, s0 = sym(old[0], "int"), name(old[1])
                c = at.get(cnt)
                ctx.decide(R, con + " counted", c is tm.add(n0, C(1)) or (False if c is not None and clean(c) else None), "the new number is %s" % (c is not None and tm.show(c)), file, line)
                v = at.get(arr)
                o = I.obj(st, v) if v is not None and v.op == "ref" else None
                if o is None or o.kind != "arr":
                    ctx.decide(R, con, False if v is s0 else None, "the new %s is not stored" % arr, file, line)
                    continue
                es = [e for e in o.log]
                if any(e.op != "set" for e in es) or any(len(e.binders) > 1 for e in es):
                    ctx.undecided(R, con, "contents")
                    continue
                loop = [e for e in es if e.binders]
                one = [e for e in es if not e.binders]
                r = None
                if len(loop) == 1 and len(one) == 1:
                    e, b = loop[0], loop[0].binders[0]
                    x = b.atoms[0]
                    g = [l for l in e.guard if not I.domain_fact(l, e.binders)]
                    copies = e.key is x and e.val is get(s0, x) and b.dom is mk("range", C(0), n0) and not g and not one[0].guard
                    r = copies and one[0].key is n0 and one[0].val is want
                    if not r and (not clean(e.val) or not clean(one[0].val) or b.dom.op != "range" or e.val.op == "ref"):
                        r = None
                    ctx.decide(R, con, r, "holds [%s] = %s for %s and [%s] = %s" % (tm.show(e.key), tm.show(e.val), tm.show(b.dom), tm.show(one[0].key), tm.show(one[0].val)), file, one[0].where[1] if isinstance(one[0].where, tuple) else line)
                elif not loop:
                    ctx.decide(R, con, False if es else None, "earlier %s are not kept" % arr, file, line)
                else:
                    ctx.undecided(R, con, "contents")
    # construction: every transition is added
    init = repo.find_method(ci, "__cinit__") or repo.find_method(ci, "__init__")
    if init is not None and f is not None:
        file, line = where(repo, init)
        I = interp(repo, module=mod)
        memory(I)
        calls = []

        def add(I, st, a, k, n, fn):
            if not I.mute:
                calls.append((I.bind(st, fn, a, k, n), st.path, st.binders, n))
            return NONE
        I.intercept[f.qual] = add
        st = I.new_state()
        I.push_module(repo.modules[mod])
        g = I.alloc(st, "inst", None, cls=ci)
        Pm, ix = sym("P", "matrix"), sym("index", "map")
        st.path = (bnot(eq(Pm, NONE)), bnot(eq(ix, NONE)))
        I.call_func(st, init, [g, Pm, ix], {}, None)
        ctx.used(I)
        at = st.heap[g.a[0]].attrs
        nn = at.get("nodecount")
        ctx.decide(R, "Graph: number of nodes", nn is item(mk("attr", Pm, "shape"), 1) or (False if nn is not None and clean(nn) else None), "is %s" % (nn is not None and tm.show(nn)), file, line)
        if len(calls) != 1 or calls[0][0] is None or len(calls[0][2]) != 1:
            ctx.undecided(R, "Graph: transitions", "%d places add transitions" % len(calls))
        else:
            env, path, bs, n = calls[0]
            b = bs[0]
            k = b.atoms[0]
            extra = [l for l in path if l not in st.path and not I.domain_fact(l, bs) and l not in (bnot(eq(Pm, NONE)), bnot(eq(ix, NONE)))]
            val = get(Pm, k) if b.dom in (mk("keys", Pm), Pm) else None
            sa = get(tm.inv(ix), item(k, 0))
            nodes = [l for l in extra if nn is not None and not tm.has_op(l, "app", "unk") and nn in tm.subterms(l)]      # checks of state numbers
            extra = [l for l in extra if l not in nodes and not (l.op in ("le", "lt") and item(sa, 0) in tm.subterms(l))]
            want = dict(fromidx=item(sa, 0), action=item(sa, 1), toidx=item(k, 1), prob=val)
            for p, w in want.items():
                v = env.get(p)
                ok = v is w
                ctx.decide(R, "Graph: %s of a transition" % p, ok or (False if w is not None and v is not None and clean(v) and tm.atoms(v) & set(b.atoms) else None), "is %s" % (v is not None and tm.show(v)[:100]), file, n.lineno)
            ctx.decide(R, "Graph: all transitions", b.dom is mk("keys", Pm) and not extra or (False if extra and all(clean(l) for l in extra) else None), "only those with %s are added" % tm.show(band(*extra))[:100], file, n.lineno)
    # queries
    for q, cnt in (("successors", "succcount"), ("predecessors", "predcount")):
        f = repo.find_method(ci, q)
        if f is None:
            continue
        file, line = where(repo, f)
        I = interp(repo, module=mod)
        memory(I)
        st = I.new_state()
        x = sym("x", "int")
        v = I.call_func(st, f, [G, x], {}, None)
        ctx.used(I)
        con = "Graph.%s" % q
        o = I.obj(st, v) if v.op == "ref" else None
        nd = get(mk("attr", G, "nodes"), x)
        es = None if o is None or o.kind not in ("gen", "list") else o.log
        if es is None or len(es) != 1 or len(es[0].binders) != 1:
            ctx.undecided(R, con, tm.show(I.freeze(st, v))[:100])
            continue
        e, b = es[0], es[0].binders[0]
        i = b.atoms[0]
        g = [l for l in e.guard if not I.domain_fact(l, e.binders) and l not in o.path0 and l not in st.path]
        want = get(mk("attr", nd, q), i)
        val = e.val
        if val.op == "tuple" and len(val.a) == 3 and all(item(want, j) is val.a[j] for j in range(3)):
            val = want
        ok = val is want and b.dom is mk("range", C(0), mk("attr", nd, cnt)) and not g
        ctx.decide(R, con, ok or (False if clean(val) and b.dom.op == "range" and all(clean(l) for l in g) else None), "yields %s for %s%s" % (tm.show(val), tm.show(b.dom), " if " + tm.show(band(*g)) if g else ""), file, line)


# ---------------------------------------------------------------- the search
def search(ctx):
    R, repo = "C02.R4", full(ctx)
    f = repo.func("Graph.reachable")
    file, line = where(repo, f)
    for d, arr, cnt in (("forward", "successors", "succcount"), ("backward", "predecessors", "predcount")):
        con = "%s search" % d
        I = interp(repo, module=f.module.name)
        memory(I)
        if not stacks(I, repo):
            ctx.undecided(R, con, "no stack operations")
            continue
        st = I.new_state()
        FROM, BLOCK = sym("fromset", "set"), sym("block", "set")
        v = I.call_func(st, f, [G, FROM, C(d), BLOCK], {}, None)
        ctx.used(I)
        pre = set(st.path)
        N = mk("attr", G, "nodecount")
        for e in I.events:
            e.args, e.path = tuple(native(x) for x in e.args), tuple(native(x) for x in e.path if not tm.has_op(x, "nobreak"))
        evs = list(I.events)
        pops = [e for e in evs if e.kind == "pop"]
        pushes = [e for e in evs if e.kind == "push"]
        writes = [e for e in evs if e.kind == "mutate" and e.name == "setitem" and e.args[0].op == "sym" and e.args[0].a[1] == "cmem"]
        if len(pops) != 1 or len(pops[0].binders) != 1 or pops[0].binders[0].dom.op != "while":
            ctx.undecided(R, con, "not a single work loop")
            continue
        loop = pops[0].binders[0]
        bad = [e for e in evs if e.kind == "break" and e.binders and e.binders[-1] is loop and not any(l.op == "eq" and NONE in l.a and (STACK in l.a or any(x.op == "mu" for x in l.a)) for l in e.path)]
        if bad:
            c = [l for l in bad[0].path if l not in pre and not fromfact(l, FROM, BLOCK)]
            ctx.decide(R, con + " runs until the work list is empty", False if all(clean(l) or tm.has_op(l, "mu") for l in c) else None, "it can be left before", file, bad[0].line)
            continue
        nd = get(mk("attr", G, "nodes"), POPPED)
        wk = [l for l in pops[0].path if not (l in pre)]
        cond = [l for l in wk if not (l.op == "not" and l.a[0].op == "eq" and NONE in l.a[0].a) and not fromfact(l, FROM, BLOCK)]
        ctx.decide(R, con + " runs until the work list is empty", not cond or (False if all(clean(l) for l in cond) else None), "only while %s" % tm.show(band(*cond))[:100], file, pops[0].line)

        def local(e):
            return [l for l in e.path if l not in pops[0].path and not I.domain_fact(l, e.binders)]

        def zero(m):
            """m is 0 everywhere before it is used"""
            for w in writes:
                if w.args[0] is m and len(w.binders) == 1 and w.binders[0].dom is mk("range", C(0), N) and w.args[1] is w.binders[0].atoms[0] and not [l for l in w.path if l not in pre and not I.domain_fact(l, w.binders) and not fromfact(l, FROM, BLOCK)]:
                    return True if w.args[2] is C(0) or w.args[2] is FALSE else False
            touched = [e for e in evs if e.kind in ("ext", "app", "mcall", "call") and e.name != "libc.stdlib.free" and m in e.args]
            if not touched and not any(w.args[0] is m and len(w.binders) == 1 and w.binders[0] is not loop and w.args[2] in (C(0), FALSE) for w in writes):
                return False
            return None

        # the start
        start = [e for e in pushes if loop not in e.binders]
        ok = [e for e in start if len(e.binders) == 1 and e.args[1] is elem(e.binders[0], FROM) and not [l for l in e.path if l not in pre and not I.domain_fact(l, e.binders) and not fromfact(l, FROM, BLOCK)]]
        ctx.decide(R, con + " starts at every given state", bool(ok) or (False if len(start) == 1 and all(clean(l) for l in start[0].path) and clean(start[0].args[1]) else None), "pushed are %s" % ", ".join(tm.show(e.args[1]) for e in start), file, start[0].line if start else line)
        ins = [e for e in pushes if loop in e.binders]
        # memory: who is set where
        sets = {}
        for w in writes:
            sets.setdefault(w.args[0], []).append(w)
        one = lambda w: tm.is_num(w.args[2]) and w.args[2].a[0] != 0 or w.args[2] is TRUE
        # neighbours
        hits = [e for e in ins if len(e.binders) == 2]
        opaque = [e for e in evs if loop in e.binders and e.kind in ("mcall", "app", "call", "ext") and any(STACK in tm.subterms(x) or x.op == "mu" for x in e.args)]
        if not hits and opaque:
            ctx.undecided(R, con + " finds all neighbours", "%s changes the work list" % opaque[0].name)
            continue
        if not hits:
            ctx.violation(R, con + " finds all neighbours", "no neighbour is put on the work list", file, pops[0].line)
            continue
        if len(hits) != 1 or len(ins) != 1:
            ctx.undecided(R, con + " finds all neighbours", "%d places put neighbours on the work list" % len(ins))
            continue
        e = hits[0]
        b = e.binders[1]
        n = e.args[1]
        want_dom, want = mk("range", C(0), mk("attr", nd, cnt)), item(get(mk("attr", nd, arr), b.atoms[0]), 0)
        ctx.decide(R, con + " follows the %s" % arr, (n is want and b.dom is want_dom) or (False if clean(n) and b.dom.op == "range" else None), "put on the work list are %s for %s" % (tm.show(n), tm.show(b.dom)), file, e.line)
        lits = local(e)
        blocked, marks, rest = False, set(), []
        blockers = set()
        for l in lits:
            x = l.a[0].a[0] if l.op == "not" and l.a[0].op == "truth" else (l.a[0] if l.op == "not" else None)
            y = x
            if l.op == "eq" and C(0) in l.a:
                y = [z for z in l.a if z is not C(0)][0]
            if y is not None and y.op == "get" and y.a[0].op == "sym" and y.a[0].a[1] == "cmem":
                m, at = y.a
                if at is POPPED and isblock(m, sets, BLOCK, I, pre, FROM):
                    blocked = True
                    continue
                if at is n:
                    if isblock(m, sets, BLOCK, I, pre, FROM):
                        ctx.violation(R, con + " returns blocked states", "blocked neighbours are not put on the work list", file, e.line)
                        continue
                    marks.add(m)
                    continue
            if x is not None and x.op == "eq" and set(x.a) == {n, POPPED}:
                continue        # the state itself is found already
            if y is not None and y.op == "in" and y.a[1] is BLOCK:
                if y.a[0] is POPPED:
                    blocked = True
                    continue
                if y.a[0] is n:
                    ctx.violation(R, con + " returns blocked states", "blocked neighbours are not put on the work list", file, e.line)
                    continue
            rest.append(l)
        ctx.decide(R, con + " stops at blocked states", blocked or (None if any(not clean(l) or tm.has_op(l, 'app', 'm', 'ext') for l in rest) else False), "neighbours of blocked states are put on the work list", file, e.line)
        for l in rest if blocked else ():
            ctx.decide(R, con + " finds all neighbours", False if clean(l) and not tm.has_op(l, "m", "ext", "app") else None, "only if %s" % tm.show(l)[:120], file, e.line)
        if not rest:
            ctx.ok(R, con + " finds all neighbours", "")
        # the marks
        res = I.obj(st, v) if v.op == "ref" else None
        src = None
        if res is not None and res.kind == "arr" and len(res.log) == 1 and len(res.log[0].binders) == 1:
            r = res.log[0]
            i = r.binders[0].atoms[0]
            val = r.val
            while val.op in ("truth",):
                val = val.a[0]
            g = [l for l in r.guard if l not in pre and not I.domain_fact(l, r.binders) and not fromfact(l, FROM, BLOCK)]
            if r.key is i and val.op == "get" and val.a[1] is i and val.a[0].op == "sym" and val.a[0].a[1] == "cmem":
                src = val.a[0]
                full_ = r.binders[0].dom is mk("range", C(0), N) and not g
                ctx.decide(R, con + " returns every state", full_ or (False if r.binders[0].dom.op == "range" and all(clean(l) for l in g) else None), "returned for %s" % tm.show(r.binders[0].dom), file, line)
        if src is None:
            ctx.undecided(R, con + " returns every state", "the result is not a copy of one of the arrays")
        for m in sorted(marks | ({src} if src else set()), key=str):
            role = "result" if m is src else "filter"
            z = zero(m)
            ctx.decide(R, con + " clean %s array" % role, z, "does not start as zeros", file, line)
            for w in sets.get(m, ()):
                if not one(w):
                    if m is src and loop in w.binders and tm.is_num(w.args[2]):
                        ctx.violation(R, con + " keeps its result", "found states are unmarked", file, w.line)
                    continue
                x = w.args[1]
                if loop not in w.binders:
                    good = len(w.binders) == 1 and x is elem(w.binders[0], FROM)
                elif x is POPPED:
                    # marked when it is taken off the list: its neighbours are looked at in the same step
                    good = True
                    if m is not src and src is not None and not any(y.args[1] is POPPED and one(y) for y in sets.get(src, ())) and m in marks:
                        good = None
                else:
                    good = x is n and set(local(w)) >= set() and subset(local(e), local(w))
                ctx.decide(R, con + " %s array only holds found states" % role, good or (False if clean(x) and good is not None else None), "%s is marked%s" % (tm.show(x), " if " + tm.show(band(*local(w)))[:100] if x is n else ""), file, w.line)
        if src is not None:
            mine = [w for w in sets.get(src, ()) if one(w) and loop in w.binders]
            atpop = [w for w in mine if w.args[1] is POPPED]
            atpush = [w for w in mine if w.args[1] is n]
            if atpop:
                g = [l for w in atpop for l in local(w) if not ownmark(l, src)]
                ctx.decide(R, con + " marks every state it takes", not g or (False if all(clean(l) for l in g) else None), "only if %s" % tm.show(band(*g))[:100], file, atpop[0].line)
            else:
                early = [w for w in sets.get(src, ()) if one(w) and loop not in w.binders]
                ok = bool(atpush) and bool(early) and all(subset(local(w), local(e)) for w in atpush[:1])
                ctx.decide(R, con + " marks every state it takes", True if ok else (False if not mine else None), "states on the work list are not marked", file, line)


def native(t):
    """elements of C tuples by position"""
    m = {x: item(x.a[0], x.a[1].a[0]) for x in tm.subterms(t) if x.op == "get" and tm.is_num(x.a[1]) and x.a[0].op == "get" and x.a[0].a[0].op == "attr" and x.a[0].a[0].a[1] in ("successors", "predecessors")}
    return tm.subst(t, m) if m else t


def fromfact(l, FROM, BLOCK):
    """facts about the arguments that the assertions establish"""
    return not any(x is POPPED or x.op == "it" for x in tm.subterms(l)) and (FROM in tm.subterms(l) or BLOCK in tm.subterms(l) or tm.has_op(l, "nonempty")) and l.op in ("forall", "not", "le", "or", "and")


def ownmark(l, m):
    return l.op == "not" and m in tm.subterms(l) and POPPED in tm.subterms(l)


def subset(a, b):
    return set(a) <= set(b)


def elem(b, S):
    """the element of S a loop over it is at"""
    return b.atoms[0] if b.dom is S else None


def isblock(m, sets, BLOCK, I, pre, FROM):
    """the array is set exactly for the blocked states"""
    ws = [w for w in sets.get(m, ()) if not (tm.is_num(w.args[2]) and w.args[2].a[0] == 0 or w.args[2] is FALSE)]
    return bool(ws) and all(len(w.binders) == 1 and w.args[1] is elem(w.binders[0], BLOCK) for w in ws)


def run(ctx):
    ctx.rule("C02.R1", "kept are the states that are reachable without passing a target and reach a target; target and fail come last, absorb and carry their labels")
    ctx.rule("C02.R2", "searches and neighbour queries of a model are those of the graph of its matrix")
    ctx.rule("C02.R3", "every transition is in the adjacency lists of its source and its target, and queries return all of them")
    ctx.rule("C02.R4", "the search finds exactly the states reachable in its direction without continuing past blocked states")
    ctx.part("kept states", kept, ctx)
    ctx.part("models", models, ctx)
    ctx.part("adjacency", adjacency, ctx)
    ctx.part("search", search, ctx)
