"""C10: label mappings and their inverses.

R1  the mapping class is interpreted over relations: a dictionary of sets is the relation "x is in the set of k", given by a formula over
    the relation of an arbitrary original dictionary. After every sequence of operations up to the bound, on either side and with or
    without an inverse asked for before, both directions must be the documented relation.
R2  the models keep one mapping for states and one for actions; both directions offered are that mapping and its inverse, and adding a
    label adds it there."""
from .common import *
from ..vf import Interp, Entry
from .. import vfexpr

MOD = "switss.utils.invertible_dict"
D = sym("D", "any")


class Unclear(Exception):
    pass


class RelInterp(Interp):
    """dictionaries of sets as relations"""
    idict_opaque = False

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.axioms = []

    def dicts(self, st, t):
        o = self.obj(st, t) if t.op == "ref" else None
        return o if o is not None and o.kind in ("dict", "ddict", "bidict") else None

    def looping(self, o):
        return any(e.op == "prev" for e in o.log)

    def snap(self, st, t):
        """the elements of a stored set now"""
        ref, k = t.a[0], t.a[1]
        return mk("snap", ref, C(len(self.obj(st, ref).log)), k)

    # ---- reading
    def read(self, st, ref, o, k, node):
        if o.kind in ("dict", "ddict", "bidict"):
            if o.kind == "ddict":
                self.log(st, ref, "ensure", k, NONE, node)
            else:
                self.event("keyread", "keyread", (ref, k, C(len(o.log))), {}, st, node)
            return mk("slot", ref, k)
        return super().read(st, ref, o, k, node)

    def contains(self, st, a, b, node):
        o = self.dicts(st, b)
        if b.op == "keys" and self.dicts(st, b.a[0]) is not None:
            b, o = b.a[0], self.dicts(st, b.a[0])
        if o is not None:
            return mk("in", a, mk("keys", b)) if self.looping(o) else truth(self.dom(st, b, a))
        if b.op == "slot":
            return mk("in", a, b) if self.looping(self.obj(st, b.a[0])) else truth(self.rel(st, b.a[0], b.a[1], a))
        if b.op in ("snap", "uni"):
            return truth(self.member(st, b, a))
        if b.op == "ref" and self.obj(st, b) is not None and self.obj(st, b).kind == "set" and not self.looping(self.obj(st, b)):
            try:
                return truth(self.member(st, b, a))
            except Unclear:
                return mk("in", a, b)
        return super().contains(st, a, b, node)

    def method(self, st, base, name, args, kw, node):
        if base.op == "slot":
            if name == "copy" and not args:
                return self.alloc(st, "set", node, base=self.snap(st, base))
            if name in ("union", "difference", "intersection") and len(args) == 1:
                return self.combined(st, {"union": "|", "difference": "-", "intersection": "&"}[name], base, args[0], node)
            if name in ("discard", "remove", "add"):
                return self.slot_method(st, base, name, args, kw, node)
            if name in ("clear", "pop", "update", "difference_update", "intersection_update", "symmetric_difference_update"):
                if name == "update":
                    return self.slot_method(st, base, name, args, kw, node)
                self.log(st, base.a[0], "unclear", base.a[1], NONE, node)
                return NONE
        o = self.dicts(st, base)
        if o is not None:
            if name == "get" and args:
                c = self.contains(st, args[0], base, node)
                return ite(self.known(st, c), mk("slot", base, args[0]), args[1] if len(args) > 1 else NONE)
            if name == "setdefault" and args:
                v = args[1] if len(args) > 1 else NONE
                if v.op == "ref" and self.obj(st, v).kind == "set" and not self.obj(st, v).log and self.obj(st, v).base is None:
                    self.log(st, base, "ensure", args[0], NONE, node)
                else:
                    self.log(st, base, "unclear", args[0], NONE, node)
                return mk("slot", base, args[0])
            if name == "pop" and args:
                self.log(st, base, "del", args[0], NONE, node)
                return mk("popped", base, args[0])
            if name == "copy" and not args:
                return self.ext_call(st, "builtins.dict", [base], {}, node)
        return super().method(st, base, name, args, kw, node)

    def is_set(self, st, t):
        return t.op in ("slot", "snap", "uni") or super().is_set(st, t)

    def combined(self, st, op, a, b, node):
        f = lambda t: self.snap(st, t) if t.op == "slot" else t
        return self.alloc(st, "set", node, base=mk("uni", op, f(a), f(b)))

    def binop(self, op, a, b, st, node):
        nm = {"BitOr": "|", "BitAnd": "&", "Sub": "-"}.get(type(op).__name__)
        if nm and (self.is_set(st, a) and self.is_set(st, b)):
            return self.combined(st, nm, a, b, node)
        return super().binop(op, a, b, st, node)

    def ext_call(self, st, name, args, kw, node):
        if name in ("builtins.set", "builtins.frozenset", "copy.copy", "copy.deepcopy") and len(args) == 1 and args[0].op in ("slot", "snap", "uni"):
            return self.alloc(st, "set", node, base=self.snap(st, args[0]) if args[0].op == "slot" else args[0])
        if name in ("builtins.list", "builtins.tuple", "builtins.sorted") and len(args) == 1 and (args[0].op in ("slot", "snap")):
            return self.snap(st, args[0]) if args[0].op == "slot" else args[0]
        if name in ("builtins.list", "builtins.tuple", "builtins.sorted") and len(args) == 1 and (args[0].op in ("items", "keys") or self.dicts(st, args[0]) is not None):
            return args[0]
        if name in ("copy.deepcopy",) and self.dicts(st, args[0]) is not None:
            return self.ext_call(st, "builtins.dict", args, kw, node)
        return super().ext_call(st, name, args, kw, node)

    def concrete(self, st, t):
        b = t.a[0] if t.op in ("items", "keys", "values") else t
        if self.dicts(st, b) is not None and (self.obj(st, b).base is not None or self.obj(st, b).log):
            return None
        return super().concrete(st, t)

    def truth_of(self, st, t):
        return None

    def alternatives(self, st, t, node):
        b = t.a[0] if t.op in ("items", "keys", "values") else t
        o = self.dicts(st, b)
        if o is not None:
            lid = next(self.lids)
            k = mk("it", lid, "k")
            snap = mk("keysnap", b, C(len(o.log)))
            v = mk("slot", b, k)
            el = {"items": tup(k, v), "values": v}.get(t.op, k)
            return [((k,), snap, el, (mk("in", k, snap),))]
        if t.op in ("slot", "snap", "uni"):
            lid = next(self.lids)
            e = mk("it", lid, "e")
            s = self.snap(st, t) if t.op == "slot" else t
            return [((e,), s, e, (mk("in", e, s),))]
        if t.op == "ref" and self.obj(st, t) is not None and self.obj(st, t).kind == "set" and self.obj(st, t).base is not None and not self.obj(st, t).log:
            return self.alternatives(st, self.obj(st, t).base, node)
        return super().alternatives(st, t, node)

    # ---- formulas
    def prefix(self, o, n):
        log = o.log if n is None else o.log[:n]
        return [e for e in log if e.op != "prev"]

    def resolve(self, st, t, m=None):
        """membership in followed objects replaced by formulas"""
        if m:
            t = tm.subst(t, m)
        out = {}
        for x in tm.subterms(t):
            if x.op == "in":
                a, b = x.a
                if b.op == "keysnap":
                    out[x] = self.dom(st, b.a[0], a, b.a[1].a[0])
                elif b.op == "keys" and self.dicts(st, b.a[0]) is not None:
                    out[x] = self.dom(st, b.a[0], a)
                elif b.op in ("snap", "uni", "slot") or b.op == "ref":
                    out[x] = self.member(st, b, a)
        return truth(tm.subst(t, out)) if out else truth(t)

    def entry(self, st, e, pairs, own=None):
        """condition and substitution under which entry e is about the given key (and value)"""
        ats = [a for b in e.binders for a in b.atoms]
        m = {}
        eqs = []
        for have, want in pairs:
            if have in ats and have not in m:
                m[have] = want
            else:
                eqs.append((have, want))
        g = tm.subst(band(*e.guard), m)
        cs = [eq(tm.subst(h, m), w) for h, w in eqs]
        c = band(g, *cs)
        left = [a for a in ats if a not in m]
        ensured = False
        for x in list(tm.subterms(c)):
            if x.op == "in" and x.a[1].op == "keys" and x.a[1].a[0] is own:
                ensured = True
                c = tm.subst(c, {x: FALSE})
        c = self.resolve(st, c)
        used = [a for a in left if a in set(tm.subterms(c))]
        for a in used:
            b = mk("it", next(self.lids), "b")
            c = truth(mk("ex", b, tm.subst(c, {a: b})))
        return c, m, ensured

    def dom(self, st, ref, k, n=None):
        o = self.obj(st, ref)
        r = FALSE
        if o.base is not None:
            b = o.base
            r = self.dom(st, b, k) if self.dicts(st, b) is not None else mk("in", k, mk("keys", b)) if b.op == "sym" else self.fail(b)
        for e in self.prefix(o, n):
            if e.op in ("set", "ensure"):
                c, m, _ = self.entry(st, e, [(e.key, k)], ref)
                r = bor(r, c)
            elif e.op == "add2":
                if o.kind == "ddict":
                    c, m, _ = self.entry(st, Entry(e.op, e.key, e.val, e.guard, e.binders, e.where), [(e.key, k)], ref) if not self.only_value(e) else (FALSE, {}, False)
                    r = bor(r, c)
            elif e.op == "del":
                c, m, _ = self.entry(st, e, [(e.key, k)], ref)
                r = band(r, bnot(c))
            elif e.op == "del2":
                pass
            elif e.op == "update" and self.dicts(st, e.key) is not None:
                r = bor(r, band(self.resolve(st, band(*e.guard)), self.dom(st, e.key, k)))
            else:
                raise Unclear(e.op)
        return r

    def only_value(self, e):
        """the key of the entry depends on the elements that are added (keys of collected inverses exist with their first element)"""
        return bool(e.binders)

    def fail(self, b):
        raise Unclear(tm.show(b)[:80])

    def rel(self, st, ref, k, x, n=None):
        o = self.obj(st, ref)
        r = FALSE
        if o.base is not None:
            b = o.base
            r = self.rel(st, b, k, x) if self.dicts(st, b) is not None else truth(mk("rel", b, k, x)) if b.op == "sym" else self.fail(b)
        for e in self.prefix(o, n):
            if e.op == "set":
                c, m, ens = self.entry(st, e, [(e.key, k)], ref)
                v = self.member(st, tm.subst(e.val, m), x, m)
                if ens and v is FALSE:
                    continue
                for u in [y for b in e.binders for y in b.atoms if y not in m and y in set(tm.subterms(v))]:
                    v = self.last(st, e, k, m, u, v)
                r = bor(band(c, v), band(bnot(c), r))
            elif e.op == "ensure":
                continue
            elif e.op == "add2":
                c, m, _ = self.entry(st, e, [(e.key, k), (e.val, x)], ref)
                r = bor(r, c)
            elif e.op == "del2":
                c, m, _ = self.entry(st, e, [(e.key, k), (e.val, x)], ref)
                r = band(r, bnot(c))
            elif e.op == "del":
                c, m, _ = self.entry(st, e, [(e.key, k)], ref)
                r = band(r, bnot(c))
            elif e.op == "update" and self.dicts(st, e.key) is not None:
                g = band(self.resolve(st, band(*e.guard)), self.dom(st, e.key, k))
                r = bor(band(g, self.rel(st, e.key, k, x)), band(bnot(g), r))
            else:
                raise Unclear(e.op)
        return r

    def last(self, st, e, k, m, u, v):
        """a value that depends on the iteration is that of the last one, any of those there are"""
        g = self.resolve(st, tm.subst(band(*e.guard, eq(e.key, k)), m))
        w = {0: KEYS[3], 1: VALS[3]}.get(kind(g, u))
        if w is None:
            raise Unclear("the last of several")
        b = mk("it", next(self.lids), "b")
        self.axioms.append(bor(bnot(truth(mk("ex", b, tm.subst(g, {u: b})))), tm.subst(g, {u: w})))
        return tm.subst(v, {u: w})

    def member(self, st, v, x, m=None):
        if v.op == "ite":
            c = self.resolve(st, v.a[0], m)
            return bor(band(c, self.member(st, v.a[1], x, m)), band(bnot(c), self.member(st, v.a[2], x, m)))
        if m:
            v = tm.subst(v, m)
        if v.op == "slot":
            return self.rel(st, v.a[0], v.a[1], x)
        if v.op == "snap":
            return self.rel(st, v.a[0], v.a[2], x, v.a[1].a[0])
        if v.op == "uni":
            a, b = self.member(st, v.a[1], x), self.member(st, v.a[2], x)
            return {"|": bor(a, b), "&": band(a, b), "-": band(a, bnot(b))}[v.a[0]]
        if v.op in ("empty",) or v.op in ("set", "tuple") and not v.a:
            return FALSE
        o = self.obj(st, v) if v.op == "ref" else None
        if o is None or o.kind not in ("set", "list", "gen"):
            raise Unclear("set %s" % tm.show(v)[:80])
        # the object may have been made once per iteration
        r = FALSE
        if o.base is not None:
            r = self.member(st, tm.subst(o.base, m) if m else o.base, x)
        here = dict(m or {})
        for e in o.log:
            if e.op == "prev":
                continue
            bs = [b for b in e.binders if b not in o.binders]
            e2 = Entry(e.op, tm.subst(e.key, here), tm.subst(e.val, here) if hasattr(e.val, "op") else e.val,
                       tuple(tm.subst(g, here) for g in e.guard if g not in o.path0), bs, e.where)
            key = e2.val if e.op == "append" else e2.key
            c, _, _ = self.entry(st, e2, [(key, x)])
            if e.op in ("add", "append"):
                r = bor(r, c)
            elif e.op == "del":
                r = band(r, bnot(c))
            else:
                raise Unclear(e.op)
        return r


from ..terms import truth


# ---------------------------------------------------------------- deciding formulas
KEYS = [sym("k%d" % i, "any") for i in range(4)]
VALS = [sym("x%d" % i, "any") for i in range(4)]


def kind(body, v):
    """whether a quantified variable stands for keys (0) or elements (1)"""
    kinds = {0 if y.a[1] is v else 1 for y in tm.subterms(body) if y.op == "rel" and v in y.a[1:]} | {0 for y in tm.subterms(body) if y.op == "in" and y.a[0] is v}
    return kinds.pop() if len(kinds) == 1 else None


def partitions(xs):
    if not xs:
        yield {}
        return
    for p in partitions(xs[:-1]):
        for r in sorted({v for v in p.values()}, key=lambda t: t.a[0]):
            yield dict(p, **{xs[-1]: r}) if False else {**p, xs[-1]: r}
        yield {**p, xs[-1]: xs[-1]}


def valid(f, given=TRUE):
    """True/False/None: f holds for every relation D and all keys and values for which given holds"""
    used = set(tm.subterms(f)) | set(tm.subterms(given))
    ks, vs = [k for k in KEYS if k in used], [v for v in VALS if v in used]
    for pk in partitions(ks):
        for pv in partitions(vs):
            m = {**pk, **pv}
            m = {a: b for a, b in m.items() if a is not b}
            reps = sorted(set(pk.values()), key=lambda t: t.a[0]), sorted(set(pv.values()), key=lambda t: t.a[0])
            a, b = tm.subst(f, m), tm.subst(given, m)
            neq = {}
            for x in set(tm.subterms(a)) | set(tm.subterms(b)):
                if x.op == "eq" and x.a[0] is not x.a[1] and all(any(y in r for r in reps) for y in x.a):
                    neq[x] = FALSE
            a, b = truth(tm.subst(a, neq)), truth(tm.subst(b, neq))
            n = len({x for x in set(tm.subterms(a)) | set(tm.subterms(b)) if x.op == "ex"})
            extra = ([sym("k+%d" % i, "any") for i in range(min(n, 2))], [sym("x+%d" % i, "any") for i in range(min(n, 2))])
            univ = reps[0] + extra[0], reps[1] + extra[1]
            a, b = expand(a, univ), expand(b, univ)
            if a is None or b is None:
                return None
            r = refuted(band(b, bnot(a)), univ)
            if r is not True:
                return r
    return True


def expand(f, univ):
    """existential quantifiers as disjunctions over the elements"""
    for _ in range(50):
        ex = [x for x in tm.subterms(f) if x.op == "truth" and x.a[0].op == "ex" and not any(y.op == "ex" for y in tm.subterms(x.a[0].a[1]))]
        if not ex:
            return f
        m = {}
        for x in ex:
            v, body = x.a[0].a
            kd = kind(body, v)
            if kd is None:
                return None
            alts = []
            for u in univ[kd]:
                b = tm.subst(body, {v: u})
                ne = {y: FALSE for y in tm.subterms(b) if y.op == "eq" and y.a[0] is not y.a[1] and all(z in univ[0] or z in univ[1] for z in y.a)}
                alts.append(tm.subst(b, ne))
            m[x] = bor(*alts)
        f = truth(tm.subst(f, m))
    return None


def refuted(f, univ):
    """True: f holds for no relation; False: it does for some; None: it has parts that are no relation"""
    if f is FALSE:
        return True
    ats = sorted(tm.bool_atoms(f, set()))
    for y in ats:
        if not (y.op == "truth" and y.a[0].op == "rel" and y.a[0].a[0] is D and all(z in univ[0] + univ[1] for z in y.a[0].a[1:]) or y.op == "in" and y.a[1] is mk("keys", D) and y.a[0] in univ[0] + univ[1]):
            return None
    if f is TRUE or not ats:
        return False
    a = ats[0]
    if a.op == "truth":
        k = mk("in", a.a[0].a[1], mk("keys", D))
        yes = tm.subst(f, {a: TRUE, k: TRUE})
    else:
        yes = tm.subst(f, {a: TRUE})
    no = {a: FALSE}
    if a.op == "in":
        no.update({mk("truth", mk("rel", D, a.a[0], x)): FALSE for x in univ[0] + univ[1]})
    for g in (truth(yes), truth(tm.subst(f, no))):
        r = refuted(g, univ)
        if r is not True:
            return r
    return True


def iff(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b)))


class Run:
    def __init__(self, ctx, default):
        self.ctx, self.repo = ctx, ctx.repo
        self.I = I = RelInterp(ctx.repo)
        I.frames = []
        I.push_module(ctx.repo.modules[MOD])
        self.st = st = I.new_state()
        st.path = ()
        d = I.alloc(st, "dict", None, base=D)
        self.cls = ctx.repo.cls("InvertibleDict")
        self.m = I.instantiate(st, self.cls, [d], {"is_default": TRUE if default else FALSE}, None)
        self.F = lambda k, x: truth(mk("rel", D, k, x))
        self.pre = TRUE
        self.n = 0

    def inv(self, m):
        r = self.I.getattr(self.st, m, "inv", None)
        if r.op == "ite":
            r = tm.assume(r, *self.st.path)
        if r.op != "ref":
            raise Unclear("the inverse is %s" % tm.show(r)[:80])
        return r

    def op(self, side, name):
        self.n += 1
        k, x = KEYS[self.n], VALS[self.n]
        F = self.F
        if name == "remove":
            self.pre = band(self.pre, F(k, x))
            self.F = lambda a, b: band(F(a, b), bnot(band(eq(a, k), eq(b, x))))
        else:
            self.F = lambda a, b: bor(F(a, b), band(eq(a, k), eq(b, x)))
        m = self.m if side == "map" else self.inv(self.m)
        n0 = len(self.I.events)
        self.I.method(self.st, m, name, [k, x] if side == "map" else [x, k], {}, None)
        self.lost(n0, "%s of the %s" % (name, side))

    def lost(self, n0, what):
        for e in self.I.events[n0:]:
            if e.kind in ("keyread", "assert") and not e.binders:
                c = self.I.dom(self.st, e.args[0], e.args[1], e.args[2].a[0]) if e.kind == "keyread" else self.I.resolve(self.st, truth(e.args[0]))
                g = self.I.resolve(self.st, band(*e.path))
                v = valid(c, band(self.pre, g, *self.I.axioms))
                if v is False:
                    raise Fails(what, e)

    def look(self, m, k, x):
        n0 = len(self.I.events)
        r = self.I.subscript(self.st, m, k, None)
        return self.I.member(self.st, r, x), n0, r


class Fails(Exception):
    def __init__(self, what, e):
        self.what, self.e = what, e


def sequences():
    ops = [(s, n) for s in ("map", "inverse") for n in ("add", "remove")]
    for first in (False, True):
        yield first, []
        for a in ops:
            yield first, [a]
            for b in ops:
                yield first, [a, b]


def mapping(ctx):
    R = "C10.R1"
    repo = ctx.repo
    ci = repo.cls("InvertibleDict")
    file, line = where(repo, repo.find_method(ci, "__init__"))

    def judge(con, v, why, fn=None):
        f, l = where(repo, fn) if fn is not None else (file, line)
        ctx.decide(R, con, v, why, f, l)
    g = {n: repo.find_method(ci, n) for n in ("add", "remove", "inv", "__getitem__", "__contains__", "keys", "items")}
    k0, x0 = KEYS[0], VALS[0]
    for default in (True, False):
        for first, ops in sequences():
            con = "%s, %s%s" % ("default" if default else "strict", "inverse asked before" if first else "inverse not asked before",
                                "".join(", %s on the %s" % (n, s) for s, n in ops))
            ctx.count("sequences")
            last = g[ops[-1][1]] if ops else g["inv"]
            try:
                run_ = Run(ctx, default)
                I, st = run_.I, run_.st
                held = run_.inv(run_.m) if first else None
                for s, n in ops:
                    run_.op(s, n)
                want = run_.F(k0, x0)
                dom = I.resolve(st, I.contains(st, k0, run_.m, None))
                judge(con + ": a key with elements is a key", valid(bor(bnot(want), dom), band(run_.pre, *I.axioms)), "`in` does not find it", last)
                pre = run_.pre if default else band(run_.pre, dom)
                got, n0, r = run_.look(run_.m, k0, x0)
                judge(con + ": mapping", valid(iff(got, want), band(pre, *I.axioms)), "x in m[k] is %s, expected %s" % (tm.show(got)[:200], tm.show(want)[:200]), last)
                kk = I.method(st, run_.m, "keys", [], {}, None)
                kd = I.contains(st, k0, kk, None)
                judge(con + ": keys", valid(iff(I.resolve(st, kd), dom), band(run_.pre, *I.axioms)), "keys() and `in` differ", g["keys"])
                i = run_.inv(run_.m)
                idom = I.resolve(st, I.contains(st, x0, i, None))
                judge(con + ": an element is a key of the inverse", valid(bor(bnot(want), idom), band(run_.pre, *I.axioms)), "`in` does not find it", last)
                pre = run_.pre if default else band(run_.pre, idom)
                got, n0, r = run_.look(i, x0, k0)
                judge(con + ": inverse", valid(iff(got, want), band(pre, *I.axioms)), "k in m.inv[x] is %s, expected %s" % (tm.show(got)[:200], tm.show(want)[:200]), last)
                if held is not None and held is not i:
                    got, n0, r = run_.look(held, x0, k0)
                    judge(con + ": inverse asked for before", valid(iff(got, want), band(pre, *I.axioms)), "k in i[x] is %s, expected %s" % (tm.show(got)[:200], tm.show(want)[:200]), g["inv"])
                ii = run_.inv(i)
                if ii is run_.m:
                    judge(con + ": twice inverted", True, "")
                else:
                    got, n0, r = run_.look(ii, k0, x0)
                    judge(con + ": twice inverted", valid(iff(got, want), band(pre, *I.axioms)), "k in m.inv.inv[x] is %s" % tm.show(got)[:200], g["inv"])
                    # later changes through the one must show in the other
                    run_.n = 2
                    a, b = sym("k9", "any"), sym("x9", "any")
                    I.method(st, ii, "add", [KEYS[2], VALS[2]], {}, None)
                    got = I.member(st, I.subscript(st, run_.m, KEYS[2], None), VALS[2])
                    judge(con + ": twice inverted is the mapping", valid(got, run_.pre if default else TRUE), "an element added to m.inv.inv is not in m", g["inv"])
            except Fails as e:
                ctx.violation(R, con + ": no failure", "%s fails" % e.what, e.e.file, e.e.line)
            except Unclear as e:
                ctx.undecided(R, con, str(e))
            except KeyError as e:
                ctx.undecided(R, con, "formula: %s" % str(e)[:100])
            if "run_" in dir():
                ctx.used(run_.I)


def lookups(ctx):
    """absent keys, and no lookup changes anything"""
    R = "C10.R1"
    repo = ctx.repo
    ci = repo.cls("InvertibleDict")
    file, line = where(repo, repo.find_method(ci, "__getitem__"))
    k0, x0, k1, x1 = KEYS[0], VALS[0], KEYS[1], VALS[1]
    for default in (True, False):
        for side in ("map", "inverse"):
            con = "%s lookup in the %s" % ("default" if default else "strict", side)
            ctx.count("lookups")
            try:
                q = Run(ctx, default)
                I, st = q.I, q.st
                m = q.m if side == "map" else q.inv(q.m)
                q_, r_ = (k0, k1) if side == "map" else (x0, x1)
                el = x0 if side == "map" else k0
                absent = bnot(I.resolve(st, I.contains(st, q_, m, None)))
                n0 = len(I.events)
                before = (I.resolve(st, I.contains(st, r_, m, None)), I.member(st, I.subscript(st, m, r_, None), el))
                n1 = len(I.events)
                here = I.resolve(st, band(*st.path))      # the first lookup did not fail
                v = I.subscript(st, m, q_, None)
                reads = [e for e in I.events[n1:] if e.kind == "keyread"]
                fails = FALSE
                for e in reads:
                    if e.args[1] is q_:
                        fails = bor(fails, band(I.resolve(st, band(*e.path)), bnot(I.dom(st, e.args[0], q_, e.args[2].a[0]))))
                for e in I.events[n1:]:
                    if e.kind in ("raise", "assert") and not e.binders:
                        c = I.resolve(st, band(*e.path))
                        fails = bor(fails, c if e.kind == "raise" else band(c, bnot(I.resolve(st, truth(e.args[0])))))
                if default:
                    ctx.decide(R, con + ": absent key", valid(bnot(fails), here), "looking up an absent key fails", file, line)
                    got = I.member(st, v, el)
                    ctx.decide(R, con + ": absent key is empty", valid(bnot(got), absent), "an absent key has elements", file, line)
                else:
                    ctx.decide(R, con + ": absent key", valid(fails, band(absent, here)), "looking up an absent key does not fail", file, line)
                    ctx.decide(R, con + ": present key", valid(bnot(fails), band(bnot(absent), here)), "looking up a key fails", file, line)
                for nm in ("keys", "items"):
                    I.method(st, m, nm, [], {}, None)
                q.inv(m)
                after = (I.resolve(st, I.contains(st, r_, m, None)), I.member(st, I.subscript(st, m, r_, None), el))
                pre = TRUE if default else before[0]
                ctx.decide(R, con + ": keys unchanged", valid(iff(before[0], after[0])), "a lookup changes the keys", file, line)
                ctx.decide(R, con + ": elements unchanged", valid(iff(before[1], after[1]), band(pre, *I.axioms)), "a lookup changes the elements", file, line)
                back = q.inv(q.inv(m))
                ctx.ok(R, con + ": inverse of the inverse exists")
            except Unclear as e:
                ctx.undecided(R, con, str(e))
            except KeyError as e:
                ctx.undecided(R, con, "formula: %s" % str(e)[:100])


def declared(ctx):
    """the inverse is as strict as the mapping"""
    R = "C10.R1"
    repo = ctx.repo
    ci = repo.cls("InvertibleDict")
    g = repo.find_method(ci, "is_default")
    if g is None:
        return
    for default in (True, False):
        q = Run(ctx, default)
        try:
            for nm, m in (("mapping", q.m), ("inverse", q.inv(q.m))):
                v = truth(q.I.getattr(q.st, m, "is_default", None))
                ctx.decide(R, "%s of a %s mapping" % (nm, "default" if default else "strict"), None if v.op != "c" else v.a[0] == default, "is_default is %s" % tm.show(v), *where(repo, g))
        except Unclear as e:
            ctx.undecided(R, "is_default", str(e))


def models(ctx):
    """both directions offered by a model are one mapping and its inverse"""
    R = "C10.R2"
    repo = ctx.repo
    ci = repo.cls("AbstractMDP")
    for what, a, b, adder in (("states", "states_by_label", "labels_by_state", "add_label"), ("actions", "actions_by_label", "labels_by_action", None)):
        I = interp(repo, module=ci.module.name)
        st = I.new_state()
        st.path = ()
        I.model_ctor_opaque = False
        L, A = I.alloc(st, "dict", None, base=sym("state_labels", "any")), I.alloc(st, "dict", None, base=sym("action_labels", "any"))
        I.intercept["switss.utils.graph.Graph.__cinit__"] = lambda I, st, x, k, n, f: NONE
        m = I.alloc(st, "inst", None, cls=repo.cls("MDP"))
        init = repo.find_method(ci, "__init__")
        I.call_func(st, init, [m, sym("P", "any"), sym("index", "bidict"), A, L, sym("vis", "any"), NONE], {}, None)
        ctx.used(I)
        va, vb = I.getattr(st, m, a, None), I.getattr(st, m, b, None)
        fl, ln = where(repo, repo.find_method(ci, b))
        want = L if what == "states" else A
        if va.op == "ref" and I.obj(st, va) is not None and I.obj(st, va).extra and I.obj(st, va).extra.get("idict"):
            o = I.obj(st, va)
            src = o.base
            ctx.decide(R, "%s: the given labels" % a, True if src is sym("state_labels" if what == "states" else "action_labels", "any") or src is want else (False if src is not None and resolved(src) and src.op == "sym" else None),
                       "it is made of %s" % (tm.show(src) if src is not None else "nothing"), *where(repo, repo.find_method(ci, a)))
            d = o.extra.get("is_default")
            ctx.decide(R, "%s: a state without labels has none" % a, None if d is None or d.op != "c" else d.a[0] is True, "looking up an unlabelled state or pair fails", *where(repo, init))
        else:
            ctx.undecided(R, a, tm.show(va)[:80])
        wi = mk("inv", va)
        other = I.getattr(st, m, "actions_by_label" if what == "states" else "states_by_label", None)
        ctx.decide(R, "%s is the inverse of %s" % (b, a), True if vb is wi else (False if vb.op in ("ref", "inv") and vb in (va, other, mk("inv", other)) or vb.op == "ref" and I.obj(st, vb) is not None and I.obj(st, vb).kind in ("dict", "ddict", "set") else None),
                   "it is %s" % tm.show(vb)[:80], fl, ln)
        if adder and va.op == "ref":
            S, NM = sym("state", "int"), sym("name", "str")
            f = repo.find_method(ci, adder)
            before = I.obj(st, va).log
            I.call_func(st, f, [m, S, NM], {}, None)
            new = [e for e in I.obj(st, va).log[len(before):]]
            fl, ln = where(repo, f)
            if not new:
                ctx.decide(R, "%s adds the label" % adder, False if not any(e.kind == "mcall" for e in I.events[-3:]) else None, "nothing is added to the mapping", fl, ln)
            for e in new[:1]:
                ok = e.op == "add2" and e.key is NM and e.val is S
                bad = e.op == "add2" and e.key is S and e.val is NM or e.op in ("del2", "set", "del")
                ctx.decide(R, "%s adds the label" % adder, True if ok else (False if bad else None), "it does %s(%s, %s)" % (e.op, tm.show(e.key), tm.show(e.val)), fl, ln)


def available(ctx):
    """a state's actions are those it has a row for"""
    R = "C10.R2"
    repo = ctx.repo
    ci = repo.cls("AbstractMDP")
    f = repo.find_method(ci, "actions_by_state")
    if f is None:
        return
    I = interp(repo, module=ci.module.name)
    st = I.new_state()
    st.path = ()
    I.intercept["switss.utils.graph.Graph.__cinit__"] = lambda I, st, x, k, n, f: NONE
    I.model_ctor_opaque = False
    L = I.alloc(st, "dict", None, base=sym("L", "any"))
    m = I.alloc(st, "inst", None, cls=repo.cls("MDP"))
    I.call_func(st, repo.find_method(ci, "__init__"), [m, sym("P", "any"), sym("index", "bidict"), L, L, sym("rew", "any"), NONE], {}, None)
    n0 = len(I.events)
    v = I.getattr(st, m, "actions_by_state", None)
    if v.op == "ite":
        v = tm.assume(v, *st.path)
    fl, ln = where(repo, f)
    o = I.obj(st, v) if v.op == "ref" else None
    adds = [e for e in o.log if e.op in ("add2", "set") and e.op != "prev"] if o is not None else []
    con = "actions_by_state"
    if len(adds) != 1 or adds[0].op != "add2" or len(adds[0].binders) != 1:
        ctx.undecided(R, con, "additions: %s" % [e.op for e in adds])
        return
    e = adds[0]
    b = e.binders[0]
    index = {I.getattr(st, m, "index_by_state_action", None), sym("index", "bidict")}
    rows_, cols = (I.getattr(st, m, n, None) for n in ("C", "N"))
    x = b.atoms[-1]

    def part(t):
        """0/1: state/action of the element of the iteration; "x": another thing known"""
        if t.op == "item" and t.a[0].op == "get" and t.a[0].a[0].op == "inv" and t.a[0].a[0].a[0] in index and t.a[0].a[1] is x:
            return t.a[1].a[0] if hasattr(t.a[1], "a") else t.a[1]
        if t.op == "item" and t.a[0] is x:
            return t.a[1].a[0] if hasattr(t.a[1], "a") else t.a[1]
        return "x" if t is x else None
    k, v = part(e.key), part(e.val)
    ctx.decide(R, con + ": pairs", None if None in (k, v) else (k, v) == (0, 1), "it adds %s to the actions of %s" % (tm.show(e.val), tm.show(e.key)), fl, ln)
    d = b.dom
    if d.op == "range":
        ok = True if d is mk("range", C(0), rows_) else False if d.a[0] is C(0) and d.a[1] is cols or d.a[0].op == "c" and d.a[0] is not C(0) else None
    else:
        d = d.a[0] if d.op == "keys" else d
        ok = True if d in index else None
    if any(not I.domain_fact(g, e.binders) for g in e.guard if x in set(tm.subterms(g))):
        ok = None if ok else ok
    ctx.decide(R, con + ": of every row", ok, "it goes over %s" % tm.show(b.dom), fl, ln)


def run(ctx):
    ctx.rule("C10.R1", "after any operations, x is in m[k] exactly if k is in m.inv[x]; absent keys are empty exactly for default mappings; lookups change nothing")
    ctx.rule("C10.R2", "the models' two directions are one mapping and its inverse")
    ctx.part("mapping", mapping, ctx)
    ctx.part("lookups", lookups, ctx)
    ctx.part("declared", declared, ctx)
    ctx.part("models", models, ctx)
    ctx.part("available", available, ctx)
