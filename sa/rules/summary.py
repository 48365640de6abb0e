"""Summaries of data-building code: the entries that end up in matrices, mappings and label maps, as closed terms, compared
with the summary of a specification program (sa/spec). Neither is run."""
import os
from .common import *
from ..vf import Binder

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


def load_spec(repo, name):
    """adds the specification module to the repository's modules (once)"""
    import ast
    from ..front import Module
    mod = "spec_" + name
    if mod not in repo.modules:
        p = os.path.join(SPEC, name + ".py")
        src = open(p).read()
        m = Module(mod, "spec/" + name + ".py", ast.parse(src, p), src, False, False)
        repo.modules[mod] = m
        repo.collect(m)
    return repo.modules[mod]


def spec_func(repo, module, name):
    m = load_spec(repo, module)
    return m.names[name][1]


MODEL = ("successors", "predecessors", "reachable_mask")      # methods of the models that are compared as they are


def clean(t):
    return resolved(t, methods=MODEL)


_RANKS, _DEFS = {}, {}


def named(f, kind, sort):
    """a symbol for the numbering (or the number) of the elements f ranges over"""
    if (f, kind) not in _RANKS:
        s = sym("%s%d" % (kind, len(_RANKS)), sort)
        _RANKS[(f, kind)] = s
        _DEFS[s] = (f, kind)
    return _RANKS[(f, kind)]


_FAMILY = set()


def family(*tables):
    """the numberings of the wanted tables: using another of them is understood"""
    _FAMILY.clear()
    for t in tables:
        if t is not None:
            for e in t[1]:
                for x in e.doms + (e.g, e.key, e.val):
                    _FAMILY.update(y for y in tm.subterms(x) if y in _DEFS)


def foreign(got, want, known):
    """None if got uses numberings that want does not use, unless they differ from them by understood conditions; else False"""
    a, b = [{x for x in tm.subterms(t) if x in _DEFS} for t in (got, want)]
    out = False
    for x in a - b - _FAMILY:
        f, kind = _DEFS[x]
        ok = False
        for y in b:
            g, k2 = _DEFS[y]
            if kind == k2 and f.a[0] == g.a[0]:
                d = set(literals(f.a[1])) ^ set(literals(g.a[1]))
                ok = ok or (bool(d) and all(known(l) for l in d))
        if not ok:
            out = None
    return out


class Entry:
    __slots__ = ("kind", "doms", "g", "key", "val", "line", "file", "syms", "acc")

    def __init__(self, kind, doms, g, key, val, syms, file=None, line=None):
        self.kind, self.doms, self.g, self.key, self.val, self.syms, self.file, self.line = kind, tuple(doms), g, key, val, syms, file, line
        self.acc = None       # the entry if assignments in loops are read as increments

    def same(self, o):
        return self.kind == o.kind and self.doms == o.doms and self.g is o.g and self.key is o.key and self.val is o.val

    def show(self):
        d = " for %s" % ", ".join("%s in %s" % (tm.show(s), tm.show(d)[:60]) for s, d in zip(self.syms, self.doms)) if self.doms else ""
        w = " if %s" % tm.show(self.g)[:160] if self.g is not TRUE else ""
        v = tm.show(self.val)[:160] if self.val is not None else ""
        return "[%s] %s %s%s%s" % (tm.show(self.key)[:160], {"incr": "+=", "set": "=", "pair": "contains"}.get(self.kind, ""), v, d, w)


class Summary:
    """canonical contents of the containers of a final state"""

    def __init__(self, I, st, roles=None, lit=None, rewrite=None, known=None, facts=()):
        self.I, self.st, self.roles = I, st, dict(roles or {})
        self.lit = lit or (lambda l: l)
        self.rewrite = rewrite or (lambda t: t)
        self.facts = tuple(facts)
        self.cache = {}

    def canon(self, t):
        r = self.cache.get(t)
        if r is None:
            self.cache[t] = t          # cycles: left as they are
            r = self.cache[t] = self._canon(t)
        return r

    accumulate = False

    def _canon(self, t):
        if t in self.roles:
            return self.roles[t]
        m = dict(self.roles)
        for x in tm.atoms(t) | set(tm.subterms(t)):
            if x.op == "rankmap":
                m[x] = self.rank(x)
            elif x.op == "ref" and x not in m:
                y = self.I.freeze(self.st, x)
                if y is not x:
                    m[x] = self.canon(y)
        t = tm.subst(t, m)
        if self.accumulate:
            t = accumulated(t)
        t = self.elements(t)
        t = self.guards(t)
        t = self.counts(t)
        t = self.rewrite(t)
        return tm.assume(t, *self.facts)

    def element(self, dom, e):
        """{component of an element e of dom: its value}"""
        return {}

    def elements(self, t):
        m = {}
        for x in tm.subterms(t):
            if x.op in ("sum", "for", "exists", "forall") and len(x.a) == 3 and isinstance(x.a[0], tuple):
                own = tm.own_bvs(x)
                r = {}
                for d, b in zip(x.a[0], own):
                    r.update(self.element(d, b))
                for l in literals(x.a[1]) if r else ():
                    for u, v in (l.a, l.a[::-1]) if l.op == "eq" else ():
                        if u.op == "item" and u.a[0] in own and u.a[0] not in tm.atoms(v):
                            r = {k: tm.subst(w, {u: v}) for k, w in r.items()}
                if r:
                    y = mk(x.op, x.a[0], tm.subst(x.a[1], r), tm.subst(x.a[2], r))
                    if y is not x:
                        m[x] = y
        return tm.subst(t, m) if m else t

    def rank(self, rm):
        init, g, d, b = self.I.ranks[rm]
        doms, ts, _ = self.I.close((b,), g)
        f = self.canon(mk("for", tuple(doms), ts[0], C(1)))
        return named(f, "rank", "map")

    def counts(self, t):
        """numbers of elements as symbols"""
        m = {}
        for x in tm.subterms(t):
            if x.op == "sum" and x.a[2] is C(1) and not tm.free_bvs(x):
                m[x] = named(self.canon(mk("for", x.a[0], x.a[1], C(1))), "count", "int")
        return tm.subst(t, m) if m else t

    def guard(self, g):
        lits = list(g.a) if g.op == "and" else [g]
        return band(*[self.lit(l) for l in lits])

    def guards(self, t):
        """literals inside of sums and loops in their canonical form"""
        m = {}
        for x in tm.subterms(t):
            if x.op in ("sum", "for", "exists", "forall") and len(x.a) == 3 and hasattr(x.a[1], "op"):
                g = self.guard(x.a[1])
                if g is not x.a[1]:
                    m[x] = mk(x.op, x.a[0], g, x.a[2])
        return tm.subst(t, m) if m else t

    def reindex(self, doms, syms, key, val, g):
        """loops over the numbers of numbered elements become loops over the elements"""
        for j, d in enumerate(doms):
            if not (d.op == "range" and d.a[0] is C(0) and d.a[1] in _DEFS and _DEFS[d.a[1]][1] == "count"):
                continue
            f = _DEFS[d.a[1]][0]
            if len(f.a[0]) != 1:
                continue
            r = named(f, "rank", "map")
            e, h = syms[j], sym("$r%d" % j, "any")
            x = get(tm.inv(r), e)
            own = tm.own_bvs(f)
            cond = tm.subst(f.a[1], {own[0]: h})

            def s(t):
                t = tm.subst(tm.subst(t, {x: h}), {e: get(r, h)})
                return self.injections(t)
            lo, hi = le(f.a[0][0].a[0], h), lt(h, f.a[0][0].a[1])
            lits = [s(l) for l in literals(g)]
            key, val = self.canon(s(key)), s(val) if val.op == "ref" else self.canon(s(val))
            hi2 = le(tm.add(h, C(1)), f.a[0][0].a[1])
            facts = [lo, hi, hi2] + literals(cond)
            lits = [tm.assume(l, *facts) for l in lits]
            val = tm.assume(val, *facts)
            e2 = sym("$e%d" % j, "any")
            back = {h: e2}
            g = self.guard(band(*([tm.subst(l, back) for l in lits if l not in (lo, hi, hi2)] + literals(tm.subst(cond, back)))))
            key, val = tm.subst(key, back), tm.subst(val, back)
            doms = [f.a[0][0] if k == j else (tm.subst(s(y), back) if k > j else y) for k, y in enumerate(doms)]
        return doms, key, val, g

    def injections(self, t):
        """numberings are injective: rank[a] = rank[b] means a = b"""
        m = {}
        for x in tm.subterms(t):
            if x.op == "eq" and all(y.op == "get" for y in x.a) and x.a[0].a[0] is x.a[1].a[0] and x.a[0].a[0] in _DEFS:
                m[x] = eq(x.a[0].a[1], x.a[1].a[1])
        return self.sums(tm.subst(t, m)) if m else t

    def sums(self, t):
        """sums over a variable that is fixed by an equation"""
        m = {}
        for x in tm.subterms(t):
            if x.op == "sum" and any(l.op == "eq" for l in literals(x.a[1])):
                own = tm.own_bvs(x)
                ats = [mk("it", next(self.I.lids), "s") for _ in own]
                o = dict(zip(own, ats))
                doms = [tm.subst(d, o) for d in x.a[0]]
                bs = tuple(Binder(next(self.I.lids), (a,), d) for a, d in zip(ats, doms))
                y = self.I.close_sum(bs, tm.subst(x.a[1], o), tm.subst(x.a[2], o))
                if y is not x:
                    m[x] = y
        return tm.subst(t, m) if m else t

    def split(self, e):
        """one entry for each case of a conditional value"""
        todo, out = [e], []
        while todo:
            e = todo.pop()
            c = next((x.a[0] for t in (e.val, e.g) for x in tm.subterms(t) if x.op == "ite" and not tm.free_bvs(x)), None)
            if c is None or len(todo) + len(out) > 8:
                out.append(e)
                continue
            for d in (c, bnot(c)):
                g = self.guard(band(*[tm.assume(l, d) for l in literals(e.g)] + [d]))
                if g is not FALSE:
                    todo.append(Entry(e.kind, e.doms, g, e.key, tm.assume(e.val, d), e.syms, e.file, e.line))
        return out

    def entries(self, t, pairs=False):
        """(base, [Entry]) of a container, or None"""
        r = self._entries(t, pairs)
        if r is not None and any(x.op == "get" and x.a[0].op == "upd" for e in r[1] for y in (e.key, e.val, e.g) for x in tm.subterms(y)):
            old, self.cache, self.accumulate = self.cache, {}, True
            r2 = self._entries(t, pairs)
            self.cache, self.accumulate = old, False
            for e in r[1] if r2 is not None else ():
                e.acc = [e2 for e2 in r2[1] if (e2.file, e2.line) == (e.file, e.line)]
        return r

    def _entries(self, t, pairs=False):
        o = self.I.obj(self.st, t) if t.op == "ref" else None
        if o is None or o.kind not in ("arr", "dict", "bidict", "ddict", "list", "set", "gen"):
            return None
        out = []
        base = self.canon(o.base) if o.base is not None else None
        for e in o.log:
            if e.op in ("prev", "sort", "reverse", "clear", "insert", "remove", "extend", "update"):
                return None
            bs = tuple(b for b in e.binders if b not in o.binders and b not in self.st.binders)
            syms, m, doms = [], {}, []
            for b in bs:
                for a in b.atoms:
                    s = sym("$e%d" % len(syms), "any")
                    m[a] = s
                    syms.append(s)
                doms.append(self.canon(tm.subst(b.dom, m)))
            lits = [l for l in e.guard if l not in self.st.path and l not in o.path0]
            g = band(*lits)
            lits = list(g.a) if g.op == "and" else ([g] if g is not TRUE else [])
            g = band(*[tm.subst(l, m) for l in lits if not self.I.domain_fact(l, bs)])
            g = self.guard(self.canon(g))
            if g is FALSE:
                continue
            file, line = e.where if isinstance(e.where, tuple) else (None, None)
            key = self.canon(tm.subst(e.key, m)) if e.key is not None else NONE
            val = tm.subst(e.val, m) if e.val is not None else NONE
            for i, d in enumerate(doms):
                # a loop over the elements of a set
                if d.op == "range" and d.a[0] is C(0) and d.a[1].op == "len":
                    x, el = d.a[1].a[0], get(d.a[1].a[0], syms[i])
                    h = sym("$el%d" % i, "any")
                    k2, g2 = tm.subst(key, {el: h}), tm.subst(g, {el: h})
                    v2 = tm.subst(self.canon(val) if val.op != "ref" else val, {el: h})
                    if all(syms[i] not in set(tm.subterms(t)) for t in (k2, g2, v2) + tuple(doms[i + 1:])):
                        doms[i], key, g = mk("each", x), k2, g2
                        val = v2
                        syms[i] = h
            kind = {"append": "append", "add": "elem", "set": "set", "incr": "incr", "add2": "pair"}.get(e.op)
            if kind is None:
                return None
            if pairs and kind == "set" and val.op == "ref" and self.I.obj(self.st, val) is not None:
                sub = self._entries(val)
                if sub is None or sub[0] is not None:
                    return None
                for x in sub[1]:
                    if x.doms:
                        return None
                    out.append(Entry("pair", doms, band(g, x.g), key, tm.subst(x.key if x.kind == "elem" else x.val, m), syms, file, line))
                continue
            val = self.canon(val)
            r = {}
            for d, e_ in zip(doms, syms):
                r.update(self.element(d, e_))
            if r:
                doms = [tm.subst(d, r) for d in doms]
                for l in literals(g):
                    for x, y in (l.a, l.a[::-1]) if l.op == "eq" else ():
                        if x.op == "item" and x.a[0] in syms and x.a[0] not in tm.atoms(y):
                            r = {k: tm.subst(v, {x: y}) for k, v in r.items()}
                key, val, g = tm.subst(key, r), tm.subst(val, r), self.guard(tm.subst(g, r))
            doms, key, val, g = self.reindex(doms, syms, key, val, g)
            val = tm.assume(val, *literals(g))
            if val.op in ("max", "ext") and o.kind == "arr" and base is not None and base.op == "zeros" and C(0) in val.a and len(val.a) == (2 if val.op == "max" else 3):
                x = [y for y in val.a if y is not C(0)][-1]
                if val.op == "max" or val.a[0] in ("builtins.max", "max"):
                    g, val = self.guard(band(g, lt(C(0), x))), x
            if o.kind == "arr" and base is not None and base.op == "zeros":
                g = band(*[l for l in literals(g) if l is not bnot(eq(val, C(0)))])
            if val.op == "ite" and o.kind == "arr" and base is not None and base.op == "zeros":
                done = False
                for c, x, y in ((val.a[0], val.a[1], val.a[2]), (bnot(val.a[0]), val.a[2], val.a[1])):
                    if y is C(0):
                        g, val, done = self.guard(band(g, c)), x, True
                        break
            if o.kind == "arr" and base is not None and base.op == "zeros" and val is C(0) and not out:
                continue       # zeros stay zeros
            out += self.split(Entry(kind, doms, g, key, val, syms, file, line))
        return base, out


def boolean(l, atom):
    """known if all its parts are"""
    if l.op in ("and", "or"):
        return all(boolean(x, atom) for x in l.a)
    if l.op == "not":
        return boolean(l.a[0], atom)
    return atom(l)


def plain(t, syms):
    """the loop variables are used as they are: another order of the same elements is not in question"""
    return not any(x.op == "poly" and any(y in syms for y in tm.atoms(x)) for x in tm.subterms(t))


def literals(g):
    return list(g.a) if g.op == "and" else ([] if g is TRUE else [g])


def verdict(got, want, known):
    """True: equal, False: certainly different, None: unclear"""
    if got is want:
        return True
    if not clean(got) or not clean(want):
        return None
    if foreign(got, want, known) is None:
        return None
    # sums that differ only in their conditions
    sg, sw = [[x for x in tm.subterms(t) if x.op in ("sum", "exists", "count")] for t in (got, want)]
    if not sg and not sw:
        bad = [x for x in tm.subterms(got) if x.op in ("ext", "app", "ite", "round", "fmt", "min", "max", "ref", "upd", "updincr", "len", "last")]
        return None if bad or any(x.op == "m" and x.a[0] not in MODEL for t in (got, want) for x in tm.subterms(t)) else False
    if len(sg) == 1 and len(sw) == 1:
        a, b = sg[0], sw[0]
        hole = sym("$sum", "num")
        if tm.subst(got, {a: hole}) is not tm.subst(want, {b: hole}):
            rest = tm.sub(tm.subst(got, {a: hole}), tm.subst(want, {b: hole}))
            return False if clean(rest) and not any(x.op in ("ext", "m", "ite") for x in tm.subterms(rest)) else None
        if a.a[0] == b.a[0] and a.a[2] is b.a[2]:
            d = set(literals(a.a[1])) ^ set(literals(b.a[1]))
            return False if all(known(l) for l in d) else None
        return None
    if not sg:
        return False if all(x.op in ("poly", "get", "sym", "c", "item", "attr", "tuple", "bv", "inv") for x in tm.subterms(got)) else None
    return None


def accumulated(t):
    """t with assignments in loops read as increments (of several assignments only the last would count)"""
    over = {x: tm.get(mk("updincr", *x.a[0].a), x.a[1]) for x in tm.subterms(t) if x.op == "get" and x.a[0].op == "upd" and x.a[0].a[1].op == "for"}
    return tm.subst(t, over) if over else t


def compare_tables(ctx, R, con, got, want, known=lambda l: False, what="entry", file=None, line=None, extra_ok=lambda e: False):
    """decides entry by entry; got/want: (base, [Entry]) or None"""
    if got is None or want is None:
        ctx.undecided(R, con, "its contents are not followed")
        return
    gb, ge = got
    wb, we = want
    if gb is not wb:
        v = None
        if gb is not None and wb is not None:
            v = verdict(gb, wb, known) if gb.op == wb.op else None
        ctx.decide(R, con + " initial contents", v, "starts from %s, documented %s" % (gb is not None and tm.show(gb)[:200], wb is not None and tm.show(wb)[:200]), file, line)
        if v is not False and gb is not None and wb is not None and gb.op != wb.op:
            return
    else:
        ctx.ok(R, con + " initial contents", "")
    ge, we = list(ge), list(we)
    miss = []
    for w in we:
        hit = next((g for g in ge if g.same(w)), None)
        if hit is not None:
            ge.remove(hit)
            ctx.ok(R, "%s: %s" % (con, w.show()[:120]), "")
        else:
            miss.append(w)
    for w in miss:
        nm = "%s: %s" % (con, w.show()[:120])
        if any(x.op == "sum" for x in tm.subterms(w.val)):
            c = [g for g in ge if g.acc is not None and any(x.same(w) or x.val is w.val for x in g.acc)]
            if c:
                ge = [g for g in ge if (g.file, g.line) != (c[0].file, c[0].line)]
                ctx.violation(R, nm, "of several values only the last one counts", c[0].file or file, c[0].line or line)
                continue
        c = [g for g in ge if g.doms == w.doms and (g.key is w.key) + (g.val is w.val) + (g.g is w.g) + (g.kind == w.kind) == 3]
        if not c:
            c = [g for g in ge if len(g.doms) == len(w.doms) and g.key is w.key and g.val is w.val and g.g is w.g and g.kind == w.kind and g.doms != w.doms]
            if len(c) == 1:
                g = c[0]
                ge.remove(g)
                vs = [verdict(x, y, known) for x, y in zip(g.doms, w.doms)]
                rng = all(x.op == y.op and x.op in ("range", "each") for x, y in zip(g.doms, w.doms) if x is not y)
                ctx.decide(R, nm, False if rng and False in vs else None, "written for %s" % ", ".join(tm.show(x) for x in g.doms), g.file or file, g.line or line)
                continue
            if not c and not ge:
                ctx.violation(R, nm, "no such %s is written" % what, file, line)
                continue
            c = [g for g in ge if g.doms == w.doms and g.kind == w.kind and (g.key is w.key or g.val is w.val)]
            if not c and len(ge) == 1 and len(miss) == 1 and ge[0].doms == w.doms and ge[0].kind == w.kind and all(plain(x, ge[0].syms) for x in (ge[0].key, ge[0].val)):
                c = list(ge)
            if len(c) == 1:
                # two of the three differ
                g = c[0]
                ge.remove(g)
                vs = [verdict(g.key, w.key, known), verdict(g.val, w.val, known)]
                ctx.decide(R, nm, None if None in vs or not all(known(l) for l in set(literals(g.g)) ^ set(literals(w.g))) else False, "written is %s" % g.show(), g.file or file, g.line or line)
                continue
            ctx.undecided(R, nm, "no counterpart among %s" % "; ".join(g.show() for g in ge)[:300])
            continue
        g = c[0]
        ge.remove(g)
        if g.key is not w.key:
            v = verdict(g.key, w.key, known)
        elif g.val is not w.val:
            v = verdict(g.val, w.val, known)
        elif g.g is not w.g:
            d = set(literals(g.g)) ^ set(literals(w.g))
            v = False if all(known(l) for l in d) else None
        else:
            v = None
        ctx.decide(R, nm, v, "written is %s" % g.show(), g.file or file, g.line or line)
    for g in ge:
        if extra_ok(g):
            continue
        clear = not any(x[1].startswith(con) and x[0] == R for x in ctx.undec) and clean(g.key) and clean(g.val) and all(known(l) for l in literals(g.g)) and all(clean(d) for d in g.doms)
        ctx.decide(R, "%s: %s" % (con, g.show()[:120]), False if clear else None, "an undocumented %s is written: %s" % (what, g.show()), g.file or file, g.line or line)
