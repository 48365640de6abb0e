"""Shared set-up of the value-flow rules."""
from .. import terms as tm
from ..terms import C, NONE, TRUE, FALSE, mk, sym, eq, le, lt, band, bor, bnot, ite, get, item, tup
from ..vf import Interp

UNRESOLVED = {"unk", "mu", "call", "rec", "cur", "kwget", "callv", "slot", "anyof2", "starred"}


# methods of arrays that are never the identity
REDUCTIONS = {"max", "min", "mean", "argmax", "argmin"}


def interp(repo, module="switss.model.reachability_form", **k):
    I = Interp(repo, **k)
    I.sorts = {"model": "AbstractMDP"}
    I.frames = []
    I.push_module(repo.modules[module])
    return I


def resolved(t, extra=(), methods=(), refs=()):
    """nothing in t is outside of what the interpreter understands"""
    for x in tm.subterms(t):
        if x.op in UNRESOLVED and x.op not in extra:
            return False
        if x.op == "m" and x.a[0] not in methods and not (x.a[0] in REDUCTIONS and len(x.a) == 2):
            return False
        if x.op == "ext" and "ext" not in extra:
            return False
        if x.op == "ref" and x not in refs and "ref" not in extra:
            return False
        if x.op == "get" and x.a[0].op in ("upd", "updincr"):
            return False
    return True


def where(repo, fi):
    return fi.module.path, fi.node.lineno


def compare(ctx, rule, construct, got, want, fi=None, what="", extra=(), methods=(), refs=(), line=None, resolved_only=True):
    file, ln = where(ctx.repo, fi) if fi is not None else (None, None)
    if got is want:
        ctx.ok(rule, construct, what)
        return True
    if not resolved(got, extra, methods, refs):
        ctx.undecided(rule, construct, "value not resolved: " + tm.show(got)[:200])
        return None
    ctx.violation(rule, construct, "%s is %s, expected %s" % (what or "value", tm.show(got)[:400], tm.show(want)[:400]), file, line or ln)
    return False


def part(t, i):
    return item(t, i)


def elem1(v, i):
    """element i of a vector (1-d array, row or column matrix)"""
    if v.op == "sub" and len(v.a) == 2 and v.a[1].op == "slice" and len(v.a[1].a) == 2 and tm.is_num(v.a[1].a[0]) and v.a[1].a[0].a[0] >= 0:
        return elem1(v.a[0], tm.add(i, v.a[1].a[0]))
    r = get(v, i)
    if tm.has_op(r, "upd", "updincr"):
        for k in (tup(C(0), i), tup(i, C(0))):
            r2 = get(v, k)
            if not tm.has_op(r2, "upd", "updincr"):
                return r2
    return r


def rows(I, st, M):
    """row blocks of a matrix: [(term, 'one'|'many')]"""
    if M.op == "vstack":
        out = []
        for x in M.a:
            s = I.shape(st, x)
            one = s is not None and (len(s.a) == 1 or s.a[0] is C(1))
            out.append((x, "one" if one else ("many" if s is not None else "?")))
        return out
    return [(M, "many")]


# ---------------------------------------------------------------- linear programs as values
class LPModel:
    """Programs under construction are recorded instead of being built: variables, constraints, objective, direction.

    `intercepts()` replaces the methods of MILP/LP/GurobiMILP; after interpretation `programs` lists the heap objects."""

    def __init__(self, repo):
        self.repo = repo
        self.solves = []        # (lp ref, options env, state heap, result term, node, path)
        self.created = []
        self.snap = {}

    def intercepts(self):
        out = {}
        for cname in ("MILP", "LP", "GurobiMILP"):
            ci = self.repo.cls(cname)
            for nm, f in ci.methods.items():
                h = getattr(self, "i_" + nm, None)
                if h is not None:
                    out[f.qual] = h
                elif not nm.startswith("__"):
                    pass
        return out

    def fresh(self, I, st, node, cname):
        r = I.alloc(st, "inst", node, cls=self.repo.cls(cname))
        self.set(I, st, r, cons=I.alloc(st, "list", node), vars=I.alloc(st, "list", node), objective=NONE, direction=NONE, coeff=NONE)
        self.created.append(r)
        return r

    def set(self, I, st, r, **kw):
        o = I.obj(st, r).copy()
        o.attrs = dict(o.attrs)
        for k, v in kw.items():
            o.attrs["$" + k] = v
        st.heap = dict(st.heap)
        st.heap[r.a[0]] = o

    def i___init__(self, I, st, args, kw, node, fn):
        env = I.bind(st, fn, args, kw, node)
        self.set(I, st, args[0], cons=I.alloc(st, "list", node), vars=I.alloc(st, "list", node), objective=NONE, coeff=NONE,
                 direction=env.get("objective", NONE) if env else NONE)
        self.created.append(args[0])
        return NONE

    def i_from_coefficients(self, I, st, args, kw, node, fn):
        env = I.bind(st, fn, args, kw, node)
        if env is None:
            return I.unknown("arity")
        r = self.fresh(I, st, node, fn.cls.name)
        fz = lambda n: I.freeze(st, env[n]) if n in env else NONE
        names = ["A", "b", "opt", "domains", "sense", "objective", "bounds"]
        pars = [p for p in fn.params()][1:]
        vals = [fz(p) for p in pars]
        d = dict(zip(pars, vals))
        self.set(I, st, r, coeff=tup(*[d.get(n, NONE) for n in names]), direction=d.get("objective", NONE))
        I.event("call", fn.qual, args, kw, st, node, r, extra=(fn, d))
        return r

    def i_add_constraint(self, I, st, args, kw, node, fn):
        env = I.bind(st, fn, args, kw, node)
        if env is None:
            return I.unknown("arity")
        o = I.obj(st, env["self"]) if env["self"].op == "ref" else None
        if o is None or "$cons" not in o.attrs:
            return NotImplemented
        ps = fn.params()[1:]
        I.log(st, o.attrs["$cons"], "append", NONE, tup(*[I.freeze(st, env[p]) for p in ps]), node)
        return mk("constridx", I.freeze(st, env[ps[0]]))

    def i_add_indicator_constraint(self, I, st, args, kw, node, fn):
        env = I.bind(st, fn, args, kw, node)
        o = I.obj(st, env["self"]) if env and env["self"].op == "ref" else None
        if o is None or "$cons" not in o.attrs:
            return NotImplemented
        ps = fn.params()[1:]
        I.log(st, o.attrs["$cons"], "append", NONE, tup(C("indicator"), *[I.freeze(st, env[p]) for p in ps]), node)
        return NONE

    def i_add_variables(self, I, st, args, kw, node, fn):
        return self._addvars(I, st, args, kw, node, fn, "add_variables")

    def i_add_variables_w_bounds(self, I, st, args, kw, node, fn):
        return self._addvars(I, st, args, kw, node, fn, "add_variables_w_bounds")

    def _addvars(self, I, st, args, kw, node, fn, nm):
        env = I.bind(st, fn, args, kw, node)
        if env is None:
            return I.unknown("arity")
        o = I.obj(st, env["self"]) if env["self"].op == "ref" else None
        if o is None or "$vars" not in o.attrs:
            return NotImplemented
        p = fn.params()[1]
        d = I.freeze(st, env[p])
        I.log(st, o.attrs["$vars"], "append", NONE, tup(C(nm), d), node)
        its = tuple(a for b in st.binders for a in b.atoms)
        return mk("newvar", env["self"], tup(*its), d)

    def i_remove_constraint(self, I, st, args, kw, node, fn):
        o = I.obj(st, args[0])
        I.log(st, o.attrs["$cons"], "append", NONE, tup(C("remove"), *args[1:]), node)
        return NONE

    def i_set_objective_function(self, I, st, args, kw, node, fn):
        env = I.bind(st, fn, args, kw, node)
        if env is None:
            return I.unknown("arity")
        v = I.freeze(st, env[fn.params()[1]])
        self.set(I, st, env["self"], objective=v)
        I.event("call", fn.qual, args, kw, st, node, NONE, extra=(fn, {"expression": v}))
        return NONE

    def i_solve(self, I, st, args, kw, node, fn):
        env = I.bind(st, fn, args, kw, node)
        if env is None:
            return I.unknown("arity")
        r = env["self"]
        o = I.obj(st, r)
        if o is None or "$cons" not in o.attrs:
            return NotImplemented
        n = len(self.solves)
        res = mk("solution", r, C(n))
        prog = {k: (I.freeze(st, v)) for k, v in o.attrs.items() if k.startswith("$")}
        opts = {k: I.freeze(st, v) for k, v in env.items() if k != "self"}
        e = I.event("call", fn.qual, args, kw, st, node, res, extra=(fn, opts))
        self.solves.append(dict(prog=prog, opts=opts, result=res, path=st.path, binders=st.binders, node=node,
                                func=I.frames[-1].func, file=I.frames[-1].module.path, muted=bool(I.mute), lp=r))
        return res

    def last(self):
        return [s for s in self.solves if not s["muted"]]


# ---------------------------------------------------------------- comparing programs
def log_entries(lst):
    """entries of a list term: [(for-term or None, value)] or None"""
    if lst.op != "list":
        return None
    out = []
    for x in lst.a:
        if x.op == "for":
            out.append((x, x.a[2]))
        elif x.op in ("base", "prev", "extend", "insert", "set", "remove", "pop"):
            return None
        else:
            out.append((None, x))
    return out


def at_index(f, expr, val, k, facts=()):
    """condition and value of an entry for which expr == k; None if not determined"""
    if f is None:
        return eq(expr, k), val
    base = sym("$none", "array")
    m = mk("upd", base, mk("for", f.a[0], f.a[1], tup(expr, val)))
    r = tm.get_for(m, k)
    if r is None:
        return None
    if r.op == "ite" and r.a[2] is get(base, k):
        return r.a[0], r.a[1]
    if base in tm.atoms(r):
        return None
    return TRUE, r


def ite_cases(t, c=TRUE):
    if t.op == "ite":
        return ite_cases(t.a[1], band(c, t.a[0])) + ite_cases(t.a[2], band(c, bnot(t.a[0])))
    return [(c, t)]


FLIP = {"<=": ">=", ">=": "<=", "=": "="}


def var_constraints(cons, k, facts=()):
    """constraints on the single variable with index k: [(cond, sense, rhs)], other entries, list of unresolved"""
    es = log_entries(cons)
    if es is None:
        return None, None, ["constraint list not resolved"]
    single, other, bad = [], [], []
    for f, v in es:
        if v.op != "tuple" or len(v.a) != 3 or v.a[1].op != "c":
            bad.append(tm.show(v)[:120])
            continue
        lhs, sense, rhs = v.a
        if lhs.op == "list" and len(lhs.a) == 1 and lhs.a[0].op == "tuple" and len(lhs.a[0].a) == 2 and tm.is_num(lhs.a[0].a[1]):
            var, co = lhs.a[0].a
            c = co.a[0]
            if c == 0:
                bad.append("zero coefficient")
                continue
            r = at_index(f, var, rhs, k)
            if r is None:
                bad.append(tm.show(v)[:120])
                continue
            cond, rv = r
            s = sense.a[0]
            if c < 0:
                s = FLIP.get(s, s)
            for c2, v2 in ite_cases(rv):
                single.append((tm.assume(band(cond, c2), *facts), s, tm.div(v2, co)))
        else:
            other.append((f, v))
    return single, other, bad


def interval(items, assign):
    lo, hi = set(), set()
    for cond, s, rhs in items:
        r = tm.bool_eval(cond, assign)
        if r is None:
            return None
        if not r:
            continue
        if s in (">=", "="):
            lo.add(rhs)
        if s in ("<=", "="):
            hi.add(rhs)
    n = [x for x in lo if tm.is_num(x)]
    if n:
        m = max(n, key=lambda x: x.a[0])
        lo = {x for x in lo if not tm.is_num(x)} | {m}
    n = [x for x in hi if tm.is_num(x)]
    if n:
        m = min(n, key=lambda x: x.a[0])
        hi = {x for x in hi if not tm.is_num(x)} | {m}
    return frozenset(lo), frozenset(hi)


def same_bounds(got, want, limit=8):
    """(True/False/None, message): the same interval under every valuation of the conditions"""
    ats = set()
    for c, _, _ in list(got) + list(want):
        tm.bool_atoms(c, ats)
    ats = sorted(ats)
    if len(ats) > limit:
        return None, "too many conditions"
    import itertools as _it
    for vals in _it.product((True, False), repeat=len(ats)):
        a = dict(zip(ats, vals))
        if not tm._consistent(a):
            continue
        g, w = interval(got, a), interval(want, a)
        if g is None or w is None:
            return None, "condition not evaluated"
        if g != w:
            fmt = lambda iv: "[%s, %s]" % tuple(",".join(sorted(tm.show(x) for x in p)) or "-inf/inf" for p in iv)
            cs = " and ".join(("" if v else "not ") + tm.show(t) for t, v in a.items()) or "always"
            return False, "bounds are %s, documented %s, when %s" % (fmt(g), fmt(w), cs)
    return True, ""


# ---------------------------------------------------------------- opening closed terms
def opened(f, prefix="$e"):
    """(domains, condition, value, [symbols]) of a for-term with its bound variables replaced by symbols"""
    doms, g, v = f.a
    syms = [sym("%s%d" % (prefix, i), "any") for i in range(len(doms))]
    m = dict(zip(tm.own_bvs(f, True), syms))


    def ins(t):
        fr = tm.free_bvs(t)
        return tm.subst(t, {x: y for x, y in m.items() if x in fr})
    return [ins(d) for d in doms], ins(g), ins(v), syms


def relation(t, prefix="$e"):
    """pairs (key, element) of a mapping to sets, as [(domains, condition, key, element, symbols)]; None if not resolved"""
    out = []
    if t.op == "dict":
        es = t.a
    else:
        return None
    for e in es:
        kind = "set"
        if e.op in ("add2",):
            kind, e = "pair", e.a[0]
        if e.op == "for":
            doms, g, v, syms = opened(e, prefix)
        elif e.op == "tuple":
            doms, g, v, syms = [], TRUE, e, []
        else:
            return None
        if v.op != "tuple" or len(v.a) != 2:
            return None
        k, x = v.a
        if kind == "pair":
            out.append((doms, g, k, x, syms))
            continue
        elems = x.a if x.op in ("set", "list") else None
        if elems is None:
            s = sym("%s%d" % (prefix, len(doms)), "any")
            out.append((doms + [x], g, k, s, syms + [s]))
            continue
        for y in elems:
            if y.op == "for":
                d2, g2, v2, s2 = opened(y, prefix + "i")
                out.append((doms + d2, band(g, g2), k, v2, syms + s2))
            elif y.op in ("base", "remove", "extend"):
                return None
            else:
                out.append((doms, g, k, y, syms))
    return out


def same_relation(got, want):
    """True if both are the same set of pairs after renaming (one entry each); None if the shapes differ"""
    if got is None or len(got) != len(want):
        return None
    for (d1, g1, k1, x1, s1), (d2, g2, k2, x2, s2) in zip(got, want):
        if len(d1) != len(d2):
            return None
        import itertools as _it
        if len(d1) > 5:
            return None
        hit = False
        for perm in _it.permutations(range(len(d1))):
            m = {s1[i]: s2[perm[i]] for i in range(len(d1))}
            if all(tm.subst(d1[i], m) is d2[perm[i]] for i in range(len(d1))) and tm.subst(g1, m) is g2 and tm.subst(k1, m) is k2 and tm.subst(x1, m) is x2:
                hit = True
                break
        if not hit:
            return False
    return True
