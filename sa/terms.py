"""Hash-consed value terms and their normal forms.

Terms are the abstract values of the value-flow interpreter (vf.py).  The constructors below
normalise: arithmetic to polynomials, comparisons to `p <= 0`, `p < 0`, `a == b`, Booleans to
flattened conjunctions/disjunctions in negation normal form, look-ups in mappings and their
inverses to each other's cancellation.  Two program fragments that compute the same value by
re-ordered, re-named or re-bracketed code get the same term.
"""
from fractions import Fraction
from hashlib import md5

_table = {}


class T:
    __slots__ = ("op", "a", "_k", "_h", "_at", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return key(self) < key(o)


def mk(op, *a):
    k = (op,) + tuple((type(x), x) if not isinstance(x, T) else x for x in a)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.a, t._k, t._at = op, a, None, None
        t._h = hash(k)
        _table[k] = t
    return t


def key(t):
    if t._k is None:
        k = t.op + "(" + ",".join(key(x) if isinstance(x, T) else repr(x) for x in t.a) + ")"
        if len(k) > 600:        # terms are DAGs: keep the sort key bounded
            k = k[:120] + "#" + md5(k.encode()).hexdigest()
        t._k = k
    return t._k


def C(v):
    if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
        v = int(v)
    return mk("c", v)


def B(v):
    return mk("c", bool(v))


TRUE, FALSE, NONE = mk("c", True), mk("c", False), mk("c", None)
ZERO, ONE = C(0), C(1)


def is_c(t):
    return t.op == "c"


def is_num(t):
    return t.op == "c" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


def sym(name, sort=None):
    return mk("sym", name, sort)


def unk(tag):
    return mk("unk", tag)


# ---------------------------------------------------------------- polynomials
def _poly(t):
    """term -> dict monomial(tuple of atoms) -> coefficient"""
    if t.op == "c" and isinstance(t.a[0], (int, float, bool)):
        v = t.a[0]
        v = int(v) if isinstance(v, bool) else v
        return {(): v} if v != 0 else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {(t,): 1}


def _unpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), [key(x) for x in mc[0]])))
    return mk("poly", items)


def add(a, b):
    if a.op == "ite" and not _big(a):
        return ite(a.a[0], add(a.a[1], b), add(a.a[2], b))
    if b.op == "ite" and not _big(b):
        return ite(b.a[0], add(a, b.a[1]), add(a, b.a[2]))
    if a.op == "c" and b.op == "c" and (isinstance(a.a[0], str) or isinstance(b.a[0], str)):
        return concat([a, b])
    if a.op in ("cat",) or b.op in ("cat",) or (is_c(a) and isinstance(a.a[0], str)) or (is_c(b) and isinstance(b.a[0], str)):
        return concat([a, b])
    d = _poly(a)
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + c
    return _unpoly(d)


def _big(t):
    return False


def neg(a):
    if a.op == "ite":
        return ite(a.a[0], neg(a.a[1]), neg(a.a[2]))
    return _unpoly({m: -c for m, c in _poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == "ite":
        return ite(a.a[0], mul(a.a[1], b), mul(a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], mul(a, b.a[1]), mul(a, b.a[2]))
    d = {}
    for m1, c1 in _poly(a).items():
        for m2, c2 in _poly(b).items():
            m = _cancel(tuple(sorted(m1 + m2, key=key)))
            d[m] = d.get(m, 0) + c1 * c2
    return _unpoly(d)


def _cancel(m):
    m = list(m)
    for x in list(m):
        if x.op == "inv1" and x.a[0] in m and x in m:
            m.remove(x)
            m.remove(x.a[0])
    return tuple(m)


def div(a, b):
    if is_num(b) and b.a[0] != 0:
        c = b.a[0]
        d = {}
        for m, x in _poly(a).items():
            q = x / c
            if isinstance(q, float) and q == int(q) and abs(q) < 1e15:
                q = int(q)
            d[m] = q
        return _unpoly(d)
    if a.op == "ite":
        return ite(a.a[0], div(a.a[1], b), div(a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], div(a, b.a[1]), div(a, b.a[2]))
    if b.op == "poly" and len(b.a[0]) == 1:
        (m, c), = b.a[0]
        r = a
        for x in m:
            r = mul(r, x.a[0] if x.op == "inv1" else mk("inv1", x))
        return div(r, C(c))
    if b.op == "inv1":
        return mul(a, b.a[0])
    return mul(a, mk("inv1", b))


# ---------------------------------------------------------------- strings
def concat(parts):
    out = []
    for p in parts:
        if p.op == "cat":
            ps = p.a
        else:
            ps = (p,)
        for q in ps:
            if is_c(q) and isinstance(q.a[0], str):
                if q.a[0] == "":
                    continue
                if out and is_c(out[-1]) and isinstance(out[-1].a[0], str):
                    out[-1] = mk("c", out[-1].a[0] + q.a[0])
                    continue
            out.append(q)
    if not out:
        return mk("c", "")
    if len(out) == 1 and (out[0].op in ("c", "fmt", "ite", "join") or True):
        return out[0]
    return mk("cat", *out)


# ---------------------------------------------------------------- tuples
def tup(*xs):
    if len(xs) > 1 and all(x.op == "item" and x.a[0] is xs[0].a[0] and x.a[1] == i for i, x in enumerate(xs)):
        return xs[0].a[0]
    return mk("tuple", *xs)


def item(x, i):
    if x.op == "tuple" and isinstance(i, int):
        if -len(x.a) <= i < len(x.a):
            return x.a[i]
        return unk("tuple index")
    if x.op == "ite":
        return ite(x.a[0], item(x.a[1], i), item(x.a[2], i))
    if x.op == "pairof":      # (k,v) of a mapping iteration
        return x.a[i]
    return mk("item", x, i)


# ---------------------------------------------------------------- booleans
def is_bool(t):
    return (t.op == "c" and isinstance(t.a[0], bool)) or t.op in ("not", "and", "or", "le", "lt", "eq", "in", "truth",
                                                                "exists", "isinst", "is", "has", "allv", "iter0")


INT_OPS = {"len", "rank", "count", "nth_int", "it", "num"}


def is_int(t):
    if t.op == "c":
        return isinstance(t.a[0], int)
    if t.op == "poly":
        return all(isinstance(c, int) and all(is_int(x) for x in m) for m, c in t.a[0])
    if t.op in INT_OPS:
        return True
    if t.op == "sym":
        return t.a[1] in ("int",)
    if t.op == "attr" and t.a[1] in ("C", "N"):
        return True
    if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] == "shape":
        return True
    if t.op == "item" and t.a[0].op in ("it2", "nth"):
        return t.a[1] in (0, 1)
    if t.op == "item" and t.a[0].op == "get" and t.a[0].a[0].op == "inv":
        return True
    return False


def _lead_sign(p):
    if p.op == "poly":
        for m, c in p.a[0]:
            if m != ():
                return 1 if c > 0 else -1
    return 1


def le0(p):
    if is_num(p):
        return B(p.a[0] <= 0)
    if p.op == "ite":
        return ite(p.a[0], le0(p.a[1]), le0(p.a[2]))
    return mk("le", _scale(p))


def lt0(p):
    if is_num(p):
        return B(p.a[0] < 0)
    if p.op == "ite":
        return ite(p.a[0], lt0(p.a[1]), lt0(p.a[2]))
    if is_int(p):
        return le0(add(p, ONE))
    return mk("lt", _scale(p))


def _scale(p):
    return p


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def _numlike(t):
    return is_num(t) or t.op == "poly"


def eq(a, b):
    if a is b:
        return TRUE
    if is_c(a) and is_c(b):
        try:
            return B(a.a[0] == b.a[0])
        except Exception:
            return mk("eq", a, b)
    if a.op == "ite":
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    for x, y in ((a, b), (b, a)):
        if y is TRUE:
            return truth(x)
        if y is FALSE:
            return bnot(truth(x))
        if y is NONE and x.op in ("tuple", "ref", "poly", "list", "dictlit", "class", "func", "inst", "zeros", "ones", "vstack",
                                  "hstack", "dok", "upd", "dot", "arr"):
            return FALSE
        if is_bool(x) and is_num(y):
            if y.a[0] == 1:
                return x
            if y.a[0] == 0:
                return bnot(x)
    if a.op == "tuple" and b.op == "tuple":
        if len(a.a) != len(b.a):
            return FALSE
        return band(*[eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op == "tuple" and b.op in ("get", "nth", "it", "it2"):
        return band(*[eq(x, item(b, i)) for i, x in enumerate(a.a)])
    if b.op == "tuple" and a.op in ("get", "nth", "it", "it2"):
        return eq(b, a)
    if a.op == "set" and b.op == "set" and a is not b and all(is_c(x) for x in a.a + b.a):
        return B(set(a.a) == set(b.a))
    if _numlike(a) or _numlike(b):
        p = sub(a, b)
        if is_num(p):
            return B(p.a[0] == 0)
        d = dict(_poly(p))
        if len(d) == 2:
            (m1, c1), (m2, c2) = d.items()
            if c1 + c2 == 0 and len(m1) == 1 and len(m2) == 1 and c1 in (1, -1):
                return mk("eq", *sorted((m1[0], m2[0])))
        if len(d) <= 2:
            ms = [m for m in d if m != ()]
            if len(ms) == 1 and len(ms[0]) == 1:
                v = C(Fraction(-d.get((), 0)) / Fraction(d[ms[0]])) if False else None
                c = d[ms[0]]
                r = -d.get((), 0) / c
                return mk("eq", *sorted((ms[0][0], C(r)), key=lambda t: (t.op == "c", key(t))))
        if _lead_sign(p) < 0:
            p = neg(p)
        return mk("eq", p, ZERO)
    return mk("eq", *sorted((a, b), key=lambda t: (t.op == "c", key(t))))


def truth(t):
    if is_bool(t):
        return t
    if t.op == "c":
        return B(bool(t.a[0]))
    if t.op == "ite":
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if t.op == "tuple":
        return B(len(t.a) > 0)
    if t.op in ("func", "class", "inst"):
        return TRUE
    if t.op == "len":
        return lt0(neg(t))
    return mk("truth", t)


_NOT = {}


def bnot(t):
    r = _NOT.get(t)
    if r is None:
        r = _NOT[t] = _bnot(t)
        if len(_NOT) > 400000:
            _NOT.clear()
    return r


def _bnot(t):
    if t.op == "c":
        return B(not t.a[0])
    if t.op == "not":
        return t.a[0]
    if t.op == "le":
        return lt0(neg(t.a[0]))
    if t.op == "lt":
        return le0(neg(t.a[0]))
    if t.op == "and":
        return bor(*[bnot(x) for x in t.a])
    if t.op == "or":
        return band(*[bnot(x) for x in t.a])
    if t.op == "ite":
        return ite(t.a[0], bnot(t.a[1]), bnot(t.a[2]))
    if not is_bool(t):
        return bnot(truth(t))
    return mk("not", t)


def band(*ts):
    out = set()
    for t in ts:
        if not is_bool(t) and t.op != "ite":
            t = truth(t)
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == "and":
            out.update(t.a)
        else:
            out.add(t)
    for t in list(out):
        if bnot(t) in out:
            return FALSE
    # x == c1 and x == c2 ; drop le implied by stronger le
    eqs = {}
    for t in out:
        if t.op == "eq" and is_c(t.a[1]):
            if eqs.setdefault(t.a[0], t.a[1]) is not t.a[1]:
                return FALSE
    for t in list(out):
        if t.op == "not" and t.a[0].op == "eq" and t.a[0].a[0] in eqs:
            out.discard(t)
    for t in list(out):
        if t.op == "or":
            if any(x in out for x in t.a):
                out.discard(t)
            else:
                rest = [x for x in t.a if bnot(x) not in out]
                if len(rest) < len(t.a):
                    out.discard(t)
                    return band(*(list(out) + [bor(*rest)]))
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return mk("and", *sorted(out))


def bor(*ts):
    out = set()
    for t in ts:
        if not is_bool(t) and t.op != "ite":
            t = truth(t)
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        if t.op == "or":
            out.update(t.a)
        else:
            out.add(t)
    for t in list(out):
        if bnot(t) in out:
            return TRUE
    for t in list(out):
        if t.op == "and":
            if any(x in out for x in t.a):
                out.discard(t)
            else:
                rest = [x for x in t.a if bnot(x) not in out]
                if len(rest) < len(t.a):
                    out.discard(t)
                    return bor(*(list(out) + [band(*rest)]))
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return mk("or", *sorted(out))


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    if is_bool(a) and is_bool(b):
        return bor(band(c, a), band(bnot(c), b))
    if c.op == "not":
        return ite(c.a[0], b, a)
    # canonical orientation of comparisons
    n = bnot(c)
    if c.op in ("le", "lt", "and", "or") and key(n) < key(c):
        return ite_raw(n, b, a)
    return ite_raw(c, a, b)


def ite_raw(c, a, b):
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


# ---------------------------------------------------------------- look-ups
def inv(m):
    if m.op == "inv":
        return m.a[0]
    return mk("inv", m)


def get(m, k):
    if m.op == "ite":
        return ite(m.a[0], get(m.a[1], k), get(m.a[2], k))
    if k.op == "ite":
        return ite(k.a[0], get(m, k.a[1]), get(m, k.a[2]))
    if k.op == "get" and ((m.op == "inv" and k.a[0] is m.a[0]) or (k.a[0].op == "inv" and k.a[0].a[0] is m)):
        return k.a[1]
    if m.op == "tuple" and is_c(k) and isinstance(k.a[0], int):
        return item(m, k.a[0])
    if m.op in ("zeros",):
        return ZERO
    if m.op == "repeat" and m.a[0].op == "list" and len(m.a[0].a) == 1 and m.a[0].a[0].op not in ("for", "base") and k.op not in ("slice", "slice3", "tuple"):
        return m.a[0].a[0]
    if m.op in ("ones",):
        return ONE
    if m.op == "full":
        return m.a[1]
    if m.op == "poly" and k.op != "slice":
        # element of a linear combination of arrays
        d = []
        ok = all(len(mm) <= 1 for mm, _ in m.a[0])
        if ok:
            r = ZERO
            for mm, c in m.a[0]:
                r = add(r, mul(C(c), get(mm[0], k) if mm else ONE))
            return r
    if m.op == "range":
        return add(m.a[0], k)
    if m.op == "list" and len(m.a) == 1 and m.a[0].op == "for" and k.op not in ("slice", "slice3", "tuple", "c"):
        doms, g, v = m.a[0].a
        if len(doms) == 1 and g is TRUE and doms[0].op == "range" and doms[0].a[0] is ZERO:
            b = own_bvs(m.a[0], True)[0]
            return subst(v, {b: k}) if b in free_bvs(v) else v
    if m.op == "poly" and k.op not in ("slice", "slice3") and all(x.op == "m" or is_scalar(x) for mm, _ in m.a[0] for x in mm):
        r = ZERO
        for mm, c in m.a[0]:
            p = C(c)
            for x in mm:
                p = mul(p, x if is_scalar(x) else get(x, k))
            r = add(r, p)
        return r
    if k.op not in ("slice", "slice3") and not (k.op == "tuple" and any(x.op in ("slice", "slice3") for x in k.a)):
        if m.op in ("and", "or", "not", "le", "lt", "truth", "eq") or (m.op == "c" and isinstance(m.a[0], bool)):
            return getb(m, k)
        if is_scalar(m):
            return m
        if m.op == "T":
            if k.op == "tuple" and len(k.a) == 2:
                return get(m.a[0], tup(k.a[1], k.a[0]))
            if k.op != "tuple":
                return get(m.a[0], k)
        if m.op == "sub" and all(x.op == "slice" and (x.a[0] is NONE or x.a[0] is ZERO) for x in m.a[1:]):
            return get(m.a[0], k)
        if m.op == "getcol":
            if k.op == "tuple" and len(k.a) == 2:
                return get(m.a[0], tup(k.a[0], m.a[1]))
            return get(m.a[0], tup(k, m.a[1]))
        if m.op == "getrow":
            if k.op == "tuple" and len(k.a) == 2:
                return get(m.a[0], tup(m.a[1], k.a[1]))
            return get(m.a[0], tup(m.a[1], k))
        if m.op in ("upd", "updincr") and m.a[1].op == "tuple" and len(m.a[1].a) == 2 and _has_slice(m.a[1].a[0]):
            r = get_slice_upd(m, k)
            if r is not None:
                return r
            return mk("get", m, k)
        if m.op in ("upd", "updincr") and m.a[1].op == "tuple" and len(m.a[1].a) == 2:
            c = eq(m.a[1].a[0], k)
            if m.op == "upd":
                return ite(c, m.a[1].a[1], get(m.a[0], k))
            return add(get(m.a[0], k), ite(c, m.a[1].a[1], ZERO))
        if m.op in ("upd", "updincr") and m.a[1].op == "for":
            r = get_for(m, k)
            if r is not None:
                return r
    return mk("get", m, k)


def _has_slice(k):
    return k.op in ("slice", "slice3") or (k.op == "tuple" and any(x.op in ("slice", "slice3") for x in k.a))


def get_slice_upd(m, k):
    """element k of an array after an assignment to a slice"""
    key_, val = m.a[1].a
    ks = key_.a if key_.op == "tuple" else (key_,)
    xs = k.a if k.op == "tuple" else (k,)
    if len(ks) != len(xs):
        return None
    cs, sub_ = [], []
    for a, x in zip(ks, xs):
        if a.op == "slice3":
            return None
        if a.op == "slice":
            lo, hi = a.a
            lo = ZERO if lo is NONE else lo
            for b in (lo, hi):
                if is_num(b) and b.a[0] < 0:
                    return None
            if lo is not ZERO:
                cs.append(le(lo, x))
            if hi is not NONE:
                cs.append(lt(x, hi))
            sub_.append(sub(x, lo))
        else:
            if is_num(a) and a.a[0] < 0:
                return None
            cs.append(eq(a, x))
    c = band(*cs)
    if is_scalar(val) or is_num(val):
        v = val
    elif len(sub_) == 1:
        v = get(val, sub_[0])
    else:
        v = get(val, tup(*sub_))
    if m.op == "upd":
        return ite(c, v, get(m.a[0], k))
    return add(get(m.a[0], k), ite(c, v, ZERO))


def unify(p, t, own, pairs, conds):
    """solve p == t for the bound variables `own` of p; remaining equations go to conds"""
    if p.op == "tuple":
        for i, x in enumerate(p.a):
            unify(x, item(t, i), own, pairs, conds)
        return
    if not (atoms(p) & own):
        conds.append(eq(p, t))
        return
    if p in own:
        if p in pairs:
            conds.append(eq(pairs[p], t))
        else:
            pairs[p] = t
        return
    if p.op == "poly":
        vs = [(m, c) for m, c in p.a[0] if any(atoms(x) & own for x in m)]
        if len(vs) == 1 and len(vs[0][0]) == 1 and vs[0][1] in (1, -1) and vs[0][0][0] in own:
            x, c = vs[0][0][0], vs[0][1]
            unify(x, mul(C(c), sub(t, sub(p, mul(C(c), x)))), own, pairs, conds)
            return
    if p.op == "get" and p.a[1] in own and p.a[1] not in pairs and p.a[0].op in ("inv", "attr", "sym") and not (atoms(p.a[0]) & own):
        conds.append(("later", p, t))
        return
    conds.append(("later", p, t))


def get_for(m, k):
    """element k of an array after the update loop m.a[1] (bound variables must be determined by the index)"""
    doms, g, kv = m.a[1].a
    if kv.op != "tuple" or len(kv.a) != 2:
        return None
    key_, val = kv.a
    own = free_bvs(kv) | free_bvs(g)
    pairs, conds = {}, []
    unify(key_, k, own, pairs, conds)
    changed = True
    while changed:
        changed = False
        for c in list(conds):
            if isinstance(c, tuple):
                p = subst(c[1], pairs)
                if not (atoms(p) & (own - set(pairs))) :
                    conds.remove(c)
                    conds.append(eq(p, c[2]))
                    changed = True
        if not changed:
            for c in conds:
                if isinstance(c, tuple) and c[1].op == "get" and c[1].a[1] in own and c[1].a[1] not in pairs:
                    # an injective map is inverted
                    pairs[c[1].a[1]] = get(inv(c[1].a[0]), c[2])
                    conds.remove(c)
                    changed = True
                    break
    need = own
    if any(isinstance(c, tuple) for c in conds) or not need <= set(pairs):
        if m.op == "updincr" and not any(x.op == "bv" for x in atoms(k)):
            return add(get(m.a[0], k), mk("sum", tuple(doms), band(g, eq(key_, k)), val))
        return None
    rng = []
    bvs = sorted(own, key=lambda b: b.a[0])
    if len(doms) == len(bvs):
        for b, d in zip(bvs, doms):
            v = pairs[b]
            d = subst(d, pairs)
            if d.op == "range":
                rng += [le(d.a[0], v), lt(v, d.a[1])]
            else:
                rng.append(mk("in", v, d))
    elif len(doms) == 1 and len(bvs) == 0:
        pass
    else:
        return None
    c = band(subst(g, pairs), *(conds + rng))
    v = subst(val, pairs)
    if m.op == "upd":
        return ite(c, v, get(m.a[0], k))
    return add(get(m.a[0], k), ite(c, v, ZERO))


def assume(t, *facts):
    """t under the given facts (literals); linear comparisons are decided by constant differences"""
    m = {}
    les = []
    for f in facts:
        for l in (f.a if f.op == "and" else (f,)):
            if l.op == "c":
                continue
            m[l] = TRUE
            n = bnot(l)
            if n.op != "c":
                m[n] = FALSE
            if l.op in ("le", "lt"):
                les.append((l.a[0], l.op == "lt"))
    for x in list(subterms(t)):
        if x in m or x.op not in ("le", "lt", "eq"):
            continue
        if x.op == "eq":
            a, b = x.a
            if not all(y.op in ("poly", "sym", "attr", "it", "bv", "item", "get", "len", "num") or is_num(y) for y in (a, b)):
                continue
            q = sub(a, b)
        else:
            q = x.a[0]
        for p, strict in les:
            d = sub(q, p)
            if is_num(d):       # q = p + d <= d
                v = d.a[0]
                if x.op == "le" and v <= 0 or x.op == "lt" and (v < 0 or v == 0 and strict):
                    m[x] = TRUE
                elif x.op == "eq" and (v < 0 or v == 0 and strict):
                    m[x] = FALSE
            d = add(q, p)
            if is_num(d):       # q = d - p >= d
                v = d.a[0]
                if x.op == "le" and (v > 0 or v == 0 and strict) or x.op == "lt" and v >= 0:
                    m[x] = FALSE
                elif x.op == "eq" and (v > 0 or v == 0 and strict):
                    m[x] = FALSE
    return subst(t, m)


def getb(m, k):
    if m.op == "c": return m
    if m.op == "and": return band(*[getb(x, k) for x in m.a])
    if m.op == "or": return bor(*[getb(x, k) for x in m.a])
    if m.op == "not": return bnot(getb(m.a[0], k))
    if m.op == "le": return le0(get(m.a[0], k))
    if m.op == "lt": return lt0(get(m.a[0], k))
    if m.op == "truth": return truth(get(m.a[0], k))
    if m.op == "eq": return eq(get(m.a[0], k), get(m.a[1], k))
    return truth(get(m, k))


def is_scalar(m):
    if m.op == "c": return not isinstance(m.a[0], (str, tuple)) and m is not NONE
    if m.op == "sym": return m.a[1] in ("num", "int", "bool")
    if m.op in ("len", "count", "rank", "sum", "sumv", "minv", "maxv"): return True
    if m.op == "attr": return m.a[1] in ("C", "N")
    if m.op == "inv1": return is_scalar(m.a[0])
    return False


# ---------------------------------------------------------------- traversal
def atoms(t):
    """all subterms' leaves: set of terms that are iteration atoms / syms / unk"""
    if t._at is None:
        if t.op in ("it", "it2", "sym", "unk", "mu", "ref", "bv", "obj"):
            t._at = frozenset([t])
        else:
            s = set()
            for x in _kids(t):
                s |= atoms(x)
            t._at = frozenset(s)
    return t._at


CLOSERS = ("for", "sum", "exists", "distinct")
_FREE = {}


def free_bvs(t):
    """bound-variable terms that occur in t and are not bound inside of t"""
    if not any(x.op == "bv" for x in atoms(t)):
        return frozenset()
    r = _FREE.get(t)
    if r is None:
        if t.op == "bv":
            r = frozenset([t])
        elif t.op in CLOSERS:
            own = set(own_bvs(t))
            r = frozenset(x for y in _kids(t) for x in free_bvs(y) if x not in own)
        else:
            r = frozenset(x for y in _kids(t) for x in free_bvs(y))
        _FREE[t] = r
    return r


def _bound_max(t):
    """largest number bound by a closer inside of t"""
    n = -1
    for x in subterms(t):
        if x.op in CLOSERS:
            o = own_bvs(x)
            if o:
                n = max(n, max(b.a[0] for b in o))
    return n


_OWN = {}


def own_bvs(f, top=False):
    """the variables bound by a closed term, one for each domain, in order (close() numbers them after all that are bound inside)"""
    r = _OWN.get((f, top))
    if r is not None:
        return r
    doms = f.a[0]
    n = len(doms)
    parts = [x for x in f.a[1:] if isinstance(x, T)] + list(doms)
    base = max([_bound_max(x) for x in parts] + [-1]) + 1
    r = [mk("bv", base + i) for i in range(n)]
    if top:
        fr = set()
        for x in parts:
            fr |= free_bvs(x)
        if fr - set(r) and len(fr) >= n:
            r = sorted(fr, key=lambda b: b.a[0])[:n]
    _OWN[(f, top)] = r
    return r


def _kids(t):
    if t.op == "poly":
        for m, _ in t.a[0]:
            for x in m:
                yield x
        return
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in _kids(t):
        yield from subterms(x, seen)


def has_op(t, *ops):
    return any(x.op in ops for x in subterms(t))


REBUILD = {}


def subst(t, m, cache=None):
    """replace subterms by mapping m (T->T), rebuilding with the normalising constructors"""
    if not m:
        return t
    if cache is None:
        cache = {}
    r = cache.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op in ("c", "sym", "unk", "it", "it2", "ref", "bv", "obj"):
        r = t
    else:
        sub = lambda x: subst(x, m, cache)
        if t.op in CLOSERS:
            own = own_bvs(t)
            if any(b in m for b in own):
                # these are not the variables that are meant
                m2 = {k: v for k, v in m.items() if k not in own}
                c2 = {}
                sub = lambda x: subst(x, m2, c2)
        r = rebuild(t, sub)
    cache[t] = r
    return r


def _renumber(own, args):
    """the parts of a closed term with the variables own, numbered as close() does"""
    parts = [y for x in args for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, T)]
    base = max([_bound_max(x) for x in parts] + [-1]) + 1
    if not own or own[0].a[0] == base:
        return args
    m = {b: mk("bv", base + i) for i, b in enumerate(own)}

    def one(x):
        fr = free_bvs(x)
        if any(y in fr for y in m.values() if y not in m):
            return None
        return subst(x, m) if any(b in fr for b in m) else x
    out = []
    for x in args:
        y = tuple(one(z) if isinstance(z, T) else z for z in x) if isinstance(x, tuple) else one(x)
        if y is None or (isinstance(y, tuple) and None in y):
            return args
        out.append(y)
    return out


def rebuild(t, f):
    op = t.op
    if op == "poly":
        r = ZERO
        for mono, c in t.a[0]:
            x = C(c)
            for y in mono:
                x = mul(x, f(y))
            r = add(r, x)
        return r
    args = [f(x) if isinstance(x, T) else (tuple(f(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x) for x in t.a]
    if op in CLOSERS:
        args = _renumber(own_bvs(t), args)
    if op == "ite":
        return ite(*args)
    if op == "and":
        return band(*args)
    if op == "or":
        return bor(*args)
    if op == "not":
        return bnot(args[0])
    if op == "le":
        return le0(args[0])
    if op == "lt":
        return lt0(args[0])
    if op == "eq":
        return eq(*args)
    if op == "get":
        return get(*args)
    if op == "inv":
        return inv(args[0])
    if op == "item":
        return item(*args)
    if op == "tuple":
        return tup(*args)
    if op == "truth":
        return truth(args[0])
    if op == "inv1":
        return div(ONE, args[0])
    if op == "cat":
        return concat(args)
    if op in REBUILD:
        return REBUILD[op](*args)
    return mk(op, *args)


# ---------------------------------------------------------------- Boolean equivalence over atoms
def bool_atoms(t, out):
    if t.op in ("and", "or"):
        for x in t.a:
            bool_atoms(x, out)
    elif t.op == "not":
        bool_atoms(t.a[0], out)
    elif t.op == "ite":
        for x in t.a:
            bool_atoms(x, out)
    elif t.op == "lt":
        out.add(bnot(t))          # represent p<0 by its complement -p<=0
    elif t.op == "le" and is_int(t.a[0]) and key(bnot(t)) < key(t):
        out.add(bnot(t))
    elif t.op == "c":
        pass
    else:
        out.add(t)
    return out


def bool_eval(t, v):
    if t in v:
        return v[t]
    if t.op == "and":
        return all(bool_eval(x, v) for x in t.a)
    if t.op == "or":
        return any(bool_eval(x, v) for x in t.a)
    if t.op == "not":
        return not bool_eval(t.a[0], v)
    if t.op == "ite":
        return bool_eval(t.a[1] if bool_eval(t.a[0], v) else t.a[2], v)
    if t.op == "c":
        return bool(t.a[0])
    if t.op in ("lt", "le"):
        return not v[bnot(t)]
    raise KeyError(t)


def _consistent(v):
    """cheap theory check: x==c for two constants, le(p) with p bigger by a constant"""
    eqs = {}
    les = []
    for a, b in v.items():
        if a.op == "eq" and is_c(a.a[1]) and b:
            if a.a[0] in eqs and eqs[a.a[0]] is not a.a[1]:
                return False
            eqs[a.a[0]] = a.a[1]
        if a.op == "le":
            les.append((a.a[0] if b else neg(a.a[0]), b, is_int(a.a[0])))
    # p <= 0 (or p < 0 for the negated ones); two of them contradict if their sum is a positive constant (or >=0 with a strict one)
    for i in range(len(les)):
        p, b, ii = les[i]
        for j in range(i + 1, len(les)):
            q, b2, _ = les[j]
            s = add(p, q)
            if is_num(s):
                if s.a[0] > 0:
                    return False
                if s.a[0] == 0 and (not b or not b2):
                    return False
                if ii and (not b) + (not b2) > 0 and s.a[0] > -((not b) + (not b2)):
                    return False
        for x, c in eqs.items():
            s = subst(p, {x: c})
            if is_num(s) and (s.a[0] > 0 or (s.a[0] == 0 and not b)):
                return False
    return True


def bool_equiv(a, b, assume=TRUE, limit=12):
    """True/False/None: equality of two Boolean terms, read as functions of their atoms"""
    a, b = truth(a), truth(b)
    if a is b:
        return True
    ats = set()
    for t in (a, b, assume):
        bool_atoms(t, ats)
    ats = sorted(ats)
    if len(ats) > limit:
        return None
    for bits in range(1 << len(ats)):
        v = {x: bool(bits >> i & 1) for i, x in enumerate(ats)}
        if bool_eval(a, v) != bool_eval(b, v) and bool_eval(assume, v) and _consistent(v):
            return False
    return True


def bool_implies(a, b, limit=12):
    a, b = truth(a), truth(b)
    ats = set()
    for t in (a, b):
        bool_atoms(t, ats)
    ats = sorted(ats)
    if len(ats) > limit:
        return None
    for bits in range(1 << len(ats)):
        v = {x: bool(bits >> i & 1) for i, x in enumerate(ats)}
        if bool_eval(a, v) and not bool_eval(b, v) and _consistent(v):
            return False
    return True


# ---------------------------------------------------------------- printing
def show(t):
    o = t.op
    if o == "c":
        return repr(t.a[0])
    if o == "sym":
        return t.a[0]
    if o == "poly":
        out = []
        for m, c in t.a[0]:
            s = "*".join(show(x) for x in m)
            if not s:
                out.append("%s" % c)
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append("%s*%s" % (c, s))
        return "(" + " + ".join(out) + ")"
    if o == "get":
        return "%s[%s]" % (show(t.a[0]), show(t.a[1]))
    if o == "item":
        return "%s.%s" % (show(t.a[0]), t.a[1])
    if o == "attr":
        return "%s.%s" % (show(t.a[0]), t.a[1])
    if o == "le":
        return "%s<=0" % show(t.a[0])
    if o == "lt":
        return "%s<0" % show(t.a[0])
    if o == "eq":
        return "%s==%s" % (show(t.a[0]), show(t.a[1]))
    if o == "not":
        return "not(%s)" % show(t.a[0])
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(show(x) for x in t.a) + ")"
    if o == "tuple":
        return "(" + ", ".join(show(x) for x in t.a) + ")"
    if o == "it":
        return "%s#%s" % (t.a[1], t.a[0])
    if o == "inv1":
        return "1/(%s)" % show(t.a[0])
    return "%s(%s)" % (o, ", ".join(show(x) if isinstance(x, T) else repr(x) for x in t.a))
