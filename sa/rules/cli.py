"""What the dictionaries of command-line parameters contain: a replay of everything that was stored in them."""
from .common import *

RAW = sym("given text", "str")
GONE = sym("removed", "any")


def of_split(k, v):
    """the argument that a key/value pair was split from at '=', or None"""
    if k.op == "item" and v.op == "item" and k.a[0] is v.a[0] and k.a[1] == 0 and v.a[1] == 1:
        s = k.a[0]
        if s.op == "m" and s.a[0] in ("split", "partition") and len(s.a) >= 3 and s.a[2] is C("="):
            return s.a[1]
    return None


def replay(I, st, t, p, depth=0):
    """(value term of key p over RAW, set of sources) or (None, reason)"""
    if depth > 6:
        return None, "too deep"
    o = I.obj(st, t) if t.op == "ref" else None
    if o is None or o.kind not in ("dict", "ddict") :
        return None, "not a followed dictionary: %s" % tm.show(t)[:80]
    cur, src = None, set()
    if o.base is not None:
        return None, "dictionary with unknown contents"
    K = C(p)

    def value(v, m):
        v = tm.subst(v, m)
        own = get(t, K)
        v = tm.subst(v, {own: cur if cur is not None else own})
        for x in list(tm.subterms(v)):
            if x.op == "get" and x.a[0].op == "ref" and x.a[0] is not t and x.a[1] is K:
                r, s = replay(I, st, x.a[0], p, depth + 1)
                if r is None:
                    return None
                src.update(s)
                v = tm.subst(v, {x: r})
        return v
    for e in o.log:
        if e.op == "set":
            s = of_split(e.key, e.val)
            if s is not None:
                cur = RAW
                src.update(x for x in tm.subterms(s) if x.op == "attr")
                continue
            m = {}
            if e.key.op == "c":
                if e.key is not K:
                    continue
            elif e.binders and e.key in {a for b in e.binders for a in b.atoms}:
                m = {e.key: K}
            else:
                return None, "key %s" % tm.show(e.key)[:80]
            g = band(*[tm.subst(x, m) for x in e.guard if m and e.key in set(tm.subterms(x)) and x.op != "in"])
            if g is FALSE:
                continue
            v = value(e.val, m)
            if v is None:
                return None, "value %s" % tm.show(e.val)[:80]
            if g is TRUE:
                cur = v
            else:
                return None, "condition %s" % tm.show(g)[:80]
        elif e.op == "del":
            if e.key is K:
                cur = GONE
        elif e.op == "update":
            r, s = replay(I, st, e.key, p, depth + 1)
            if r is None:
                return None, s
            cur = r
            src.update(s)
        else:
            return None, "operation %s" % e.op
    if cur is None:
        return None, "never set"
    return cur, src


def before_removal(I, st, t, p):
    """the value of key p, ignoring that it is taken out at the end"""
    o = I.obj(st, t)
    if o is None:
        return None, "?"
    n = o.copy()
    n.log = tuple(e for e in o.log if not (e.op == "del" and e.key is C(p)))
    st2 = st.fork()
    st2.heap = dict(st.heap)
    st2.heap[t.a[0]] = n
    return replay(I, st2, t, p)
