"""C21: loops advance, recursion descends.

R1  every while loop has a measure that each way through its body moves towards the end: a counter compared with something the body leaves alone, a stack or
    queue from which something is taken and onto which only things go that a lasting mark shows to be new (or parts of what was taken, when there is more than
    one part), a chain that is followed. A way through the body that changes nothing its own conditions or the loop's condition depend on never ends.
R2  no for loop runs over something endless, or over a sequence that its body makes longer each time.
R3  every recursive call is given something smaller.
R4  compiled functions recurse over search trees only, whose keys for balancing are drawn at random."""
import ast
from .common import *

PURE = {"len", "min", "max", "int", "float", "abs", "range", "print", "isinstance", "str", "bool", "round", "sorted", "sum", "any", "all", "enumerate", "zip", "list", "set", "tuple", "dict", "frozenset", "type",
        "hasattr", "repr", "map", "filter", "reversed", "__cast__", "__sizeof__", "__addr__", "vprint", "getattr", "id", "callable", "divmod", "chr", "ord", "malloc", "Exception", "AssertionError", "ValueError",
        "free", "RuntimeError"}
PUREM = {"keys", "values", "items", "get", "index", "count", "copy", "startswith", "endswith", "split", "strip", "join", "format", "isdigit", "lower", "upper", "issubset", "issuperset", "isdisjoint", "union",
         "intersection", "difference", "any", "all", "sum", "max", "min", "nonzero", "flatten", "tolist", "todense", "toarray", "getrow", "getcol", "dot", "is_set", "empty"}
GROW = {"append", "add", "appendleft", "insert", "put", "extend", "extendleft", "update", "push", "heappush"}
SHRINK = {"pop", "popleft", "popitem", "get_nowait", "clear"}
MAXPATHS = 6000


class Path:
    __slots__ = ("conds", "effs", "env", "end", "defs")

    def __init__(self, conds=(), effs=(), env=None, end="fall", defs=None):
        self.conds, self.effs, self.env, self.end, self.defs = list(conds), list(effs), dict(env or {}), end, dict(defs or {})

    def fork(self):
        return Path(self.conds, self.effs, self.env, self.end, self.defs)


class TooMany(Exception):
    pass


def T(e):
    return ast.unparse(e)


def const_of(e, env):
    if isinstance(e, ast.Constant):
        return e.value, True
    if isinstance(e, ast.Name) and e.id in env:
        return env[e.id], True
    if isinstance(e, ast.Name) and e.id == "NULL":
        return None, True
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v, k = const_of(e.operand, env)
        return (not v, True) if k else (None, False)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v, k = const_of(e.operand, env)
        return (-v, True) if k and isinstance(v, (int, float)) else (None, False)
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, ka = const_of(e.left, env)
        b, kb = const_of(e.comparators[0], env)
        if ka and kb:
            o = e.ops[0]
            try:
                if isinstance(o, (ast.Eq, ast.Is)):
                    return a == b, True
                if isinstance(o, (ast.NotEq, ast.IsNot)):
                    return a != b, True
                if isinstance(o, ast.Lt):
                    return a < b, True
                if isinstance(o, ast.Gt):
                    return a > b, True
                if isinstance(o, ast.LtE):
                    return a <= b, True
                if isinstance(o, ast.GtE):
                    return a >= b, True
            except TypeError:
                pass
    if isinstance(e, ast.BoolOp):
        vs = [const_of(v, env) for v in e.values]
        if isinstance(e.op, ast.And):
            if any(k and not v for v, k in vs):
                return False, True
            if all(k for _, k in vs):
                return True, True
        else:
            if any(k and v for v, k in vs):
                return True, True
            if all(k for _, k in vs):
                return False, True
    return None, False


def decide(e, truth, p):
    """paths on which the test has this value"""
    v, k = const_of(e, p.env)
    if k:
        return [p] if bool(v) == truth else []
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return decide(e.operand, not truth, p)
    if isinstance(e, ast.BoolOp):
        if isinstance(e.op, ast.And) == truth:
            out = [p]
            for x in e.values:
                out = [r for q in out for r in decide(x, truth, q)]
            return out
        out, left = [], [p]
        for x in e.values:
            nxt = []
            for q in left:
                out += decide(x, truth, q.fork())
                nxt += decide(x, not truth, q)
            left = nxt
        return out
    if isinstance(e, ast.Name) and e.id in p.defs:
        d, at = p.defs[e.id]
        if not any(touches(x, roots(d)) for x in p.effs[at:]):
            return decide(d, truth, p)
    q = p.fork()
    key = (T(e), truth)
    # a test that was just made, with nothing it reads changed since
    for i in range(len(q.conds) - 1, -1, -1):
        n, tv, at = q.conds[i]
        if T(n) == key[0] and tv != truth and not any(touches(s, roots(e)) for s in q.effs[at:]) and not calls_unknown(e):
            return []
    q.conds.append((e, truth, len(q.effs)))
    if truth and isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.Eq) and isinstance(e.left, ast.Name) and isinstance(e.comparators[0], ast.Constant):
        q.env[e.left.id] = e.comparators[0].value
    return [q]


def assigned_names(t):
    return [x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))]


def roots(e):
    """names read"""
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)} - {"NULL", "True", "False", "None"}


PUREF = set()          # functions of the repository without effects, filled per run


def call_name(c):
    return c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None


def calls_unknown(e):
    for c in ast.walk(e):
        if isinstance(c, ast.Call):
            n = call_name(c)
            if isinstance(c.func, ast.Name) and (n in PURE or n in PUREF):
                continue
            if isinstance(c.func, ast.Attribute) and (n in PUREM or n in PUREF):
                continue
            return True
        if isinstance(c, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)):
            return True
    return False


def base(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def touches(s, names):
    """may the statement change what is known by these names?"""
    if isinstance(s, tuple):          # ("loop", node): a for loop's target
        return bool(set(assigned_names(s[1])) & names)
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in names:
            return True
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b = base(n)
            if b is None or b in names:
                return True
            if ALIAS.get(b, set()) & names:
                return True
        if isinstance(n, ast.Call):
            nm = call_name(n)
            if isinstance(n.func, ast.Name) and (nm in PURE or nm in PUREF):
                continue
            if isinstance(n.func, ast.Attribute):
                if nm in PUREM or nm in PUREF:
                    continue
                b = base(n.func)
                if b is None or b in names or ALIAS.get(b, set()) & names:
                    return True
            for a in list(n.args) + [k.value for k in n.keywords]:
                if {b for b in roots(a) if b not in NUMBERS} & names:
                    return True
            if "self" in names and not isinstance(n.func, ast.Attribute):
                pass
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            return True
    return False


ALIAS = {}
NUMBERS = set()


def paths(body, start):
    out = [start]
    for s in body:
        nxt = []
        for p in out:
            if p.end != "fall":
                nxt.append(p)
                continue
            nxt += step(s, p)
        out = nxt
        if len(out) > MAXPATHS:
            raise TooMany()
    return out


def setenv(p, t, v):
    for n in assigned_names(t):
        p.env.pop(n, None)
        p.defs.pop(n, None)
    if isinstance(t, ast.Name) and v is not None:
        if isinstance(v, (ast.Compare, ast.BoolOp, ast.Subscript)) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) or isinstance(v, ast.Call):
            if not calls_unknown(v) and t.id not in roots(v):
                p.defs[t.id] = (v, len(p.effs))
        c, k = const_of(v, p.env)
        if k and not isinstance(c, (list, dict, set)):
            p.env[t.id] = c


def step(s, p):
    if isinstance(s, ast.If):
        return [r for q in decide(s.test, True, p.fork()) for r in paths(s.body, q)] + [r for q in decide(s.test, False, p.fork()) for r in paths(s.orelse, q)]
    if isinstance(s, (ast.While, ast.For)):
        out = []
        zero = p.fork()
        if isinstance(s, ast.While):
            out += decide(s.test, False, zero)
            first = decide(s.test, True, p.fork())
        else:
            out.append(zero)
            q = p.fork()
            q.effs.append(("loop", s.target))
            for n in assigned_names(s.target):
                q.env.pop(n, None)
            first = [q]
        changed = {n for x in ast.walk(s) for n in (assigned_names(x) if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)) else [])}
        for q in first:
            # an iteration somewhere in the middle: what the loop assigns may be anything, or what it was before
            for r in paths(s.body, q):
                if r.end in ("return", "raise"):
                    out.append(r)
                    continue
                broke = r.end == "break"
                r.end = "fall"
                if broke:
                    out.append(r)
                    continue
                env = dict(r.env)
                ends = decide(s.test, False, r) if isinstance(s, ast.While) else [r]
                if not ends:
                    # more iterations follow: values of names assigned in the loop are not known then
                    r.env = {k: v for k, v in env.items() if k not in changed}
                    ends = decide(s.test, False, r) if isinstance(s, ast.While) else [r]
                out += ends
        for q in out:
            if q.end == "fall" and s.orelse:
                return [r for q2 in out for r in (paths(s.orelse, q2) if q2.end == "fall" else [q2])]
        return out
    if isinstance(s, ast.Try):
        a = paths(s.body, p.fork())
        out = []
        for q in a:
            if q.end == "fall" and s.orelse:
                out += paths(s.orelse, q)
            else:
                out.append(q)
        for h in s.handlers:
            out += paths(h.body, p.fork())
        if s.finalbody:
            res = []
            for q in out:
                e = q.end
                q.end = "fall"
                for r in paths(s.finalbody, q):
                    if r.end == "fall":
                        r.end = e
                    res.append(r)
            out = res
        return out
    if isinstance(s, ast.With):
        for i in s.items:
            p.effs.append(ast.Expr(value=i.context_expr))
        return paths(s.body, p)
    if isinstance(s, ast.Break):
        p.end = "break"
        return [p]
    if isinstance(s, ast.Continue):
        p.end = "continue"
        return [p]
    if isinstance(s, ast.Return):
        if s.value is not None:
            p.effs.append(ast.copy_location(ast.Expr(value=s.value), s))
        p.end = "return"
        return [p]
    if isinstance(s, ast.Raise):
        p.end = "raise"
        return [p]
    if isinstance(s, ast.Assert):
        return decide(s.test, True, p)
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
        return [p]
    p.effs.append(s)
    if isinstance(s, ast.Assign):
        for t in s.targets:
            setenv(p, t, s.value)
    elif isinstance(s, ast.AnnAssign):
        if s.value is not None:
            setenv(p, s.target, s.value)
    elif isinstance(s, ast.AugAssign):
        setenv(p, s.target, None)
    return [p]


# ------------------------------------------------------------------------------------------------ measures

def exits(fnbody_end):
    return fnbody_end


def comparisons(e, truth):
    """(left, op, right) that hold when e has this truth value (conjuncts)"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        yield from comparisons(e.operand, not truth)
    elif isinstance(e, ast.BoolOp):
        if isinstance(e.op, ast.And) == truth:
            for v in e.values:
                yield from comparisons(v, truth)
    elif isinstance(e, ast.Compare):
        if truth:
            l = e.left
            for o, r in zip(e.ops, e.comparators):
                yield l, type(o), r
                l = r
        elif len(e.ops) == 1:
            neg = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}.get(type(e.ops[0]))
            if neg:
                yield e.left, neg, e.comparators[0]


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq, ast.Eq: ast.Eq}


def delta(s, x, env=None):
    """by how much a statement changes the expression with this text: a number, 0, or None (unknown)"""
    if isinstance(s, tuple):
        return None if x in assigned_names(s[1]) else 0
    if isinstance(s, ast.AugAssign) and T(s.target) == x:
        if isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)):
            return s.value.value if isinstance(s.op, ast.Add) else -s.value.value
        return None
    if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
        ts = s.targets if isinstance(s, ast.Assign) else [s.target]
        if any(T(t) == x for t in ts):
            v = s.value
            if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub)):
                if T(v.left) == x and isinstance(v.right, ast.Constant) and isinstance(v.right.value, (int, float)):
                    return v.right.value if isinstance(v.op, ast.Add) else -v.right.value
                if isinstance(v.op, ast.Add) and T(v.right) == x and isinstance(v.left, ast.Constant) and isinstance(v.left.value, (int, float)):
                    return v.left.value
            return None
    b = base(ast.parse(x, mode="eval").body)
    if b is not None and isinstance(ast.parse(x, mode="eval").body, ast.Name):
        return None if touches_store(s, {b}) else 0
    # an element: its own root being reassigned, or its index
    e = ast.parse(x, mode="eval").body
    rs = roots(e)
    return None if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in rs for n in ast.walk(s)) else 0


def touches_store(s, names):
    """the statement may assign the name itself"""
    return any(isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in names for n in ast.walk(s))


def is_const(e):
    return isinstance(e, ast.Constant) or isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant)


def counter(loop, cont):
    """a counter that every way moves towards its bound; or ("wrong", why)"""
    cands = {}
    for i, p in enumerate(cont):
        seen = list(comparisons(loop.test, True)) + [c for e, t, _ in p.conds for c in comparisons(e, t)]
        for l, o, r in seen:
            for x, op, b in ((l, o, r), (r, FLIP.get(o), l)):
                if op in (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq) and not is_const(x):
                    cands.setdefault((T(x), op, T(b)), set()).add(i)
    for (x, op, b), where_ in cands.items():
        if len(where_) < len(cont):
            continue
        ok = True
        for p in cont:
            d = 0
            for s in p.effs:
                k = delta(s, x)
                if k is None:
                    ok = False
                    break
                if d and k and (k > 0) != (d > 0):
                    ok = False
                    break
                d += k
                if not is_const(ast.parse(b, mode="eval").body) and bound_moves(s, b, x):
                    ok = False
                    break
            if not ok:
                break
            if d == 0 or op in (ast.Lt, ast.LtE) and d < 0 or op in (ast.Gt, ast.GtE) and d > 0 or op is ast.NotEq and abs(d) != 1:
                ok = False
                break
        if ok:
            return "%s is counted" % x
    return None


def bound_moves(s, b, x):
    if b == x:
        return True
    e = ast.parse(b, mode="eval").body
    rs = roots(e)
    if isinstance(s, tuple):
        return bool(set(assigned_names(s[1])) & rs)
    if isinstance(e, ast.Name):
        return touches_store(s, rs)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and e.args:
        return touches(s, roots(e.args[0]))
    if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in rs for n in ast.walk(s)):
        return True
    # an attribute or element: assigned under the same text
    attr = e.attr if isinstance(e, ast.Attribute) else None
    for n in ast.walk(s):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr:
            return True
        if attr is None and isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and base(n) in rs:
            return True
    return False


def wrong_way(loop, cont):
    """the only comparison of the loop is with a counter that some way moves away from its bound and never towards it"""
    cs = list(comparisons(loop.test, True))
    if len(cs) != 1 or not isinstance(loop.test, ast.Compare):
        return None
    for l, o, r in cs:
        for x, op, b in ((l, o, r), (r, FLIP.get(o), l)):
            if op not in (ast.Lt, ast.LtE, ast.Gt, ast.GtE) or is_const(x) or not isinstance(x, ast.Name):
                continue
            for p in cont:
                ds = [delta(s, T(x)) for s in p.effs]
                if any(d is None for d in ds) or not any(ds):
                    continue
                if any(bound_moves(s, T(b), T(x)) for s in p.effs if not is_const(b)):
                    continue
                if all(d <= 0 for d in ds) and op in (ast.Lt, ast.LtE) or all(d >= 0 for d in ds) and op in (ast.Gt, ast.GtE):
                    return "%s moves away from %s" % (T(x), T(b))
    return None


# ---- stacks and queues

def last_field(e, name):
    """name.f.g: a chain of attributes"""
    d = 0
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        if isinstance(e, ast.Subscript) and not (isinstance(e.slice, ast.Constant) and e.slice.value == 0):
            return False
        d += isinstance(e, ast.Attribute)
        e = e.value
    return d >= 1 and isinstance(e, ast.Name) and e.id == name


def pops(s, fields=None):
    """(name, target of what is taken)"""
    out = []
    if isinstance(s, tuple):
        return out
    for n in ast.walk(s):
        if isinstance(n, ast.Call):
            f = call_name(n) or ""
            if isinstance(n.func, ast.Attribute) and f in SHRINK:
                b = T(n.func.value)
                tgt = s.targets[0] if isinstance(s, ast.Assign) and s.value is n else None
                out.append((b, tgt))
            elif isinstance(n.func, ast.Name) and "pop" in f and n.args:
                b = T(n.args[0])
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and T(s.targets[0].elts[0]) == b:
                    out.append((b, s.targets[0].elts[1] if len(s.targets[0].elts) > 1 else None))
                elif "heappop" in f:
                    out.append((b, s.targets[0] if isinstance(s, ast.Assign) else None))
    if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
        t = s.targets[0] if isinstance(s, ast.Assign) else s.target
        if isinstance(t, ast.Name):
            if last_field(s.value, t.id):
                out.append((t.id, None))
            if fields and isinstance(s.value, ast.Name) and fields.get(s.value.id) == t.id:
                out.append((t.id, None))
            if isinstance(s.value, ast.Subscript) and isinstance(s.value.slice, ast.Slice) and T(s.value.value) == t.id and (s.value.slice.lower is not None or s.value.slice.upper is not None):
                out.append((t.id, None))
        if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple):
            for a, b in zip(t.elts, s.value.elts):
                if isinstance(a, ast.Name) and last_field(b, a.id):
                    out.append((a.id, None))
    if isinstance(s, ast.Delete):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                out.append((T(t.value), None))
    return out


def pushes(s):
    """(name, pushed element or None, guards of a comprehension)"""
    out = []
    if isinstance(s, tuple):
        return out
    for n in ast.walk(s):
        if isinstance(n, ast.Call):
            f = call_name(n) or ""
            if isinstance(n.func, ast.Attribute) and f in GROW and n.args:
                if f in ("extend", "update", "extendleft"):
                    a = n.args[0]
                    if isinstance(a, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
                        out.append((T(n.func.value), a.elt, [i for g in a.generators for i in g.ifs]))
                    elif isinstance(a, (ast.List, ast.Tuple, ast.Set)):
                        out += [(T(n.func.value), x, []) for x in a.elts]
                    else:
                        out.append((T(n.func.value), None, []))
                else:
                    out.append((T(n.func.value), n.args[-1], []))
            elif isinstance(n.func, ast.Name) and "push" in f and len(n.args) >= 2:
                out.append((T(n.args[0]), n.args[1], []))
    if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.BitOr)) and isinstance(s.value, (ast.List, ast.Set, ast.Tuple)):
        out += [(T(s.target), x, []) for x in s.value.elts]
    if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.BitOr)) and isinstance(s.value, (ast.ListComp, ast.SetComp)):
        out.append((T(s.target), s.value.elt, [i for g in s.value.generators for i in g.ifs]))
    return out


def mark_of(e, truth):
    """(container text, element text, kind): a test that the element is not marked yet"""
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e, truth = e.operand, not truth
    if isinstance(e, ast.Subscript) and not truth:
        return T(e.value), T(e.slice), "", None
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Subscript) and not truth:
        return T(e.value.value), T(e.value.slice), e.attr, None
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and not truth:
        return e.value.id, e.value.id, e.attr, None
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        o, l, r = e.ops[0], e.left, e.comparators[0]
        if isinstance(o, ast.NotIn) and truth or isinstance(o, ast.In) and not truth:
            return T(r), T(l), "in", None
        eq = isinstance(o, (ast.Eq, ast.Is)) and truth or isinstance(o, (ast.NotEq, ast.IsNot)) and not truth
        if eq:
            if not is_const(r) and is_const(l):
                l, r = r, l
            if is_const(r) or isinstance(r, ast.Name) and r.id == "NULL":
                if isinstance(l, ast.Subscript):
                    return T(l.value), T(l.slice), "", T(r)
                if isinstance(l, ast.Attribute) and isinstance(l.value, ast.Subscript):
                    return T(l.value.value), T(l.value.slice), l.attr, T(r)
    if isinstance(e, ast.Call) and not truth and len(e.args) == 2 and (call_name(e) or "").startswith("in_"):
        return T(e.args[0]), T(e.args[1]), "in", None
    return None


def marks(s, m):
    """element texts that the statement marks / unmarks in the container of m"""
    cont, el, kind, val = m
    on, off = [], []
    if isinstance(s, tuple):
        return on, off
    def assigned(t, v):
        if kind == "" and isinstance(t, ast.Subscript) and T(t.value) == cont:
            put(T(t.slice), v)
        elif kind not in ("", "in") and isinstance(t, ast.Attribute) and t.attr == kind and isinstance(t.value, ast.Subscript) and T(t.value.value) == cont:
            put(T(t.value.slice), v)
        elif kind not in ("", "in") and isinstance(t, ast.Subscript) and T(t.value) == cont:
            on.append(T(t.slice))              # the whole element
        elif kind not in ("", "in") and isinstance(t, ast.Attribute) and t.attr == kind and T(t.value) == el:
            put(el, v)
        elif kind == "in" and isinstance(t, ast.Subscript) and T(t.value) == cont:
            on.append(T(t.slice))

    def put(x, v):
        if val is not None:
            (off if T(v) == val else on).append(x)
        elif isinstance(v, ast.Constant) and not v.value:
            off.append(x)
        elif isinstance(v, ast.Constant):
            on.append(x)
        else:
            on.append(x)
    if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
        for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
            if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                for a, b in zip(t.elts, s.value.elts):
                    assigned(a, b)
            else:
                assigned(t, s.value)
    if isinstance(s, ast.AugAssign):
        if T(s.target) == cont and kind == "in" and isinstance(s.op, (ast.BitOr, ast.Add)):
            on.append("*")
        elif isinstance(s.target, ast.Subscript) and T(s.target.value) == cont and isinstance(s.op, ast.Add):
            on.append(T(s.target.slice))
    for n in ast.walk(s):
        if isinstance(n, ast.Call):
            f = call_name(n) or ""
            if isinstance(n.func, ast.Attribute) and T(n.func.value) == cont and kind == "in":
                if f in ("add", "append", "insert", "appendleft") and n.args:
                    on.append(T(n.args[-1]))
                elif f in ("update", "extend", "union"):
                    on.append("*")
                elif f in ("remove", "discard", "clear", "pop"):
                    off.append("*" if not n.args else T(n.args[0]))
                elif f == "setdefault" and n.args:
                    on.append(T(n.args[0]))
            elif isinstance(n.func, ast.Name) and f.startswith("add_to") and len(n.args) == 2 and T(n.args[0]) == cont and kind == "in":
                on.append(T(n.args[1]))
    return on, off


def worklist(loop, cont, allpaths):
    """(True, why) | (False, why, line) | None"""
    names = {}
    for p in cont:
        fields = {}
        for s in p.effs:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(t, ast.Name) and isinstance(s.value, ast.Attribute):
                    b = base(s.value)
                    if b is not None and last_field(s.value, b):
                        fields[t.id] = b
            for b, tgt in pops(s, fields):
                names.setdefault(b, []).append(tgt)
    verdict = None
    for S, tgts in names.items():
        r = stack_ok(loop, cont, S, allpaths)
        if r is not None and r[0]:
            return r
        verdict = verdict or r
    return verdict


def stack_ok(loop, cont, S, allpaths):
    popped_any = False
    for p in cont:
        fields, npop, z = {}, 0, set()
        push = []
        for k, s in enumerate(p.effs):
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(t, ast.Name) and isinstance(s.value, ast.Attribute):
                    b = base(s.value)
                    if b is not None and last_field(s.value, b):
                        fields[t.id] = b
                        if b == S:
                            z.add(t.id)          # the element on top
                if isinstance(t, ast.Name) and isinstance(s.value, ast.Subscript) and T(s.value.value) == S:
                    z.add(t.id)
            for b, tgt in pops(s, fields):
                if b == S:
                    npop += 1
                    if tgt is not None:
                        z |= {x.id for x in ast.walk(tgt) if isinstance(x, ast.Name)}
            for b, y, g in pushes(s):
                if b == S:
                    push.append((k, s, y, g))
            if not isinstance(s, tuple) and isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == S for t in s.targets) and not any(b == S for b, _ in pops(s, fields)) and not any(b == S for b, _, _ in pushes(s)):
                return None
        popped_any = popped_any or npop > 0
        if not push:
            if npop == 0:
                return None
            continue
        for k, s, y, g in push:
            if y is None:
                return None
            r = new_element(loop, p, allpaths, k, s, y, g, z, S)
            if r is not True:
                return r
    if not popped_any:
        return None
    return True, "elements are taken from %s" % S


def local_parts(loop, y, p, k):
    """the pushed thing is an element of something made in this iteration"""
    b = base(y)
    if b is None:
        return False
    if isinstance(y, ast.Name):
        src = [s for s in p.effs[:k] if isinstance(s, tuple) and y.id in assigned_names(s[1])]
        return False if not src else None
    return any(isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and any(isinstance(t, ast.Name) and t.id == b for t in (s.targets if isinstance(s, ast.Assign) else [s.target])) for s in p.effs[:k] if not isinstance(s, tuple))


def new_element(loop, p, allpaths, k, s, y, g, z, S):
    yt = T(y)
    texts = {yt}
    if isinstance(y, ast.Tuple):
        texts |= {T(x) for x in y.elts}
    guards = [(e, t) for e, t, at in p.conds if at <= k] + [(x, True) for x in g]
    flat = []
    for e, t in guards:
        flat += flatten(e, t)
    ms, other = [], False
    for e, t in flat:
        m = mark_of(e, t)
        if m is not None and m[1] in texts:
            ms.append(m)
        elif mark_of(e, not t) is not None and mark_of(e, not t)[1] in texts and mark_of(e, not t)[2] != "in":
            continue                     # that it is marked already does not keep it off
        elif {x for x in roots(e)} & {x.id for x in ast.walk(y) if isinstance(x, ast.Name)}:
            other = True
    taken_back, never = [], []
    for m in ms:
        stores, unset = False, False
        for q in allpaths:
            for st in q.effs:
                on, off = marks(st, m)
                stores = stores or bool(on)
                unset = unset or bool(off)
        if unset:
            taken_back.append(m)
            continue
        if not stores:
            if m[0] == S or any(touches(st, {base(ast.parse(m[0], mode="eval").body)}) for q in allpaths for st in q.effs if base(ast.parse(m[0], mode="eval").body)):
                other = True
            else:
                never.append(m)
            continue
        # on this path: the pushed element, or the one that is being looked at
        good = False
        for st in p.effs:
            on, _ = marks(st, m)
            if "*" in on or set(on) & (texts | z):
                good = True
        for e, t, _ in p.conds:
            # already marked: the test of the same container with the element being looked at came out the other way
            m2 = mark_of(e, not t)
            if m2 is not None and m2[0] == m[0] and m2[2] == m[2] and m2[1] in z and mark_of(e, t) is None:
                good = True
        if good:
            return True
        other = True
    d = y
    for _ in range(0 if ms else 3):
        if not isinstance(d, ast.Name):
            break
        v = next((x.value for x in reversed(p.effs[:k]) if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None and any(isinstance(t, ast.Name) and t.id == d.id for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))), None)
        if not isinstance(v, (ast.Name, ast.Subscript, ast.Attribute)):
            break
        d = v
    y0, y = y, d
    lp = local_parts(loop, y, p, k)
    if lp or lp is None:
        N = bound_of(loop, s)
        b = base(y)
        plain = True
        one = N is not None and any(T(a) == N and op is ast.Eq and isinstance(c, ast.Constant) and c.value == 1 for e, t in flat for l, o, r in comparisons(e, t) for a, op, c in ((l, o, r), (r, FLIP.get(o), l)))
        for e, t in flat:
            if N is not None:
                for l, o, r in comparisons(e, t):
                    for a, op, c in ((l, o, r), (r, FLIP.get(o), l)):
                        if T(a) == N and isinstance(c, ast.Constant) and isinstance(c.value, (int, float)) and op is not None and not holds(1, op, c.value):
                            return True
            else:
                for l, o, r in comparisons(e, t):
                    for a, op, c in ((l, o, r), (r, FLIP.get(o), l)):
                        if isinstance(c, ast.Constant) and (op is ast.NotEq and c.value == 1 or op is ast.Gt and c.value == 1 or op is ast.GtE and c.value == 2):
                            return True
            if tests_loop(loop, e) or is_null_test(e):
                continue
            if one and not calls_unknown(e) and not ({b} | {x for x in roots(y0)}) & roots(e) and not any(isinstance(x, ast.Call) for x in ast.walk(e)):
                continue
            if N is not None and isinstance(e, ast.Compare) and len(e.ops) == 1 and (T(e.left) == N and isinstance(e.comparators[0], ast.Constant) or T(e.comparators[0]) == N and isinstance(e.left, ast.Constant)):
                continue
            if isinstance(e, ast.Compare) and not calls_unknown(e) and b not in roots(e) and N is not None and not (roots(e) & roots(ast.parse(N, mode="eval").body)) and not any(isinstance(x, ast.Call) for x in ast.walk(e)) \
                    and any(isinstance(x, ast.Constant) for x in [e.left] + e.comparators):
                continue
            plain = False
        if lp and plain:
            return False, "what was taken goes back in parts, also when there is one part only", getattr(s, "lineno", 0)
        return None
    if other:
        return None
    if taken_back and not never:
        return False, "%s is put onto %s again: the only mark that it was there, %s, is taken back" % (yt, S, taken_back[0][0]), s.lineno
    if never:
        return False, "%s is put onto %s again and again: nothing in the loop sets the mark %s" % (yt, S, never[0][0]), s.lineno
    if yt in z or not ms:
        return False, "%s is put onto %s whether or not it was there before" % (yt, S), s.lineno
    return None


def bound_of(loop, s):
    """how often the innermost loop around a statement runs"""
    best = None
    for n in ast.walk(loop):
        if n is not loop and isinstance(n, (ast.While, ast.For)) and any(x is s for x in ast.walk(n)):
            best = n if best is None or any(x is n for x in ast.walk(best)) else best
    if best is None:
        return None
    if isinstance(best, ast.For):
        i = best.iter
        if isinstance(i, ast.Call) and call_name(i) == "range" and i.args:
            return T(i.args[-1]) if len(i.args) < 3 else None
        return "len(%s)" % T(i)
    for l, o, r in comparisons(best.test, True):
        if o in (ast.Gt, ast.GtE) and is_const(r) and isinstance(l, ast.Name):
            # counted down from
            for n in ast.walk(loop):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == l.id for t in n.targets) and not any(x is n for x in ast.walk(best)):
                    v = n.value
                    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Sub) and isinstance(v.right, ast.Constant):
                        v = v.left
                    if isinstance(v, (ast.Name, ast.Call)) and any(isinstance(c, ast.Compare) and T(v) in (T(c.left), T(c.comparators[0])) for c in ast.walk(loop)):
                        return T(v)
            continue
        if o in (ast.Lt, ast.NotEq) and not is_const(r):
            return T(r)
        if o is ast.Gt and not is_const(l):
            return T(l)
    return None


def holds(v, op, c):
    return {ast.Eq: v == c, ast.NotEq: v != c, ast.Lt: v < c, ast.LtE: v <= c, ast.Gt: v > c, ast.GtE: v >= c}.get(op, True)


def is_null_test(e):
    return isinstance(e, ast.Compare) and len(e.comparators) == 1 and isinstance(e.comparators[0], (ast.Name, ast.Constant)) and T(e.comparators[0]) in ("NULL", "None")


def tests_loop(loop, e):
    """the loop's own conditions and those of counting loops inside"""
    for n in ast.walk(loop):
        if isinstance(n, ast.While) and any(T(x) == T(e) for x, _ in flatten(n.test, True)):
            return True
    return False


def flatten(e, t):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return flatten(e.operand, not t)
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) == t:
        return [x for v in e.values for x in flatten(v, t)]
    return [(e, t)]


def stuck(loop, cont):
    """a way through the body that will be taken for ever"""
    if calls_unknown(loop.test):
        return None
    for p in cont:
        names = set(roots(loop.test))
        bad = False
        for e, t, _ in p.conds:
            if calls_unknown(e):
                bad = True
                break
            names |= roots(e)
        if bad:
            continue
        # values that the conditions' names get within the iteration from other names
        changed = True
        while changed:
            changed = False
            for s in p.effs:
                if isinstance(s, tuple):
                    continue
                if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and s.value is not None:
                    if set(assigned_names(s)) & names:
                        new = roots(s.value) - names
                        if new:
                            names |= new
                            changed = True
        if any(isinstance(s, tuple) and set(assigned_names(s[1])) & names for s in p.effs):
            continue
        ok = True
        for s in p.effs:
            if isinstance(s, tuple):
                continue
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and not calls_unknown(s.value):
                # a recomputation from things that do not change
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if all(isinstance(t, ast.Name) or isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts) for t in ts) and not (roots(s.value) & set(assigned_names(s))):
                    first = [q for q in p.effs if not isinstance(q, tuple) and set(assigned_names(q)) & set(assigned_names(s))]
                    if len(first) == 1:
                        # its value before must not matter: not read before in this iteration, nor in the loop's condition
                        if not (set(assigned_names(s)) & roots(loop.test)) and not any(set(assigned_names(s)) & roots(e) for e, t, at in p.conds if at <= p.effs.index(s)):
                            continue
            if touches(s, names):
                ok = False
                break
        if ok:
            line = p.conds[-1][0].lineno if p.conds and hasattr(p.conds[-1][0], "lineno") else loop.lineno
            return "a way through the loop changes nothing that its conditions depend on (%s)" % ", ".join(("" if t else "not ") + T(e)[:50] for e, t, _ in p.conds[-3:]), line
    return None


def loop_paths(loop):
    out = []
    for q in decide(loop.test, True, Path()):
        q.conds = []
        out += paths(loop.body, q)
    return out


def prepare(fn, repo):
    """names that hold plain numbers; names that stand for parts of others"""
    NUMBERS.clear()
    ALIAS.clear()
    if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return
    num = {a.arg for a in fn.args.args if isinstance(a.annotation, ast.Constant) and a.annotation.value in ("int", "long", "double", "float", "bint", "size_t")}
    for n in ast.walk(fn):
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and isinstance(n.annotation, ast.Constant) and n.annotation.value in ("int", "long", "double", "float", "bint", "size_t"):
            num.add(n.target.id)
    cand = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            cand.setdefault(n.targets[0].id, []).append(n.value)
            v = n.value
            if isinstance(v, ast.Call) and call_name(v) == "__addr__" and v.args:
                v = v.args[0]
            b = base(v) if isinstance(v, (ast.Attribute, ast.Subscript, ast.Name)) else None
            if b:
                ALIAS.setdefault(n.targets[0].id, set()).add(b)
    for n in ast.walk(fn):
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            v = n.value
            if isinstance(v, ast.Call) and call_name(v) == "__addr__" and v.args:
                v = v.args[0]
            b = base(v) if isinstance(v, (ast.Attribute, ast.Subscript, ast.Name)) else None
            if b:
                ALIAS.setdefault(n.target.id, set()).add(b)

    def number(v):
        return isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) or isinstance(v, ast.Call) and call_name(v) == "len" \
            or isinstance(v, ast.BinOp) and number(v.left) and number(v.right) or isinstance(v, ast.Name) and v.id in num
    for k, vs in cand.items():
        if all(number(v) or isinstance(v, ast.BinOp) and isinstance(v.left, ast.Name) and v.left.id == k and number(v.right) for v in vs):
            num.add(k)
    NUMBERS.update(num)


def owner(tree):
    out = []

    def go(n, f):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                go(c, c)
            else:
                if isinstance(c, (ast.While, ast.For)):
                    out.append((c, f))
                go(c, f)
    go(tree, None)
    return out


def test_module(m):
    return ".test" in m.name or m.path.split("/")[-1].startswith("test_")


def pure_functions(repo):
    """repository functions that change nothing but their own local variables"""
    out, cand = set(), {}
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef):
                cand.setdefault(n.name, []).append(n)

    def pure(n):
        for x in ast.walk(n):
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                return False
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Await)):
                return False
            if isinstance(x, ast.Call):
                c = call_name(x)
                if isinstance(x.func, ast.Name) and c not in ("free",) and (c in PURE or c in out or c in cur):
                    continue
                if isinstance(x.func, ast.Attribute) and (c in PUREM or c in out or c in cur):
                    continue
                return False
        return True
    cur = set(cand)
    while True:
        nxt = {k for k in cur if all(pure(n) for n in cand[k])}
        if nxt == cur:
            break
        cur = nxt
    return cur - {"free", "pop", "push"}


def run(ctx):
    from ..front import Repo
    ctx.rule("C21.R1", "every way through a while loop's body moves a measure towards the end")
    ctx.rule("C21.R2", "for loops run over something finite that their body does not make longer")
    ctx.rule("C21.R3", "recursive calls get something smaller")
    ctx.rule("C21.R4", "compiled functions recurse over randomly balanced trees only")
    repo = Repo(ctx.repo.root, with_pyx=True)
    PUREF.clear()
    PUREF.update(pure_functions(repo))
    for m in repo.modules.values():
        if test_module(m):
            continue
        for loop, fn in owner(m.tree):
            name = "%s.%s" % (m.name, fn.name if fn is not None else "<module>")
            ctx.functions.add(name)
            if isinstance(loop, ast.While):
                con = "%s: while %s" % (name, T(loop.test)[:60])
                prepare(fn, repo)
                ctx.count("while loops", 1)
                a = while_loop(loop)
                if a[0] is None:
                    ctx.undecided("C21.R1", con, a[1])
                else:
                    ctx.decide("C21.R1", con, a[0], a[1], m.path, a[2] if len(a) > 2 else loop.lineno)
            else:
                ctx.count("for loops", 1)
                con = "%s: for %s in %s" % (name, T(loop.target)[:30], T(loop.iter)[:40])
                prepare(fn, repo)
                a = for_loop(loop, m)
                if a[0] is None:
                    ctx.undecided("C21.R2", con, a[1])
                else:
                    ctx.decide("C21.R2", con, a[0], a[1], m.path, loop.lineno)
    recursion(ctx, repo)


def never_taken(loop, ps):
    """nothing ever leaves the stack, the set or the counter that the loop waits for"""
    if any(p.end in ("break", "return", "raise") for p in ps) or calls_unknown(loop.test):
        return None
    if isinstance(loop.test, ast.Constant):
        return None
    rs = {base(x) if not isinstance(x, ast.Name) else x.id for x in ast.walk(loop.test) if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript))} - {None, "NULL", "len"}
    waits = is_null_test(loop.test) and isinstance(loop.test.ops[0], (ast.NotEq, ast.IsNot)) or isinstance(loop.test, ast.Name) or isinstance(loop.test, ast.Compare) and isinstance(loop.test.left, ast.Call) and call_name(loop.test.left) == "len"
    for p in ps:
        for s in p.effs:
            if not touches(s, rs):
                continue
            if waits and isinstance(s, (ast.Assign, ast.Expr)) and any(b in rs for b, _, _ in pushes(s)) and not any(b in rs for b, _ in pops(s)):
                continue
            if not isinstance(s, tuple) and not any(isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in rs for x in ast.walk(s)) and all(isinstance(x.ctx, ast.Load) or base(x) not in rs for x in ast.walk(s) if isinstance(x, (ast.Attribute, ast.Subscript))) \
                    and not any(isinstance(c, ast.Call) for c in ast.walk(s)) and all(isinstance(x, ast.Name) or is_null_test(loop.test) for x in [loop.test if isinstance(loop.test, ast.Name) else loop.test]) :
                continue
            return None
    return "nothing that the loop waits for changes in its body"


def while_loop(loop):
    try:
        ps = loop_paths(loop)
    except TooMany:
        return None, "too many ways through the body"
    except RecursionError:
        return None, "too deep"
    cont = [p for p in ps if p.end in ("fall", "continue")]
    if not cont:
        return True, "no way leads back"
    w = wrong_way(loop, cont)
    if w:
        return False, w
    s = stuck(loop, cont)
    if s is not None:
        return False, s[0], s[1]
    c = counter(loop, cont)
    if c:
        return True, c
    n = never_taken(loop, ps)
    if n:
        return False, n
    r = worklist(loop, cont, ps)
    if r is not None:
        return (r[0], r[1]) + tuple(r[2:])
    return None, "no measure recognised"


ENDLESS = {"count", "cycle"}


def for_loop(loop, m):
    it = loop.iter
    grows = None
    try:
        ps = paths(loop.body, Path())
    except (TooMany, RecursionError):
        ps = None
    if isinstance(it, ast.Call):
        f = call_name(it)
        lib = isinstance(it.func, ast.Attribute) and isinstance(it.func.value, ast.Name) and m.names.get(it.func.value.id) in ("itertools",) or isinstance(it.func, ast.Attribute) and T(it.func.value) in ("itertools", "it")
        frm = isinstance(it.func, ast.Name) and "itertools" in str(m.names.get(f, ""))
        if f in ENDLESS and (lib or frm) or f == "repeat" and (lib or frm) and len(it.args) == 1 or f == "iter" and isinstance(it.func, ast.Name) and len(it.args) == 2:
            if ps is None:
                return None, "too many ways"
            if not any(p.end in ("break", "return", "raise") for p in ps):
                return False, "runs over something endless and nothing ends it"
            return None, "runs over something endless; whether a way out is taken is not decided"
    if isinstance(it, (ast.Name, ast.Attribute)) and ps is not None:
        t = T(it)
        for p in ps:
            if p.end not in ("fall", "continue"):
                continue
            g = []
            for s in p.effs:
                if isinstance(s, tuple):
                    continue
                for n in ast.walk(s):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "insert", "extend") and T(n.func.value) == t:
                        g.append((n, s))
                if isinstance(s, ast.AugAssign) and T(s.target) == t and isinstance(s.value, (ast.List, ast.ListComp)):
                    g.append((s, s))
            if not g:
                continue
            # guarded by a test whose outcome the body can change?
            vs = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
            conds = [e for e, tv, _ in p.conds]
            if not conds:
                return False, "the body makes the sequence it runs over longer each time"
            grows = "the body makes the sequence it runs over longer under a condition"
    if grows:
        return None, grows
    return True, "finite"


# ------------------------------------------------------------------------------------------------ recursion

def recursion(ctx, repo):
    funcs = {}
    for m in repo.modules.values():
        if test_module(m):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                funcs.setdefault(n.name, []).append((n, m))
    module_of = {}
    edges = {}

    def callees(n, m):
        for c in ast.walk(n):
            if not isinstance(c, ast.Call):
                continue
            f = c.func
            if isinstance(f, ast.Name):
                # a local or module function of that name
                for x, mx in funcs.get(f.id, []):
                    if mx is m or f.id in m.names:
                        yield c, x, mx
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls"):
                for x, mx in funcs.get(f.attr, []):
                    if mx is m:
                        yield c, x, mx
            elif isinstance(f, ast.Attribute) and T(f.value) == "super()":
                continue
    own = {}
    for name, fs in funcs.items():
        for n, m in fs:
            own[id(n)] = (n, m)
            edges[id(n)] = [(c, id(x)) for c, x, mx in callees(n, m) if not classes_differ(n, x, m)]
    reach = {}

    def closure(i):
        if i in reach:
            return reach[i]
        seen, todo = set(), [i]
        while todo:
            k = todo.pop()
            for _, j in edges.get(k, []):
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
        reach[i] = seen
        return seen
    ctx.count("functions looked at for recursion", len(own))
    for i, (n, m) in own.items():
        if i not in closure(i):
            continue
        con = "%s.%s" % (m.name, n.name)
        ctx.functions.add(con)
        native = m.is_pyx
        ok, why, line = True, "", n.lineno
        for c, j in edges[i]:
            if i not in closure(j) and j != i:
                continue
            callee = own[j][0]
            r = smaller(n, c, callee, native)
            if r[0] is False:
                ok, why, line = False, r[1], c.lineno
                break
            if r[0] is None and ok:
                ok, why, line = None, r[1], c.lineno
            if native and r[0] is True:
                d = depth(n, m, repo, funcs, c, callee)
                if d is not None:
                    con4 = "%s.%s recursion" % (m.name, n.name)
                    ctx.decide("C21.R4", con4, d[0], d[1], m.path, c.lineno) if d[0] is not None else ctx.undecided("C21.R4", con4, d[1])
        if ok is None:
            if native and any(marked(n, c) for c, j in edges[i]):
                ctx.decide("C21.R4", "%s recursion" % con, False, "one level of recursion per state that is met: the stack needed is proportional to the number of states", m.path, line)
            ctx.undecided("C21.R3", con, why)
        else:
            ctx.decide("C21.R3", con, ok, why, m.path, line)
    balance(ctx, repo, funcs)


def classes_differ(n, x, m):
    """methods of the same name in different classes of a module are different functions"""
    a = [c for c in ast.walk(m.tree) if isinstance(c, ast.ClassDef) and n in c.body]
    b = [c for c in ast.walk(m.tree) if isinstance(c, ast.ClassDef) and x in c.body]
    return bool(a and b and a[0] is not b[0])


def marked(fn, call):
    """the call is made under a test that a mark is missing, which is set on the way"""
    prepare(fn, None)
    try:
        qs = paths(fn.body, Path())
    except (TooMany, RecursionError):
        return False
    for p in qs:
        at = next((k for k, s in enumerate(p.effs) if not isinstance(s, tuple) and any(x is call for x in ast.walk(s))), None)
        if at is None:
            continue
        for e, t, k in p.conds:
            for a, u in flatten(e, t):
                m = mark_of(a, u)
                if m is not None and k <= at and any(marks(s, m)[0] for q in qs for s in q.effs):
                    return True
    return False


def smaller(fn, call, callee, native):
    ps = [a.arg for a in fn.args.args]
    qs = [a.arg for a in callee.args.args]
    args = list(call.args)
    method = qs and qs[0] == "self"
    if method and isinstance(call.func, ast.Attribute):
        args = [call.func.value] + args
    local = {}
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Name):
                    local.setdefault(t.id, []).append(n.value)
        elif isinstance(n, ast.For):
            for x in assigned_names(n.target):
                local.setdefault(x, []).append(n.iter)
        elif isinstance(n, ast.comprehension):
            for x in assigned_names(n.target):
                local.setdefault(x, []).append(n.iter)
    # the state may be changed before the call: then passing the same is not the same
    same = 0
    changed = False
    for k, a in enumerate(args):
        if part(a, ps, local, 0):
            return True, "part of a parameter"
        if isinstance(a, ast.Name) and a.id in ps and a.id not in local and k < len(qs):
            same += 1
            continue
        if is_const(a):
            # a constant that differs from the test it was called under
            continue
        changed = True
    for k in call.keywords:
        if not (isinstance(k.value, ast.Name) and k.value.id in ps and k.arg == k.value.id):
            changed = True
    if callee is fn:
        g = same_again(fn, call, args, ps)
        if g:
            return False, g
    if not changed and callee is fn and same == len(args) and same == len(ps):
        pre = [s for s in ast.walk(fn) if isinstance(s, (ast.Attribute, ast.Subscript)) and isinstance(s.ctx, ast.Store)] + [s for s in ast.walk(fn) if isinstance(s, ast.Call) and s is not call and call_name(s) not in PURE]
        if not pre:
            return False, "the recursive call is given the same again"
        return None, "the recursive call is given the same again, after changes"
    return None, "not seen to get smaller"


def same_again(fn, call, args, ps):
    """a way to the recursive call whose conditions depend only on what is passed on unchanged"""
    prepare(fn, None)
    keep = {a.id for a, q in zip(args, ps) if isinstance(a, ast.Name) and a.id == q}
    try:
        qs = paths(fn.body, Path())
    except (TooMany, RecursionError):
        return None
    for p in qs:
        at = next((k for k, s in enumerate(p.effs) if not isinstance(s, tuple) and any(x is call for x in ast.walk(s))), None)
        if at is None:
            continue
        conds = [e for e, t, k in p.conds if k <= at]
        if any(calls_unknown(e) for e in conds):
            continue
        if not all(roots(e) <= keep for e in conds):
            continue
        before = p.effs[:at]
        names = set().union(*[roots(e) for e in conds]) if conds else set()
        if any(touches(s, names) for s in before) or any(isinstance(s, tuple) for s in before) and not conds:
            continue
        if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in keep & names for s in before if not isinstance(s, tuple) for x in ast.walk(s)):
            continue
        return "the way to the recursive call depends only on what is passed on as it is (%s)" % ", ".join(sorted(names) or ["nothing"])
    return None


def part(a, ps, local, d):
    """an expression for a proper part of a parameter"""
    if d > 3:
        return False
    if isinstance(a, ast.Call) and call_name(a) in ("__cast__", "__addr__") and a.args:
        return part(a.args[-1], ps, local, d)
    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id in ps and a.value.id != "self":
        return True
    if isinstance(a, ast.Attribute):
        return part(a.value, ps, local, d)
    if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id in ps:
        if isinstance(a.slice, ast.Slice):
            lo = a.slice.lower
            return lo is not None and not (isinstance(lo, ast.Constant) and lo.value == 0) or a.slice.upper is not None
        return True
    if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Subscript):
        return part(a.value, ps, local, d)
    if isinstance(a, ast.BinOp) and isinstance(a.op, (ast.Sub, ast.FloorDiv)) and isinstance(a.left, ast.Name) and a.left.id in ps and isinstance(a.right, ast.Constant):
        return True
    if isinstance(a, ast.Name) and a.id in local and a.id not in ps:
        vs = local[a.id]
        return all(part(v, ps, local, d + 1) or isinstance(v, ast.Name) and v.id in ps and iterates(v.id) for v in vs) if vs else False
    return False


def iterates(n):
    return True


def depth(fn, m, repo, funcs, call, callee):
    """how deep a compiled recursion over linked structures gets"""
    types = {a.arg: a.annotation.value for a in callee.args.args if isinstance(a.annotation, ast.Constant)}
    for a, p in zip(call.args, callee.args.args):
        if isinstance(a, ast.Attribute):
            t = types.get(p.arg, "")
            if not t.rstrip().endswith("*"):
                continue
            st = t.rstrip()[:-1].strip()
            links = set()
            for mm in repo.modules.values():
                for c in ast.walk(mm.tree):
                    if isinstance(c, ast.ClassDef) and c.name == st and getattr(c, "cstruct", False):
                        for s in c.body:
                            if isinstance(s, ast.AnnAssign) and isinstance(s.annotation, ast.Constant) and s.annotation.value.replace(" ", "") == st + "*":
                                links.add(s.target.id)
            for f in pxd_links(repo, m, st):
                links.add(f)
            if len(links) == 1:
                return False, "one level of recursion per element of a list"
            if len(links) >= 2:
                return True, "over a tree"
            return None, "structure %s is not known" % st
    return None


def pxd_links(repo, m, st):
    import os, re
    d = os.path.join(repo.root, os.path.dirname(m.path))
    out = set()
    for f in os.listdir(d):
        if f.endswith((".pxd", ".pyx")):
            s = open(os.path.join(d, f), encoding="utf-8").read()
            b = re.search(r"cdef\s+struct\s+%s\s*:\s*\n((?:[ \t]+.*\n?)+)" % re.escape(st), s)
            if b:
                out |= set(re.findall(r"^\s+%s\s*\*\s*(\w+)" % re.escape(st), b.group(1), re.M))
    return out


RAND = {"rand", "random", "drand48", "lrand48", "rand_r", "randint", "randrange", "getrandbits"}


def balance(ctx, repo, funcs):
    """the nodes of search trees get their place in the balancing order at random"""
    draws = set(RAND)
    changed = True
    while changed:
        changed = False
        for name, fs in funcs.items():
            if name in draws:
                continue
            for n, m in fs:
                rs = [s.value for s in ast.walk(n) if isinstance(s, ast.Return) and s.value is not None]
                if m.is_pyx and rs and all(random_value(v, n, draws) for v in rs):
                    draws.add(name)
                    changed = True
    found = False
    for m in repo.modules.values():
        if not m.is_pyx or test_module(m):
            continue
        for fn in ast.walk(m.tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            for s in ast.walk(fn):
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and s.targets[0].attr == "heap_key":
                    found = True
                    ok = random_value(s.value, fn, draws)
                    ctx.decide("C21.R4", "%s.%s: heap_key" % (m.name, fn.name), True if ok else False, "the balancing order of new nodes (%s) is not drawn at random: the tree can become a list, and recursion as deep as it is long" % T(s.value), m.path, s.lineno)
    # where a new node goes is decided by the order
    for m in repo.modules.values():
        if not m.is_pyx:
            continue
        for fn in ast.walk(m.tree):
            if isinstance(fn, ast.FunctionDef) and fn.name == "insert" and found:
                uses = any(isinstance(c, ast.Compare) and sum(isinstance(x, ast.Attribute) and x.attr == "heap_key" for x in [c.left] + c.comparators) == 2 for c in ast.walk(fn))
                rec = any(isinstance(c, ast.Call) and call_name(c) == fn.name for c in ast.walk(fn))
                if rec:
                    ctx.decide("C21.R4", "%s.insert: balance" % m.name, uses, "nodes are inserted without regard to the balancing order", m.path, fn.lineno)


def random_value(v, fn, draws):
    if isinstance(v, ast.Call):
        n = call_name(v)
        if n in draws:
            return True
        if n in ("__cast__", "int", "abs"):
            return random_value(v.args[-1], fn, draws)
        return False
    if isinstance(v, ast.Name):
        vs = [n.value for n in ast.walk(fn) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and any(isinstance(t, ast.Name) and t.id == v.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
        return bool(vs) and all(random_value(x, fn, draws) for x in vs)
    if isinstance(v, ast.BinOp):
        if isinstance(v.op, (ast.Mult, ast.BitAnd)) and any(isinstance(x, ast.Constant) and x.value == 0 for x in (v.left, v.right)):
            return False
        if isinstance(v.op, ast.Mod) and isinstance(v.right, ast.Constant) and isinstance(v.right.value, int) and v.right.value < 1000:
            return False
        return random_value(v.left, fn, draws) or random_value(v.right, fn, draws)
    return False
