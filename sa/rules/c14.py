"""C14: implementations that can replace each other offer the same operations.

R1  every public operation that one member of a family has is of the same kind (method, property, ...) in the others, accepts the same
    arguments (by name; methods by position too), requires no more than the declared interface, and has the same literal defaults.
R2  the same operation gives the same kind of result (object analysis, own.py): kind of container, length of tuples and what is in them.
R3  an operation that code uses on a value that can be any member exists in every member and accepts the call."""
import ast
import multiprocessing
from .common import *
from .api import *
from . import c09, c13

# family -> (members or base class, constructors are interchangeable, operations of the family that belong to one member only by documentation)
FAMILIES = {
    "models": ("AbstractMDP", True, ()),
    "reachability forms": (("ReachabilityForm", "RewardReachabilityForm"), False, ("reduce", "fromsystem")),
    "solver models": (("MILP", "GurobiMILP"), True, ("add_indicator_constraint", "add_to_constraint")),
    "initializers": ("Initializer", True, ()),
    "updaters": ("Updater", True, ()),
    "search methods": ("ProblemFormulation", False, ()),
}

# what every member of a family offers; an operation that has gone from all of them is no matter of this property
INTERFACE = {'initializers': ['initialize'],
 'models': ['actions_by_label', 'actions_by_state', 'add_label', 'digraph', 'from_file', 'from_prism_model', 'from_stormpy', 'from_stormpy_model',
            'labels_by_action', 'labels_by_state', 'maximal_end_components', 'predecessors', 'reachable_mask', 'save', 'states_by_label',
            'strongly_connected_components', 'successors'],
 'reachability forms': ['A', 'P', 'fark_constraints', 'fark_y_constraints', 'fark_z_constraints', 'in_proper_ec', 'index_by_state_action',
                        'is_ec_free', 'max_y_state', 'max_y_state_action', 'max_z_state', 'max_z_state_action', 'reduce', 'system', 'to_target'],
 'search methods': ['details', 'solve', 'solveiter'],
 'solver models': ['add_constraint', 'add_variables', 'add_variables_w_bounds', 'from_coefficients', 'remove_constraint', 'set_objective_function',
                   'solve'],
 'updaters': ['constraints', 'update']}


def members(repo, what):
    if isinstance(what, tuple):
        return [c for c in (cls(repo, n) for n in what) if c is not None]
    b = cls(repo, what)
    if b is None:
        return []
    return [c for c in sorted(repo.subclasses(b), key=lambda c: c.qual) if c is not b and not any(f.abstract for f in c.methods.values())]


def cls(repo, n):
    try:
        return repo.cls(n)
    except Exception:
        return None


class Sig:
    def __init__(self, f):
        a = f.node.args
        self.f = f
        skip = 0 if f.kind in ("static", "func") else 1
        pos = a.posonlyargs + a.args
        d = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        self.pos = [x.arg for x in pos][skip:]
        self.default = {x.arg: v for x, v in list(zip(pos, d))[skip:]}
        for x, v in zip(a.kwonlyargs, a.kw_defaults):
            self.default[x.arg] = v
        self.names = list(self.default)
        self.required = {n for n, v in self.default.items() if v is None}
        self.kw = a.kwarg is not None
        self.kwname = a.kwarg.arg if self.kw else None
        self.var = a.vararg is not None
        self.reads = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}

    def accepts(self, n):
        return n in self.default or self.kw


def literal(e):
    if isinstance(e, ast.Constant):
        return (type(e.value).__name__, e.value) if not isinstance(e.value, bool) else ("bool", e.value)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
        return ("num", -e.operand.value)
    if isinstance(e, (ast.Dict, ast.List, ast.Tuple)) and not getattr(e, "elts", None) and not getattr(e, "keys", None):
        return (type(e).__name__,)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "dict", "list", "tuple") and not e.args and not e.keywords:
        return (e.func.id.capitalize(),)
    return None


def kind(f):
    return {"method": "method", "property": "property", "static": "static method", "class": "class method"}.get(f.kind, f.kind)


def declared(repo, c, name):
    """the interface: the definition furthest up"""
    out = None
    for k in repo.mro(c):
        if name in k.methods:
            out = k.methods[name]
    return out


def signatures(ctx, repo, family, ms, ctors, own_only):
    names = {}
    for c in ms:
        for k in repo.mro(c):
            for n, f in k.methods.items():
                if not n.startswith("_") or (n == "__init__" and ctors):
                    names.setdefault(n, {})[c] = repo.find_method(c, n)
    for n in sorted(names):
        impl = names[n]
        if n in own_only:
            continue
        lacking = [c for c in ms if c not in impl]
        if n in INTERFACE[family] and lacking:
            c, f = lacking[0], next(iter(impl.values()))
            ctx.violation("C14.R1", "%s: %s in %s" % (family, n, c.name), "%s does not have the operation of %s" % (c.qual, f.qual), c.module.path, c.node.lineno)
        if len(impl) < 2 and len(ms) > 1 and not any(f.abstract for f in impl.values()):
            # only one member has it: decided at the places that use it (R3)
            continue
        fs = {}
        for c, f in impl.items():
            fs.setdefault(f, []).append(c)
        decl = {declared(repo, c, n) for c in impl}
        interface = next(iter(decl)) if len(decl) == 1 else None
        con = "%s: %s" % (family, n)
        bad = []
        kinds = {kind(f) for f in fs if not f.abstract}
        if len(kinds) > 1:
            f = next(f for f in fs if kind(f) == sorted(kinds)[0])
            bad.append((f, "is a %s in %s, a %s in %s" % (kind(f), f.cls.name, sorted(kinds)[1], next(g.cls.name for g in fs if kind(g) == sorted(kinds)[1]))))
        elif kinds != {"property"}:
            sigs = {f: Sig(f) for f in fs if not f.abstract}
            every = {}
            for s in list(sigs.values()) + ([Sig(interface)] if interface is not None else []):
                for p in s.names:
                    every.setdefault(p, s.f)
            base = Sig(interface) if interface is not None else None
            for f, s in sigs.items():
                for p, g in every.items():
                    if not s.accepts(p) and not (s.var and n != "__init__"):
                        bad.append((f, "%s does not accept the argument %s of %s" % (f.qual, p, g.qual)))
                # what must be given
                ref = base.required if base is not None and (base.names or not base.kw) else None
                if ref is None or interface in sigs and interface is f:
                    others = [t for g, t in sigs.items() if g is not f]
                    extra = {p for p in s.required if any(p not in t.required for t in others)} if base is None else set()
                else:
                    extra = s.required - ref - ({p for p in s.required if p not in base.default} if base.kw and n != "__init__" and not base.names else set())
                for p in sorted(extra):
                    bad.append((f, "%s requires the argument %s, which others do not require" % (f.qual, p)))
                # defaults
                for g, t in sigs.items():
                    if g is f:
                        continue
                    for p in s.default:
                        a, b = s.default[p], t.default.get(p)
                        if a is not None and b is not None:
                            x, y = literal(a), literal(b)
                            if x is not None and y is not None and x != y and not same_number(x, y) and p in s.reads and p in t.reads and f.qual < g.qual:
                                bad.append((f, "%s has the default %s for %s, %s has %s" % (f.qual, ast.unparse(a), p, g.qual, ast.unparse(b))))
                    if n == "__init__":
                        pass
                    elif t.kw and not s.kw:
                        bad.append((f, "%s does not accept further arguments, %s does" % (f.qual, g.qual)))
                    elif t.kw and s.kw and t.kwname in t.reads and s.kwname not in s.reads:
                        bad.append((f, "%s drops further arguments, %s uses them" % (f.qual, g.qual)))
                    if n != "__init__" and f.qual < g.qual:
                        common = [p for p in s.pos if p in t.pos]
                        if common != [p for p in t.pos if p in s.pos]:
                            bad.append((f, "the arguments of %s and %s are in a different order" % (f.qual, g.qual)))
                        elif any(s.pos.index(p) != t.pos.index(p) for p in common):
                            bad.append((f, "the arguments of %s and %s are at different positions" % (f.qual, g.qual)))
        if not bad:
            ctx.ok("C14.R1", con)
        for f, why in bad:
            ctx.violation("C14.R1", "%s in %s" % (con, f.cls.name if f.cls is not None else f.qual), why, f.module.path, f.node.lineno)
        ctx.count("operations compared", 1)


def same_number(x, y):
    return len(x) == 2 and len(y) == 2 and x[0] in ("int", "float", "num") and y[0] in ("int", "float", "num") and x[1] == y[1]


# ------------------------------------------------------------------------------------------------ kinds of results

def shape(v, depth=0):
    """set of shapes; None: unknown"""
    out = set()
    for o in v:
        if o.kind in ("none",):
            continue
        if o.kind == "any" or depth > 3:
            return None
        if o.kind == "inst":
            out.add(("inst", o.cls.name))
        elif o.kind == "tuple":
            out.add(("tuple", tuple(pack(shape(x, depth + 1)) for x in o.elts) if o.elts is not None else None))
        elif o.kind in ("list", "iter", "gen", "set", "deque"):
            k = {"gen": "iter"}.get(o.kind, o.kind)
            out.add((k, pack(shape(o.items, depth + 1))))
        elif o.kind in ("dict", "ddict", "bidict"):
            out.add(("dict", None))
        elif o.kind in ("ext-object",):
            out.add(("ext", o.name))
        else:
            out.add((o.kind,))
    return out


def pack(s):
    return None if s is None else tuple(sorted(s, key=str))


def agree(a, b, fam):
    """False: the shapes certainly differ; None: not known"""
    if a is None or b is None:
        return None
    if not a and not b:
        return True              # numbers, strings
    if not a or not b:
        # an element of an array is a number
        return True if all(x == ("arr",) for x in a | b) else None
    r = True
    for x in a:
        best = False
        for y in b:
            q = agree1(x, y, fam)
            if q is True:
                best = True
                break
            if q is None:
                best = None
        if best is False:
            return False
        if best is None:
            r = None
    return r


def agree1(x, y, fam):
    if x[0] != y[0]:
        return False
    if x[0] == "inst":
        return x[1] == y[1] or any(x[1] in f and y[1] in f for f in fam)
    if x[0] == "ext":
        return True if x[1] == y[1] else None
    if x[0] == "tuple":
        if x[1] is None or y[1] is None:
            return None
        if len(x[1]) != len(y[1]):
            return False
        qs = [agree(set(p) if p is not None else None, set(q) if q is not None else None, fam) for p, q in zip(x[1], y[1])]
        return False if False in qs else None if None in qs else True
    if x[0] in ("list", "iter", "set", "deque"):
        if x[1] == () or y[1] == ():
            return True          # an empty one, or one of numbers
        return agree(set(x[1]) if x[1] is not None else None, set(y[1]) if y[1] is not None else None, fam)
    return True


def return_kinds(f):
    """what the return expressions themselves show: "scalar" (a text or a number), "container", "?" (not known)"""
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
        return {"container"}
    rets = [n for n in ast.walk(f.node) if isinstance(n, ast.Return)]
    binds = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        binds.setdefault(x.id, []).append(n.value if x is t else None)
        elif isinstance(n, (ast.For, ast.AnnAssign, ast.comprehension, ast.NamedExpr)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    binds.setdefault(x.id, []).append(None)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            binds.setdefault(n.target.id, []).append(n.value)

    def what(e, depth=0):
        if e is None or depth > 5:
            return "?"
        if isinstance(e, ast.JoinedStr):
            return "scalar"
        if isinstance(e, ast.Constant):
            return "none" if e.value is None else "scalar"
        if isinstance(e, (ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
            return "container"
        if isinstance(e, ast.BinOp):
            l, r = what(e.left, depth + 1), what(e.right, depth + 1)
            if isinstance(e.op, ast.Mod) and l == "scalar" or isinstance(e.op, ast.Add) and "scalar" in (l, r) and isinstance(e.left, ast.Constant | ast.JoinedStr) | isinstance(e.right, ast.Constant | ast.JoinedStr):
                return "scalar"
            return l if l == r else "?"
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            return "scalar" if e.func.id in ("str", "int", "float", "len", "bool") else "container" if e.func.id in ("list", "tuple", "set", "dict", "sorted", "range", "zip", "map") else "?"
        if isinstance(e, ast.Name) and e.id in binds:
            ks = {what(v, depth + 1) for v in binds[e.id]}
            return next(iter(ks)) if len(ks) == 1 else "?"
        return "?"
    return {what(r.value) if r.value is not None else "none" for r in rets}


def told(s, f):
    return "%s (returns: %s)" % (s, ", ".join(sorted(return_kinds(f))))


def one_is_scalar(f, g):
    a, b = return_kinds(f), return_kinds(g)
    return "scalar" in a and b == {"container"} or "scalar" in b and a == {"container"}


def results(x):
    root, models, forms, specs, tier = x
    import sys
    sys.setrecursionlimit(20000)
    try:
        from ..front import Repo
        repo = Repo(root, with_pyx=False)
        a = Api(repo, models, forms)
        a.own.native = specs
        out = {}
        for k in ("model", "rf", "rrf", "milp", "initializer", "updater", "search"):
            for o in sorted(a.obj(k), key=lambda o: o.id):
                pub = {n for c in repo.mro(o.cls) for n in c.methods if not n.startswith("_")}
                for n in sorted(pub):
                    f = repo.find_method(o.cls, n)
                    if f is None or f.abstract or f.kind in ("class", "static"):
                        continue
                    own = a.enter("%s.%s" % (o.cls.name, n), "shape")
                    me = frozenset([o])
                    r = own.call(f, [me], {} if f.kind == "property" else a.params(f, 1, "all"), a.node("shape %s %d" % (n, o.id)))
                    s = shape(r)
                    key = (o.cls.name, n)
                    if key in out and (s is None or out[key] is None):
                        out[key] = None
                    else:
                        out[key] = s if key not in out else out[key] | s
        ev = {}
        for e in a.own.events:
            if e.kind not in ("arity", "noattr"):
                continue
            if e.kind == "noattr" and not any(o.kind == "inst" for o in e.obs):
                continue
            ev[(e.kind, e.file, e.line, e.fn, e.what, tuple(sorted({o.cls.name for o in e.obs if o.kind == "inst"})))] = (not (e.partial and e.guarded), e.entry)
        return out, ev, len(a.own.seen_calls), sorted(a.own.functions)
    except Exception as e:
        import traceback
        return "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-600:])


def run(ctx):
    ctx.rule("C14.R1", "the members of a family have the same public operations and accept the same arguments, with the same defaults, for every public operation they share")
    ctx.rule("C14.R2", "the members of a family give the same kind of result for every public operation they share")
    ctx.rule("C14.R3", "an operation used on a value that may be any member exists in every member and accepts the call")
    ctx.notes.append("LP is not a member of the solver models: its constructor functions take other arguments by documentation; the reductions of the two "
                     "reachability forms and the indicator constraints of GurobiMILP are documented as specific")
    repo = ctx.repo
    fams = {}
    for fam, (what, ctors, own_only) in FAMILIES.items():
        ms = members(repo, what)
        fams[fam] = ms
        if len(ms) < 2:
            ctx.undecided("C14.R1", fam, "fewer than two members are known")
            continue
        signatures(ctx, repo, fam, ms, ctors, own_only)
    specs = c13.native_specs(repo.root)
    with multiprocessing.get_context("fork").Pool(4) as pool:
        res = pool.map(results, [(repo.root, m, f, specs, ctx.tier) for m, f in c09.FORMS])
    names = [{c.name for c in ms} for ms in fams.values()]
    per = {}
    bad = {}
    for (m, f), r in zip(c09.FORMS, res):
        if isinstance(r, str):
            ctx.undecided("C14.R2", "%s/%s" % (m[0], f[0]), r)
            continue
        for k, s in r[0].items():
            per[k] = s if k not in per else None if s is None or per[k] is None else per[k] | s
        bad.update(r[1])
        ctx.count("calls followed", r[2])
        ctx.functions |= set(r[3])
    for fam, ms in fams.items():
        ops = {}
        for c in ms:
            for (cn, n), s in per.items():
                if cn == c.name:
                    ops.setdefault(n, []).append((c, s))
        for n, l in sorted(ops.items()):
            if len(l) < 2 or n in FAMILIES[fam][2]:
                continue
            c0, s0 = l[0]
            for c, s in l[1:]:
                f, g = repo.find_method(c, n), repo.find_method(c0, n)
                if f is g:
                    ctx.ok("C14.R2", "%s: %s of %s and %s" % (fam, n, c0.name, c.name))
                    continue
                q1, q2 = agree(s0, s, names), agree(s, s0, names)
                q = False if False in (q1, q2) else True if q1 and q2 else None
                if one_is_scalar(f, g):
                    q = False        # a number or text in the one, only containers in the other
                con = "%s: %s of %s and %s" % (fam, n, c0.name, c.name)
                if q is None and not s0 and not s:
                    # numbers, strings or nothing on both sides
                    ctx.ok("C14.R2", con)
                elif q is None:
                    ctx.undecided("C14.R2", con, "results %s and %s" % (s0, s))
                else:
                    ctx.decide("C14.R2", con, q, "the results are %s and %s" % (told(s0, g), told(s, f)), f.module.path, f.node.lineno)
    for (k, file, line, fn, what, recv), (sure, entry) in sorted(bad.items(), key=str):
        con = "%s: %s%s" % (fn, what, " of %s" % ", ".join(recv) if recv else "")
        if recv and not any(set(recv) & s for s in names):
            continue
        if k == "arity" and not any(n in what for s in names for n in s):
            continue
        if sure:
            ctx.violation("C14.R3", con, "not offered (reached from %s)" % entry, file, line)
        else:
            ctx.undecided("C14.R3", con, "not offered under some condition")
    if not bad:
        ctx.ok("C14.R3", "all uses")
