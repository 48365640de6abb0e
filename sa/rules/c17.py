"""C17: results depend only on the inputs.

R1  what public operations return (also inside of models, forms, results and renderings) contains no value that depends on the time, on random numbers, on memory
    addresses, on hashes of strings, or on the order in which a set of strings is run through (order.py).
R2  random numbers in compiled code are fixed by a constant seed, set by the operation itself before the first one is drawn."""
import ast
import multiprocessing
from .common import *
from .api import *
from ..order import Order, STR, STRS
from . import c09, c13


class Api17(Api):
    def __init__(self, *a):
        super().__init__(*a)
        self.own = Order(self.repo)
        self.own.mappings = True

    def arg(self, name, fn=""):
        if name in self.named:
            return self.named[name]
        v = super().arg(name, fn)
        if name in ("label_to_actions", "label_to_states"):
            for o in v:
                if o.kind in ("dict", "ddict"):
                    o.kset = STRS
        elif name in ("labels", "domains"):
            for o in v:
                o.items = set(STRS)
        elif name in ("prism_constants", "extra_labels"):
            for o in v:
                o.kset = STRS
                o.items = set(STRS)
        elif not v and (name.endswith(("label", "path", "mode", "_form", "sense")) or name in ("label", "mode", "filepath", "direction", "solver", "objective", "certform", "indicator_domain", "domain", "status")):
            v = STRS
        elif name in ("statelabels", "actionlabels"):
            v = frozenset([self.raw("set", name, contents=[STR])])
        self.named[name] = v
        return v


def explore(x):
    root, models, forms, specs = x
    import sys
    sys.setrecursionlimit(20000)
    try:
        from ..front import Repo
        repo = Repo(root, with_pyx=False)
        a = Api17(repo, models, forms)
        a.own.native = specs
        # named helpers for labels of renderings get sets of strings
        c13.explore(a, models, forms)
        out = [(t.place, t.what, e, w) for t, (e, w) in a.own.sinks.items()]
        return out, sorted(set(a.done)), sorted(a.own.functions), a.own.sources, a.own.unordered_loops, a.own.results
    except Exception as e:
        import traceback
        return "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-900:])


def run(ctx):
    ctx.rule("C17.R1", "no result contains a value that depends on the time, random numbers, addresses, hashes of strings or the order of a set of strings")
    ctx.rule("C17.R2", "random numbers in compiled code are fixed by a constant seed set in the operation itself")
    ctx.notes.append("texts for messages and __repr__ are no results; decisions on the time (time limits) are not followed")
    specs = c13.native_specs(ctx.repo.root)
    with multiprocessing.get_context("fork").Pool(4) as pool:
        res = pool.map(explore, [(ctx.repo.root, m, f, specs) for m, f in c09.FORMS])
    bad, done = {}, set()
    for (m, f), r in zip(c09.FORMS, res):
        if isinstance(r, str):
            ctx.undecided("C17.R1", "%s/%s" % (m[0], f[0]), r)
            continue
        for place, what, entry, why in r[0]:
            bad.setdefault((place, what), (entry, why))
        done |= set(r[1])
        ctx.functions |= set(r[2])
        ctx.count("sources met", r[3])
        ctx.count("loops over unordered sets followed", r[4])
        ctx.count("results looked at", r[5])
    hit = set()
    for (place, what), (entry, why) in sorted(bad.items()):
        hit.add(entry)
        ctx.violation("C17.R1", "%s: %s" % (place[2], what), "the result of %s depends on %s" % (entry, what), place[0], place[1])
    for d in sorted(done - hit):
        ctx.ok("C17.R1", d)
    native(ctx)


# ------------------------------------------------------------------------------------------------ compiled code

RAND = {"rand", "random", "drand48", "lrand48", "rand_r"}
SEED = {"srand", "srandom", "srand48", "seed"}


def native(ctx):
    from ..front import Repo
    repo = Repo(ctx.repo.root, with_pyx=True)
    funcs = {}
    for m in repo.modules.values():
        if not m.is_pyx:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef):
                funcs.setdefault(n.name, []).append((n, m))
    if not funcs:
        from ..front import AnchorMissing
        raise AnchorMissing("no compiled functions found")
    for m in repo.modules.values():
        if m.is_pyx:
            foreign(ctx, m)
    # functions that draw
    def names(n):
        return [(c, c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None) for c in ast.walk(n) if isinstance(c, ast.Call)]
    draws = set()
    changed = True
    while changed:
        changed = False
        for name, fs in funcs.items():
            if name in draws:
                continue
            for n, m in fs:
                if any(c in draws or c in RAND and c not in funcs for _, c in names(n)):
                    draws.add(name)
                    changed = True
    for name, fs in sorted(funcs.items()):
        for n, m in fs:
            ctx.count("compiled functions", 1)
            if name not in draws or getattr(n, "cdef", False):
                continue
            if "test" in name:
                ctx.notes.append("not looked at: %s, a self-test" % name)
                continue
            con = "%s.%s" % (m.name, name)
            r, line, why = fixed_before(n, draws, names, funcs)
            if r is None:
                ctx.undecided("C17.R2", con, why)
            else:
                ctx.decide("C17.R2", con, r, why, m.path, line)
    for m in repo.modules.values():
        if m.is_pyx:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in SEED and n.args:
                    fn = next((f for f in ast.walk(m.tree) if isinstance(f, ast.FunctionDef) and any(x is n for x in ast.walk(f))), None)
                    if fn is not None and "test" in fn.name:
                        continue
                    v = n.args[0]
                    ctx.decide("C17.R2", "%s: seed %s" % (m.name, ast.unparse(v)[:40]), True if constant(v, fn, m) else False, "the seed is not a constant", m.path, n.lineno)


def constant(v, fn, m):
    if isinstance(v, ast.Constant):
        return True
    if isinstance(v, ast.UnaryOp):
        return constant(v.operand, fn, m)
    if isinstance(v, ast.BinOp):
        return constant(v.left, fn, m) and constant(v.right, fn, m)
    if isinstance(v, ast.Call) and v.args and isinstance(v.func, ast.Name) and v.func.id in ("int", "abs", "__cast__"):
        return constant(v.args[-1], fn, m)
    if isinstance(v, ast.Name):
        vs = [n.value for n in ast.walk(fn if fn is not None else m.tree) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None
              and any(isinstance(t, ast.Name) and t.id == v.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
        if not vs:
            vs = [n.value for n in m.tree.body if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None
                  and any(isinstance(t, ast.Name) and t.id == v.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
        return bool(vs) and all(constant(x, fn, m) for x in vs if x is not v)
    if isinstance(v, ast.Attribute):
        return None
    return False


def fixed_before(fn, draws, names, funcs):
    """statements in order: a seed before the first call that draws, on every path"""
    seeds = set(SEED)
    changed = True
    while changed:
        changed = False
        for name, fs in funcs.items():
            if name not in seeds and all(n.body and any(isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, (ast.Name, ast.Attribute))
                                         and (s.value.func.id if isinstance(s.value.func, ast.Name) else s.value.func.attr) in seeds for s in n.body) for n, _ in fs):
                if name not in draws:
                    seeds.add(name)
                    changed = True

    def run(body):
        """True: seeded at the end; False: not; raises Drawn"""
        for s in body:
            if isinstance(s, ast.If):
                check(s.test)
                a, b = run(s.body), run(s.orelse)
                if a and b:
                    return True
                continue
            if isinstance(s, (ast.For, ast.While)):
                check(s.iter if isinstance(s, ast.For) else s.test)
                run(s.body)
                run(s.orelse)
                continue
            if isinstance(s, ast.With):
                if run(s.body):
                    return True
                continue
            if isinstance(s, ast.Try):
                if any(run(b) for b in [s.finalbody]) or run(s.body):
                    return True
                continue
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, (ast.Return, ast.Raise)):
                check(s)
                return True
            cs = [c for _, c in names(s)]
            if any(c in seeds for c in cs):
                return True
            check(s)
        return False

    class Drawn(Exception):
        pass

    def check(e):
        for c, nm in names(e):
            if nm in draws or nm in RAND and nm not in funcs:
                raise Drawn(c)
    try:
        run(fn.body)
    except Drawn as d:
        return False, d.args[0].lineno, "random numbers are drawn that no constant seed fixes"
    return True, fn.lineno, ""


def ann(a):
    return a.value if isinstance(a, ast.Constant) and isinstance(a.value, str) else ast.unparse(a) if a is not None else ""


def foreign(ctx, m):
    """random numbers and the time of Python's modules, and addresses taken for numbers, in compiled functions"""
    from ..order import TIMES, OTHER
    alias = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                alias[(a.asname or a.name).split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module:
            for a in n.names:
                alias[a.asname or a.name] = "%s.%s" % (n.module, a.name)
    returns = {f.name: ann(f.returns) for f in ast.walk(m.tree) if isinstance(f, ast.FunctionDef)}

    def dotted(e):
        if isinstance(e, ast.Name):
            return alias.get(e.id, e.id)
        if isinstance(e, ast.Attribute):
            b = dotted(e.value)
            return "%s.%s" % (b, e.attr) if b else None
        return None
    for f in ast.walk(m.tree):
        if not isinstance(f, ast.FunctionDef) or "test" in f.name:
            continue
        types = {a.arg: ann(a.annotation) for a in f.args.args}
        for n in ast.walk(f):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                types[n.target.id] = ann(n.annotation)

        def pointer(e):
            if isinstance(e, ast.Name):
                return types.get(e.id, "").rstrip().endswith("*")
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
                if e.func.id == "__cast__":
                    return ann(e.args[0]).rstrip().endswith("*")
                return e.func.id in ("__addr__", "malloc", "calloc", "realloc") or returns.get(e.func.id, "").rstrip().endswith("*")
            return False
        con = "%s.%s" % (m.name, f.name)
        bad = None
        seeded = False
        for n in ast.walk(f):
            if not isinstance(n, ast.Call):
                continue
            d = dotted(n.func) or ""
            if d.startswith(("random.", "numpy.random.")) and d.split(".")[-1] == "seed" and n.args and constant(n.args[0], f, m):
                seeded = True
        for n in ast.walk(f):
            if not isinstance(n, ast.Call):
                continue
            d = dotted(n.func) or ""
            last = d.split(".")[-1]
            if d.startswith(("random.", "numpy.random.")) and last not in ("seed", "default_rng", "RandomState", "Random") and not seeded:
                bad = (n.lineno, "random numbers of %s are drawn that no constant seed fixes" % d)
            elif (d in TIMES or d in OTHER or d in ("libc.time.time", "libc.time.clock", "posix.unistd.getpid")) and not messages(f, n):
                bad = (n.lineno, "a result depends on %s" % d)
            elif d in ("id", "hash") and d not in returns:
                bad = (n.lineno, "an address or a hash is used as a number")
            elif d == "__cast__" and not ann(n.args[0]).rstrip().endswith("*") and ann(n.args[0]) not in ("void", "object", "bint") and pointer(n.args[1]):
                bad = (n.lineno, "an address is used as a number")
        ctx.decide("C17.R2", con, bad is None, bad[1] if bad else "", m.path, bad[0] if bad else f.lineno)


def messages(f, src):
    """what is computed from the call gets into texts that are printed and into decisions only"""
    names = set()

    def dep(e):
        return any(x is src or isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))

    def away(e):
        """printed or compared"""
        return isinstance(e, ast.Compare) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("print", "vprint") \
            or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ("logging", "logger", "log", "warnings")

    def value(e):
        if away(e):
            return False
        if e is src or isinstance(e, ast.Name) and e.id in names:
            return True
        return any(value(c) for c in ast.iter_child_nodes(e) if isinstance(c, (ast.expr, ast.keyword)))
    for _ in range(8):
        n0 = len(names)
        for n in ast.walk(f):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and n.value is not None and value(n.value):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if not isinstance(t, ast.Name):
                        return False
                    names.add(t.id)
        if len(names) == n0:
            break
    for n in ast.walk(f):
        if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None and value(n.value):
            return False
        if isinstance(n, ast.Expr) and value(n.value):
            return False
        if isinstance(n, ast.Call) and not away(n) and n is not src and any(value(a) for a in list(n.args) + [k.value for k in n.keywords]):
            if not (isinstance(n.func, ast.Name) and n.func.id in ("int", "float", "round", "str", "abs", "repr", "format")):
                inside = any(away(p) and any(x is n for x in ast.walk(p)) for p in ast.walk(f))
                if not inside:
                    return False
        if isinstance(n, ast.For) and value(n.iter):
            return False
    return True
