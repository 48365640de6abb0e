"""C13: no public operation fails for a reason that only a slip in the code can cause.

R1  every name that is read is bound, every imported name of the repository exists, every module can be imported first, and locals are
    assigned on every path that reads them (names.py).
R2  attributes and methods of the library's own types exist on every object that can reach the place (own.py, all public operations and
    all functions that these do not reach).
R3  calls of the library's own functions (compiled ones included) give every required argument and none that is unknown.
R4  every abstract operation is provided by each class that does not declare abstract operations itself."""
import ast
import multiprocessing
import os
from .common import *
from .api import *
from .. import names
from . import c09


def native_specs(root):
    """argument lists of the compiled functions and classes"""
    from ..front import Repo
    out = {}
    repo = Repo(root, with_pyx=True)
    for m in repo.modules.values():
        if not m.is_pyx:
            continue
        for n, r in m.names.items():
            if isinstance(r, tuple) and r[0] == "func" and not getattr(r[1].node, "cdef", False):
                out["%s.%s" % (m.name, n)] = {"()": spec(r[1].node, 0)}
            elif isinstance(r, tuple) and r[0] == "class" and not getattr(r[1].node, "cstruct", False):
                c = r[1]
                d = {k: spec(f.node, 0 if f.kind == "static" else 1) for k, f in c.methods.items() if not getattr(f.node, "cdef", False)}
                init = c.methods.get("__init__") or c.methods.get("__cinit__")
                d["()"] = spec(init.node, 1) if init is not None else ([], 0, True)
                out["%s.%s" % (m.name, n)] = d
    return out


def spec(node, skip):
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nreq = len(pos) - len(a.defaults)
    return (pos[skip:] + [x.arg for x in a.kwonlyargs], max(0, nreq - skip), a.vararg is not None or a.kwarg is not None)


def explore(a, models, forms):
    """every public operation, and what nothing else calls"""
    repo = a.repo
    kinds = c09.KINDS + ("vis",)
    for k in kinds:
        a.obj(k)
    ops = set()
    for ph in ("first", "second"):
        for k, ms in QUERIES.items():
            for m in ms:
                a.call_method(k, m, ph)
        for q in FUNCTIONS + STATICS:
            a.call_named(q, True, ph)
    for k, ms in MUTATORS.items():
        for m in ms:
            a.call_method(k, m, "mutator")
    # other public methods of the same objects
    for k in kinds:
        for o in sorted(a.obj(k), key=lambda o: o.id):
            if o.cls is None:
                continue
            for c in repo.mro(o.cls):
                for n in list(c.methods):
                    if n not in QUERIES.get(k, ()) and n not in MUTATORS.get(k, ()) and (not n.startswith("_")):
                        only(a, o, n)
    # the command line and what nothing else calls
    rest = []
    if models == ("MDP",) and forms == ("rf",):
        cli = repo.modules.get("bin.switss")
        if cli is not None:
            own = a.enter("bin/switss", "module")
            from ..own import Frame
            fr = Frame(own, cli, None, None)
            own.frames.append(fr)
            own.block(cli.tree.body, fr)
            own.frames.pop()
        for q, f in sorted(repo.funcs.items()):
            if f.abstract or q in a.own.functions or f.module.is_pyx:
                continue
            if f.cls is not None and f.kind not in ("static",):
                rest.append(q)
                continue
            own = a.enter(q, "alone")
            own.call(f, [], a.params(f, 0, "all"), a.node(q))
    return rest


def universe(root, models, forms, specs, tier):
    from ..front import Repo
    repo = Repo(root, with_pyx=False)
    a = Api(repo, models, forms)
    a.own.native = specs
    rest = explore(a, models, forms)
    ev = {}
    failed = {}
    for e in a.own.events:
        if e.kind in ("arity", "noattr", "maybeattr", "noname"):
            if e.kind == "arity":
                failed.setdefault(id(e.node), set()).add(e.what.split(" ")[0])
    for e in a.own.events:
        if e.kind not in ("arity", "noattr", "maybeattr", "noname"):
            continue
        recv = sorted({o.cls.name if o.kind in ("inst", "class", "super") and o.cls is not None else o.kind for o in e.obs})
        if e.kind == "noattr" and e.obs and all(o.kind in ("list", "dict", "set", "tuple") and str(o.old or "").startswith("the argument") for o in e.obs):
            continue
        some = e.kind == "arity" and len(a.own.calls_at.get(id(e.node), ())) > len(failed[id(e.node)])
        k = (e.kind, e.file, e.line, e.fn, e.what, tuple(recv))
        sure = not ((e.partial or some) and e.guarded)
        if e.kind == "maybeattr":
            sure = not e.guarded and not stored_elsewhere(repo, e)
        if e.kind == "noattr" and sure and asked(repo, e):
            sure = False
        ev[k] = (ev.get(k, (False, ""))[0] or sure, e.entry)
    return ev, sorted(set(a.done)), sorted(a.own.functions), len(a.own.seen_calls), rest


def only(a, o, n):
    f = a.repo.find_method(o.cls, n)
    if f is None or f.abstract or f.qual in a.own.functions:
        return
    own = a.enter("%s.%s" % (o.cls.name, n), "other")
    nd = a.node("%s.%s other %d" % (o.cls.name, n, o.id))
    me = frozenset([o])
    if f.kind == "static":
        own.call(f, [], a.params(f, 0, "all"), nd)
    elif f.kind == "class":
        own.call(f, [frozenset([own.classval(o.cls)])], a.params(f, 1, "all"), nd)
    elif f.kind == "property":
        own.call(f, [me], {}, nd)
    else:
        own.call(f, [me], a.params(f, 1, "all"), nd)
    a.done.append("%s.%s" % (o.cls.name, n))


def asked(repo, e):
    """the function asks by name whether the attribute is there: hasattr, getattr with a default, vars()"""
    for m in repo.modules.values():
        if m.path != e.file:
            continue
        for fn in ast.walk(m.tree):
            if isinstance(fn, ast.FunctionDef) and fn.lineno <= e.line <= (fn.end_lineno or fn.lineno):
                if any(isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value == e.what for n in ast.walk(fn)):
                    return True
    return False


def stored_elsewhere(repo, e):
    """the attribute is assigned by something else than the constructor"""
    for m in repo.modules.values():
        for fn in ast.walk(m.tree):
            if isinstance(fn, ast.FunctionDef) and fn.name != "__init__":
                same = m.path == e.file and fn.lineno <= e.line <= (fn.end_lineno or fn.lineno)
                for n in ast.walk(fn):
                    if same and getattr(n, "lineno", 0) >= e.line:
                        continue          # only stored after it has been read
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr.lstrip("_") == e.what.split("__")[-1].lstrip("_"):
                        return True
    return False


def work(x):
    import sys
    sys.setrecursionlimit(20000)
    try:
        return universe(*x)
    except Exception as e:
        import traceback
        return "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-600:])


def run(ctx):
    ctx.rule("C13.R1", "names that are read are bound, imported names exist, locals are assigned on every path that reads them")
    ctx.rule("C13.R2", "attributes and methods exist on every object of the library that can reach the place")
    ctx.rule("C13.R3", "calls of the library's functions give the required arguments and no unknown ones")
    ctx.rule("C13.R4", "abstract operations are provided by every concrete class")
    ctx.notes.append("attributes of objects of other libraries (numpy, scipy, pulp, graphviz, gurobipy) are not checked")
    ctx.notes.append("a read that fails only when a loop never runs, or when no branch of a chain of comparisons with constants is taken, is left undecided")
    names_rule(ctx)
    objects_rule(ctx)
    abstract_rule(ctx)


def names_rule(ctx):
    from ..front import Repo
    repo = Repo(ctx.repo.root, with_pyx=True)
    for m in sorted(repo.modules.values(), key=lambda m: m.name):
        M = names.Module(repo, m).run()
        ctx.count("names read", M.reads)
        ctx.count("names imported", M.imports)
        for kind, n, name, where_ in M.problems:
            con = "%s%s: %s" % (m.name, "." + ".".join(where_) if where_ else "", name)
            ctx.violation("C13.R1", con, {"name": "the name is not bound anywhere", "import": "the imported name does not exist",
                                          "attribute": "the module has no such attribute"}[kind], m.path, n.lineno)
        if not M.problems:
            ctx.ok("C13.R1", "names of %s" % m.name)
        if m.is_pyx:
            continue
        for n, qual in functions(m.tree, m.name):
            a = names.Assigned(n).run()
            ctx.count("reads of locals", a.reads)
            ctx.functions.add(qual)
            for name, line in a.bad:
                ctx.violation("C13.R1", "%s: %s" % (qual, name), "read on a path that has not assigned it", m.path, line)
            for name, line in a.unsure:
                if (name, line) not in a.bad:
                    ctx.undecided("C13.R1", "%s: %s" % (qual, name), "assigned on some paths only, whether the others exist is not known")
            if not a.bad and not a.unsure:
                ctx.ok("C13.R1", "locals of %s" % qual)
    seen = set()
    for name in sorted(repo.modules):
        if name.startswith("bin."):
            continue
        for m, s, what in names.Imports(repo).start(name):
            if (m.name, what) not in seen:
                seen.add((m.name, what))
                ctx.violation("C13.R1", "import of %s in %s" % (what, m.name), "not bound yet when %s is imported first" % name, m.path, s.lineno)
        ctx.ok("C13.R1", "import of %s first" % name)


def functions(tree, prefix):
    out = []

    def walk(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(c, ast.FunctionDef):
                    out.append((c, q + "." + c.name))
                walk(c, q + "." + c.name)
            else:
                walk(c, q)
    walk(tree, prefix)
    return out


def objects_rule(ctx):
    specs = native_specs(ctx.repo.root)
    with multiprocessing.get_context("fork").Pool(4) as pool:
        res = pool.map(work, [(ctx.repo.root, m, f, specs, ctx.tier) for m, f in c09.FORMS])
    bad = {}
    ops, funcs = set(), set()
    for (m, f), r in zip(c09.FORMS, res):
        tag = "%s/%s" % (m[0], f[0])
        if isinstance(r, str):
            ctx.undecided("C13.R2", tag, r)
            continue
        ev, done, functions_, calls, rest = r
        ctx.functions |= set(functions_)
        ctx.count("calls followed (%s)" % tag, calls)
        ops |= {(d, tag) for d in done}
        for q in rest:
            ctx.notes.append("%s is not reached" % q)
        for k, (sure, entry) in ev.items():
            o = bad.get(k)
            bad[k] = (o is not None and o[0] or sure, entry)
    hit = set()
    for (kind, file, line, fn, what, recv), (sure, entry) in sorted(bad.items(), key=str):
        rule = "C13.R3" if kind == "arity" else "C13.R2"
        con = "%s: %s%s" % (fn, what, " of %s" % ", ".join(recv) if recv else "")
        why = {"arity": "the call fails", "noattr": "no such attribute", "maybeattr": "the constructor does not always set the attribute",
               "noname": "the name is not bound"}[kind] + " (reached from %s)" % entry
        hit.add(entry)
        if sure:
            ctx.violation(rule, con, why, file, line)
        else:
            ctx.undecided(rule, con, "%s:%s %s" % (file, line, why))
    for d, tag in sorted(ops):
        if d not in hit and d.split("(")[0] not in hit:
            ctx.ok("C13.R2", "%s (%s)" % (d, tag))
            ctx.ok("C13.R3", "%s (%s)" % (d, tag))


def abstract_rule(ctx):
    repo = ctx.repo
    for c in sorted(repo.classes.values(), key=lambda c: c.qual):
        if c.module.is_pyx:
            continue
        abstract = {n for k in repo.mro(c) for n, f in k.methods.items() if f.abstract}
        if not abstract or any(f.abstract for f in c.methods.values()):
            continue
        if len(repo.subclasses(c)) > 1 and not instantiated(repo, c):
            continue
        for n in sorted(abstract):
            f = repo.find_method(c, n)
            given = f is not None and not f.abstract
            ctx.decide("C13.R4", "%s.%s" % (c.name, n), given or n in c.attrs, "%s does not provide it: no object can be made" % c.name, c.module.path, c.node.lineno)


def instantiated(repo, c):
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == c.name:
                return True
    return False
