"""C12: writers and readers of stored results and tables of options agree.

R1  the parsers: the top-level code of the program is interpreted; the options it declares per command are compared with the documented
    ones, the command with the operation its function performs, and every option that the function reads with the declared ones.
R2  documented texts: the function for `minimize` is interpreted with the documented argument texts; the search it starts must be the
    one that the texts name.
R3  stored results: the value handed to the JSON writer is handed to the code that reads it; what arrives at the check and at the
    construction of subsystems must be what was stored under that meaning."""
import ast
from .common import *
from .native import items
from .c08 import Rec, suffix
from .summary import spec_func

BIN = "bin.switss"
A_ = sym("args", "args")

STR, FLOAT, FLAG, MANY = "text", "float", "flag", "texts"
COMMON = {"-i": ("--initial-label", "initial_label", "init", STR), "-trf": ("--target-label-rf", "target_label_rf", "rf_target", STR),
          "-frf": ("--fail-label-rf", "fail_label_rf", "rf_fail", STR)}
TOL = {"-tol": ("--tolerance", "tolerance", 1e-5, FLOAT)}
CERT = {"-c": ("--certificate", "certificate", None, STR)}
OUT = {"-o": ("--output", "output", None, STR)}
COMMANDS = {
    "rf": dict(COMMON, **OUT, **{"-t": ("--target-label", "target_label", "target", STR)}),
    "info": {},
    "minimize": dict(COMMON, **CERT, **TOL, **{"-m": ("--method", "method", (), MANY), "-s": ("--solve", "solve", (), MANY),
                                               "-si": ("--solve-iter", "solve_iter", (), MANY)}),
    "certify": dict(COMMON, **CERT, **TOL),
    "subsystem": dict(COMMON, **CERT, **OUT, **{"-sl": ("--subsys-label", "subsys_label", "subsystem", STR)}),
    "render": dict(OUT, **{"-vi": ("--view", "view", False, FLAG), "-col": ("--coloring", "coloring", None, STR)})}


class Option:
    def __init__(self, names, kw, e):
        self.names, self.kw, self.file, self.line = names, kw, e.file, e.line
        d = kw.get("dest")
        if d is not None and d.op == "c":
            self.dest = d.a[0]
        else:
            long = [n for n in names if n.startswith("--")] or names
            self.dest = long[0].lstrip("-").replace("-", "_")
        self.positional = not names[0].startswith("-")
        act = kw.get("action")
        self.action = act.a[0] if act is not None and act.op == "c" else (None if act is None else "?")


def module_run(ctx):
    """the program's top-level code, as (interpreter, state)"""
    repo = ctx.repo
    m = repo.modules.get(BIN)
    if m is None:
        from ..front import AnchorMissing
        raise AnchorMissing(BIN)
    I = interp(repo, module=BIN)
    st = I.new_state()
    main = []
    for s in m.tree.body:
        if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == "__name__":
            main += s.body
        elif not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            main.append(s)
    st = I.exec_block(main, st)
    ctx.used(I)
    return I, st


def consts(I, st, v):
    if v is None:
        return None
    if v.op == "c":
        return v.a[0]
    cs = I.concrete(st, v)
    if cs is None or any(c.op != "c" for c in cs):
        return "?"
    return tuple(c.a[0] for c in cs)


def parsers(ctx, I, st):
    """command -> (parser term, [Option], function uid or None); None: not understood"""
    made, options, funcs, parents, unclear = {}, {}, {}, {}, set()
    for e in I.events:
        if e.kind == "mcall" and e.name == "add_parser" and e.args[1:] and e.args[1].op == "c" and not e.binders:
            made.setdefault(e.args[1].a[0], e.result)
            ps = e.kw.get("parents")
            if ps is not None:
                cs = I.concrete(st, ps)
                if cs is None:
                    unclear.add(e.result)
                parents[e.result] = cs or []
        elif e.kind == "mcall" and e.name == "add_argument":
            names = [a.a[0] if a.op == "c" else None for a in e.args[1:]]
            if None in names or not names or e.binders or e.path:
                unclear.add(e.args[0])
                continue
            options.setdefault(e.args[0], []).append(Option(names, e.kw, e))
        elif e.kind == "mcall" and e.name == "set_defaults":
            f = e.kw.get("func")
            if f is not None:
                funcs[e.args[0]] = f

    def opts(p, seen=()):
        out = list(options.get(p, []))
        # groups of options belong to their parser
        for e in I.events:
            if e.kind == "mcall" and e.name in ("add_argument_group", "add_mutually_exclusive_group") and e.args[0] is p and e.result is not p:
                out += opts(e.result, seen + (p,))
        for q in parents.get(p, []):
            if q not in seen:
                out += opts(q, seen + (p,))
        return out
    return {c: (p, opts(p), funcs.get(p), p in unclear or any(q in unclear for q in parents.get(p, []))) for c, p in made.items()}


def kind_of(I, st, o):
    if o.action in ("store_true",):
        return FLAG
    n = o.kw.get("nargs")
    n = consts(I, st, n) if n is not None else None
    t = o.kw.get("type")
    if n in ("+", "*"):
        return MANY if t is None or t is mk("extf", "builtins.str") else "?"
    if n is not None or o.action not in (None, "store"):
        return "?"
    if t is None or t is mk("extf", "builtins.str"):
        return STR
    if t is mk("extf", "builtins.float"):
        return FLOAT
    if t.op == "extf":
        return t.a[0]
    return "?"


def table(ctx):
    R = "C12.R1"
    repo = ctx.repo
    I, st = module_run(ctx)
    file = repo.modules[BIN].path
    P = parsers(ctx, I, st)
    if not P:
        ctx.undecided(R, "parsers", "no command declared")
        return
    for c, want in COMMANDS.items():
        if c not in P:
            ctx.violation(R, "command %s" % c, "the command is not accepted (commands: %s)" % ", ".join(sorted(P)), file, 0)
            continue
        p, opts, fn, unclear = P[c]
        ctx.count("commands")
        pos = [o for o in opts if o.positional]
        if unclear:
            ctx.undecided(R, "command %s" % c, "options not resolved")
        else:
            names = [o.dest for o in pos]
            ctx.decide(R, "command %s arguments" % c, names == ["modeltype", "modelpath"], "the arguments are %s" % ", ".join(names), file, pos[0].line if pos else 0)
            for o in pos:
                if o.dest == "modeltype":
                    ch = o.kw.get("choices")
                    ch = consts(I, st, ch) if ch is not None else ("mdp", "dtmc")
                    ctx.decide(R, "command %s model types" % c, None if ch == "?" else {"mdp", "dtmc"} <= set(ch), "the types are %s" % (ch,), file, o.line)
            for short, (long, dest, default, kind) in want.items():
                con = "command %s option %s" % (c, short)
                ctx.count("options")
                os_ = [o for o in opts if short in o.names]
                if not os_:
                    ctx.violation(R, con, "the documented option is not declared", file, 0)
                    continue
                o = os_[0]
                k = kind_of(I, st, o)
                ctx.decide(R, con + " kind", None if k == "?" else k == kind, "it is read as %s, documented as %s" % (k, kind), file, o.line)
                d = o.kw.get("default")
                d = consts(I, st, d) if d is not None else (False if k == FLAG else None)
                if default is not None:
                    ok = d == default and type(d) is type(default) or (kind == FLOAT and d in (default, str(default), "1e-5"))
                    if kind == MANY and d is None:
                        ok = None if fn is None else False
                    ctx.decide(R, con + " default", None if d == "?" else ok, "it is %r, documented as %r" % (d, default), file, o.line)
                elif kind != FLAG:
                    ctx.decide(R, con + " default", None if d == "?" else d is None, "it is %r, documented is one derived from the path" % (d,), file, o.line)
            # the same option must not be declared twice (argparse stops), nor two options share a name
            seen = {}
            for o in opts:
                for n in o.names:
                    if n in seen:
                        ctx.violation(R, "command %s option %s" % (c, n), "declared twice", file, o.line)
                    seen[n] = o
        if fn is None or fn.op != "func":
            ctx.undecided(R, "command %s function" % c, "not bound by set_defaults")
            continue
        ctx.part("command %s" % c, command, ctx, c, repo.by_uid[fn.a[0]], None if unclear else opts, file)
    app = [(e.args[0].a[0], e.args[1:], e) for e in I.events if e.kind == "app" and e.args and e.args[0].op == "attr" and e.args[0].a[1] == "func"]
    app += [(e.args[0], e.args[1:], e) for e in I.events if e.kind == "mcall" and e.name == "func"]
    for a, given, e in app[:1]:
        ctx.decide(R, "the selected function is called", len(given) == 1 and given[0] is a, "it is called with %s" % ", ".join(tm.show(x) for x in given), e.file, e.line)
    if not app:
        ctx.undecided(R, "the selected function is called", "no such call")
    defaults = [fn for c, (p, o, fn, u) in P.items() if fn is None]
    if defaults and app:
        ctx.undecided(R, "commands without function", "%d" % len(defaults))


# what a command does: the calls that characterise it
def command(ctx, c, f, opts, file):
    R = "C12.R1"
    repo = ctx.repo
    rec = Rec(repo)
    RFC, SS, MDP_ = repo.cls("ReachabilityForm"), repo.cls("Subsystem"), repo.cls("AbstractMDP")
    red = repo.maybe("ReachabilityForm.reduce")
    ck = repo.maybe("switss.certification.certificates.check_farkas_certificate")
    ff = repo.maybe("AbstractMDP.from_file")
    sinit, dg = repo.find_method(SS, "__init__"), repo.find_method(MDP_, "digraph")
    rec.on(repo.find_method(RFC, "__init__"), lambda I, st, env, fn: NONE)
    rec.on(red, lambda I, st, env, fn: tup(sym("rform", "rform"), sym("m1", "any"), sym("m2", "any")))
    rec.on(ck, lambda I, st, env, fn: sym("valid", "bool"))
    rec.on(ff, lambda I, st, env, fn: sym("model", "model"))
    rec.on(sinit, lambda I, st, env, fn: NONE)
    rec.on(dg, lambda I, st, env, fn: sym("graph", "any"))
    solvers = {x.qual for x in repo.funcs.values() if x.name in ("solve", "solveiter") and x.cls is not None}
    saved = {x.qual for x in repo.funcs.values() if x.name == "save" and x.cls is not None}
    I = interp(repo, module=f.module.name, intercept=rec.ics, opaque=solvers | saved)
    st = I.new_state()
    reads = {}
    orig = I.getattr

    def getattr_(st, base, name, node):
        if base is A_:
            reads.setdefault(name, (I.frames[-1].module.path, getattr(node, "lineno", 0), isinstance(node, ast.Call)))
        return orig(st, base, name, node)
    I.getattr = getattr_
    st.path = ()
    I.call_func(st, f, [A_], {}, None)
    ctx.used(I)
    fl, ln = where(repo, f)
    called = {id(s[0]) for s in rec.seen}
    has = lambda fn: fn is not None and id(fn) in called
    names = {e.name.split(".")[-1] for e in I.events if e.kind in ("call", "mcall")}
    marks = {"rf": has(red), "minimize": bool({"solve", "solveiter"} & names), "certify": has(ck) and "solve" not in names and "solveiter" not in names,
             "subsystem": has(sinit), "render": has(dg), "info": has(ff) and not has(red) and not has(dg) and not has(sinit)}
    if marks[c]:
        ctx.ok(R, "command %s operation" % c, f.name)
    else:
        others = [k for k, v in marks.items() if v]
        ctx.decide(R, "command %s operation" % c, False if others else None, "the function %s performs: %s" % (f.name, ", ".join(others)), fl, ln)
    if opts is None:
        return
    dests = {o.dest for o in opts} | {"func"}
    for n, (pf, pl, dflt) in sorted(reads.items()):
        ctx.count("option reads")
        ctx.decide(R, "command %s reads %s" % (c, n), n in dests, "the option is not declared for the command", pf, pl)


# ---------------------------------------------------------------- documented texts
def start(ctx, fname, attrs, I=None, st=None, ics=None, opaque=()):
    repo = ctx.repo
    f = repo.func(BIN + "." + fname)
    if I is None:
        I = interp(repo, module=BIN, intercept=ics, opaque=opaque)
        st = I.new_state()
        st.path = ()
        I.push_module(repo.modules[BIN])
    r = I.alloc(st, "inst", None)
    o = st.heap[r.a[0]].copy()
    o.attrs = {k: (items(I, st, [C(x) for x in v]) if isinstance(v, list) else v) for k, v in attrs.items()}
    st.heap[r.a[0]] = o
    res = I.call_func(st, f, [r], {}, None)
    ctx.used(I)
    return I, st, f, res


OPTS = dict(modeltype=C("mdp"), modelpath=C("m"), tolerance=sym("tol", "num"), certificate=C("results"), output=C("out"), initial_label=sym("initial", "str"),
            target_label_rf=sym("trf", "str"), fail_label_rf=sym("frf", "str"), target_label=sym("target", "str"), subsys_label=sym("sl", "str"),
            method=[], solve=[], solve_iter=[])


def result(I, st, repo, n):
    """a successful result with the certificate number n"""
    r = I.alloc(st, "inst", None, cls=repo.cls("ProblemResult"))
    o = st.heap[r.a[0]].copy()
    o.attrs = dict(status=C("success"), subsystem=sym("subsystem%d" % n, "any"), value=sym("value%d" % n, "num"), farkas_cert=cert(n))
    o.attrs.update({"_ProblemResult__" + k: v for k, v in o.attrs.items()}, **{"_" + k: v for k, v in o.attrs.items()})
    st.heap[r.a[0]] = o
    return r


def cert(n):
    return sym("certificate%d" % n, "vec")


def recorder(ctx):
    repo = ctx.repo
    rec = Rec(repo)
    rec.on(repo.find_method(repo.cls("ReachabilityForm"), "__init__"), lambda I, st, env, fn: NONE)
    rec.on(repo.maybe("AbstractMDP.from_file"), lambda I, st, env, fn: sym("model", "model"))
    base = repo.cls("ProblemFormulation")
    rec.on(repo.find_method(base, "solve"), lambda I, st, env, fn: result(I, st, repo, 0))

    def results(I, st, env, fn):
        return items(I, st, [result(I, st, repo, 0), result(I, st, repo, 1)])
    rec.on(repo.find_method(base, "solveiter"), results)
    rec.on(repo.maybe("switss.certification.certificates.check_farkas_certificate"), lambda I, st, env, fn: sym("valid", "bool"))
    rec.on(repo.find_method(repo.cls("Subsystem"), "__init__"), lambda I, st, env, fn: NONE)
    return rec


def value(I, st, v):
    """python value of a known option"""
    if v.op == "c":
        return v.a[0]
    if v.op == "class":
        return v
    cs = I.concrete(st, v)
    if cs is not None and all(c.op == "c" for c in cs):
        return [c.a[0] for c in cs]
    return None


def minimize(ctx, con, method, solve, siter, wants, modeltype="mdp"):
    """wants: search class, its parameters, (solve|solveiter), its parameters"""
    R = "C12.R2"
    repo = ctx.repo
    rec = recorder(ctx)
    I, st, f, _ = start(ctx, "minargs", dict(OPTS, method=method, solve=solve, solve_iter=siter, modeltype=C(modeltype)), ics=rec.ics)
    fl, ln = where(repo, f)
    ctx.count("command lines")
    cname, cargs, entry, eargs = wants
    lost = [e for e in I.events if e.kind == "missing" and not e.path and not e.binders]
    for e in lost[:1]:
        ctx.violation(R, con + " accepted", "%r is not accepted" % (e.name,), e.file, e.line)
    if lost:
        return
    made = [e for e in I.events if e.kind == "new" and e.extra is not None and any(c.name == "ProblemFormulation" for c in repo.mro(e.extra))]
    if not made:
        ctx.undecided(R, con, "no search created")
        return

    def judge(what, got, want, line):
        if got is None:
            ctx.undecided(R, con + " " + what, "not resolved")
            return
        if isinstance(want, str) and want.startswith("class:"):
            ok = got.a[0].split(".")[-1] == want[6:] if hasattr(got, "op") else False if got is not None else None
        else:
            ok = not hasattr(got, "op") and got == want and (type(got) is type(want) or isinstance(want, float) and type(got) is int)
        ctx.decide(R, con + " " + what, ok, "it is %s" % (tm.show(got) if hasattr(got, "op") else repr(got),), fl, line)
    for e in made[:1]:
        ctx.decide(R, con + " search", e.extra.name == cname, "the search is %s" % e.extra.name, e.file, e.line)
        if e.extra.name != cname:
            continue
        init = repo.find_method(e.extra, "__init__")
        env = I.bind(st, init, [sym("self", "any")] + list(e.args), e.kw, None)
        if env is None:
            ctx.violation(R, con + " search", "the search does not take the given parameters", e.file, e.line)
            continue
        # parameters may go through **kwargs into the base class
        for p, want in cargs.items():
            v = env.get(p)
            if v is None and init.node.args.kwarg is not None:
                d = env.get(init.node.args.kwarg.arg)
                o = I.obj(st, d) if d is not None and d.op == "ref" else None
                vs = [x.val for x in o.log if x.op == "set" and x.key is C(p)] if o is not None else []
                v = vs[-1] if vs else None
            judge("parameter %s" % p, value(I, st, v) if v is not None else None, want, e.line)
    calls = [s for s in rec.seen if s[0].name in ("solve", "solveiter")]
    if not calls:
        ctx.undecided(R, con + " start", "no search started")
    for fn, env, fz, path, file, line in calls:
        if any(tm.assume(p) is FALSE for p in path):
            continue
        ctx.decide(R, con + " start", fn.name == entry, "%s is called" % fn.name, file, line)
        for p, want in eargs.items():
            if p in env:
                judge("option %s" % p, value(I, st, env[p]), want, line)
    ck = [s for s in rec.seen if s[0].name == "check_farkas_certificate"]
    for fn, env, fz, path, file, line in ck[:1]:
        judge("checked mode", value(I, st, env.get("mode", NONE)), eargs["mode"], line)
        judge("checked threshold", value(I, st, env.get("threshold", NONE)), eargs["threshold"], line)


def texts(ctx):
    for m in ("min", "max"):
        ctx.part("mode " + m, minimize, ctx, "mode=%s" % m, ["QSHeur", "mode=" + m], ["threshold=0.25"], [], ("QSHeur", {}, "solve", {"mode": m, "threshold": 0.25}))
    for s in ("cbc", "gurobi", "glpk", "cplex"):
        for k in ("QSHeur", "MILPExact"):
            ctx.part("%s solver %s" % (k, s), minimize, ctx, "%s solver=%s" % (k, s), [k, "solver=" + s, "mode=max"], [], ["threshold=0.5", "timeout=7"],
                     (k, {"solver": s}, "solveiter", {"mode": "max", "threshold": 0.5, "timeout": 7}))
    for i in ("AllOnesInitializer", "InverseFrequencyInitializer", "InverseReachabilityInitializer"):
        ctx.part(i, minimize, ctx, "initializertype=" + i, ["QSHeur", "mode=min", "initializertype=" + i], ["labels=a,b", "threshold=0.5"], [],
                 ("QSHeur", {"initializertype": "class:" + i}, "solve", {"mode": "min", "threshold": 0.5, "labels": ["a", "b"]}))
    ctx.part("updater", minimize, ctx, "updatertype=InverseResultUpdater", ["QSHeur", "updatertype=InverseResultUpdater", "mode=min"], ["threshold=1"], [],
             ("QSHeur", {"updatertype": "class:InverseResultUpdater"}, "solve", {"mode": "min", "threshold": 1.0}))
    ctx.part("iterations", minimize, ctx, "iterations=7", ["QSHeur", "iterations=7", "mode=min"], [], ["threshold=1e-2", "labels=a"],
             ("QSHeur", {"iterations": 7}, "solveiter", {"mode": "min", "threshold": 0.01, "labels": ["a"]}))
    for t, cls in (("mdp", "MDP"), ("dtmc", "DTMC")):
        for c in ("rfargs", "minargs", "certargs", "subsysargs", "renderargs", "infoargs"):
            ctx.part("%s %s" % (c, t), modeltype, ctx, c, t, cls)


def modeltype(ctx, c, t, cls):
    """the model file is read by the class of the given type"""
    R = "C12.R2"
    repo = ctx.repo
    f = repo.maybe(BIN + "." + c)
    if f is None:
        ctx.undecided(R, "%s %s" % (c, t), "no such function")
        return
    ff = repo.maybe("AbstractMDP.from_file")
    got = []

    def h(I, st, a, k, n, fn):
        # the class the method is called on
        got.append((a[0] if a else None, I.frames[-1].module.path, getattr(n, "lineno", 0)))
        return sym("model", "model")
    rec = recorder(ctx)
    rec.on(repo.maybe("ReachabilityForm.reduce"), lambda I, st, env, fn: tup(sym("rform", "rform"), sym("m1", "any"), sym("m2", "any")))
    rec.on(repo.find_method(repo.cls("AbstractMDP"), "digraph"), lambda I, st, env, fn: sym("graph", "any"))
    ics = dict(rec.ics)
    if ff is not None:
        ics[ff.qual] = h
    saved = {x.qual for x in repo.funcs.values() if x.name == "save" and x.cls is not None}
    I, st, f, _ = start(ctx, c, dict(OPTS, modeltype=C(t), method=["QSHeur", "mode=min"], solve=["threshold=1"], coloring=NONE, view=FALSE), ics=ics, opaque=saved)
    if not got:
        ctx.undecided(R, "%s %s" % (c, t), "no model loaded")
    for k, fl, ln in got:
        ok = None if k is None or k.op != "class" else k.a[0].split(".")[-1] == cls
        ctx.decide(R, "%s %s" % (c, t), ok, "the model is read as %s" % (tm.show(k) if k is not None else "?"), fl, ln)


# ---------------------------------------------------------------- stored results
def plain_json(I, st, v, depth=0):
    """None, or what cannot be written as JSON"""
    if depth > 6:
        return None
    if v.op in ("class", "func", "lfunc", "extf", "bound"):
        return tm.show(v)
    o = I.obj(st, v) if v.op == "ref" else None
    if o is None:
        return None
    if o.kind in ("inst", "model", "set", "gen"):
        return "%s" % (o.kind,)
    for e in o.log:
        for x in (e.key, e.val):
            if x is not None and hasattr(x, "op"):
                r = plain_json(I, st, x, depth + 1)
                if r is not None:
                    return r
    return None


def flow(ctx, method, siter, mode, thr):
    R = "C12.R3"
    repo = ctx.repo
    con = "%s%s" % (method[0], " (iterations)" if siter else "")
    rec = recorder(ctx)
    dumped = []

    def dump(I, st, a, k, node, name):
        dumped.append((a[0], dict(st.heap), I.frames[-1].module.path, getattr(node, "lineno", 0)))
        return NONE

    def load(I, st, a, k, node, name):
        return dumped[-1][0]
    ics = dict(rec.ics)
    ics["json.dump"], ics["json.load"] = dump, load
    saved = {x.qual for x in repo.funcs.values() if x.name == "save" and x.cls is not None}
    texts_ = ["threshold=%s" % thr]
    I, st, f, _ = start(ctx, "minargs", dict(OPTS, method=method, **({"solve_iter": texts_} if siter else {"solve": texts_})), ics=ics, opaque=saved)
    if not dumped:
        ctx.undecided(R, con + " stored", "nothing is written")
        return
    d, heap, fl, ln = dumped[-1]
    bad = plain_json(I, st, d)
    ctx.decide(R, con + " stored values", bad is None, "not a JSON value: %s" % bad, fl, ln)
    n = 2 if siter else 1
    for fname in ("certargs", "subsysargs"):
        g = repo.maybe(BIN + "." + fname)
        if g is None:
            ctx.undecided(R, con + " read by " + fname, "no such function")
            continue
        rec.seen.clear()
        n0 = len(I.events)
        start(ctx, fname, dict(OPTS), I, st)
        seen = [s for s in rec.seen if (s[0].name == "check_farkas_certificate" if fname == "certargs" else s[0].name == "__init__" and s[0].cls is repo.cls("Subsystem"))]
        lost = [e for e in I.events[n0:] if e.kind == "missing"]
        for e in lost[:1]:
            ctx.violation(R, "%s: %s reads %s" % (con, fname, e.name), "no such value was stored", e.file, e.line)
        if lost:
            continue
        if len(seen) != n:
            whole = not any(s[3] for s in seen) and not any(e.binders for e in I.events[n0:])
            ctx.decide(R, "%s: %s reads every result" % (con, fname), False if whole and seen and len(seen) != n else None, "%d of %d results arrive" % (len(seen), n), *where(repo, g))
            continue
        ctx.count("readers")
        for i, (fn, env, fz, path, file, line) in enumerate(seen):
            names = fn.params()
            wants = {"mode": C(mode), "threshold": C(float(thr)), "certificate": cert(i)}
            for k, w in {"certargs": {1: "mode", 3: "threshold", 4: "certificate"}, "subsysargs": {2: "certificate", 3: "mode"}}[fname].items():
                v = fz.get(names[k]) if k < len(names) else None
                if v is None:
                    ctx.undecided(R, "%s: %s gets %s" % (con, fname, w), "no such parameter")
                else:
                    same(ctx, R, "%s: %s gets the stored %s" % (con, fname, w), strip(v), wants[w], file, line)
        if fname == "subsysargs":
            es = [e for e in I.events[n0:] if e.name.split(".")[-1] == "save" and e.kind in ("call", "mcall")]
            for i, e in enumerate(es if len(es) == n else []):
                v = [a for a in e.args if a.op != "ref"] or list(e.kw.values())
                if v:
                    same(ctx, R, con + ": subsystems are named by their iteration", v[-1], C("out-%d" % i), e.file, e.line)


def same(ctx, R, con, v, want, file, line):
    if v is want:
        ctx.ok(R, con, tm.show(v)[:80])
    else:
        ctx.decide(R, con, False if resolved(v, extra=("ext",)) else None, "it is %s, stored was %s" % (tm.show(v)[:120], tm.show(want)), file, line)


def strip(v):
    """conversions between lists and arrays keep the numbers"""
    while True:
        if v.op in ("list", "tuple") and len(v.a) == 1 and v.a[0].op in ("for", "base"):
            x = v.a[0]
            if x.op == "base":
                v = x.a[0]
                continue
        if v.op == "ext" and v.a[0] in ("numpy.array", "numpy.asarray", "builtins.list") and len(v.a) == 2:
            v = v.a[1]
            continue
        if v.op in ("m",) and v.a[0] in ("tolist", "copy") and len(v.a) == 2:
            v = v.a[1]
            continue
        return v


def mapping(ctx):
    """the mapping file of `rf`: entry number i of the four lists belongs together"""
    R = "C12.R3"
    repo = ctx.repo
    f = repo.func(BIN + ".rfargs")
    M = sym("pairs", "bidict")
    rec = recorder(ctx)
    made = []

    def reduced(I, st, env, fn):
        made.append(I.alloc(st, "bidict", None, base=M))
        return tup(sym("rform", "rform"), sym("states", "bidict"), made[-1])
    rec.on(repo.func("ReachabilityForm.reduce"), reduced)
    dumped = []

    def dump(I, st, a, k, node, name):
        dumped.append((a[0], I.frames[-1].module.path, getattr(node, "lineno", 0)))
        return NONE
    ics = dict(rec.ics)
    ics["json.dump"] = dump
    saved = {x.qual for x in repo.funcs.values() if x.name == "save" and x.cls is not None}
    I, st, f, _ = start(ctx, "rfargs", dict(OPTS), ics=ics, opaque=saved)
    if not made:
        ctx.undecided(R, "mapping file", "no reduction")
        return
    want = I.freeze(st, I.call_func(st, spec_func(repo, "tables", "mapping"), [made[-1]], {}, None))

    def pairs(t):
        """both ways of taking a part of a pair"""
        m = {x: item(x.a[0], x.a[1].a[0]) for x in tm.subterms(t) if x.op == "get" and x.a[1].op == "c" and isinstance(x.a[1].a[0], int)
             and (x.a[0].op in ("bv", "it") or x.a[0].op == "get" and x.a[0].a[0] in (M, made[-1]))}
        return tm.subst(t, m) if m else t
    o = I.obj(st, dumped[-1][0]) if dumped and dumped[-1][0].op == "ref" else None
    if o is None or o.kind != "dict" or o.base is not None:
        ctx.undecided(R, "mapping file", "no table is written")
        return
    fl, ln = dumped[-1][1:]
    for i, k in enumerate(("states", "actions", "rfstates", "rfactions")):
        vs = [e.val for e in o.log if e.op == "set" and e.key is C(k)]
        if not vs:
            ctx.violation(R, "mapping file %s" % k, "not written", fl, ln)
            continue
        compare(ctx, R, "mapping file %s" % k, pairs(I.freeze(st, vs[-1])), pairs(item(want, i)), f, what="list", refs=(M, made[-1]))


def details(ctx):
    """every search describes itself by the name of its class and its own parameters"""
    R = "C12.R3"
    repo = ctx.repo
    for cname, params in (("QSHeur", ("solver", "iterations", "initializertype", "updatertype")), ("MILPExact", ("solver",)), ("TreeAlgo", ("known_upper_bound", "tol"))):
        ctx.part(cname + ".details", details_of, ctx, R, cname, params)


def details_of(ctx, R, cname, params):
    repo = ctx.repo
    ci = repo.cls(cname)
    init, g = repo.find_method(ci, "__init__"), repo.find_method(ci, "details")
    I = interp(repo, module=ci.module.name)
    st = I.new_state()
    given = {p: sym("given_" + p, "any") for p in params}
    extra = [p for p in init.params()[1:] if p not in given and p not in [a.arg for a in (init.node.args.kwonlyargs)]]
    nd = len(init.node.args.defaults)
    pos = [a.arg for a in init.node.args.args[1:]]
    need = pos[:len(pos) - nd] if nd else pos
    kw = dict(given)
    for p in need:
        kw.setdefault(p, sym("given_" + p, "any"))
    r = I.instantiate(st, ci, [], kw, None)
    d = I.getattr(st, r, "details", None)
    ctx.used(I)
    file, line = where(repo, g)
    o = I.obj(st, d) if d.op == "ref" else None
    if o is None or o.kind != "dict" or o.base is not None:
        ctx.undecided(R, cname + ".details", "not a table")
        return
    ctx.decide(R, cname + ".details values", plain_json(I, st, d) is None, "not a JSON value: %s" % plain_json(I, st, d), file, line)

    def val(k):
        vs = [e.val for e in o.log if e.op == "set" and e.key is C(k)]
        return vs[-1] if vs else None
    t = val("type")
    ctx.decide(R, cname + ".details type", False if t is None else (t is C(cname) if t.op == "c" else None), "it is %s" % (tm.show(t) if t is not None else "missing"), file, line)
    for p in params:
        v = val(p)
        if v is None:
            ctx.violation(R, "%s.details %s" % (cname, p), "missing", file, line)
            continue
        wrong = [q for q in params if q != p and given[q] in set(tm.subterms(v))]
        if given[p] in set(tm.subterms(v)):
            ctx.ok(R, "%s.details %s" % (cname, p))
        else:
            ctx.decide(R, "%s.details %s" % (cname, p), False if wrong or resolved(v) else None, "it is %s" % tm.show(v)[:100], file, line)


def benchmark(ctx):
    """what the renderer reads from a run is what a run writes"""
    R = "C12.R3"
    repo = ctx.repo
    B = "switss.benchmarks.benchmarks."
    f, g = repo.func(B + "run"), repo.func(B + "render")
    SLV = sym("solveiter", "any")
    base = repo.cls("ProblemFormulation")
    I = interp(repo, module=f.module.name)
    I.sorts = dict(I.sorts, method="QSHeur", form="ReachabilityForm")
    rec = Rec(repo)
    rec.on(repo.find_method(base, "solveiter"), lambda I, st, env, fn: SLV)
    I.intercept.update(rec.ics)
    st = I.new_state()
    I.call_func(st, f, [sym("rf", "form"), sym("method", "method"), sym("mode", "str")], {}, None)
    ctx.used(I)
    top, inner = set(), None
    data = [r for r in range(0, 0)]
    for rid, o in st.heap.items():
        if o.kind != "dict":
            continue
        ks = {e.key.a[0] for e in o.log if e.op == "set" and e.key.op == "c"}
        if "run" in ks:
            top |= ks
        elif "threshold" in ks:
            inner = ks if inner is None else inner & ks
    for e in I.events:
        for rid, o in (e.heap or {}).items():
            if o.kind == "dict":
                ks = {x.key.a[0] for x in o.log if x.op == "set" and x.key.op == "c"}
                if "threshold" in ks and "run" not in ks:
                    inner = ks if inner is None else inner & ks
    if not top or inner is None:
        ctx.undecided(R, "benchmark data", "no table found")
        return
    RUN = sym("run", "any")
    file, line = where(repo, g)
    for mode in ("laststates-thr", "states-thr", "wall_time-thr", "proc_time-thr"):
        J = interp(repo, module=g.module.name)
        s2 = J.new_state()
        J.call_func(s2, g, [RUN], {"mode": C(mode), "normalize": FALSE}, None)
        ctx.used(J)
        t1, t2 = set(), set()
        terms = set()
        for e in J.events:
            for x in tuple(e.args) + tuple(e.kw.values()) + tuple(e.path):
                if hasattr(x, "op"):
                    try:
                        terms |= set(tm.subterms(J.freeze(s2, x)))
                    except Exception:
                        terms |= set(tm.subterms(x))
        for x in terms:
            if x.op == "get" and x.a[1].op == "c" and isinstance(x.a[1].a[0], str):
                if x.a[0] is RUN:
                    t1.add(x.a[1].a[0])
                elif any(y is get(RUN, C("run")) for y in tm.subterms(x.a[0])):
                    t2.add(x.a[1].a[0])
        ctx.count("render modes")
        for ks, have, nm in ((t1, top, "run"), (t2, inner, "run entry")):
            if not ks:
                ctx.undecided(R, "render %s reads %s" % (mode, nm), "no key found")
            for k in sorted(ks):
                ctx.decide(R, "render %s reads %s of %s" % (mode, k, nm), k in have, "a run does not write it (it writes %s)" % ", ".join(sorted(map(str, have))), file, line)


def run(ctx):
    ctx.rule("C12.R1", "every documented command is accepted with its options and bound to its operation; every option read is declared")
    ctx.rule("C12.R2", "every documented method, mode, initialiser, updater, solver and parameter text selects the thing of that name")
    ctx.rule("C12.R3", "what the readers take from a stored result is what the writer stored under that meaning")
    ctx.part("table", table, ctx)
    texts(ctx)
    for m in (["QSHeur", "mode=min", "iterations=2"], ["MILPExact", "mode=max"]):
        for si in (False, True):
            ctx.part("%s %s" % (m[0], si), flow, ctx, m, si, m[1][5:], "0.25")
    ctx.part("mapping", mapping, ctx)
    ctx.part("details", details, ctx)
    ctx.part("benchmark", benchmark, ctx)
