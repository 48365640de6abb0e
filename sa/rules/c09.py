"""C09: operations do not modify their inputs or results handed out earlier.

Object analysis (own.py): every public operation is followed through the repository with abstract objects for all that exists before the
call: the receiver and what it holds, arguments, default values, module variables, results of earlier calls of any operation.

R1  no operation writes in place to such an object (private attributes that only cache a result may be filled).
R2  the documented mutators change only what belongs to their receiver: nothing that is shared with a constructor's argument, with the
    model a reduction or subsystem was made from, with a default value or with a module variable.
R3  default values are not written to."""
import multiprocessing
import os
from .common import *
from .api import *

FORMS = [(("MDP",), ("rf",)), (("MDP",), ("rrf",)), (("DTMC",), ("rf",)), (("DTMC",), ("rrf",))]
KINDS = ("model", "rf", "rrf", "subsystem", "idict", "milp", "initializer", "updater", "search", "result")


def universe(repo, models, forms, tier):
    """all operations, twice (the second time every first result exists); then the documented mutators"""
    a = Api(repo, models, forms)
    ops = {}

    def step(name, f, *x):
        a.own.events = []
        n0 = len(a.done)
        f(*x)
        for d in a.done[n0:]:
            ops.setdefault(d, [])
        return list(a.own.events)
    out = []
    for k in KINDS:
        out += step(k, a.obj, k)
    for ph in ("first", "second"):
        for k, ms in QUERIES.items():
            for m in ms:
                out += step("%s.%s" % (k, m), a.call_method, k, m, ph)
        for q in FUNCTIONS + STATICS:
            out += step(q, a.call_named, q, True, ph)
    res = [pack(e) for e in out if e.kind == "mutate"]
    mut = mutators(a)
    return res, mut, sorted(ops), a.own.writes, sorted(a.own.functions)


def pack(e):
    return (e.file, e.line, e.fn, e.what, e.entry, sorted({o.old for o in e.obs if o.old}), [o.id for o in e.obs])


def mutators(a):
    """documented mutators against everything that does not belong to the receiver"""
    own = a.own
    out, n = [], 0
    groups = []
    for k, ms in MUTATORS.items():
        for o in a.obj(k):
            for m in ms:
                f = a.repo.find_method(o.cls, m)
                if f is not None:
                    a.params(f, 1, "all")
    args = set()
    for v in a.named.values():
        args |= set(v)
    foreign0 = set()
    for o in args:
        if o.kind != "inst":
            foreign0 |= set(own.reach([o]))
    # mappings with an inverse that were handed to a constructor
    labels = set(own.reach(a.obj("idict")))
    for v in list(own.defaults.values()) + list(own.globals.values()):
        foreign0 |= set(own.reach(v))
    for k, ms in MUTATORS.items():
        for o in sorted(a.obj(k), key=lambda o: o.id):
            f = set(foreign0) | (labels if k != "idict" else set())
            for m in ms:
                groups.append((o, m, f))
    # a model that was made from another one
    for kind, derive in (("rf", None), ("rrf", None), ("subsystem", None)):
        for o in a.obj(kind):
            inner = [x for x in own.reach([o]).values() if x.kind == "inst" and x.cls.name in a.models and x not in a.obj("model")]
            base = set(foreign0)
            for x in a.obj("model"):
                base |= set(own.reach([x]))
            for x in inner:
                groups.append((x, "add_label", base))
    for o, m, foreign in groups:
        f = a.repo.find_method(o.cls, m)
        if f is None:
            continue
        own.events = []
        a.enter("%s.%s" % (o.cls.name, m), "mutator")
        own.call(f, [frozenset([o])], a.params(f, 1, "all"), a.node("mutator %s %d" % (m, o.id)))
        n += 1
        mine = set(own.reach([o]))
        for e in own.events:
            if e.kind != "mutate":
                continue
            bad = [x for x in e.obs if x.id in foreign]
            if bad:
                out.append((e.file, e.line, e.fn, e.what, e.entry, sorted({x.old for x in bad if x.old}), o.what))
    return out, n


def work(x):
    root, models, forms, tier = x
    from ..front import Repo
    import sys
    sys.setrecursionlimit(20000)
    try:
        return universe(Repo(root, with_pyx=False), models, forms, tier)
    except Exception as e:
        import traceback
        return "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-600:])


def run(ctx):
    ctx.rule("C09.R1", "no public operation writes in place to an object that existed before the call")
    ctx.rule("C09.R2", "a documented mutator changes nothing that is shared with an argument, a default value, a module variable or the model its receiver was made from")
    ctx.rule("C09.R3", "default values and module variables are not written to")
    ctx.notes.append("library calls: views (reshape, ravel, .T, slices, tocsr of a csr matrix, dok_matrix of a dok matrix, ...) are the same object, "
                     "other results are fresh; library functions write only to the arguments listed in own.py (INPLACE, MUTBY)")
    ctx.notes.append("private attributes that are None or empty after construction are caches: filling them is allowed until the content is handed out")
    with multiprocessing.get_context("fork").Pool(4) as pool:
        res = pool.map(work, [(ctx.repo.root, m, f, ctx.tier) for m, f in FORMS])
    bad = {}
    for (m, f), r in zip(FORMS, res):
        tag = "%s/%s" % (m[0], f[0])
        if isinstance(r, str):
            ctx.undecided("C09.R1", tag, r)
            continue
        events, (mut, nmut), ops, writes, functions = r
        ctx.functions |= set(functions)
        ctx.count("in-place writes looked at", writes)
        ctx.count("operations followed (%s)" % tag, len(ops))
        hit = set()
        for file, line, fn, what, entry, why, ids in events:
            hit.add(entry)
            default = [w for w in why if w.startswith(("the default value", "the module variable", "the class variable"))]
            bad.setdefault(("C09.R3" if default else "C09.R1", "%s: %s" % (fn, what)), (file, line, entry, (default or why)[0] if why else "?"))
        for file, line, fn, what, entry, why, recv in mut:
            bad.setdefault(("C09.R2", "%s through %s: %s" % (fn, entry, what)), (file, line, entry, why[0] if why else "?"))
        for o in ops:
            if o not in hit and o.split("(")[0] not in hit:
                ctx.ok("C09.R1", "%s (%s)" % (o, tag))
        if not mut:
            ctx.ok("C09.R2", "%d calls of documented mutators (%s)" % (nmut, tag))
        if not any(k[0] == "C09.R3" for k in bad):
            ctx.ok("C09.R3", tag)
    for (rule, con), (file, line, entry, why) in sorted(bad.items()):
        ctx.violation(rule, con, "%s is changed during %s" % (why, entry), file, line)
