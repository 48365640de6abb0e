"""The public interface of the library, and objects to analyse its operations with (own.py)."""
import ast
from ..own import Own, Ob, NONE
from ..front import AnchorMissing

MODELS = ("MDP", "DTMC")
QUERIES = {
    "model": ["states_by_label", "labels_by_state", "actions_by_label", "labels_by_action", "actions_by_state", "reachable_mask", "predecessors", "successors",
              "strongly_connected_components", "maximal_end_components", "save", "digraph", "__repr__"],
    "rf": ["target_sap_idx", "target_state_idx", "fail_sap_idx", "fail_state_idx", "system", "A", "P", "index_by_state_action", "to_target", "proper_mecs",
           "nr_of_mecs", "nr_of_proper_mecs", "is_ec_free", "state_to_mec", "in_proper_ec", "__repr__", "fark_constraints", "fark_z_constraints",
           "fark_y_constraints", "max_z_state", "max_z_state_action", "max_y_state_action", "max_y_state", "pr_min", "pr_max"],
    "rrf": ["system", "A", "P", "index_by_state_action", "to_target", "is_ec_free", "in_proper_ec", "fark_constraints", "fark_z_constraints", "fark_y_constraints",
            "max_z_state", "max_z_state_action", "max_y_state_action", "max_y_state", "rew_min", "rew_max"],
    "subsystem": ["certform", "certificate", "subsystem_mask", "supersys", "subsys", "digraph", "__repr__"],
    "idict": ["__getitem__", "is_default", "__contains__", "__repr__", "keys", "items", "inv"],
    "milp": ["solve", "__repr__"],
    "initializer": ["initialize", "__repr__"],
    "updater": ["update", "constraints", "__repr__"],
    "search": ["_solveiter", "solve", "solveiter", "details", "__repr__"],
    "result": ["__repr__"],
}
MUTATORS = {
    "model": ["add_label"],
    "rf": ["set_target_visualization_style", "set_fail_visualization_style"],
    "idict": ["add", "remove"],
    "milp": ["set_objective_function", "add_constraint", "remove_constraint", "add_variables", "add_variables_w_bounds", "add_to_constraint", "add_indicator_constraint"],
}
STATICS = ["AbstractMDP.from_file", "AbstractMDP.from_prism_model", "AbstractMDP.from_stormpy"]
FUNCTIONS = ["certificate_size", "compute_upper_bounds", "groups_from_labels", "construct_MILP", "find_interior_point", "check_farkas_certificate",
             "generate_farkas_certificate", "parse_label_file", "prism_to_tra", "cast_dok_matrix", "underlying_graph", "quotient", "interface",
             "color_from_hash", "std_state_map", "std_trans_map_mdp", "std_trans_map_dtmc", "std_action_map"]
INITIALIZERS = ("AllOnesInitializer", "InverseReachabilityInitializer", "InverseFrequencyInitializer", "InverseCombinedInitializer")
UPDATERS = ("InverseResultUpdater", "InverseResultFixedZerosUpdater")


class Api:
    """objects of every kind, made by the library's own constructors"""

    def __init__(self, repo, models=MODELS, forms=("rf", "rrf")):
        self.repo, self.models, self.forms = repo, models, forms
        self.own = Own(repo)
        self.nodes = {}
        self.named = {}
        self.done = []
        self.roots = {}
        m = repo.modules.get("switss.model.amdp") or next(iter(repo.modules.values()))
        self.module = m

    # ---- synthetic call sites
    def node(self, text):
        n = self.nodes.get(text)
        if n is None:
            n = self.nodes[text] = ast.parse("_()", mode="eval").body
            n.lineno = 0
        return n

    def raw(self, kind, what, contents=(), elts=None, keys=None, user=False, fmt=None):
        o = Ob(kind, what, fmt=fmt)
        o.items = set(contents)
        o.user = user
        if elts is not None:
            o.elts = [frozenset(x) for x in elts]
        o.old = "the argument " + what
        o.given = True
        return o

    def arg(self, name, fn=""):
        """what a caller may pass for a parameter"""
        k = name
        if k in self.named:
            return self.named[k]
        w = name
        raw = self.raw
        one = lambda *os: frozenset(os)
        if name in ("P", "A", "matr", "obj", "fark_matr"):
            v = one(raw("mat", w, fmt="dok"), raw("mat", w), raw("arr", w), raw("list", w, contents=[raw("list", w)]))
            if name in ("A", "matr"):
                v = one(*[o for o in v if o.kind in ("mat", "arr")])
        elif name in ("b", "rhs", "certificate", "farkas_vec", "opt", "known_upper_bounds", "upper_bounds", "result_vector", "farkas_cert", "last_result", "coeffs"):
            v = one(raw("arr", w))
        elif name in ("reward_vector",):
            v = one(raw("arr", w), raw("list", w))
        elif name == "index_by_state_action":
            v = one(raw("bidict", w), raw("dict", w))
        elif name in ("label_to_actions", "label_to_states"):
            v = one(raw("dict", w, contents=[raw("set", w)]), raw("ddict", w, contents=[raw("set", w)])) | self.obj("idict")
        elif name == "d":
            v = one(raw("dict", w, contents=[raw("set", w)]))
        elif name in ("from_set", "blocklist", "node_set1", "node_set2"):
            v = one(raw("set", w))
        elif name in ("labels", "zero_vars", "variables", "domains", "partition"):
            v = one(raw("list", w))
        elif name in ("lhs", "expression", "bounds", "var_descr"):
            t = raw("tuple", w)
            v = one(raw("list", w, contents=[t]))
        elif name in ("prism_constants", "extra_labels"):
            v = one(raw("dict", w))
        elif name in ("weights",):
            v = one(raw("dict", w), raw("arr", w))
        elif name in ("groups", "indicator_to_group"):
            v = self.obj("idict")
        elif name in ("system", "configuration"):
            v = self.obj("model")
        elif name in ("reachability_form", "reach_form", "rf", "supersystem", "reachform"):
            v = NONE
            for x in self.forms:
                v |= self.obj(x)
        elif name in ("state_map", "trans_map", "action_map"):
            v = one(raw("any", w, user=True))
        elif name in ("vis_config", "style"):
            v = self.obj("vis")
        elif name == "model":
            v = self.obj("milp")
        elif name == "subsystem":
            v = self.obj("subsystem")
        elif name == "initializertype":
            v = self.own.resolved(("class", self.repo.cls("AllOnesInitializer")))
            for n in INITIALIZERS[1:]:
                c = self.cls(n)
                if c is not None:
                    v |= self.own.resolved(("class", c))
        elif name == "updatertype":
            v = NONE
            for n in UPDATERS:
                c = self.cls(n)
                if c is not None:
                    v |= self.own.resolved(("class", c))
        elif name in ("stormpy_model", "G"):
            v = one(raw("any", w, user=True))
        else:
            v = NONE
        self.named[k] = v
        return v

    def cls(self, name):
        try:
            return self.repo.cls(name)
        except AnchorMissing:
            return None

    def enter(self, entry, phase):
        o = self.own
        o.frames, o.stack = [], []
        o.entry, o.phase = entry, phase
        o.strong, o.depth = {}, []
        return o

    def construct(self, cname, over=None, tag=""):
        over = dict(over or {})
        if cname == "RewardReachabilityForm":
            over.setdefault("reward_vector", frozenset([self.raw("arr", "reward_vector")]))
        return self.construct_(cname, over, tag)

    def construct_(self, cname, over=None, tag=""):
        """an object made by the constructor of a class, all parameters given; and one with the required ones only"""
        c = self.cls(cname)
        if c is None:
            return NONE
        out = set()
        f = self.repo.find_method(c, "__init__")
        for mode in ("all", "required"):
            o = self.enter(cname, "constructor")
            kw = {}
            if f is not None:
                ps = f.params()[1:]
                a = f.node.args
                nreq = len(a.posonlyargs + a.args) - len(a.defaults) - 1
                for i, p in enumerate(ps):
                    if mode == "required" and i >= nreq:
                        continue
                    kw[p] = (over or {}).get(p, None)
                    if kw[p] is None:
                        kw[p] = self.arg(p)
                    elif kw[p] == "skip":
                        del kw[p]
            out |= o.instantiate(c, [], kw, self.node("%s %s" % (cname, tag)))
            self.done.append("%s(...) with %s arguments" % (cname, mode))
        self.own.mark(frozenset(out), "the %s passed in" % cname)
        return frozenset(out)

    def obj(self, kind):
        if kind in self.roots:
            return self.roots[kind]
        self.roots[kind] = NONE
        w = self.own
        saved = (w.frames, w.stack, w.entry, w.phase, w.strong, w.depth)
        if kind == "model":
            v = NONE
            for n in self.models:
                v |= self.construct(n)
        elif kind == "vis":
            v = NONE
            if "MDP" in self.models:
                v |= self.construct("VisualizationConfig")
            if "DTMC" in self.models:
                v |= self.construct("DTMCVisualizationConfig")
        elif kind == "idict":
            v = self.construct("InvertibleDict")
        elif kind == "rf":
            v = self.construct("ReachabilityForm")
            r = self.call_named("ReachabilityForm.reduce", mark=True)
            v |= self.insts(r, "ReachabilityForm")
        elif kind == "rrf":
            v = self.construct("RewardReachabilityForm", {"reachability_form": self.obj("rf")})
            for q in ("RewardReachabilityForm.fromsystem", "RewardReachabilityForm.reduce"):
                r = self.call_named(q, mark=True)
                v |= self.insts(r, "RewardReachabilityForm")
        elif kind == "subsystem":
            v = self.construct("Subsystem")
        elif kind == "milp":
            v = NONE
            for n in ("MILP", "LP", "GurobiMILP"):
                v |= self.construct(n)
                r = self.call_named(n + ".from_coefficients", mark=True)
                v |= self.insts(r, "MILP") | self.insts(r, "GurobiMILP")
        elif kind == "initializer":
            v = NONE
            for n in INITIALIZERS:
                v |= self.construct(n)
        elif kind == "updater":
            v = NONE
            for n in UPDATERS:
                v |= self.construct(n)
        elif kind == "search":
            v = self.construct("MILPExact") | self.construct("QSHeur") | self.construct("TreeAlgo")
        elif kind == "result":
            v = self.construct("ProblemResult") | self.construct("SolverResult")
        else:
            v = NONE
        w.frames, w.stack, w.entry, w.phase, w.strong, w.depth = saved
        self.roots[kind] = v
        return v

    def insts(self, v, cname):
        c = self.cls(cname)
        return frozenset(o for o in self.own.reach(v).values() if o.kind == "inst" and c is not None and c in self.repo.mro(o.cls))

    def call_named(self, qual, mark=False, phase="first"):
        """a static or class method or a function, with all arguments, and with the required ones"""
        f = self.repo.maybe(qual)
        if f is None:
            return NONE
        out = set()
        bounds = [None]
        if f.kind == "class":
            c = self.cls(qual.rsplit(".", 1)[0])
            if c is not None and c.name == "AbstractMDP":
                bounds = [self.own.classval(self.cls(n)) for n in MODELS if self.cls(n) is not None]
            else:
                bounds = [self.own.classval(c)]
        for b in bounds:
            for mode in ("all", "required"):
                args = self.params(f, 1 if b is not None else 0, mode)
                o = self.enter(qual, phase)
                a = dict(args)
                fv = o.funcval(f, bound=frozenset([b]) if b is not None else None)
                out |= o.apply(frozenset([fv]), [], a, self.node("%s %s %s" % (qual, b.what if b is not None else "", phase)))
                self.done.append(qual)
        if mark:
            self.own.mark(frozenset(out), "an earlier result of %s" % qual)
        return frozenset(out)

    def params(self, f, skip, mode):
        a = f.node.args
        ps = f.params()
        nreq = len(a.posonlyargs + a.args) - len(a.defaults)
        out = {}
        for i, p in enumerate(ps):
            if i < skip or mode == "required" and i >= nreq:
                continue
            out[p] = self.arg(p)
        return out

    def call_method(self, kind, name, phase):
        out = set()
        n = 0
        for o in sorted(self.obj(kind), key=lambda o: o.id):
            f = self.repo.find_method(o.cls, name)
            if f is None or f.abstract:
                continue
            me = frozenset([o])
            own = self.enter("%s.%s" % (o.cls.name, name), phase)
            nd = self.node("%s.%s %s %d" % (o.cls.name, name, phase, o.id))
            if f.kind == "property":
                out |= own.call(f, [me], {}, nd)
            else:
                for mode in ("all", "required"):
                    if f.kind == "static":
                        out |= own.call(f, [], self.params(f, 0, mode), nd)
                    else:
                        a = self.params(f, 1, mode)
                        out |= own.call(f, [me], a, nd)
            n += 1
            self.done.append("%s.%s" % (o.cls.name, name))
        self.own.mark(frozenset(out), "an earlier result of %s" % name)
        return n
