"""Whole-program object analysis: which objects can a value be, what do they contain, and who writes to them.

Values are sets of abstract objects (scalars are not represented: the empty set). Objects are named by their allocation site and the
chain of call sites that leads to it; functions of the repository are followed at every call (context sensitive), their fields are
updated weakly. Locals are flow sensitive. Nothing is executed and no path condition is evaluated, except that isinstance tests
narrow a name. Objects that exist outside of the running call (arguments, earlier results, defaults, module variables) carry the mark
`old`; an in-place write to such an object is an event."""
import ast
import builtins

SCALARFUNCS = {"len", "int", "float", "bool", "str", "abs", "round", "any", "all", "print", "repr", "hash", "id", "ord", "chr", "isinstance", "issubclass", "callable", "hasattr", "format", "min", "max", "sum", "divmod", "pow"}
MUTLIST = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "appendleft", "popleft", "extendleft", "rotate"}
MUTDICT = {"clear", "pop", "popitem", "setdefault", "update", "forceput", "forceupdate", "putall", "put", "forceputall", "__setitem__", "__delitem__"}
MUTSET = {"add", "discard", "remove", "pop", "clear", "update", "difference_update", "intersection_update", "symmetric_difference_update"}
MUTARR = {"resize", "fill", "sort", "put", "itemset", "partition", "setflags", "setfield"}
MUTMAT = {"resize", "setdiag", "sum_duplicates", "eliminate_zeros", "sort_indices", "prune", "update", "clear", "pop", "popitem", "setdefault", "_update", "has_canonical_format"}
MUTBY = {"list": MUTLIST, "dict": MUTDICT, "bidict": MUTDICT, "ddict": MUTDICT, "set": MUTSET, "arr": MUTARR, "mat": MUTMAT, "deque": MUTLIST,
         "any": (MUTLIST | MUTDICT | MUTSET | MUTARR | MUTMAT)}
ADDS = {"append": 0, "add": 0, "insert": 1, "appendleft": 0}
INPLACE = {"numpy.put": 0, "numpy.fill_diagonal": 0, "numpy.copyto": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.add.at": 0,
           "numpy.subtract.at": 0, "numpy.multiply.at": 0, "random.shuffle": 0, "numpy.random.shuffle": 0, "heapq.heappush": 0,
           "heapq.heapify": 0, "heapq.heappop": 0, "bisect.insort": 0}
VIEWS = {"asarray", "asmatrix", "asanyarray", "ascontiguousarray", "ravel", "squeeze", "reshape", "transpose", "atleast_1d", "atleast_2d", "swapaxes", "broadcast_to", "moveaxis", "expand_dims", "asfortranarray", "mat"}
SPARSE = {"dok_matrix": "dok", "csr_matrix": "csr", "csc_matrix": "csc", "coo_matrix": "coo", "lil_matrix": "lil", "bsr_matrix": "bsr", "dia_matrix": "dia",
          "dok_array": "dok", "csr_array": "csr", "csc_array": "csc", "coo_array": "coo", "lil_array": "lil"}
TOFMT = {"tocsr": "csr", "tocsc": "csc", "todok": "dok", "tocoo": "coo", "tolil": "lil", "tobsr": "bsr", "todia": "dia"}
UFUNC2 = {"add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "maximum", "minimum", "fmax", "fmin", "power", "mod", "remainder", "dot", "matmul",
          "logical_and", "logical_or", "logical_xor", "bitwise_and", "bitwise_or", "bitwise_xor", "greater", "greater_equal", "less", "less_equal", "equal", "not_equal", "hypot"}
UFUNC1 = {"negative", "positive", "absolute", "abs", "fabs", "exp", "log", "log2", "log10", "sqrt", "square", "reciprocal", "sign", "ceil", "floor", "rint", "trunc", "logical_not", "invert", "isnan", "isfinite"}
CONTAINERS = ("list", "dict", "set", "tuple", "bidict", "ddict", "deque", "iter", "gen")
MAXDEPTH = 36


class Ob:
    n = 0

    def __init__(self, kind, what="", cls=None, fmt=None):
        self.kind, self.what, self.cls, self.fmt = kind, what, cls, fmt
        self.attrs, self.keys, self.items, self.elts = {}, {}, set(), None
        self.old = None            # why it exists outside of the call, or None
        self.fn = self.env = self.bound = self.name = None
        self.user = False
        self.given = False         # an argument that was passed: not None
        self.open = False          # a mapping whose keys are not all known
        self.definite = None       # attributes that the constructor always sets
        Ob.n += 1
        self.id = Ob.n

    def __repr__(self):
        return "<%s%s %s%s>" % (self.kind, ":" + self.cls.name if self.cls is not None else "", self.what, " OLD" if self.old else "")


NONE = frozenset()
NIL = Ob("none", "None")
NILS = frozenset([NIL])
BUILTIN = {"list": list, "dict": dict, "set": set, "tuple": tuple}


class Frame:
    def __init__(self, own, module, cls, fn, parent=None, node=None):
        self.module, self.cls, self.fn, self.parent, self.node = module, cls, fn, parent, node
        self.vars, self.ret, self.yields, self.globals = {}, set(), set(), set()
        self.breaks, self.ends = [], []


class Event:
    def __init__(self, kind, obs, node, own, what=""):
        self.kind, self.obs, self.node, self.what = kind, obs, node, what
        self.line = getattr(node, "lineno", None)
        fr = own.frames[-1] if own.frames else None
        self.file = fr.module.path if fr else None
        self.fn = fr.fn.qual if fr and fr.fn else (fr.module.name if fr else "")
        self.stack = tuple(f.fn.qual for f in own.frames if f.fn is not None)
        d = own.frames[-1].fn.node if own.frames and own.frames[-1].fn is not None else None
        self.guarded = bool(d is not None and any(d.lineno <= s.lineno <= (getattr(d, "end_lineno", s.lineno) or s.lineno) for s in own.depth))
        self.entry = own.entry
        self.phase = own.phase
        self.partial = False


class Own:
    def __init__(self, repo):
        self.repo = repo
        self.frames, self.stack = [], []
        self.objs, self.events = {}, []
        self.globals, self.defaults, self.classvals, self.funcvals, self.extvals = {}, {}, {}, {}, {}
        self.entry = self.phase = None
        self.seen_calls = set()          # (function, call node) pairs followed
        self.functions = set()
        self.writes = 0                  # in-place writes looked at
        self.cache_attrs = {}
        self.on_call = None
        self.strong = {}                 # attributes assigned on the current path: (object, name) -> value
        self.implied = {}                # function, condition -> isinstance tests that were asserted under it
        self.tries = 0                   # try statements passed
        self.depth = []                  # conditions around the current statement
        self.native = {}                 # compiled functions and classes of the repository: name -> {method or "()": arguments}
        self.calls_at = {}               # call node -> functions called there

    # ---- objects
    def alloc(self, node, kind, what="", cls=None, fmt=None, extra=None):
        k = (tuple(self.stack), id(node), kind, extra, cls.qual if cls is not None else None)
        o = self.objs.get(k)
        if o is None:
            o = self.objs[k] = Ob(kind, what or self.place(node), cls, fmt)
        elif self.strong and kind == "inst":
            for x in [x for x in self.strong if x[0] == o.id]:
                del self.strong[x]
        o.old = None
        return o

    def place(self, node):
        fr = self.frames[-1] if self.frames else None
        return "%s:%s" % (fr.module.path if fr else "?", getattr(node, "lineno", "?"))

    def event(self, kind, obs, node, what=""):
        e = Event(kind, obs, node, self, what)
        self.events.append(e)
        return e

    def write(self, obs, node, what):
        self.writes += 1
        bad = [o for o in obs if o.old]
        if bad:
            self.event("mutate", bad, node, what)

    def mark(self, v, why):
        """the objects reachable from v exist outside of the calls that follow"""
        todo, seen = list(v), set()
        while todo:
            o = todo.pop()
            if o.id in seen:
                continue
            seen.add(o.id)
            if o.kind in ("class", "mod", "ext", "none"):
                continue
            if not o.old:
                o.old = why
            todo += list(o.items)
            for x in o.keys.values():
                todo += list(x)
            for x in o.elts or ():
                todo += list(x)
            if o.bound is not None:
                todo += list(o.bound)
            if o.kind == "inst":
                skip = self.caches(o.cls)
                for a, x in o.attrs.items():
                    if a not in skip:
                        todo += list(x)
            elif o.kind != "func":
                for x in o.attrs.values():
                    todo += list(x)

    def reach(self, v):
        todo, seen = list(v), {}
        while todo:
            o = todo.pop()
            if o.id in seen or o.kind in ("class", "mod", "ext", "none"):
                continue
            seen[o.id] = o
            todo += list(o.items)
            for x in list(o.keys.values()) + list(o.attrs.values()) + list(o.elts or ()):
                todo += list(x)
        return seen

    def caches(self, cls):
        """private attributes that start as None or as an empty container in the constructor: results that are computed once"""
        if cls is None:
            return ()
        if cls.qual not in self.cache_attrs:
            out, other = set(), set()
            for c in self.repo.mro(cls):
                for fname, f in c.methods.items():
                    if fname != "__init__":
                        continue
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign):
                            for t in n.targets:
                                for tt in (t.elts if isinstance(t, ast.Tuple) else [t]):
                                    if isinstance(tt, ast.Attribute) and tt.attr.startswith("_"):
                                        a = tt.attr if not tt.attr.startswith("__") else "_%s%s" % (c.name.lstrip("_"), tt.attr)
                                        v = n.value
                                        if isinstance(t, ast.Tuple):
                                            v = v.elts[t.elts.index(tt)] if isinstance(v, ast.Tuple) and len(v.elts) == len(t.elts) else None
                                        (out if v is not None and self.empty(v) else other).add(a)
            self.cache_attrs[cls.qual] = out - other
        return self.cache_attrs[cls.qual]

    def empty(self, v):
        if isinstance(v, ast.Constant):
            return v.value is None
        if isinstance(v, (ast.Dict, ast.List)):
            return not (v.keys if isinstance(v, ast.Dict) else v.elts)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "set", "list", "defaultdict") and (not v.args or v.func.id == "defaultdict"):
            return True
        if isinstance(v, ast.Call) and not v.keywords and len(v.args) == 1 and self.empty(v.args[0]) and isinstance(v.args[0], ast.Dict):
            return True
        return False

    # ---- calls
    def enter(self, f, env=None, node=None, recv=None):
        fr = Frame(self, f.module, f.cls, f, env, node)
        self.frames.append(fr)
        self.stack.append((id(node) if node is not None else f.uid, recv))
        return fr

    def leave(self):
        self.frames.pop()
        self.stack.pop()

    def default(self, f, name, node, env):
        k = (f.uid if env is None else id(f.node), name)
        if k not in self.defaults:
            self.defaults[k] = NONE
            fr = Frame(self, f.module, f.cls, f, env)
            self.frames.append(fr)
            st, self.stack = self.stack, [("default", f.uid)]
            v = self.eval(node, fr)
            self.frames.pop()
            self.stack = st
            if f.cls is not None or env is None:
                self.mark(v, "the default value of %s of %s" % (name, f.qual))
            self.defaults[k] = frozenset(v)
        return self.defaults[k]

    def call(self, f, args, kw, node, env=None, star=False, bound=None):
        """args: list of values, kw: dict; star: there are arguments that are not known one by one"""
        if any(fr.fn is not None and fr.fn.node is f.node for fr in self.frames[-8:]) and sum(1 for fr in self.frames if fr.fn is not None and fr.fn.node is f.node) >= 2 or len(self.frames) > MAXDEPTH:
            return frozenset([self.alloc(node if node is not None else f.node, "any", "recursive call")])
        self.functions.add(f.qual)
        self.seen_calls.add((f.qual, id(node)))
        self.calls_at.setdefault(id(node), set()).add(f.qual)
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        ndef = len(a.defaults)
        recv = next(iter(args[0])).id if f.cls is not None and args and len(args[0]) == 1 else None
        fr = self.enter(f, env, node, recv)
        given = {}
        rest, extra = [], {}
        for i, v in enumerate(args):
            if i < len(pos):
                given[pos[i]] = v
            else:
                rest.append(v)
        if rest and a.vararg is None and not star:
            self.leave()
            self.event("arity", frozenset(), node, "%s takes %d positional arguments, %d are given" % (f.qual, len(pos), len(args)))
            fr = self.enter(f, env, node, recv)
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in given and k in pos:
                self.leave()
                self.event("arity", frozenset(), node, "%s gets the argument %s twice" % (f.qual, k))
                fr = self.enter(f, env, node, recv)
                given[k] = frozenset(given[k]) | frozenset(v)
            elif k in pos or k in kwonly:
                given[k] = v
            else:
                extra[k] = v
        if extra and a.kwarg is None:
            self.leave()
            self.event("arity", frozenset(), node, "%s has no argument %s" % (f.qual, ", ".join(sorted(extra))))
            fr = self.enter(f, env, node, recv)
        missing = []
        for i, p in enumerate(pos):
            if p not in given:
                j = i - (len(pos) - ndef)
                if j >= 0:
                    given[p] = self.default(f, p, a.defaults[j], env)
                else:
                    given[p] = NONE
                    missing.append(p)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in given:
                if d is not None:
                    given[x.arg] = self.default(f, x.arg, d, env)
                else:
                    given[x.arg] = NONE
                    missing.append(x.arg)
        if missing and not star:
            self.leave()
            self.event("arity", frozenset(), node, "%s needs the argument %s" % (f.qual, ", ".join(missing)))
            fr = self.enter(f, env, node, recv)
        if a.vararg is not None:
            t = self.alloc(f.node, "tuple", extra="*")
            t.elts = [frozenset(x) for x in rest] if not star else None
            for x in rest:
                t.items |= set(x)
            given[a.vararg.arg] = frozenset([t])
        if a.kwarg is not None:
            d = self.alloc(f.node, "dict", extra="**")
            for k, v in extra.items():
                d.keys[k] = frozenset(v) | d.keys.get(k, NONE)
                d.items |= set(v)
            given[a.kwarg.arg] = frozenset([d])
        fr.vars = {k: frozenset(v) for k, v in given.items()}
        if self.on_call is not None:
            self.on_call(f, fr.vars, node)
        if isinstance(f.node, ast.Lambda):
            r = frozenset(self.eval(f.node.body, fr))
        elif f.abstract:
            r = NONE
        else:
            if self.block(f.node.body, fr):
                fr.ends.append(self.strong)
                fr.ret.add(NIL)
            if fr.ends:
                st = fr.ends[0]
                for x in fr.ends[1:]:
                    st = self.meet(st, x)
                self.strong = dict(st)
            r = frozenset(fr.ret)
            if f.is_generator:
                g = self.alloc(f.node, "gen")
                g.items |= fr.yields
                r = frozenset([g])
        self.leave()
        return r

    def instantiate(self, ci, args, kw, node, star=False):
        o = self.alloc(node, "inst", "%s() at %s" % (ci.name, self.place(node)), cls=ci)
        f = self.repo.find_method(ci, "__init__")
        o.definite = None
        if f is not None:
            n = self.tries
            self.call(f, [frozenset([o])] + list(args), kw, node, star=star)
            if n == self.tries and not self.ext_based(ci):
                o.definite = {a for i, a in self.strong if i == o.id}
        elif (args or kw) and not self.ext_based(ci) and not star:
            self.event("arity", frozenset(), node, "%s() takes no arguments" % ci.name)
        return frozenset([o])

    def ext_based(self, ci):
        return [b for b in self.repo.ext_bases(ci) if b not in ("abc.ABC", "builtins.object")]

    def apply(self, fv, args, kw, node, star=False):
        """call of the values fv"""
        out = set()
        for o in fv:
            if o.kind == "func":
                a = list(args)
                if o.bound is not None:
                    a = [o.bound] + a
                out |= self.call(o.fn, a, kw, node, env=o.env, star=star)
            elif o.kind == "class":
                out |= self.instantiate(o.cls, args, kw, node, star)
            elif o.kind == "ext":
                if o.name in self.native:
                    self.native_call(o.name, "()", args, kw, node, star)
                out |= self.external(o.name, args, kw, node)
            elif o.kind == "partial":
                out |= self.apply(o.fn, list(o.elts) + list(args), {**o.keys, **kw}, node, star)
            elif o.kind == "inst":
                m = self.repo.find_method(o.cls, "__call__")
                if m is not None:
                    out |= self.call(m, [frozenset([o])] + list(args), kw, node, star=star)
            elif o.user or o.kind == "any":
                # a function that was given from outside: what it returns may be kept by its owner
                r = o.attrs.setdefault("()", None)
                if r is None or not r:
                    x = Ob("any", "what %s returns" % o.what)
                    x.user, x.old = True, "a value returned by a function of the caller"
                    o.attrs["()"] = r = frozenset([x])
                out |= r
        return frozenset(out)

    def native_call(self, name, m, args, kw, node, star):
        """arguments of a compiled function or method"""
        spec = self.native[name].get(m)
        full = name.rsplit(".", 1)[-1] + ("" if m == "()" else "." + m)
        if spec is None:
            if m != "()":
                self.event("noattr", frozenset(), node, full)
            return
        pos, nreq, open_ = spec
        self.functions.add(name + ("" if m == "()" else "." + m))
        if open_:
            return
        bad = [k for k in kw if k not in pos]
        if len(args) > len(pos):
            self.event("arity", frozenset(), node, "%s takes %d positional arguments, %d are given" % (full, len(pos), len(args)))
        elif bad:
            self.event("arity", frozenset(), node, "%s has no argument %s" % (full, ", ".join(sorted(bad))))
        elif not star:
            missing = [p for p in pos[len(args):nreq] if p not in kw]
            if missing:
                self.event("arity", frozenset(), node, "%s needs the argument %s" % (full, ", ".join(missing)))

    def new(self, node, kind, contents=(), fmt=None, extra=None, elts=None):
        o = self.alloc(node, kind, fmt=fmt, extra=extra)
        o.items |= set(contents)
        if elts is not None:
            o.elts = [frozenset(x) for x in elts] if o.elts is None or len(o.elts) != len(elts) else [frozenset(x) | y for x, y in zip(elts, o.elts)]
            for x in elts:
                o.items |= set(x)
        return frozenset([o])

    def contents(self, v):
        out = set()
        for o in v:
            out |= o.items
            if o.kind == "any" and o.user:
                out.add(self.child(o, "*"))
            if o.kind == "inst":
                f = self.repo.find_method(o.cls, "__iter__")
                if f is not None and len(self.frames) < MAXDEPTH:
                    out |= self.contents(self.call(f, [frozenset([o])], {}, f.node))
        return out

    def child(self, o, a):
        r = o.attrs.get(a)
        if not r:
            depth, p = 0, o
            if o.what.count(" of ") > 4:
                return o
            x = Ob("any", "%s of %s" % ("an element" if a == "*" else a, o.what))
            x.user, x.old = True, o.old
            o.attrs[a] = r = frozenset([x])
        return next(iter(r))

    def external(self, name, args, kw, node):
        last = name.split(".")[-1]
        a0 = args[0] if args else NONE
        if "out" in kw:
            self.write(kw["out"], node, "out= of %s" % name)
            return kw["out"]
        if name in INPLACE:
            self.write(args[INPLACE[name]] if len(args) > INPLACE[name] else NONE, node, name)
            return NONE
        if name.startswith("builtins."):
            if last == "setattr":
                self.write([o for o in a0 if o.kind != "inst"], node, "setattr")
                return NONE
            if last in ("sum", "min", "max") and args:
                return frozenset(self.contents(a0))
            if last in SCALARFUNCS:
                return NONE
            if last in ("list", "sorted", "tuple", "set", "frozenset"):
                k = {"sorted": "list", "frozenset": "set"}.get(last, last)
                el = None
                if last in ("tuple", "list") and len(a0) == 1:
                    el = next(iter(a0)).elts
                return self.new(node, k, self.contents(a0), elts=el if last == "tuple" else None)
            if last == "dict":
                return self.copy(a0, node, "dict", kw)
            if last == "iter":
                return self.new(node, "iter", self.contents(a0))
            if last == "next":
                return frozenset(self.contents(a0)) | (args[1] if len(args) > 1 else NONE)
            if last == "zip":
                els = [self.contents(a) for a in args]
                return self.new(node, "iter", self.new(node, "tuple", elts=els, extra="zip"))
            if last == "enumerate":
                return self.new(node, "iter", self.new(node, "tuple", elts=[NONE, self.contents(a0)], extra="enum"))
            if last in ("map", "filter"):
                c = frozenset(self.contents(args[1])) if len(args) > 1 else NONE
                r = self.apply(a0, [frozenset(self.contents(x)) for x in args[1:]], {}, node)
                return self.new(node, "iter", r if last == "map" else c)
            if last == "reversed":
                return self.new(node, "iter", self.contents(a0))
            if last == "type" and len(args) == 1:
                return frozenset(self.classval(o.cls) for o in a0 if o.kind == "inst")
            if last == "open":
                return self.new(node, "file")
            if last == "vars":
                return NONE
            return NONE
        if last in ("deepcopy",):
            return self.deep(a0, node)
        if name in ("copy.copy",):
            return self.copy(a0, node)
        if last == "bidict" or last in ("OrderedDict", "Counter", "frozenbidict"):
            return self.copy(a0, node, "bidict" if "bidict" in last else "dict", kw)
        if last == "defaultdict":
            r = self.copy(args[1] if len(args) > 1 else NONE, node, "ddict", kw)
            for o in r:
                for f in a0:
                    if f.kind == "ext":
                        o.items |= self.external(f.name, [], {}, node)
                    else:
                        o.items |= self.apply(frozenset([f]), [], {}, node)
            return r
        if last == "deque":
            return self.new(node, "deque", self.contents(a0))
        if last == "partial" and name.startswith("functools"):
            o = self.alloc(node, "partial")
            o.fn, o.elts, o.keys = a0, list(args[1:]), dict(kw)
            return frozenset([o])
        if name.startswith("itertools.") or last in ("chain", "islice", "product"):
            c = set()
            for a in args:
                for o in self.contents(a):
                    c.add(o)
            if last == "product":
                return self.new(node, "iter", self.new(node, "tuple", elts=[self.contents(a) for a in args], extra="prod"))
            return self.new(node, "iter", c)
        if last in SPARSE and "sparse" in name:
            fmt = SPARSE[last]
            if self.const(node, "copy") is not True:
                alias = frozenset(o for o in a0 if o.kind in ("mat", "any") and o.fmt in (None, fmt))
                if alias:
                    return alias | (self.new(node, "mat", fmt=fmt) if any(o not in alias for o in a0) else NONE)
            return self.new(node, "mat", fmt=fmt)
        if "sparse" in name and last in ("vstack", "hstack", "block_diag", "bmat", "identity", "eye", "diags", "kron", "spdiags", "random"):
            return self.new(node, "mat", fmt="?")
        if name.startswith("numpy."):
            k = 2 if last in UFUNC2 else 1 if last in UFUNC1 else 3 if last == "clip" else None
            if k is not None and len(args) > k and args[k]:
                self.write(args[k], node, "output argument of %s" % name)
                return args[k]
            if last in VIEWS or last == "array" and self.const(node, "copy") is False:
                al = frozenset(o for o in a0 if o.kind in ("arr", "any", "mat"))
                return al or self.new(node, "arr")
            return self.new(node, "arr")
        if last == "TemporaryDirectory" or name.startswith(("os.", "re.", "json.", "sys.", "time.", "math.", "hashlib.", "datetime.", "click.", "argparse.")):
            return self.new(node, "ext-object", extra=name) if last in ("TemporaryDirectory", "compile", "load", "loads", "match") else NONE
        r = self.new(node, "ext-object", extra=name)
        for o in r:
            o.name = name
        return r

    def const(self, node, kw):
        for k in getattr(node, "keywords", []):
            if k.arg == kw and isinstance(k.value, ast.Constant):
                return k.value.value
        return None

    def copy(self, v, node, kind=None, kw=None):
        """shallow copies"""
        out = set()
        v = [o for o in v if o is not NIL]
        for i, o in enumerate(sorted(v, key=lambda o: o.id)):
            k = kind or o.kind
            n = self.alloc(node, k, cls=o.cls if k == "inst" else None, fmt=o.fmt, extra=("copy", o.id))
            n.items |= o.items
            n.open = o.open or o.kind not in ("dict", "inst")
            for a, x in o.keys.items():
                n.keys[a] = n.keys.get(a, NONE) | x
            if k in ("inst",):
                for a, x in o.attrs.items():
                    n.attrs[a] = n.attrs.get(a, NONE) | x
            if k == "any":
                n.items.add(self.child(o, "*"))
            if k == o.kind and o.elts is not None:
                n.elts = list(o.elts)
            if kind in ("dict", "ddict", "bidict") and o.kind in ("list", "iter", "gen", "tuple", "set"):
                n.items = set()
                for t in o.items:
                    if t.elts is not None and len(t.elts) == 2:
                        n.items |= t.elts[1]
                    else:
                        n.items |= t.items
            out.add(n)
        if not v or kw:
            n = self.alloc(node, kind or "dict", extra="empty")
            for a, x in (kw or {}).items():
                n.keys[a] = n.keys.get(a, NONE) | x
                n.items |= set(x)
            out.add(n)
        return frozenset(out)

    def deep(self, v, node, memo=None):
        memo = {} if memo is None else memo
        out = set()
        for o in v:
            if o.kind in ("func", "class", "ext", "mod", "none"):
                out.add(o)
                continue
            if o.id not in memo:
                n = memo[o.id] = self.alloc(node, o.kind, cls=o.cls, fmt=o.fmt, extra=("deep", o.id))
                n.items |= self.deep(o.items, node, memo)
                for a, x in o.keys.items():
                    n.keys[a] = self.deep(x, node, memo)
                for a, x in o.attrs.items():
                    n.attrs[a] = self.deep(x or (), node, memo)
                if o.elts is not None:
                    n.elts = [self.deep(x, node, memo) for x in o.elts]
            out.add(memo[o.id])
        return frozenset(out)

    # ---- names
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars and name not in f.globals:
                return f.vars[name]
            f = f.parent
        return self.global_(fr.module, name)

    def global_(self, m, name):
        r = self.repo.resolve(m, name)
        if r is None:
            if hasattr(builtins, name):
                return frozenset([self.extval("builtins." + name)])
            if name not in ("__file__", "__name__"):
                return None
            return NONE
        return self.resolved(r)

    def resolved(self, r):
        if r is None:
            return None
        if r[0] == "func":
            return frozenset([self.funcval(r[1])])
        if r[0] == "class":
            return frozenset([self.classval(r[1])])
        if r[0] == "ext":
            return frozenset([self.extval(r[1])])
        if r[0] == "mod":
            o = self.extvals.get(("mod", r[1]))
            if o is None:
                o = self.extvals[("mod", r[1])] = Ob("mod", r[1])
                o.name = r[1]
            return frozenset([o])
        if r[0] == "assign":
            return self.module_var(r[3], r[2])
        return NONE

    def module_var(self, m, name):
        k = (m.name, name)
        if k not in self.globals:
            self.globals[k] = NONE
            fr = Frame(self, m, None, None)
            self.frames.append(fr)
            st, self.stack = self.stack, [("module", m.name)]
            out = set()
            for s in self.repo._stmts(m.tree.body):
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            out |= self.eval(s.value, fr)
                        elif isinstance(t, ast.Tuple) and any(isinstance(x, ast.Name) and x.id == name for x in t.elts):
                            i = [isinstance(x, ast.Name) and x.id == name for x in t.elts].index(True)
                            out |= self.unpack(self.eval(s.value, fr), i, len(t.elts))
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
                    out |= self.eval(s.value, fr)
            self.frames.pop()
            self.stack = st
            private = name.startswith("_")
            if not (private and all(not o.items and not o.keys for o in out)):
                self.mark(out, "the module variable %s.%s" % (m.name, name))
            self.globals[k] = frozenset(out)
        return self.globals[k]

    def funcval(self, f, bound=None, env=None):
        k = (f.uid, tuple(sorted(o.id for o in bound)) if bound is not None else None, id(env) if env is not None else None)
        o = self.funcvals.get(k)
        if o is None:
            o = self.funcvals[k] = Ob("func", f.qual)
            o.fn, o.env, o.bound = f, env, bound
        return o

    def classval(self, c):
        o = self.classvals.get(c.qual)
        if o is None:
            o = self.classvals[c.qual] = Ob("class", c.qual, cls=c)
        return o

    def extval(self, name):
        o = self.extvals.get(name)
        if o is None:
            o = self.extvals[name] = Ob("ext", name)
            o.name = name
        return o

    # ---- attributes
    def mangle(self, a, fr):
        if a.startswith("__") and not a.endswith("__"):
            f = fr
            while f is not None and f.cls is None:
                f = f.parent
            if f is not None:
                return "_%s%s" % (f.cls.name.lstrip("_"), a)
        return a

    def getattr(self, v, a, node, fr):
        out = set()
        a = self.mangle(a, fr)
        v = [o for o in v if o is not NIL]
        for o in sorted(v, key=lambda o: o.id):
            n = len(self.events)
            out |= self.getattr1(o, a, node, fr)
            self.among(n, node, v, a)
        return frozenset(out)

    def among(self, n, node, v, a):
        """marks failures at this place that do not concern all possible objects"""
        for e in self.events[n:]:
            if e.kind in ("noattr", "maybeattr") and e.node is node:
                e.partial = len(v) > 1 and any(self.has(o, a) for o in v)

    def has(self, o, a):
        if o.kind == "inst":
            return a in o.attrs or self.repo.find_method(o.cls, a) is not None or self.class_attr(o.cls, a) is not None
        if o.kind in BUILTIN:
            return hasattr(BUILTIN[o.kind], a)
        return True

    def class_attr(self, ci, a):
        for c in self.repo.mro(ci):
            if a in c.attrs:
                k = ("classattr", c.qual, a)
                if k not in self.globals:
                    self.globals[k] = NONE
                    fr = Frame(self, c.module, None, None)
                    self.frames.append(fr)
                    st, self.stack = self.stack, [k]
                    v = self.eval(c.attrs[a], fr) if c.attrs[a] is not None else NONE
                    self.frames.pop()
                    self.stack = st
                    self.mark(v, "the class variable %s.%s" % (c.name, a))
                    self.globals[k] = frozenset(v)
                return self.globals[k]
        return None

    def getattr1(self, o, a, node, fr):
        if o is NIL:
            return NONE
        if o.kind == "inst":
            if a in o.attrs:
                if (o.id, a) not in self.strong and o.definite is not None and a not in o.definite and self.class_attr(o.cls, a) is None:
                    self.event("maybeattr", frozenset([o]), node, a)
                return self.strong.get((o.id, a), o.attrs[a])
            if a == "__class__":
                return frozenset([self.classval(o.cls)])
            f = self.repo.find_method(o.cls, a)
            if f is not None:
                last = [d.split(".")[-1] for d in f.decos]
                if f.kind == "property" or "cached_property" in last:
                    return self.call(f, [frozenset([o])], {}, node)
                if f.kind == "static":
                    return frozenset([self.funcval(f)])
                if f.kind == "class":
                    return frozenset([self.funcval(f, bound=frozenset([self.classval(o.cls)]))])
                return frozenset([self.funcval(f, bound=frozenset([o]))])
            v = self.class_attr(o.cls, a)
            if v is not None:
                return v
            if not self.ext_based(o.cls) and not (a.startswith("__") and a.endswith("__")) and self.repo.find_method(o.cls, "__getattr__") is None:
                self.event("noattr", frozenset([o]), node, a)
            return NONE
        if o.kind == "class":
            f = self.repo.find_method(o.cls, a)
            if f is not None:
                if f.kind == "class":
                    return frozenset([self.funcval(f, bound=frozenset([o]))])
                return frozenset([self.funcval(f)])
            v = self.class_attr(o.cls, a)
            if v is not None:
                return v
            if not self.ext_based(o.cls) and not (a.startswith("__") and a.endswith("__")):
                self.event("noattr", frozenset([o]), node, a)
            return NONE
        if o.kind == "super":
            f = self.repo.find_method(o.cls, a, after=o.fn)
            if f is not None:
                return frozenset([self.funcval(f, bound=o.bound if f.kind != "static" else None)])
            if not self.ext_based(o.cls) and not (a.startswith("__") and a.endswith("__")):
                self.event("noattr", frozenset([o]), node, a)
            return NONE
        if o.kind == "mod":
            r = self.resolved(self.repo.resolve_attr(o.name, a))
            if r is None:
                self.event("noattr", frozenset([o]), node, a)
                return NONE
            return r
        if o.kind == "ext":
            return frozenset([self.extval(o.name + "." + a)])
        if o.kind in ("bidict",) and a in ("inv", "inverse"):
            return frozenset([o])
        if o.kind in ("arr", "any") and a in ("T", "A", "A1", "flat", "real", "base", "imag"):
            return frozenset([o])
        if o.kind == "mat":
            if a == "T":
                return frozenset([o]) if o.fmt in (None, "csr", "csc", "coo") else self.new(node, "mat", fmt="?")
            if a in ("data", "indices", "indptr", "row", "col", "rows"):
                return frozenset([o])
            if a in ("A", "A1"):
                return self.new(node, "arr")
        if o.kind == "any" and o.user:
            if a in ("shape", "nnz", "size", "ndim", "dtype"):
                return NONE
            return frozenset([self.child(o, a)])
        if o.kind == "ext-object":
            return o.attrs.get(a, NONE)
        if o.kind in BUILTIN and not hasattr(BUILTIN[o.kind], a):
            self.event("noattr", frozenset([o]), node, a)
        return NONE

    def method(self, o, a, args, kw, node, fr):
        """method call on an object that does not belong to the repository"""
        k = o.kind
        if o is NIL:
            return NONE
        if k in BUILTIN and not hasattr(BUILTIN[k], a):
            self.event("noattr", frozenset([o]), node, a)
            return NONE
        if k == "mod":
            fv = self.resolved(self.repo.resolve_attr(o.name, a))
            if fv is None:
                self.event("noattr", frozenset([o]), node, a)
                return NONE
            return self.apply(fv, args, kw, node)
        if k == "ext":
            return self.external(o.name + "." + a, args, kw, node)
        me = frozenset([o])
        if a in MUTBY.get(k, ()) and not (k == "any" and not o.user):
            self.write(me, node, ".%s()" % a)
            if a in ADDS and len(args) > ADDS[a]:
                o.items |= args[ADDS[a]]
                o.elts = None
            elif a in ("extend", "update", "putall", "forceupdate", "forceputall"):
                o.open = True
                for x in args:
                    o.items |= self.contents(x) if k not in ("dict", "ddict", "bidict") else set().union(*[y.items for y in x]) if x else set()
                for x in kw.values():
                    o.items |= x
                o.elts = None
            elif a == "setdefault" and len(args) > 1:
                o.open = True
                o.items |= args[1]
            elif a in ("put", "forceput") and len(args) > 1:
                o.items |= args[1]
            if a in ("pop", "setdefault", "popleft"):
                return frozenset(self.contents(me))
            if a == "popitem":
                return self.new(node, "tuple", elts=[NONE, self.contents(me)])
            return NONE
        if a in ("copy", "__copy__"):
            return self.copy(me, node)
        if a in TOFMT:
            if self.const(node, "copy") is True or (o.fmt not in (None, TOFMT[a]) and not o.user):
                return self.new(node, "mat", fmt=TOFMT[a])
            return me
        if k in ("arr", "any", "mat") and a in ("ravel", "reshape", "view", "squeeze", "transpose", "swapaxes") and not (k == "mat" and o.fmt not in (None, "csr", "csc", "coo")):
            return me
        if a == "astype":
            return me if self.const(node, "copy") is False else self.new(node, k, fmt=o.fmt)
        if k == "mat":
            if a in ("todense", "toarray", "sum", "diagonal", "mean", "max", "min"):
                return self.new(node, "arr")
            if a in ("items", "keys", "values", "nonzero"):
                return self.new(node, "iter", self.new(node, "tuple", elts=[self.new(node, "tuple", elts=[NONE, NONE], extra="ij"), NONE], extra="e")) if a == "items" else self.new(node, "iter")
            return self.new(node, "mat", fmt="?" if a in ("dot", "multiply") else o.fmt)
        if k == "arr":
            return self.new(node, "arr") if a not in ("item", "tolist", "any", "all", "tobytes") else NONE
        if k in ("dict", "ddict", "bidict"):
            if a == "items":
                return self.new(node, "iter", self.new(node, "tuple", elts=[NONE, self.contents(me)], extra=("items", o.id)))
            if a == "values":
                return self.new(node, "iter", self.contents(me))
            if a == "keys":
                return self.new(node, "iter")
            if a == "get":
                r = set(args[1]) if len(args) > 1 else {NIL}
                ke = node.args[0].value if isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.Constant) else None
                return frozenset(r | (set(o.keys[ke]) if ke in o.keys else self.contents(me)))
            if a == "__getitem__":
                return frozenset(self.contents(me))
        if k == "set":
            if a in ("union", "intersection", "difference", "symmetric_difference"):
                c = set(o.items)
                for x in args:
                    c |= self.contents(x)
                return self.new(node, "set", c)
            return NONE
        if k in ("list", "tuple", "iter", "gen", "deque") and a in ("index", "count"):
            return NONE
        if a == "__next__":
            return frozenset(self.contents(me))
        if k == "any":
            return self.new(node, "any")
        if k == "file":
            return NONE
        if k == "ext-object":
            # libraries: what goes in may come out
            c = set()
            for x in args:
                c |= x
            o.items |= {x for x in c if x.kind in ("ext-object",)}
            n = self.new(node, "ext-object", extra=("m", a))
            return n
        return NONE

    # ---- expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.eval(c, fr)
            return NONE
        r = m(e, fr)
        return r if isinstance(r, frozenset) else frozenset(r)

    def e_Constant(self, e, fr):
        return NILS if e.value is None else NONE

    def e_Name(self, e, fr):
        r = self.lookup(e.id, fr)
        if r is None:
            self.event("noname", frozenset(), e, e.id)
            return NONE
        return r

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr, e, fr)

    def index_kind(self, s):
        if isinstance(s, ast.Slice):
            return "slice"
        if isinstance(s, ast.Tuple):
            ks = [self.index_kind(x) for x in s.elts]
            return "slice" if "slice" in ks else "item"
        return "item"

    def e_Subscript(self, e, fr):
        v = self.eval(e.value, fr)
        s = e.slice
        ik = self.eval(s, fr) if not isinstance(s, ast.Slice) else [self.eval(x, fr) for x in (s.lower, s.upper, s.step) if x is not None]
        kind = self.index_kind(s)
        out = set()
        for o in v:
            out |= self.sub(o, s, kind, e, fr)
        return frozenset(out)

    def sub(self, o, s, kind, e, fr):
        if o is NIL:
            return NONE
        if o.kind == "inst":
            f = self.repo.find_method(o.cls, "__getitem__")
            if f is not None:
                return self.call(f, [frozenset([o]), NONE], {}, e)
            if not self.ext_based(o.cls):
                self.event("noattr", frozenset([o]), e, "__getitem__")
            return NONE
        if o.kind == "arr":
            return frozenset([o]) if kind == "slice" else frozenset(o.items)
        if o.kind == "mat":
            return self.new(e, "mat", fmt=o.fmt) if kind == "slice" else NONE
        if o.kind in ("list", "tuple", "deque"):
            if kind == "slice":
                r = self.new(e, o.kind, o.items, extra=o.id)
                return r
            i = self.intconst(s)
            if o.elts is not None and i is not None and -len(o.elts) <= i < len(o.elts):
                return o.elts[i]
            return frozenset(o.items)
        if o.kind in ("dict", "ddict", "bidict"):
            if isinstance(s, ast.Constant) and s.value in o.keys:
                return o.keys[s.value]
            if o.kind == "ddict":
                return frozenset(o.items)
            return frozenset(o.items)
        if o.kind == "any" and o.user:
            return frozenset([self.child(o, "*")])
        return frozenset(o.items)

    def intconst(self, s):
        if isinstance(s, ast.Constant) and isinstance(s.value, int):
            return s.value
        if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub) and isinstance(s.operand, ast.Constant) and isinstance(s.operand.value, int):
            return -s.operand.value
        return None

    def e_Slice(self, e, fr):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.eval(x, fr)
        return NONE

    def seq(self, e, fr, kind):
        els, star, c = [], False, set()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                star = True
                c |= self.contents(self.eval(x.value, fr))
            else:
                v = self.eval(x, fr)
                els.append(v)
                c |= v
        return self.new(e, kind, c, elts=els if not star and kind in ("tuple", "list") else None)

    def e_Tuple(self, e, fr):
        return self.seq(e, fr, "tuple")

    def e_List(self, e, fr):
        return self.seq(e, fr, "list")

    def e_Set(self, e, fr):
        return self.seq(e, fr, "set")

    def e_Dict(self, e, fr):
        o = self.alloc(e, "dict")
        for k, v in zip(e.keys, e.values):
            x = self.eval(v, fr)
            if k is None:
                o.open = o.open or not x
                for y in x:
                    o.open = o.open or y.kind != "dict" or y.open
                    o.items |= self.contents([y])
                    for a, z in y.keys.items():
                        o.keys[a] = o.keys.get(a, NONE) | z
            else:
                self.eval(k, fr)
                o.items |= x
                if isinstance(k, ast.Constant):
                    o.keys[k.value] = o.keys.get(k.value, NONE) | x
                else:
                    o.open = True
        return frozenset([o])

    def comp(self, e, fr, build):
        saved = dict(fr.vars)
        for g in e.generators:
            it = self.eval(g.iter, fr)
            self.assign(g.target, frozenset(self.contents(it)), fr, e)
            for c in g.ifs:
                self.eval(c, fr)
        r = build()
        fr.vars = saved
        return r

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, lambda: self.new(e, "list", self.eval(e.elt, fr)))

    def e_SetComp(self, e, fr):
        return self.comp(e, fr, lambda: self.new(e, "set", self.eval(e.elt, fr)))

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, lambda: self.new(e, "iter", self.eval(e.elt, fr)))

    def e_DictComp(self, e, fr):
        def build():
            self.eval(e.key, fr)
            r = self.new(e, "dict", self.eval(e.value, fr))
            for o in r:
                o.open = True
            return r
        return self.comp(e, fr, build)

    def e_Lambda(self, e, fr):
        f = self.repo_local(e, fr)
        return frozenset([self.funcval(f, env=fr)])

    def repo_local(self, node, fr):
        k = ("local", id(node))
        f = self.funcvals.get(k)
        if f is None:
            f = self.funcvals[k] = self.repo.local_func(node, fr.module, None, fr.fn.qual if fr.fn else fr.module.name)
        return f

    def e_IfExp(self, e, fr):
        self.eval(e.test, fr)
        yes, no = self.feasible(e.test, fr)
        s = dict(fr.vars)
        self.depth.append(e)
        self.narrow(e.test, fr, True)
        a = self.eval(e.body, fr) if yes else NONE
        fr.vars = dict(s)
        self.narrow(e.test, fr, False)
        b = self.eval(e.orelse, fr) if no else NONE
        self.depth.pop()
        fr.vars = s
        return a | b

    def e_BoolOp(self, e, fr):
        out = set()
        s = dict(fr.vars)
        isand = isinstance(e.op, ast.And)
        n = len(self.depth)
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            out |= v if isand or i == len(e.values) - 1 else v - NILS
            yes, no = self.feasible(x, fr)
            if not (yes if isand else no):
                break
            self.narrow(x, fr, isand)
            self.depth.append(e)
        del self.depth[n:]
        fr.vars = s
        return out

    def e_BinOp(self, e, fr):
        a, b = self.eval(e.left, fr), self.eval(e.right, fr)
        if isinstance(e.op, ast.Mod) and isinstance(e.left, (ast.Constant, ast.JoinedStr)):
            return NONE
        ks = {o.kind for o in a | b}
        if isinstance(e.op, ast.Add) and ks & {"list", "tuple"}:
            return self.new(e, "list" if "list" in ks else "tuple", set().union(*[o.items for o in a | b]))
        if ks & {"list"} and isinstance(e.op, ast.Mult):
            return self.new(e, "list", set().union(*[o.items for o in a | b]))
        if ks & {"set", "dict"} and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.new(e, "set" if "set" in ks else "dict", set().union(*[o.items for o in a | b]))
        if "mat" in ks:
            return self.new(e, "mat", fmt="?")
        if "arr" in ks:
            return self.new(e, "arr")
        if "ext-object" in ks:
            return self.new(e, "ext-object", extra="bin")
        return NONE

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return NONE
        out = set()
        for o in v:
            if o.kind in ("arr", "mat"):
                out |= self.new(e, o.kind, fmt=o.fmt)
        return out

    def e_Compare(self, e, fr):
        vs = [self.eval(e.left, fr)] + [self.eval(x, fr) for x in e.comparators]
        if any(o.kind in ("arr",) for v in vs for o in v) and not isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            return self.new(e, "arr")
        for op, v in zip(e.ops, vs[1:]):
            if isinstance(op, (ast.In, ast.NotIn)):
                for o in v:
                    if o.kind == "inst":
                        f = self.repo.find_method(o.cls, "__contains__")
                        if f is not None:
                            self.call(f, [frozenset([o]), NONE], {}, e)
        return NONE

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        fr.vars[e.target.id] = v
        return v

    def e_Starred(self, e, fr):
        return self.eval(e.value, fr)

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else NONE
        fr.yields |= v
        if len(self.frames) == 1:
            self.mark(v, "a result handed out before the search goes on")
        return NONE

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        fr.yields |= self.contents(v)
        if len(self.frames) == 1:
            self.mark(frozenset(self.contents(v)), "a result handed out before the search goes on")
        return NONE

    def e_JoinedStr(self, e, fr):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                self.eval(x.value, fr)
        return NONE

    def e_Await(self, e, fr):
        return self.eval(e.value, fr)

    def e_Call(self, e, fr):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and self.lookup("super", fr) is not None:
            return self.super_(e, fr)
        args, kw, star = [], {}, False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                o = next(iter(v)) if len(v) == 1 else None
                if o is not None and o.elts is not None and not star:
                    args += list(o.elts)
                else:
                    star = True
            else:
                args.append(self.eval(a, fr))
        starv = [frozenset(self.contents(self.eval(a.value, fr))) for a in e.args if isinstance(a, ast.Starred)] if star else []
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                known = bool(v)
                for o in v:
                    for a, x in o.keys.items():
                        kw[a] = kw.get(a, NONE) | x
                    if o.kind not in ("dict",) or (not o.keys and o.items) or o.open:
                        known = False
                if not known:
                    star = True
            else:
                kw[k.arg] = v
        if star and not args and starv:
            pass
        if isinstance(f, ast.Attribute):
            base = self.eval(f.value, fr)
            out = set()
            a = self.mangle(f.attr, fr)
            for o in sorted(base, key=lambda o: o.id):
                if o is NIL:
                    continue
                nev = len(self.events)
                if o.kind in ("inst", "class", "super") or (o.kind == "any" and o.user and o.attrs.get(a) and a not in MUTBY["any"]) or o.kind == "any" and o.user and a.endswith("_map"):
                    fv = self.getattr1(o, a, e, fr)
                    self.among(nev, e, base, a)
                    if o.kind == "inst" and a in ("copy",) and not fv:
                        out |= self.copy(frozenset([o]), e)
                    elif o.kind == "any":
                        r = self.apply(fv, args, kw, e, star)
                        out |= r
                    else:
                        out |= self.apply(fv, args, kw, e, star)
                else:
                    if o.kind == "any" and o.user and a in ("items", "values"):
                        c = self.child(o, "*")
                        out |= self.new(e, "iter", self.new(e, "tuple", elts=[NONE, frozenset([c])], extra="uitems") if a == "items" else [c])
                        continue
                    if o.kind == "any" and o.user and a == "get":
                        out.add(self.child(o, "*"))
                        continue
                    if o.kind == "ext-object" and o.name in self.native:
                        self.native_call(o.name, a, args, kw, e, star)
                    out |= self.method(o, a, args, kw, e, fr)
                    self.among(nev, e, base, a)
            return frozenset(out)
        fv = self.eval(f, fr)
        if isinstance(f, ast.Name) and f.id == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str) and any(o.kind == "ext" for o in fv):
            if len(e.args) > 2:
                return frozenset(args[2]) | frozenset(x for o in args[0] if o.kind == "inst" and e.args[1].value in o.attrs for x in o.attrs[e.args[1].value])
            return self.getattr(args[0], e.args[1].value, e, fr)
        return self.apply(fv, args, kw, e, star)

    def super_(self, e, fr):
        f = fr
        while f is not None and f.cls is None:
            f = f.parent
        if f is None or f.fn is None:
            return NONE
        first = f.fn.params()[:1]
        selfv = f.vars.get(first[0], NONE) if first else NONE
        out = set()
        for o in selfv:
            if o.kind in ("inst", "class"):
                s = self.alloc(e, "super", cls=o.cls, extra=o.id)
                s.fn, s.bound = f.cls, frozenset([o])
                out.add(s)
        return frozenset(out)

    # ---- narrowing
    def narrow(self, t, fr, yes):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.narrow(t.operand, fr, not yes)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == yes:
            for x in t.values:
                self.narrow(x, fr, yes)
            return
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)) and isinstance(t.left, ast.Call) \
                and isinstance(t.left.func, ast.Name) and t.left.func.id == "type" and len(t.left.args) == 1 and isinstance(t.left.args[0], ast.Name):
            n, cl, exact = t.left.args[0].id, t.comparators[0], True
            if isinstance(t.ops[0], (ast.NotEq, ast.IsNot)):
                yes = not yes
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)) and isinstance(t.left, ast.Name) \
                and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            n, cl = t.left.id, None
            if isinstance(t.ops[0], (ast.NotEq, ast.IsNot)):
                yes = not yes
        elif isinstance(t, ast.Name):
            if yes and t.id in fr.vars:
                fr.vars[t.id] = fr.vars[t.id] - NILS
            return
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], ast.Name):
            n, cl, exact = t.args[0].id, t.args[1], False
        else:
            return
        if n not in fr.vars:
            return
        if cl is None:
            fr.vars[n] = frozenset(o for o in fr.vars[n] if (o is NIL) == yes or o.kind == "any" and not o.user)
            return
        cs = self.eval(cl, fr)
        if any(o.kind == "tuple" for o in cs):
            cs = frozenset(self.contents(cs))
        def member(o):
            r = False
            for c in cs:
                x = self.isa(o, c)
                if x is None:
                    return None
                r = r or x
            return r
        fr.vars[n] = frozenset(o for o in fr.vars[n] if member(o) in (None, yes))

    def feasible(self, t, fr):
        """(can be true, can be false), as far as types and None decide it"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.feasible(t.operand, fr)
            return b, a
        if isinstance(t, ast.BoolOp):
            xs = [self.feasible(x, fr) for x in t.values]
            if isinstance(t.op, ast.And):
                return all(x for x, _ in xs), any(y for _, y in xs)
            return any(x for x, _ in xs), all(y for _, y in xs)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
            neg = isinstance(t.ops[0], (ast.NotEq, ast.IsNot))
            x, c = t.left, t.comparators[0]
            r = None
            if isinstance(c, ast.Constant) and c.value is None and isinstance(x, (ast.Name, ast.Attribute)):
                v = self.quiet(x, fr)
                if v and all(o.kind in ("inst", "func", "class", "arr", "mat", "list", "dict", "set", "bidict", "ddict", "tuple", "deque", "partial") or o.given for o in v):
                    r = False
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "type" and len(x.args) == 1 and isinstance(x.args[0], (ast.Name, ast.Attribute)):
                v, cs = self.quiet(x.args[0], fr), self.quiet(c, fr)
                if v and all(o.kind == "inst" for o in v) and len(cs) == 1 and next(iter(cs)).kind == "class":
                    k = next(iter(cs)).cls
                    m = {o.cls is k for o in v}
                    r = m.pop() if len(m) == 1 else None
            if r is not None:
                return (not r, r) if neg else (r, not r)
            return True, True
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], (ast.Name, ast.Attribute)):
            v, cs = self.quiet(t.args[0], fr), self.quiet(t.args[1], fr)
            if any(o.kind == "tuple" for o in cs):
                cs = frozenset(self.contents(cs))
            if v and cs and all(o.kind == "inst" for o in v) and all(c.kind == "class" for c in cs):
                m = {any(c.cls in self.repo.mro(o.cls) for c in cs) for o in v}
                if len(m) == 1:
                    r = m.pop()
                    return r, not r
        return True, True

    def quiet(self, e, fr):
        n, w = len(self.events), self.writes
        v = self.eval(e, fr)
        del self.events[n:]
        self.writes = w
        return v

    def isa(self, o, c):
        if o.kind == "any":
            return None
        if c.kind == "class":
            return o.kind == "inst" and c.cls in self.repo.mro(o.cls)
        if c.kind == "ext":
            last = c.name.split(".")[-1]
            if last == "dict":
                return o.kind in ("dict", "ddict")
            if last in ("list", "set", "tuple"):
                return o.kind == last
            if last in ("bidict",):
                return o.kind == "bidict"
            if last in ("ndarray", "matrix"):
                return None if o.kind == "arr" else False
            if last in ("spmatrix",):
                return o.kind == "mat"
            if last in ("str", "int", "float", "bool"):
                return False
        return None

    # ---- statements
    def block(self, body, fr):
        """True: the end of the block is reached"""
        for s in body:
            if not self.stmt(s, fr):
                return False
        return True

    def join(self, a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out[k] | v if k in out else v
        return out

    def meet(self, a, b):
        return {k: a[k] | b[k] for k in a if k in b}

    def stmt(self, s, fr):
        t = type(s)
        if t is ast.Expr:
            self.eval(s.value, fr)
        elif t is ast.Assign:
            v = self.eval(s.value, fr)
            for x in s.targets:
                self.assign(x, v, fr, s)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, fr), fr, s)
        elif t is ast.AugAssign:
            self.aug(s, fr)
        elif t is ast.Return:
            fr.ret |= self.eval(s.value, fr) if s.value is not None else NILS
            fr.ends.append(dict(self.strong))
            return False
        elif t is ast.Raise:
            if s.exc is not None:
                self.eval(s.exc, fr)
            return False
        elif t in (ast.Break, ast.Continue):
            if fr.breaks:
                fr.breaks[-1].append((dict(fr.vars), dict(self.strong)))
            return False
        elif t is ast.If:
            self.eval(s.test, fr)
            st, sst = dict(fr.vars), dict(self.strong)
            feas = self.feasible(s.test, fr)
            key = (fr.fn.uid if fr.fn else 0, ast.dump(s.test))
            self.narrow(s.test, fr, True)
            for x in self.implied.get(key, ()):
                self.narrow(x, fr, True)
            self.depth.append(s)
            yes, no = feas
            a = self.block(s.body, fr) if yes else False
            for x in s.body:
                if isinstance(x, ast.Assert):
                    self.implied.setdefault(key, []).append(x.test)
            va, sa = fr.vars, self.strong
            fr.vars, self.strong = dict(st), dict(sst)
            self.narrow(s.test, fr, False)
            b = self.block(s.orelse, fr) if no else False
            self.depth.pop()
            vb, sb = fr.vars, self.strong
            fr.vars = self.join(va, vb) if a and b else va if a else vb
            self.strong = self.meet(sa, sb) if a and b else sa if a else sb
            return a or b
        elif t in (ast.For, ast.While):
            if t is ast.For:
                it = self.eval(s.iter, fr)
            for _ in range(2):
                before, sb = dict(fr.vars), dict(self.strong)
                fr.breaks.append([])
                if t is ast.For:
                    self.assign(s.target, frozenset(self.contents(it)), fr, s)
                else:
                    self.eval(s.test, fr)
                end = self.block(s.body, fr)
                v = self.join(before, fr.vars) if end else before
                for x, y in fr.breaks.pop():
                    v = self.join(v, x)
                    sb = self.meet(sb, y)
                fr.vars = v
                self.strong = self.meet(sb, self.strong) if end else sb
            if s.orelse:
                self.block(s.orelse, fr)
            if t is ast.While and isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(n, ast.Break) for n in ast.walk(s)):
                return False
        elif t is ast.With:
            for i in s.items:
                v = self.eval(i.context_expr, fr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, fr, s)
            return self.block(s.body, fr)
        elif t is ast.Try:
            st = dict(fr.vars)
            a = self.block(s.body, fr)
            out = fr.vars if a else None
            mid = self.join(st, fr.vars)
            if s.handlers:
                self.strong = {}
                self.tries += 1
            if a and s.orelse:
                a = self.block(s.orelse, fr)
                out = fr.vars if a else None
            for h in s.handlers:
                fr.vars = dict(mid)
                if h.name:
                    fr.vars[h.name] = NONE
                if self.block(h.body, fr):
                    out = fr.vars if out is None else self.join(out, fr.vars)
            fr.vars = out if out is not None else mid
            r = out is not None
            if s.finalbody:
                r = self.block(s.finalbody, fr) and r
            return r
        elif t is ast.FunctionDef:
            f = self.repo_local(s, fr)
            fr.vars[s.name] = frozenset([self.funcval(f, env=fr)])
        elif t is ast.ClassDef:
            fr.vars[s.name] = NONE
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Subscript):
                    b = self.eval(x.value, fr)
                    self.eval(x.slice, fr)
                    self.write(self.targets(b, "__delitem__", x, fr), s, "del of an element")
                elif isinstance(x, ast.Attribute):
                    b = self.eval(x.value, fr)
                    self.write(b, s, "del of the attribute %s" % x.attr)
                elif isinstance(x, ast.Name):
                    fr.vars.pop(x.id, None)
        elif t is ast.Assert:
            self.eval(s.test, fr)
            if s.msg is not None:
                self.eval(s.msg, fr)
            self.narrow(s.test, fr, True)
            if isinstance(s.test, ast.Constant) and not s.test.value:
                return False
        elif t in (ast.Import, ast.ImportFrom):
            self.local_import(s, fr)
        elif t in (ast.Global, ast.Nonlocal):
            fr.globals |= set(s.names)
        return True

    def local_import(self, s, fr):
        if isinstance(s, ast.ImportFrom) and any(a.name == "*" for a in s.names):
            return
        for a in s.names:
            if isinstance(s, ast.Import):
                n = a.asname or a.name.split(".")[0]
                base = a.name if a.asname else a.name.split(".")[0]
                fr.vars[n] = self.resolved(("mod", base) if base in self.repo.modules else ("ext", base))
            else:
                base = s.module or ""
                if s.level:
                    parts = fr.module.name.split(".")
                    if not fr.module.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                r = self.resolved(self.repo.resolve_attr(base, a.name))
                if r is None:
                    self.event("noname", frozenset(), s, "%s.%s" % (base, a.name))
                fr.vars[a.asname or a.name] = r or NONE

    def unpack(self, v, i, n):
        out = set()
        for o in v:
            if o.elts is not None:
                if len(o.elts) == n or i < len(o.elts):
                    out |= o.elts[i]
            elif o.kind == "arr":
                out |= o.items
            elif o.kind == "any" and o.user:
                out.add(self.child(o, "*"))
            else:
                out |= o.items
        return frozenset(out)

    def assign(self, t, v, fr, node):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                return
            fr.vars[t.id] = frozenset(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    c = set()
                    for j in range(i, max(i + 1, max([len(o.elts) for o in v if o.elts is not None], default=n))):
                        c |= self.unpack(v, j, n)
                    self.assign(x.value, self.new(x, "list", c), fr, node)
                else:
                    self.assign(x, self.unpack(v, i, n), fr, node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, fr)
            a = self.mangle(t.attr, fr)
            for o in b:
                self.setattr(o, a, v, node, fr)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, fr)
            self.eval(t.slice, fr)
            for o in b:
                if o.kind == "inst":
                    f = self.repo.find_method(o.cls, "__setitem__")
                    if f is not None:
                        self.call(f, [frozenset([o]), NONE, frozenset(v)], {}, t)
                    elif not self.ext_based(o.cls):
                        self.event("noattr", frozenset([o]), t, "__setitem__")
                    continue
                if o is NIL:
                    continue
                self.write([o], node, "an element is assigned")
                if o.kind in ("arr", "mat"):
                    continue
                o.items |= v
                o.elts = None
                if not isinstance(t.slice, ast.Constant):
                    o.open = True
                if o.kind in ("dict", "ddict") and isinstance(t.slice, ast.Constant):
                    o.keys[t.slice.value] = o.keys.get(t.slice.value, NONE) | frozenset(v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, node)

    def targets(self, b, special, x, fr):
        out = []
        for o in b:
            if o.kind == "inst":
                f = self.repo.find_method(o.cls, special)
                if f is not None:
                    self.call(f, [frozenset([o]), NONE], {}, x)
            else:
                out.append(o)
        return out

    def setattr(self, o, a, v, node, fr):
        if o.kind == "inst":
            f = self.setter(o.cls, a)
            if f is not None:
                self.call(f, [frozenset([o]), frozenset(v)], {}, node)
                return
            if o.old and a not in self.caches(o.cls):
                self.write([o], node, "the attribute %s is assigned" % a)
            else:
                self.writes += 1
            o.attrs[a] = o.attrs.get(a, NONE) | frozenset(v)
            self.strong[(o.id, a)] = frozenset(v)
            return
        if o.kind in ("func", "class", "mod", "ext", "none"):
            if o.kind == "class":
                k = ("classattr", o.cls.qual, a)
                self.event("classset", frozenset([o]), node, a)
            return
        self.write([o], node, "the attribute %s is assigned" % a)
        o.attrs[a] = o.attrs.get(a, NONE) | frozenset(v)

    def setter(self, cls, a):
        for c in self.repo.mro(cls):
            for s in c.node.body:
                if isinstance(s, ast.FunctionDef) and s.name == a and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in s.decorator_list):
                    k = ("setter", id(s))
                    if k not in self.funcvals:
                        f = self.repo.newfunc(c.qual + "." + a + ".setter", s, c.module, c)
                        self.funcvals[k] = f
                    return self.funcvals[k]
        return None

    def aug(self, s, fr):
        rhs = self.eval(s.value, fr)
        t = s.target
        if isinstance(t, ast.Subscript):
            b = self.eval(t.value, fr)
            self.eval(t.slice, fr)
            for o in b:
                if o.kind == "inst":
                    for sp, args in (("__getitem__", [NONE]), ("__setitem__", [NONE, rhs])):
                        f = self.repo.find_method(o.cls, sp)
                        if f is not None:
                            self.call(f, [frozenset([o])] + args, {}, t)
                else:
                    self.write([o], s, "an element is changed")
                    # d[k] += [...] also changes the element itself
                    if o.kind in ("list", "dict", "ddict", "tuple"):
                        self.write([x for x in o.items if x.kind in ("list", "set", "arr")], s, "an element is changed in place")
            return
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr) or NONE
        else:
            b = self.eval(t.value, fr)
            old = self.getattr(b, t.attr, t, fr)
        old = old - NILS
        inplace = frozenset(o for o in old if o.kind in ("list", "set", "arr", "deque") or o.kind in ("dict", "ddict") and isinstance(s.op, ast.BitOr)
                            or o.kind == "mat" and (isinstance(s.op, (ast.Mult, ast.Div)) and not any(x.kind in ("mat", "arr", "any") for x in rhs) or o.fmt == "lil") or o.kind == "ext-object")
        self.write([o for o in inplace if o.kind != "tuple"], s, "changed in place by an augmented assignment")
        for o in inplace:
            if o.kind in ("list", "deque", "set", "dict"):
                o.items |= self.contents(rhs)
                o.elts = None
        res = set(inplace)
        for o in old:
            if o not in inplace:
                if o.kind == "tuple":
                    res |= self.new(s, "tuple", o.items | self.contents(rhs))
                elif o.kind == "mat":
                    res |= self.new(s, "mat", fmt="?")
                else:
                    res.add(o) if o.kind == "any" and not o.user else None
        if not old:
            ks = {o.kind for o in rhs}
            if "arr" in ks:
                res |= self.new(s, "arr")
        if isinstance(t, ast.Name):
            if t.id not in fr.globals:
                fr.vars[t.id] = frozenset(res)
        else:
            for o in b:
                self.setattr(o, self.mangle(t.attr, fr), frozenset(res), s, fr)
