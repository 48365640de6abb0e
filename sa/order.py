"""Where does the order of a set of strings, a random number, a memory address or the time get into a value?

The object analysis of own.py, with three additions: strings are represented (one abstract object), so are the keys of mappings, and values that depend on something
that is not an input carry a token that names the place it comes from. A set is unordered for this purpose when it contains strings or objects hashed
by address. Lists filled, names assigned, results returned while such a set (or anything filled from it) is run through inherit the token; sorting, counting,
membership, and building another set or mapping by key do not. Comparisons and conditions do not carry tokens."""
import ast
from .own import Own, Ob, NONE, NIL, NILS

STR = Ob("str", "a string")
STRS = frozenset([STR])
SEQ = ("list", "tuple", "iter", "gen", "deque", "arr", "ext-object", "mat")
MAPS = ("dict", "ddict", "bidict")
CLEAN = {"len", "any", "all", "sum", "isinstance", "print", "callable", "hasattr", "issubclass", "set", "frozenset", "bool", "type", "open", "range", "setattr", "min", "max", "sorted"}
TIMES = {"time.time", "time.perf_counter", "time.process_time", "time.monotonic", "time.time_ns", "time.perf_counter_ns", "time.localtime", "time.gmtime", "time.ctime", "time.strftime",
         "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today"}
OTHER = {"os.getpid", "os.urandom", "os.getrandom", "uuid.uuid1", "uuid.uuid4", "secrets.token_hex", "secrets.token_bytes", "secrets.randbelow", "secrets.choice", "threading.get_ident", "socket.gethostname",
         "tempfile.mktemp", "os.times", "builtins.id"}
LISTING = {"os.listdir", "os.scandir", "glob.glob", "glob.iglob", "os.walk"}
NPCLEAN = {"sum", "any", "all", "max", "min", "sort", "unique", "mean", "count_nonzero", "median", "amax", "amin", "prod", "std", "var", "zeros_like", "ones_like", "size", "shape"}
STRMETH = {"encode", "decode", "join", "format", "strip", "lstrip", "rstrip", "lower", "upper", "replace", "title", "capitalize", "zfill", "ljust", "rjust", "center", "expandtabs", "removeprefix", "removesuffix"}


class Loop:
    def __init__(self, node, src, frame):
        self.node, self.src, self.frame = node, src, frame
        self.born, self.filled, self.pos = set(), set(), set()


class Order(Own):
    def __init__(self, repo):
        super().__init__(repo)
        self.last = {}
        self.loops = []
        self.tokens = {}
        self.values = False
        self.sinks = {}              # (token, entry) -> what it was found in
        self.sources = 0
        self.unordered_loops = 0
        self.results = 0
        self.skip = set()

    # ---- tokens
    def token(self, node, text):
        fr = next((f for f in reversed(self.frames) if f.fn is not None), self.frames[-1] if self.frames else None)
        k = (fr.module.path if fr else "?", getattr(node, "lineno", 0), text)
        o = self.tokens.get(k)
        if o is None:
            o = self.tokens[k] = Ob("rnd", text)
            o.place = k[:2] + (fr.fn.qual if fr and fr.fn else fr.module.name if fr else "?",)
        return o

    def taint(self, *vs):
        return frozenset(o for v in vs for o in v if o.kind == "rnd")

    def shuf(self, v):
        """tokens of the containers in v whose order is not determined"""
        out = set()
        for o in v:
            out |= getattr(o, "shuffled", NONE)
        return frozenset(out)

    def scramble(self, o, src):
        if src:
            o.shuffled = frozenset(getattr(o, "shuffled", NONE)) | frozenset(src)

    def hashed(self, items, depth=0):
        """iterating a set of these depends on their hashes"""
        for x in items:
            if x.kind == "str" or x.kind in ("inst", "func", "ext-object") and self.address(x):
                return True
            if x.kind == "tuple" and depth < 3 and (self.hashed(x.items, depth + 1)):
                return True
        return False

    def address(self, x):
        return x.kind != "inst" or self.repo.find_method(x.cls, "__hash__") is None

    def unordered(self, v, node):
        """tokens for the order in which v is run through"""
        out = set(self.shuf(v))
        for o in v:
            if o.kind == "set" and self.hashed(o.items):
                out.add(self.token(node, "the order of a set of %s" % ("strings" if any(x.kind == "str" for x in o.items) or any(x.kind == "tuple" for x in o.items) else "objects")))
            if o.kind == "inst":
                f = self.repo.find_method(o.cls, "__iter__")
                if f is not None:
                    out |= self.shuf(self.call(f, [frozenset([o])], {}, f.node))
        return frozenset(out)

    # ---- objects
    def alloc(self, node, kind, what="", cls=None, fmt=None, extra=None):
        o = super().alloc(node, kind, what, cls, fmt, extra)
        for l in self.loops:
            l.born.add(o.id)
        return o

    def kset(self, o):
        return getattr(o, "kset", NONE)

    def addkeys(self, o, v):
        o.kset = self.kset(o) | frozenset(v)

    def contents(self, v):
        if self.values:
            return super().contents(v)
        out = set()
        rest = []
        for o in v:
            if o.kind in MAPS:
                out |= self.kset(o)
            else:
                rest.append(o)
        out |= super().contents(rest)
        return out

    def copy(self, v, node, kind=None, kw=None):
        r = super().copy(v, node, kind, kw)
        src, ks = set(), set()
        for o in v:
            if o is NIL:
                continue
            src |= self.unordered([o], node)
            if o.kind in MAPS:
                ks |= self.kset(o)
            else:
                for t in o.items:
                    if t.elts is not None and len(t.elts) == 2:
                        ks |= t.elts[0]
        if kw:
            ks |= STRS
        for o in r:
            if o.kind in MAPS:
                self.addkeys(o, ks)
            if o.kind not in ("set", "inst"):
                self.scramble(o, src)
        return r

    def deep(self, v, node, memo=None):
        r = super().deep(v, node, memo)
        if memo is None:
            for o in r:
                ks = NONE
                for p in v:
                    if p.kind == o.kind:
                        ks |= self.kset(p)
                        self.scramble(o, self.shuf([p]))
                self.addkeys(o, ks)
        return r

    def mark(self, v, why):
        super().mark(v, why)
        if why.startswith(("an earlier result", "a result handed out")) and not (self.entry or "").endswith(("__repr__", "__str__")):
            self.results += 1
            self.sink(v, why)

    def sink(self, v, why):
        for t in self.bad(v):
            self.sinks.setdefault(t, (self.entry, why))

    def bad(self, v):
        out = set()
        skip = set()
        for o in self.reach(v).values():
            if o.id in self.skip:
                continue
            if o.kind == "rnd":
                out.add(o)
            elif o.kind in SEQ:
                out |= self.shuf([o])
            elif o.kind in MAPS:
                out |= self.taint(self.kset(o))
        return out

    # ---- expressions
    def eval(self, e, fr):
        v = super().eval(e, fr)
        t = type(e)
        if t in (ast.BinOp, ast.UnaryOp, ast.Subscript, ast.JoinedStr, ast.FormattedValue):
            v = self.carry(e, v, fr)
        self.last[id(e)] = v
        return v

    def of(self, e):
        return self.last.get(id(e), NONE)

    def text(self, v, node):
        """tokens of the text of these values"""
        out = set(self.taint(v))
        out |= self.unordered(v, node)
        for o in v:
            if o.kind in ("list", "tuple", "dict", "ddict", "bidict", "set"):
                for x in list(o.items) + list(self.kset(o)):
                    if x.kind == "set" and x is not o:
                        out |= self.unordered([x], node)
                    elif x.kind == "rnd":
                        out.add(x)
        return frozenset(out)

    def carry(self, e, v, fr):
        if isinstance(e, ast.BinOp):
            a, b = self.of(e.left), self.of(e.right)
            text = STR in a or isinstance(e.left, (ast.Constant, ast.JoinedStr)) and STR in a
            if isinstance(e.op, ast.Mod) and text:
                vs = [self.of(x) for x in e.right.elts] if isinstance(e.right, ast.Tuple) else [b]
                return STRS | frozenset(t for x in vs for t in self.text(x, e))
            if isinstance(e.op, (ast.Add, ast.Mult)) and (STR in a or STR in b) and not any(o.kind in SEQ for o in a | b):
                return v | STRS | self.taint(a, b)
            src = frozenset(o for x in a | b for o in getattr(x, "shuffled", ()) if x.kind in SEQ)
            for o in v:
                if o.kind in SEQ:
                    self.scramble(o, src)
                if o.kind == "set":
                    for x in a | b:
                        if x.kind in MAPS or x.kind == "iter":
                            o.items |= self.kset(x) if x.kind in MAPS else x.items
            return v | self.taint(a, b)
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return v
            a = self.of(e.operand)
            for o in v:
                self.scramble(o, self.shuf(a))
            return v | self.taint(a)
        if isinstance(e, ast.Subscript):
            b = self.of(e.value)
            out = set(v)
            if STR in b:
                out.add(STR)
            out |= self.taint(b)
            if not isinstance(e.slice, ast.Slice):
                for o in b:
                    if o.kind == "ddict":
                        self.addkeys(o, self.of(e.slice))
                        self.filling(o)
                out |= self.taint(self.of(e.slice))
                seq = [o for o in b if o.kind in ("list", "tuple", "deque", "arr") and getattr(o, "shuffled", None)]
                if not (isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts)):
                    out |= self.shuf(seq)
            else:
                for o in v:
                    if o.kind in SEQ:
                        self.scramble(o, self.shuf(b))
            return frozenset(out)
        if isinstance(e, ast.JoinedStr):
            return STRS | frozenset(t for x in e.values if isinstance(x, ast.FormattedValue) for t in self.text(self.of(x.value), e))
        return v

    def e_Constant(self, e, fr):
        if isinstance(e.value, str):
            return STRS
        return super().e_Constant(e, fr)

    def e_Set(self, e, fr):
        return super().e_Set(e, fr)

    def e_Dict(self, e, fr):
        r = super().e_Dict(e, fr)
        for o in r:
            for k, v in zip(e.keys, e.values):
                if k is None:
                    for y in self.of(v):
                        self.addkeys(o, self.kset(y))
                        self.scramble(o, self.shuf([y]))
                else:
                    self.addkeys(o, self.of(k))
        return r

    def comp(self, e, fr, build):
        saved = dict(fr.vars)
        src = set()
        n = len(self.loops)
        for g in e.generators:
            it = self.eval(g.iter, fr)
            s = self.unordered(it, g.iter)
            src |= s
            if s:
                self.loops.append(Loop(g, s, fr))
            self.assign(g.target, frozenset(self.contents(it)), fr, e)
            for c in g.ifs:
                self.eval(c, fr)
        r = build()
        del self.loops[n:]
        fr.vars = saved
        if src:
            self.unordered_loops += 1
        for o in r:
            if o.kind in ("list", "iter", "gen") + MAPS:
                self.scramble(o, src)
                if o.kind in MAPS and isinstance(e, ast.DictComp) and src:
                    # a key that several elements share keeps the last one
                    pass
        return r

    def e_DictComp(self, e, fr):
        def build():
            k = self.eval(e.key, fr)
            r = self.new(e, "dict", self.eval(e.value, fr))
            for o in r:
                o.open = True
                self.addkeys(o, k)
            return r
        return self.comp(e, fr, build)

    def e_Compare(self, e, fr):
        return frozenset(o for o in super().e_Compare(e, fr) if o.kind != "rnd")

    def e_Yield(self, e, fr):
        r = super().e_Yield(e, fr)
        if self.loops and any(l.frame is fr for l in self.loops):
            fr.yieldsrc = getattr(fr, "yieldsrc", frozenset()) | frozenset(s for l in self.loops if l.frame is fr for s in l.src)
        return r

    def call(self, f, args, kw, node, env=None, star=False, bound=None):
        r = super().call(f, args, kw, node, env, star, bound)
        if f.is_generator:
            fr = getattr(self, "left", None)
            for o in r:
                if o.kind == "gen" and fr is not None and fr.fn is f:
                    self.scramble(o, getattr(fr, "yieldsrc", ()))
        return r

    def leave(self):
        self.left = self.frames[-1]
        super().leave()

    def e_Call(self, e, fr):
        r = super().e_Call(e, fr)
        f = e.func
        # functions of other libraries are given what they depend on; those of the repository carry it themselves
        if isinstance(f, ast.Attribute):
            b = self.of(f.value)
            if f.attr == "sort" and any(o.kind == "list" for o in b):
                for o in b:
                    o.shuffled = frozenset()
        return r

    # ---- other libraries
    def external(self, name, args, kw, node):
        last = name.split(".")[-1]
        vals = list(args) + list(kw.values())
        a0 = args[0] if args else NONE
        if name in TIMES:
            self.sources += 1
            return frozenset([self.token(node, "the time (%s)" % name)])
        if name in OTHER:
            self.sources += 1
            return frozenset([self.token(node, "%s" % name)])
        if name.startswith(("random.", "numpy.random.")):
            if last in ("seed",) or (last in ("RandomState", "default_rng", "Random", "Generator", "PCG64") and args and self.fixed(node)):
                return super().external(name, args, kw, node)
            if not self.seeded(name, node):
                self.sources += 1
                t = self.token(node, "a random number (%s)" % name)
                if last == "shuffle":
                    for o in a0:
                        self.scramble(o, [t])
                    return NONE
                r = super().external(name, args, kw, node)
                return frozenset(r) | frozenset([t])
        if name in LISTING:
            self.sources += 1
            r = self.new(node, "list", STRS)
            for o in r:
                self.scramble(o, [self.token(node, "the order of a directory")])
            return r
        if name.startswith("os.environ") or name in ("os.getenv", "os.getcwd"):
            return STRS
        if name == "builtins.hash":
            if any(o.kind in ("str", "rnd", "any", "tuple", "ext-object", "inst") for o in a0):
                self.sources += 1
                return frozenset([self.token(node, "hash of a string or an object")])
            return NONE
        tok = self.taint(*vals)
        if name.startswith("builtins."):
            un = frozenset(t for a in args for t in self.unordered(a, node)) if last in ("list", "tuple", "iter", "map", "filter", "reversed", "enumerate", "zip", "next", "str", "repr", "format") else NONE
            if last in ("str", "repr", "format", "ascii"):
                return STRS | tok | frozenset(t for a in args for t in self.text(a, node))
            if last == "next":
                r = super().external(name, args, kw, node)
                return frozenset(r) | un
            if last == "zip":
                r = super().external(name, args, kw, node)
                per = [self.unordered(a, node) for a in args]
                if any(per):
                    same = all(p == per[0] for p in per)
                    for o in r:
                        self.scramble(o, un)
                        for t in o.items:
                            if not same and t.elts is not None:
                                t.elts = [x | un for x in t.elts]
                                t.items |= un
                return r
            if last == "enumerate":
                r = super().external(name, args, kw, node)
                if un:
                    for o in r:
                        self.scramble(o, un)
                        for t in o.items:
                            if t.elts is not None:
                                t.elts = [t.elts[0] | un] + list(t.elts[1:])
                                t.items |= un
                return r
            if last in ("list", "tuple", "iter", "map", "filter", "reversed"):
                r = super().external(name, args, kw, node)
                for o in r:
                    self.scramble(o, un)
                return r
            if last == "len":
                for l in self.loops:
                    if any(o.id in l.filled for o in a0):
                        return frozenset(l.src)
                return NONE
            if last in ("min", "max", "sum", "sorted", "int", "float", "abs", "round", "divmod", "pow", "chr", "ord", "complex"):
                r = super().external(name, args, kw, node)
                return frozenset(r) | tok
            if last == "dict":
                r = super().external(name, args, kw, node)
                return r
            if last == "getattr" or last == "vars":
                return super().external(name, args, kw, node)
            return super().external(name, args, kw, node)
        r = super().external(name, args, kw, node)
        if name.startswith("numpy.") and last in NPCLEAN:
            return frozenset(r) | tok
        src = self.shuf([o for v in vals for o in v if o.kind in SEQ]) | frozenset(t for v in vals for t in self.unordered([o for o in v if o.kind == "set"], node))
        if name.startswith(("json.", "re.", "os.", "sys.")):
            return frozenset(r) | (STRS if name.startswith(("os.path", "re.sub", "json.dumps")) else NONE) | tok
        for o in r:
            if o.kind in SEQ and last not in ("Digraph",):
                self.scramble(o, src)
                if tok:
                    self.scramble(o, tok)
        if name.startswith(("hashlib.", "math.", "zlib.", "binascii.")):
            return frozenset(r) | tok
        return frozenset(r) | (tok if not r else NONE)

    def fixed(self, node):
        a = node.args[0] if getattr(node, "args", None) else None
        return isinstance(a, ast.Constant) and a.value is not None

    def seeded(self, name, node):
        """the function that asks for the random number sets a constant seed before"""
        fr = next((f for f in reversed(self.frames) if f.fn is not None), None)
        if fr is None:
            return False
        lib = name.rsplit(".", 1)[0]
        for f in self.frames:
            if f.fn is None:
                continue
            for n in ast.walk(f.fn.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "seed" and self.fixed(n) and n.lineno <= getattr(node, "lineno", 0) + (10 ** 6 if f is not fr else 0):
                    if ast.unparse(n.func.value).split(".")[-1] == lib.split(".")[-1]:
                        return True
        return False

    def method(self, o, a, args, kw, node, fr):
        k = o.kind
        vals = list(args) + list(kw.values())
        tok = self.taint(*vals)
        if k == "rnd":
            return frozenset([o])
        if k == "str":
            if a in ("split", "rsplit", "splitlines", "partition", "rpartition"):
                return self.new(node, "list", STRS)
            if a == "join" and args:
                return STRS | tok | self.unordered(args[0], node) | self.taint(self.contents(args[0]))
            if a in ("format", "format_map"):
                return STRS | frozenset(t for v in vals for t in self.text(v, node))
            if a in STRMETH:
                return STRS | tok
            return tok if a not in ("startswith", "endswith", "isdigit", "isalpha") else NONE
        if k == "ext":
            return super().method(o, a, args, kw, node, fr)
        if k in MAPS:
            return self.mapping(o, a, args, kw, node, fr)
        if k == "set":
            if a == "pop":
                r = super().method(o, a, args, kw, node, fr)
                return frozenset(o.items) | self.unordered([o], node)
            r = super().method(o, a, args, kw, node, fr)
            if a in ("union", "intersection", "difference", "symmetric_difference", "copy"):
                return r
            return r
        active = [l for l in self.loops if o.id not in l.born]
        if k in ("list", "deque") and a in ("append", "extend", "insert", "appendleft", "extendleft"):
            r = super().method(o, a, args, kw, node, fr)
            for l in active:
                self.scramble(o, l.src)
                l.filled.add(o.id)
            if a in ("extend", "extendleft"):
                self.scramble(o, frozenset(t for v in args for t in self.unordered(v, node)))
            return r
        if k in ("list", "tuple") and a == "index":
            return self.shuf([o])
        if k in ("list", "deque") and a in ("pop", "popleft"):
            return frozenset(super().method(o, a, args, kw, node, fr)) | self.shuf([o])
        r = super().method(o, a, args, kw, node, fr)
        if k in ("arr", "mat"):
            if a in NPCLEAN:
                return frozenset(r) | tok
            for x in r:
                if x.kind in SEQ:
                    self.scramble(x, self.shuf([o]) | self.shuf([y for v in vals for y in v if y.kind in SEQ]) | tok)
            return r
        if k == "ext-object":
            if a in ("group", "groups", "read", "readline", "hexdigest"):
                return frozenset(r) | STRS | self.shuf([o])
            src = set(tok) | set(self.shuf([y for v in vals for y in v if y.kind in SEQ]))
            for v in vals:
                for y in v:
                    if y.kind in MAPS:
                        src |= {t for t in y.items if t.kind == "rnd"} | {t for t in self.kset(y) if t.kind == "rnd"}
            for l in active:
                src |= set(l.src)
            self.scramble(o, src)
            for x in r:
                if x.kind in SEQ:
                    self.scramble(x, self.shuf([o]))
            return frozenset(r) | (frozenset(tok) if not r else NONE)
        if k == "file":
            if a in ("readlines", "__iter__"):
                return self.new(node, "list", STRS)
            if a in ("read", "readline"):
                return STRS
        if k == "any":
            for x in r:
                self.scramble(x, tok) if x.kind == "any" and not x.user else None
        return r

    def mapping(self, o, a, args, kw, node, fr):
        ks = self.kset(o)
        if a in ("items",):
            self.values = True
            try:
                v = super().contents([o])
            finally:
                self.values = False
            r = self.new(node, "iter", self.new(node, "tuple", elts=[ks, v], extra=("items", o.id)), extra=("it", o.id))
            for x in r:
                self.scramble(x, self.shuf([o]))
            return r
        if a == "keys":
            r = self.new(node, "iter", ks, extra=("keys", o.id))
            for x in r:
                self.scramble(x, self.shuf([o]))
            return r
        if a == "values":
            r = self.new(node, "iter", o.items, extra=("values", o.id))
            for x in r:
                self.scramble(x, self.shuf([o]))
            return r
        self.values = True
        try:
            r = super().method(o, a, args, kw, node, fr)
        finally:
            self.values = False
        if a in ("setdefault", "put", "forceput") and args:
            self.addkeys(o, args[0])
            self.filling(o)
        elif a in ("update", "putall", "forceupdate", "forceputall"):
            for x in args:
                for y in x:
                    if y.kind in MAPS:
                        self.addkeys(o, self.kset(y))
                        self.scramble(o, self.shuf([y]))
                    else:
                        self.scramble(o, self.unordered([y], node))
                        for t in y.items:
                            if t.elts is not None and len(t.elts) == 2:
                                self.addkeys(o, t.elts[0])
            if kw:
                self.addkeys(o, STRS)
            self.filling(o)
        elif a == "popitem":
            for t in r:
                if t.elts is not None:
                    t.elts = [t.elts[0] | ks | self.shuf([o])] + list(t.elts[1:])
        elif a == "copy":
            for x in r:
                self.addkeys(x, ks)
                self.scramble(x, self.shuf([o]))
        return r

    def filling(self, o):
        for l in self.loops:
            if o.id not in l.born:
                self.scramble(o, l.src)
                l.filled.add(o.id)

    # ---- statements
    def iterated(self, s, fr):
        return None

    def stmt(self, s, fr):
        t = type(s)
        if t is ast.For:
            it = self.quiet(s.iter, fr)
            src = self.unordered(it, s.iter)
            if src:
                self.unordered_loops += 1
                l = Loop(s, src, fr)
                fragile, counters = self.fragile(s), self.counters(s)
                for n in counters:
                    if n in fr.vars:
                        fr.vars[n] = fr.vars[n] | src
                        l.pos.add(n)
                before = {o.id for o in self.alive(fr)}
                self.loops.append(l)
                r = super().stmt(s, fr)
                self.loops.pop()
                for n in counters:
                    if n in fr.vars:
                        fr.vars[n] = fr.vars[n] - src
                for n in fragile:
                    if n in fr.vars:
                        fr.vars[n] = fr.vars[n] | src
                return r
            return super().stmt(s, fr)
        if t is ast.Return and s.value is not None:
            r = super().stmt(s, fr)
            here = [l for l in self.loops if l.frame is fr and within(l.node, s)]
            for l in here:
                if isinstance(l.node, ast.For) and depends(s.value, carried(l.node)) and not unique(l.node, s):
                    fr.ret |= set(l.src)
            return r
        if t is ast.AugAssign:
            r = super().stmt(s, fr)
            if isinstance(s.target, ast.Name):
                n = s.target.id
                if n not in fr.globals:
                    rhs = self.of(s.value)
                    old = set(self.taint(rhs))
                    for l in self.loops:
                        if l.frame is fr and n in l.pos:
                            old |= set(l.src)
                    if STR in rhs and isinstance(s.op, ast.Add):
                        old.add(STR)
                        for l in self.loops:
                            if l.frame is fr:
                                old |= set(l.src)
                    fr.vars[n] = fr.vars.get(n, NONE) | frozenset(old)
                    for o in fr.vars[n]:
                        if o.kind in ("list", "deque", "ext-object"):
                            for l in self.loops:
                                if o.id not in l.born:
                                    self.scramble(o, l.src)
                                    l.filled.add(o.id)
                            if o.kind != "ext-object":
                                self.scramble(o, self.unordered(rhs, s))
            elif isinstance(s.target, ast.Attribute):
                for o in self.of(s.target) or self.quiet(as_load(s.target), fr):
                    if o.kind in ("list", "deque", "ext-object"):
                        for l in self.loops:
                            if o.id not in l.born:
                                self.scramble(o, l.src)
                                l.filled.add(o.id)
            elif isinstance(s.target, ast.Subscript):
                b = self.of(s.target.value)
                for o in b:
                    if o.kind in MAPS:
                        self.addkeys(o, self.of(s.target.slice))
                        self.filling(o)
                    o.items |= self.taint(self.of(s.value))
            return r
        return super().stmt(s, fr)

    def alive(self, fr):
        return ()

    def assign(self, t, v, fr, node):
        super().assign(t, v, fr, node)
        if isinstance(t, ast.Subscript):
            idx = self.of(t.slice)
            for o in self.of(t.value):
                if o.kind in MAPS:
                    self.addkeys(o, idx)
                    self.filling(o)
                elif o.kind in ("arr", "mat", "list"):
                    tok = self.taint(v) | self.taint(idx) | (self.taint(*[self.of(x) for x in t.slice.elts]) if isinstance(t.slice, ast.Tuple) else NONE)
                    self.scramble(o, tok)
                    if o.kind == "arr" and isinstance(t.slice, (ast.Slice, ast.Name)):
                        self.scramble(o, self.shuf([x for x in v if x.kind in ("list", "arr")]))

    def fragile(self, s):
        """names assigned in the loop from its elements and read behind it: the last one wins"""
        dep = carried(s)
        out = set()
        stored = {}
        for n in ast.walk(s):
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) for x in n.targets) and depends(n.value, dep):
                if isinstance(n.value, (ast.BoolOp, ast.BinOp)) and any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
                    continue              # an accumulation
                if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ("min", "max"):
                    continue
                if chosen(s, n):
                    continue
                for x in n.targets:
                    if isinstance(x, ast.Name):
                        stored[x.id] = n
        tg = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        fn = self.frames[-1].fn.node if self.frames and self.frames[-1].fn is not None else None
        if fn is None:
            return out
        end = s.end_lineno or s.lineno
        later = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.lineno > end}
        rebound = set()
        for n in ast.walk(fn):
            if isinstance(n, (ast.For, ast.comprehension)) and getattr(n, "lineno", getattr(n.target, "lineno", 0)) > end:
                rebound |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            elif isinstance(n, ast.Assign) and n.lineno > end:
                rebound |= {x.id for y in n.targets for x in ast.walk(y) if isinstance(x, ast.Name)}
        for x in set(stored) | tg:
            if x in later and x not in rebound:
                out.add(x)
        return out

    def counters(self, s):
        """names counted up in the loop and used in it for more than counting"""
        out = set()
        for n in ast.walk(s):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, int):
                out.add(n.target.id)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add) \
                    and isinstance(n.value.right, ast.Constant) and isinstance(n.value.left, ast.Name) and n.value.left.id == n.targets[0].id:
                out.add(n.targets[0].id)
        return out


def as_load(t):
    return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)


def within(loop, s):
    return any(n is s for n in ast.walk(loop))


def depends(e, names):
    return any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(e))


def carried(s):
    """names whose value depends on the element of the loop"""
    dep = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    for _ in range(4):
        n0 = len(dep)
        for n in ast.walk(s):
            if isinstance(n, ast.Assign) and depends(n.value, dep):
                dep |= {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            elif isinstance(n, ast.For) and n is not s and depends(n.iter, dep):
                dep |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        if len(dep) == n0:
            break
    return dep


def path_to(loop, s):
    """the ifs between the loop and the statement"""
    out = []

    def go(n, ifs):
        if n is s:
            out.extend(ifs)
            return True
        for c in ast.iter_child_nodes(n):
            if go(c, ifs + ([n] if isinstance(n, ast.If) else [])):
                return True
        return False
    go(loop, [])
    return out


def unique(loop, s):
    """only one element can get there, as far as an equation says"""
    for i in path_to(loop, s):
        for n in ast.walk(i.test):
            if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Eq, ast.Is)) for o in n.ops) and depends(n, carried(loop)):
                return True
    return False


def chosen(loop, s):
    """assigned under a comparison with what was assigned before: the smallest or the largest; or under an equation that one element satisfies"""
    names = {x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
    for i in path_to(loop, s):
        for n in ast.walk(i.test):
            if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in n.ops):
                return True
    return unique(loop, s)
