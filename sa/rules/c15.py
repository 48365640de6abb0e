"""C15: blocks of native memory have one owner, who releases them once.

The functions of the compiled modules are executed abstractly, one way at a time: pointers, the blocks they point to, who owns them (this function, its caller, a structure), and
whether they are released. What functions do with the pointers they get (borrow, take over, hand back) is computed from their bodies first.

R1  on every way out of a function what it owns is released, returned, or part of something that outlives it
R2  nothing is released twice, or used after it was released or given away
R3  nothing is read before it was written
R4  what an object allocates is released when the object goes"""
import ast, copy, itertools
from .common import *

MAXSTATES = 600


class Val:
    pass


NULLV = ("null",)


class Obj:
    __slots__ = ("typ", "rec", "live", "owned", "line", "cells", "nonnull", "fresh", "written", "stored", "rel", "dangling", "mod", "name", "part", "fields", "single", "maynull", "link")

    def __init__(self, typ, line, owned, fresh, name=""):
        self.typ, self.line, self.owned, self.fresh, self.name = typ, line, owned, fresh, name
        self.rec = False
        self.live = "live"
        self.cells = {}
        self.nonnull = fresh
        self.written = not fresh
        self.stored, self.rel, self.dangling = frozenset(), frozenset(), frozenset()
        self.mod = False
        self.part = None
        self.fields = frozenset()
        self.single = False
        self.maynull = False
        self.link = False

    def copy(self):
        o = Obj.__new__(Obj)
        for k in Obj.__slots__:
            setattr(o, k, getattr(self, k))
        o.cells = dict(self.cells)
        return o


class St:
    def __init__(self):
        self.env, self.heap, self.facts, self.next = {}, {}, {}, 0
        self.roots = []

    def copy(self):
        s = St()
        s.env, s.facts, s.next, s.roots = dict(self.env), dict(self.facts), self.next, self.roots
        s.heap = {k: o.copy() for k, o in self.heap.items()}
        return s

    def new(self, o):
        self.next += 1
        self.heap[self.next] = o
        return ("p", self.next)

    def key(self):
        num, order = {}, []

        def n(v):
            if isinstance(v, tuple) and v and v[0] in ("p", "el"):
                if v[1] not in num:
                    num[v[1]] = len(num)
                    order.append(v[1])
                return (v[0], num[v[1]]) + tuple(v[2:])
            if isinstance(v, tuple) and v and v[0] == "s":
                return ("s", v[1], tuple(sorted((k, n(x)) for k, x in v[2])))
            if isinstance(v, tuple) and v and v[0] == "t":
                return ("t",) + tuple(n(x) for x in v[1:])
            return v
        env = tuple((k, n(v)) for k, v in sorted(self.env.items(), key=lambda x: x[0])) + tuple(n(v) for v in self.roots)
        out, i = [], 0
        while i < len(order):
            o = self.heap[order[i]]
            out.append((o.typ, o.live, o.owned, o.nonnull, o.written, o.stored, o.rel, o.dangling, o.mod, o.fields, tuple((k, n(v)) for k, v in sorted(o.cells.items(), key=lambda x: repr(x[0])))))
            i += 1
        lost = tuple(sorted((o.line, o.live) for k, o in self.heap.items() if k not in num and o.owned and o.live == "live"))
        return (env, tuple(out), lost, tuple(sorted(self.facts.items())))


class Contract:
    def __init__(self, n=0):
        self.params = {}          # index -> "take" | "alias"
        self.ret = None           # per position: "owned" | ("alias", k) | None
        self.writes = set()       # raw array parameters that are written
        self.fills = set()        # (parameter, field) left with something to be released
        self.frees_self = set()   # fields of self that are released
        self.resets = set()       # those that point to something else afterwards
        self.requires = set()     # (parameter, field) that must be NULL
        self.elems = set()        # (parameter, field of its elements) that are released
        self.retnull = {}         # position of the result: fields that are NULL
        self.maynull = set()      # positions of the result that may be NULL
        self.unique = False       # drops a node when the key is there already

    def sig(self):
        return (tuple(sorted(self.params.items())), repr(self.ret), tuple(sorted(self.writes)), tuple(sorted(self.fills)), tuple(sorted(self.frees_self)), tuple(sorted(self.resets)), tuple(sorted(self.requires)), tuple(sorted(self.elems)), repr(sorted(self.retnull.items())), tuple(sorted(self.maynull)), self.unique)


class Stop(Exception):
    pass


def T(e):
    return ast.unparse(e)


def is_ptr(t):
    return isinstance(t, str) and t.rstrip().endswith("*")


def pointee(t):
    return t.rstrip()[:-1].strip() if is_ptr(t) else None


class Exec:
    def __init__(self, world, fn, m, cls, contracts, report):
        self.w, self.fn, self.m, self.cls, self.contracts, self.rep = world, fn, m, cls, contracts, report
        self.exits = []
        self.types = {}
        for a in fn.args.args:
            if isinstance(a.annotation, ast.Constant):
                self.types[a.arg] = a.annotation.value
        for n in ast.walk(fn):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and isinstance(n.annotation, ast.Constant):
                self.types[n.target.id] = n.annotation.value
        self.selfobj = None
        self.requires = set()
        self.finals = []
        self.unique = False

    # ---- reports
    def bad(self, rule, line, what):
        if self.rep is not None:
            self.rep(rule, self.fn, self.m, line, what)

    # ---- types
    def struct(self, t):
        return self.w.structs.get(t)

    def listlike(self, t):
        s = self.struct(t)
        return bool(s) and sum(pointee(x) == t for x in s.values()) == 1

    def linked(self, t):
        """a structure that contains pointers to its own kind"""
        s = self.struct(t)
        return bool(s) and any(pointee(x) == t for x in s.values())

    # ---- memory
    def alloc(self, st, line, typ=None):
        o = Obj(typ, line, True, True)
        return st.new(o)

    def obj(self, st, v):
        return st.heap[v[1]] if isinstance(v, tuple) and v and v[0] in ("p", "el") else None

    def part(self, st, oid, t, line, name):
        """something that belongs to a structure"""
        parent = st.heap[oid]
        o = Obj(pointee(t), line, parent.owned, False, name)
        o.part = oid
        o.link = parent.typ == o.typ and self.listlike(o.typ)
        v = st.new(o)
        return v

    def use(self, st, v, line, what):
        o = self.obj(st, v)
        if o is not None and o.live != "live":
            self.bad("R2", line, "%s is used after it was %s" % (what, "released" if o.live == "freed" else "given away"))
            o.live = "live"
            o.owned = False

    def read_cell(self, st, v, key, field, ft, line, what):
        o = st.heap[v[1]]
        k = (key, field)
        if k in o.cells:
            return o.cells[k]
        if o.fresh and not o.written and not any(f == field for _, f in o.cells) and field not in o.fields and field not in o.stored:
            self.bad("R3", line, "%s is read before anything was written there" % what)
            o.fields = o.fields | {field}
            return None
        if not is_ptr(ft):
            if ft in self.w.structs:
                return None
            return None
        c = self.part(st, v[1], ft, line, what)
        if o.fresh or o.name.startswith("self."):
            self.obj(st, c).owned = True
        o.cells[k] = c
        return c

    def write_cell(self, st, v, key, field, val, line, what):
        o = st.heap[v[1]]
        k = (key, field)
        old = o.cells.get(k)
        ft = self.ftype(o.typ, field)
        pn = next((n for n, x in getattr(self, "params", {}).items() if x[:2] == ("p", v[1])), None)
        if old is None and pn is not None and self.linked(o.typ) and k not in o.cells:
            self.requires.add(([a.arg for a in self.fn.args.args].index(pn), field))
        elif old is None and not o.fresh and is_ptr(ft) and k not in o.cells and self.keeps(o):
            old = self.part(st, v[1], ft, line, what)
            self.obj(st, old).owned = self.obj(st, old).owned or o.name.startswith("self.")
        o.cells[k] = val
        o.fields = o.fields | {field}
        o.mod = True
        if is_ptr(ft):
            ov = self.obj(st, val)
            if ov is not None and ov.owned:
                o.stored = o.stored | {field}
                o.rel = frozenset(x for x in o.rel if x != k)
        if old is not None:
            oo = self.obj(st, old)
            if oo is not None and oo.part == v[1]:
                oo.part = None
            self.lost(st, old, line, what)

    def keeps(self, o):
        """the contents of this structure are known to be valid from the start"""
        return o.name.startswith("self.") or self.linked(o.typ)

    def ftype(self, typ, field):
        if field == "":
            return typ if is_ptr(typ) else None
        return (self.struct(typ) or {}).get(field)

    def reach(self, st, vals):
        seen, todo = set(), list(vals)
        while todo:
            v = todo.pop()
            if not isinstance(v, tuple) or not v:
                continue
            if v[0] == "t":
                todo += list(v[1:])
            elif v[0] == "s":
                todo += [x for _, x in v[2]]
            elif v[0] in ("p", "el") and v[1] not in seen:
                seen.add(v[1])
                todo += list(st.heap[v[1]].cells.values())
        return seen

    def lost(self, st, v, line, what):
        o = self.obj(st, v)
        if o is None or not o.owned or o.live != "live" or v[0] == "el":
            return
        if o.part is not None and o.part in st.heap and st.heap[o.part].live == "live":
            return                       # still belongs to what it is part of
        if o.maynull and not o.nonnull:
            return
        if v[1] in self.reach(st, list(st.env.values()) + ([self.selfobj] if self.selfobj else [])):
            return
        self.bad("R1", line, "what was allocated%s is not released before %s is overwritten" % (" in line %d" % o.line if o.line and o.line != line else "", what))
        o.owned = False

    def release(self, st, v, line, what, how="freed", deep=False):
        o = self.obj(st, v)
        if o is None:
            return
        if o.live != "live":
            self.bad("R2", line, "%s is released after it was %s" % (what, "released" if o.live == "freed" else "given away"))
            return
        if how == "freed" and not deep:
            s = self.struct(o.typ) or {}
            arr = (not o.single or is_ptr(o.typ)) and not self.linked(o.typ)
            if not arr:
                for f, t in s.items():
                    if is_ptr(t) and (("0", f) not in o.cells) and not o.fresh:
                        c = self.part(st, v[1], t, line, what + "." + f)
                        o.cells[("0", f)] = c
            else:
                fs = [f for f, t in s.items() if is_ptr(t)] + ([""] if is_ptr(o.typ) else [])
                for f in fs:
                    holds = f in o.stored or o.name.startswith("self.")
                    released = any(k[1] == f for k in o.rel)
                    if holds and not released:
                        self.bad("R1", line, "%s is released, but not what its elements%s hold" % (what, " (%s)" % f if f else ""))
                for k, c in list(o.cells.items()):
                    co = self.obj(st, c)
                    if co is not None:
                        co.owned = False
        o.live = how
        if o.part is not None and o.part in st.heap:
            p = st.heap[o.part]
            for k, c in p.cells.items():
                if c == v:
                    p.rel = p.rel | {k}
        for h in st.heap.values():
            for k, c in h.cells.items():
                if isinstance(c, tuple) and c[:2] == ("p", v[1]):
                    h.rel = h.rel | {k}
        if deep:
            for oid in self.reach(st, [v]):
                z = st.heap[oid]
                if z.live == "live":
                    z.live = how
        # elements that were seen under other indices belong to it as well
        if deep:
            for z in st.heap.values():
                if z.part == v[1] and z.live == "live":
                    z.live = how
        if how == "freed" and not deep:
            kids = [c for c in o.cells.values() if isinstance(c, tuple) and c and c[0] == "p"]
            o.cells = {}
            for c in kids:
                co = self.obj(st, c)
                if co is not None:
                    if not arr:
                        co.owned = True
                        co.part = None
                    self.lost(st, c, line, what)

    # ---- expressions
    def ev(self, e, st):
        if isinstance(e, ast.Name):
            if e.id == "NULL":
                return NULLV
            return st.env.get(e.id)
        if isinstance(e, ast.Constant):
            return None
        if isinstance(e, ast.Tuple):
            return ("t",) + tuple(self.ev(x, st) for x in e.elts)
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            return self.load(e, st)
        if isinstance(e, ast.BinOp):
            a = self.ev(e.left, st)
            self.ev(e.right, st)
            return ("el",) + a[1:2] + ("?",) if isinstance(a, tuple) and a and a[0] == "p" else None
        if isinstance(e, ast.IfExp):
            self.ev(e.test, st)
            a, b = self.ev(e.body, st), self.ev(e.orelse, st)
            return a if a == b else None
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.JoinedStr)):
            return None
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return None

    def place(self, e, st):
        """(object pointer, key, field, text) of an attribute or element; or None"""
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == "self" and self.selfobj is not None:
                return self.selfobj, "0", e.attr, T(e)
            b = self.ev(e.value, st)
            if isinstance(b, tuple) and b and b[0] == "s":
                return ("sv", b, e)
            if isinstance(b, tuple) and b and b[0] in ("p", "el"):
                key = b[2] if b[0] == "el" else "0"
                return ("p", b[1]), key, e.attr, T(e)
            return None
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, st)
            self.ev(e.slice, st)
            if isinstance(b, tuple) and b and b[0] == "p":
                return b, T(e.slice), "", T(e)
            if isinstance(b, tuple) and b and b[0] == "el":
                return ("p", b[1]), b[2] if T(e.slice) == "0" else "?", "", T(e)
        return None

    def load(self, e, st):
        p = self.place(e, st)
        if p is None:
            return None
        if p[0] == "sv":
            return dict(p[1][2]).get(p[2].attr)
        v, key, field, text = p
        o = st.heap[v[1]]
        if v != self.selfobj:
            self.use(st, v, e.lineno, T(e.value))
        if v == self.selfobj:
            t = self.w.fields.get((self.cls, field))
            if not is_ptr(t):
                return None
            if ("0", field) not in o.cells:
                c = Obj(pointee(t), e.lineno, False, False, "self." + field)
                o.cells[("0", field)] = st.new(c)
            return o.cells[("0", field)]
        s = self.struct(o.typ)
        if field == "" and s is not None:
            return ("el", v[1], key)
        ft = self.ftype(o.typ, field)
        return self.read_cell(st, v, key, field, ft, e.lineno, text)

    def call(self, e, st):
        f = e.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if isinstance(f, ast.Name) and n == "__cast__":
            v = self.ev(e.args[1], st)
            t = e.args[0].value if isinstance(e.args[0], ast.Constant) else None
            o = self.obj(st, v)
            if o is not None and o.typ is None and is_ptr(t):
                o.typ = pointee(t)
            return v
        if isinstance(f, ast.Name) and n == "__sizeof__":
            return None
        if isinstance(f, ast.Name) and n == "__addr__":
            a = e.args[0]
            p = self.place(a, st) if isinstance(a, (ast.Subscript, ast.Attribute)) else None
            if p is None or p[0] == "sv":
                return None
            if p[2] == "":
                self.use(st, p[0], e.lineno, T(a.value))
                return ("el", p[0][1], p[1])
            return None
        if isinstance(f, ast.Name) and n in ("malloc", "calloc", "PyMem_Malloc"):
            for a in e.args:
                self.ev(a, st)
            v = self.alloc(st, e.lineno)
            o = self.obj(st, v)
            o.single = len(e.args) == 1 and isinstance(e.args[0], ast.Call) and getattr(e.args[0].func, "id", "") == "__sizeof__"
            if o.single and e.args[0].args and isinstance(e.args[0].args[0], ast.Constant):
                o.typ = e.args[0].args[0].value
            if n == "calloc":
                o.written = True
            return v
        if isinstance(f, ast.Name) and n == "realloc":
            v = self.ev(e.args[0], st)
            o = self.obj(st, v)
            if o is not None:
                self.release(st, v, e.lineno, T(e.args[0]), "moved")
            w = self.alloc(st, e.lineno)
            if o is not None:
                self.obj(st, w).typ = o.typ
            self.obj(st, w).written = True
            return w
        if isinstance(f, ast.Name) and n == "free":
            v = self.ev(e.args[0], st)
            if isinstance(v, tuple) and v and v[0] == "el" and v[2] == "0":
                v = ("p", v[1])
            self.release(st, v, e.lineno, T(e.args[0]))
            return None
        if isinstance(f, ast.Name) and n == "memcpy":
            for a in e.args:
                v = self.ev(a, st)
                if self.obj(st, v) is not None:
                    self.use(st, v, e.lineno, T(a))
                    self.obj(st, v).written = True
            return None
        if isinstance(f, ast.Name) and n in self.w.structs:
            fs = list(self.w.structs[n])
            vals = [self.ev(a, st) for a in e.args]
            kw = {k.arg: self.ev(k.value, st) for k in e.keywords}
            return ("s", n, tuple((x, vals[i] if i < len(vals) else kw.get(x)) for i, x in enumerate(fs)))
        g = self.w.lookup(self.m, self.cls, f)
        args = list(e.args)
        if g is not None:
            fn, m, cls = g
            c = self.contracts.get(id(fn))
            ps = [a.arg for a in fn.args.args]
            off = 1 if ps and ps[0] == "self" else 0
            vals = [self.ev(a, st) for a in args]
            if c is None:
                c = Contract()
            # fresh blocks that are passed on must be complete
            for i, v in enumerate(vals):
                o = self.obj(st, v)
                if o is None:
                    continue
                self.use(st, v, e.lineno, T(args[i]))
                if o.fresh and self.linked(o.typ) and o.fields is not None:
                    self.complete(st, v, e.lineno, T(args[i]))
                if i + off in c.writes:
                    o.written = True
                elif o.fresh and not o.single and not o.written and not o.cells and not o.fields and i + off in getattr(c, "reads", ()):
                    self.bad("R3", e.lineno, "%s is handed on to be read before anything was written there" % T(args[i]))
                    o.written = True
            if c.unique and fn is not self.fn and not any(t is False and k[0].startswith("in_") for k, t in st.facts.items()) and not (self.contracts.get(id(self.fn)) or Contract()).unique:
                self.bad("R1", e.lineno, "%s drops a node when the key is there already, and nothing shows that it is not" % fn.name)
            for k, fld in sorted(c.requires):
                v = vals[k - off] if 0 <= k - off < len(vals) else None
                o = self.obj(st, v)
                if o is None:
                    continue
                cell = o.cells.get(("0", fld), "none")
                mine = next((n for n, x in self.params.items() if x[:2] == v[:2]), None)
                if cell == "none" and mine is not None:
                    self.requires.add(([a.arg for a in self.fn.args.args].index(mine), fld))
                elif cell != NULLV and not (cell == "none" and o.fresh):
                    self.bad("R1", e.lineno, "%s overwrites %s.%s, which is not known to be NULL here" % (fn.name, T(args[k - off]), fld))
            for i, v in enumerate(vals):
                o = self.obj(st, v)
                if o is None or i >= len(ps):
                    continue
                if c.params.get(i + off) == "take" and not o.single and not self.linked(o.typ):
                    for fld in sorted(o.stored):
                        if fld and (i + off, fld) not in c.elems and not any(k[1] == fld for k in o.rel):
                            self.bad("R1", e.lineno, "%s is released by %s, but not what its elements (%s) hold" % (T(args[i]), fn.name, fld))
                if c.params.get(i + off) == "take":
                    self.release(st, v, e.lineno, T(args[i]), "moved", True)
                for (k, fld) in c.fills:
                    if k == i + off:
                        o.stored = o.stored | {fld}
                        o.rel = frozenset(x for x in o.rel if x[1] != fld)
            if self.selfobj is not None and off and c.frees_self:
                so = st.heap[self.selfobj[1]]
                for fld in c.frees_self:
                    k = ("0", fld)
                    if k not in so.cells:
                        so.cells[k] = st.new(Obj(pointee(self.w.fields.get((self.cls, fld))), e.lineno, False, False, "self." + fld))
                    self.release(st, so.cells[k], e.lineno, "self." + fld, "freed", True)
                    if fld in c.resets:
                        so.cells[k] = ("unk",)
            return self.result(st, fn, c, vals, off, e)
        for a in args:
            v = self.ev(a, st)
            o = self.obj(st, v)
            if o is not None and n not in ("print", "str", "len", "range", "min", "max"):
                o.written = True
        for k in e.keywords:
            self.ev(k.value, st)
        if isinstance(f, ast.Attribute):
            self.ev(f.value, st)
        return None

    def result(self, st, fn, c, vals, off, e):
        rt = fn.returns.value if isinstance(fn.returns, ast.Constant) else None
        if rt is None:
            return None
        parts = [x.strip() for x in rt.strip()[1:-1].split(",")] if rt.startswith("(") else [rt]
        out = []
        for i, t in enumerate(parts):
            if not is_ptr(t):
                if t in self.w.structs:
                    s = self.w.structs[t]
                    fs = []
                    for fld, ft in s.items():
                        if is_ptr(ft):
                            o = Obj(pointee(ft), e.lineno, True, False, "")
                            fs.append((fld, st.new(o)))
                        else:
                            fs.append((fld, None))
                    out.append(("s", t, tuple(fs)))
                else:
                    out.append(None)
                continue
            r = c.ret[i] if isinstance(c.ret, list) and i < len(c.ret) else None
            if isinstance(r, tuple) and r[0] == "alias" and r[1] - off < len(vals):
                out.append(vals[r[1] - off])
            elif isinstance(r, tuple) and r[0] == "inner" and r[1] - off < len(vals) and self.obj(st, vals[r[1] - off]) is not None:
                out.append(self.part(st, vals[r[1] - off][1], t, e.lineno, ""))
            else:
                o = Obj(pointee(t), e.lineno, r == "owned", False, "")
                o.maynull = i in c.maynull and self.listlike(o.typ)
                for fld in c.retnull.get(i, ()):
                    o.cells[("0", fld)] = NULLV
                out.append(st.new(o))
        return out[0] if not rt.startswith("(") else out[0] if len(out) == 1 else ("t",) + tuple(out)

    def complete(self, st, v, line, what):
        o = self.obj(st, v)
        s = self.struct(o.typ) or {}
        if not o.fresh or o.written or not o.single:
            return
        missing = [f for f in s if f not in o.fields]
        if missing:
            self.bad("R3", line, "%s is handed on before its field%s %s %s written" % (what, "s" if len(missing) > 1 else "", ", ".join(missing), "were" if len(missing) > 1 else "was"))
        o.written = True

    # ---- statements
    def forget(self, st, name):
        st.facts = {k: v for k, v in st.facts.items() if name not in k[1]}
        for oid, o in st.heap.items():
            for k in [k for k in o.cells if k[0] not in ("0", "?") and name in names_in(k[0])]:
                c = o.cells.pop(k)
                co = self.obj(st, c)
                if co is not None:
                    if co.live == "freed":
                        o.dangling = o.dangling | {k[1]}
                    elif co.live == "live" and co.owned:
                        co.owned = False       # belongs to the array from here on
            o.written = o.written or bool(o.fields) and not o.single

    def assign(self, t, val, st, line):
        if isinstance(t, ast.Name):
            old = st.env.get(t.id)
            self.forget(st, t.id)
            ty = self.types.get(t.id)
            if isinstance(val, tuple) and val and val[0] == "el" and not is_ptr(ty) and val[2] != "?":
                val = self.copy_struct(st, val, line)
            if val is None and is_ptr(ty):
                val = ("unk",)
            st.env[t.id] = val
            if val is None:
                st.env.pop(t.id, None)
            if isinstance(old, tuple) and old and old[0] == "s":
                for _, x in old[2]:
                    if isinstance(x, tuple):
                        self.lost(st, x, line, t.id)
            elif isinstance(old, tuple):
                self.lost(st, old, line, t.id)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = list(val[1:]) if isinstance(val, tuple) and val and val[0] == "t" and len(val) - 1 == len(t.elts) else [None] * len(t.elts)
            # all at once: the old values are compared afterwards
            olds = [st.env.get(x.id) if isinstance(x, ast.Name) else None for x in t.elts]
            for x, v in zip(t.elts, vs):
                if isinstance(x, ast.Name):
                    self.forget(st, x.id)
                    if v is None:
                        st.env.pop(x.id, None)
                    else:
                        st.env[x.id] = v
                else:
                    self.assign(x, v, st, line)
            for x, v in zip(t.elts, olds):
                if isinstance(v, tuple):
                    self.lost(st, v, line, T(x))
            return
        if isinstance(t, ast.Starred):
            return self.assign(t.value, None, st, line)
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            p = self.place(t, st)
            if p is None:
                return
            if p[0] == "sv":
                if isinstance(t.value, ast.Name):
                    st.env[t.value.id] = ("s", p[1][1], tuple((k, val if k == t.attr else v) for k, v in p[1][2]))
                return
            v, key, field, text = p
            o = st.heap[v[1]]
            if v == self.selfobj:
                ft = self.w.fields.get((self.cls, field))
                if is_ptr(ft):
                    old = o.cells.get(("0", field))
                    o.cells[("0", field)] = val
                    co = self.obj(st, val)
                    if co is not None:
                        co.name = "self." + field
                    if old is None and not self.w.creates(self.fn, self.cls):
                        self.bad("R1", line, "%s is overwritten, and what it pointed to is not released" % text)
                    elif isinstance(old, tuple):
                        oo = self.obj(st, old)
                        if oo is not None and oo.live == "live" and old != val:
                            self.bad("R1", line, "%s is overwritten, and what it pointed to is not released" % text)
                return
            self.use(st, v, line, T(t.value))
            s = self.struct(o.typ)
            if field == "" and s is not None:
                fs = dict(val[2]) if isinstance(val, tuple) and val and val[0] == "s" else {}
                for fld, ft in s.items():
                    if is_ptr(ft):
                        if fs.get(fld) is None:
                            o.cells.pop((key, fld), None)
                            o.fields = o.fields | {fld}
                        else:
                            self.write_cell(st, v, key, fld, fs[fld], line, "%s.%s" % (text, fld))
                    else:
                        o.fields = o.fields | {fld}
                o.written = o.written or not o.single
                return
            ft = self.ftype(o.typ, field)
            if is_ptr(ft):
                self.write_cell(st, v, key, field, val if val is not None else ("unk",), line, text)
            else:
                o.fields = o.fields | {field}
                if field == "":
                    o.written = True

    def copy_struct(self, st, el, line):
        o = st.heap[el[1]]
        self.use(st, ("p", el[1]), line, "the structure")
        s = self.struct(o.typ) or {}
        return ("s", o.typ, tuple((f, self.read_cell(st, ("p", el[1]), el[2], f, t, line, f) if is_ptr(t) else None) for f, t in s.items()))

    def test(self, e, st):
        """[(truth, state)]"""
        if isinstance(e, ast.Constant):
            return [(bool(e.value), st)]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not t, s) for t, s in self.test(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out, todo = [], [st]
            for x in e.values:
                nxt = []
                for s in todo:
                    for t, r in self.test(x, s):
                        if t == isand:
                            nxt.append(r)
                        else:
                            out.append((t, r))
                todo = nxt
            return out + [(isand, s) for s in todo]
        ptr = None
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            a, b = e.left, e.comparators[0]
            if isinstance(b, ast.Name) and b.id == "NULL":
                ptr = a
            elif isinstance(a, ast.Name) and a.id == "NULL":
                ptr = b
            eq = isinstance(e.ops[0], (ast.Eq, ast.Is))
        elif isinstance(e, ast.Name) and is_ptr(self.types.get(e.id)):
            ptr, eq = e, False
        if ptr is not None:
            v = self.ev(ptr, st)
            if v == NULLV:
                return [(eq, st)]
            o = self.obj(st, v)
            if o is not None and o.nonnull:
                return [(not eq, st)]
            if o is not None and v[0] == "p":
                a, b = st, st.copy()
                b.heap[v[1]].nonnull = True
                self.nullify(a, v[1])
                return [(eq, a), (not eq, b)]
            return [(True, st), (False, st.copy())]
        z = self.zero_test(e)
        if z is not None:
            k, pos = z
            if k in st.facts:
                return [(st.facts[k] == pos, st)]
            a, b = st, st.copy()
            a.facts[k], b.facts[k] = pos, not pos
            return [(True, a), (False, b)]
        self.ev(e, st)
        q = self.order(e)
        if q is not None:
            k, sub = q
            have = st.facts.get(k, "<=>")
            yes, no = "".join(x for x in have if x in sub), "".join(x for x in have if x not in sub)
            if have != "<=>" and len(no) == 1 and no != "=" and "=" not in have:
                no = ""                  # "==" and then "<" or ">": the two cases there are
            out = []
            for t, r in ((True, yes), (False, no)):
                if r:
                    x = st.copy()
                    x.facts[k] = r
                    out.append((t, x))
            if out:
                return out
        if isinstance(e, ast.Compare) or isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
            ns = frozenset(x.id for x in ast.walk(e) if isinstance(x, ast.Name))
            k = (T(e), ns)
            calls = any(isinstance(x, ast.Call) for x in ast.walk(e))
            if not calls and k in st.facts:
                return [(st.facts[k], st)]
            a, b = st, st.copy()
            if not calls and (self.often(T(e)) or "tree_key" in T(e)):
                a.facts[k], b.facts[k] = True, False
            return [(True, a), (False, b)]
        if isinstance(e, ast.Call):
            a, b = st, st.copy()
            if isinstance(e.func, ast.Name) and e.func.id.startswith("in_"):
                k = (T(e), frozenset(x.id for x in ast.walk(e) if isinstance(x, ast.Name)))
                a.facts[k], b.facts[k] = True, False
            return [(True, a), (False, b)]
        return [(True, st), (False, st.copy())]

    OPS = {ast.Eq: "=", ast.NotEq: "<>", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: "=>"}

    def order(self, e):
        """a comparison of two simple things that are compared more than once"""
        def side(x):
            if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
                x = x.operand
            while isinstance(x, ast.Attribute):
                x = x.value
            return isinstance(x, (ast.Name, ast.Constant))

        def canon(e):
            if not (isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in self.OPS):
                return None
            a, b = e.left, e.comparators[0]
            if not (side(a) and side(b)) or isinstance(a, ast.Constant) and isinstance(b, ast.Constant):
                return None
            sub = self.OPS[type(e.ops[0])]
            if isinstance(a, ast.Constant) or not isinstance(b, ast.Constant) and T(a) > T(b):
                a, b = b, a
                sub = sub.translate(str.maketrans("<>", "><"))
            ns = frozenset(x.id for y in (a, b) for x in ast.walk(y) if isinstance(x, ast.Name))
            return ("%s ? %s" % (T(a), T(b)), ns), sub
        if not hasattr(self, "_cmp"):
            self._cmp = {}
            for x in ast.walk(self.fn):
                r = canon(x)
                if r is not None:
                    self._cmp[r[0]] = self._cmp.get(r[0], 0) + 1
        r = canon(e)
        return r if r is not None and self._cmp.get(r[0], 0) > 1 and "tree_key" not in r[0][0] else None

    def zero_test(self, e):
        """a test that the length of something is zero"""
        if not (isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and isinstance(e.comparators[0], ast.Constant)):
            return None
        n, o, c = e.left.id, e.ops[0], e.comparators[0].value
        if not hasattr(self, "_len"):
            vs = {}
            for x in ast.walk(self.fn):
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        for y in ast.walk(t):
                            if isinstance(y, ast.Name):
                                vs.setdefault(y.id, []).append(x.value)
                elif isinstance(x, (ast.AugAssign, ast.For)):
                    for y in ast.walk(x.target):
                        if isinstance(y, ast.Name):
                            vs.setdefault(y.id, []).append(None)
            self._len = {k for k, v in vs.items() if all(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "len" for y in v)} \
                | {a.arg for a in self.fn.args.args if a.arg not in vs and self.types.get(a.arg) == "int"}
        if n not in self._len:
            return None
        k = ("%s == 0" % n, frozenset([n]))
        if c == 0 and isinstance(o, ast.Eq) or c == 1 and isinstance(o, ast.Lt) or c == 0 and isinstance(o, ast.LtE):
            return k, True
        if c == 0 and isinstance(o, (ast.Gt, ast.NotEq)) or c == 1 and isinstance(o, ast.GtE):
            return k, False
        return None

    def often(self, t):
        if not hasattr(self, "_often"):
            c = {}
            for n in ast.walk(self.fn):
                if isinstance(n, (ast.Compare, ast.Name)):
                    if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                        continue
                    k = T(n)
                    c[k] = c.get(k, 0) + 1
            self._often = c
        return self._often.get(t, 0) > 1

    def tested(self, name):
        """a loop goes on until this is NULL"""
        if not hasattr(self, "_tested"):
            self._tested = {x.id for w in ast.walk(self.fn) if isinstance(w, ast.While) for c in ast.walk(w.test) if isinstance(c, ast.Compare)
                            for x in (c.left, *c.comparators) if isinstance(x, ast.Name) and x.id != "NULL" and any(isinstance(y, ast.Name) and y.id == "NULL" for y in (c.left, *c.comparators))}
        return name in self._tested

    def nullify(self, st, oid):
        def r(v):
            if isinstance(v, tuple) and v:
                if v[0] == "p" and v[1] == oid:
                    return NULLV
                if v[0] == "t":
                    return ("t",) + tuple(r(x) for x in v[1:])
                if v[0] == "s":
                    return ("s", v[1], tuple((k, r(x)) for k, x in v[2]))
            return v
        st.env = {k: r(v) for k, v in st.env.items()}
        for o in st.heap.values():
            for k, v in o.cells.items():
                if isinstance(v, tuple) and v[:2] == ("p", oid):
                    o.rel = o.rel | {k}
            o.cells = {k: r(v) for k, v in o.cells.items()}
        st.heap[oid].owned = False

    def merge(self, states):
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > MAXSTATES:
            raise Stop()
        return out

    def block(self, body, states):
        """(falling through, breaking, continuing)"""
        brk, cnt = [], []
        for s in body:
            nxt = []
            for st in states:
                f, b, c = self.stmt(s, st)
                nxt += f
                brk += b
                cnt += c
            states = self.merge(nxt)
            if not states:
                break
        return states, brk, cnt

    def stmt(self, s, st):
        if isinstance(s, ast.Expr):
            v = self.ev(s.value, st)
            o = self.obj(st, v)
            if o is not None and o.owned and isinstance(s.value, ast.Call) and v[0] == "p":
                self.lost(st, v, s.lineno, "the result")
            return [st], [], []
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return [st], [], []
            if isinstance(s, ast.AnnAssign) and isinstance(s.annotation, ast.Constant) and isinstance(s.annotation.value, str) and s.annotation.value.startswith("typedef"):
                return [st], [], []
            v = self.ev(s.value, st)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.assign(t, v, st, s.lineno)
            return [st], [], []
        if isinstance(s, ast.AugAssign):
            self.ev(s.value, st)
            if isinstance(s.target, ast.Name):
                self.forget(st, s.target.id)
            else:
                self.ev(s.target, st)
            return [st], [], []
        if isinstance(s, ast.If):
            f, b, c = [], [], []
            for t, r in self.test(s.test, st):
                x, y, z = self.block(s.body if t else s.orelse, [r])
                f, b, c = f + x, b + y, c + z
            return self.merge(f), b, c
        if isinstance(s, ast.Assert):
            f = []
            for t, r in self.test(s.test, st):
                if t:
                    f.append(r)
                else:
                    self.leave(r, None, s.lineno, "assertion")
            return f, [], []
        if isinstance(s, ast.Raise):
            self.leave(st, None, s.lineno, "raise")
            return [], [], []
        if isinstance(s, ast.Return):
            v = self.ev(s.value, st) if s.value is not None else None
            self.leave(st, v, s.lineno, "return")
            return [], [], []
        if isinstance(s, ast.Break):
            return [], [st], []
        if isinstance(s, ast.Continue):
            return [], [], [st]
        if isinstance(s, (ast.While, ast.For)):
            return self.loop(s, st)
        if isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr, st)
            return self.block(s.body, [st])
        if isinstance(s, ast.Try):
            start = st.copy()
            if s.finalbody:
                self.finals.append(s.finalbody)
            f, b, c = self.block(s.body, [st])
            for h in s.handlers:
                x, y, z = self.block(h.body, [start.copy()])
                f, b, c = f + x, b + y, c + z
            if s.orelse:
                f, y, z = self.block(s.orelse, f)
                b, c = b + y, c + z
            if s.finalbody:
                self.finals.pop()
                f, y, z = self.block(s.finalbody, f)
                b, c = self.block(s.finalbody, b)[0] + y, self.block(s.finalbody, c)[0] + z
            return self.merge(f), b, c
        if isinstance(s, ast.Delete):
            return [st], [], []
        return [st], [], []

    def loop(self, s, st):
        counting = isinstance(s, ast.For) or isinstance(s.test, ast.Compare) and isinstance(s.test.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) or isinstance(s.test, ast.Compare) and isinstance(s.test.ops[0], ast.NotEq) and not is_null(s.test)
        # sizes of blocks and numbers of iterations agree; that there are no iterations is looked at only where nothing is done with memory
        touches = any(isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and ("free" in n.func.id or "push" in n.func.id) for b in s.body for n in ast.walk(b)) \
            and (isinstance(s, ast.While) or isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range")
        out, brk_all, seen = [], [], set()
        if isinstance(s, ast.For):
            self.ev(s.iter, st)
        heads = [st]
        for rnd in range(4):
            nxt = []
            for h in heads:
                k = h.key()
                old = k in seen
                seen.add(k)
                if isinstance(s, ast.While):
                    for t, r in self.test(s.test, h.copy()):
                        if t:
                            if not old:
                                nxt.append(r)
                        elif rnd > 0 or not (counting and touches):
                            out.append(r)
                else:
                    if rnd > 0 or not touches:
                        out.append(h.copy())
                    if old:
                        continue
                    r = h.copy()
                    for x in ast.walk(s.target):
                        if isinstance(x, ast.Name):
                            self.forget(r, x.id)
                            r.env.pop(x.id, None)
                    nxt.append(r)
            if not nxt:
                break
            f, b, c = self.block(s.body, self.merge(nxt))
            brk_all += b
            heads = self.merge(f + c)
            if len(seen) > MAXSTATES * 3:
                raise Stop()
        else:
            # what is left after some rounds
            for h in heads:
                if isinstance(s, ast.While):
                    out += [r for t, r in self.test(s.test, h.copy()) if not t]
                else:
                    out.append(h)
        if s.orelse:
            out, y, z = self.block(s.orelse, out)
        return self.merge(out + brk_all), [], []

    # ---- the ends
    def leave(self, st, v, line, how):
        if self.finals:
            body = self.finals.pop()
            for r in self.block(body, [st])[0]:
                self.leave(r, v, line, how)
            self.finals.append(body)
            return
        self.exits.append((st, v, line, how))
        roots = [v]
        if self.selfobj is not None:
            roots.append(self.selfobj)
        roots += [x for n, x in self.params.items()]
        ok = self.reach(st, roots)
        own = self.reach(st, [v] + ([self.selfobj] if self.selfobj else []))
        o = self.obj(st, v)
        for x in ([v] if not (isinstance(v, tuple) and v and v[0] == "t") else list(v[1:])):
            ox = self.obj(st, x)
            if ox is not None and ox.live == "freed":
                self.bad("R2", line, "what is returned was released")
            if ox is not None and ox.fresh and self.linked(ox.typ):
                self.complete(st, x, line, "what is returned")
        eq = any(t is True and "tree_key" in k[0] and "==" in k[0] for k, t in st.facts.items())
        for oid, ob in st.heap.items():
            if ob.live != "live" or not ob.owned:
                continue
            taken = next((n for n, x in self.params.items() if isinstance(x, tuple) and x[:2] == ("p", oid)), None)
            if taken is not None:
                if oid in own or how in ("assertion", "raise"):
                    continue
                if eq:
                    self.unique = True
                    continue
                self.bad("R1", line, "%s, which this function takes over, is neither released nor handed back on a way that ends here" % taken)
            elif oid not in ok:
                if eq:
                    self.unique = True
                    continue
                if ob.maynull and not ob.nonnull and not any(v == ("p", oid) and self.tested(n) for n, v in st.env.items()):
                    continue
                if ob.part is not None and ob.part in st.heap and st.heap[ob.part].live == "live" and oid in self.reach(st, [("p", ob.part)]):
                    continue
                self.bad("R1", line, "what was allocated in line %d%s is not released on a way that ends here (%s)" % (ob.line, " (%s)" % ob.typ if ob.typ else "", how))
            else:
                # in a structure of the caller: fine
                pass
        if self.selfobj is not None:
            so = st.heap[self.selfobj[1]]
            for (k, fld), x in so.cells.items():
                xo = self.obj(st, x)
                if xo is None:
                    continue
                if xo.live != "live" and not self.w.releases(self.fn, self.cls):
                    self.bad("R2", line, "self.%s stays in use after it was released" % fld)
                if xo.live == "live" and not self.w.releases(self.fn, self.cls):
                    if xo.fresh and not xo.written and not xo.fields and self.struct(xo.typ):
                        self.bad("R3", line, "the elements of self.%s are not initialised on a way that ends here; they are released with the object" % fld)
                    for k2, y in xo.cells.items():
                        yo = self.obj(st, y)
                        if yo is not None and yo.live == "freed":
                            self.bad("R2", line, "self.%s keeps a pointer (%s) to something released" % (fld, k2[1]))
                    if xo.dangling:
                        self.bad("R2", line, "self.%s keeps pointers (%s) to something released" % (fld, ", ".join(sorted(xo.dangling))))

    def run(self, contract=None):
        st = St()
        self.params = {}
        c = contract or Contract()
        if self.cls is not None and self.fn.args.args and self.fn.args.args[0].arg == "self":
            o = Obj(None, self.fn.lineno, False, False, "self")
            self.selfobj = st.new(o)
            st.roots.append(self.selfobj)
        for i, a in enumerate(self.fn.args.args):
            t = self.types.get(a.arg)
            if is_ptr(t):
                o = Obj(pointee(t), self.fn.lineno, c.params.get(i) == "take", False, a.arg)
                st.env[a.arg] = st.new(o)
                self.params[a.arg] = st.env[a.arg]
                st.roots.append(st.env[a.arg])
        for n, t in self.types.items():
            if n not in st.env and is_ptr(t) and n not in [a.arg for a in self.fn.args.args]:
                pass
        f, _, _ = self.block(self.fn.body, [st])
        for s in f:
            self.leave(s, None, self.fn.body[-1].lineno, "end")
        return self

    def infer(self, old):
        c = Contract()
        ps = [a.arg for a in self.fn.args.args]
        rt = self.fn.returns.value if isinstance(self.fn.returns, ast.Constant) else ""
        n = len(rt.strip()[1:-1].split(",")) if rt.startswith("(") else 1
        ret = [None] * n
        cons, alias = set(), {}
        nulls, inner = {}, set()
        for st, v, line, how in self.exits:
            vs = list(v[1:]) if isinstance(v, tuple) and v and v[0] == "t" else [v]
            for k, x in enumerate(vs[:n]):
                xo = self.obj(st, x)
                if xo is None:
                    if x == NULLV:
                        c.maynull.add(k)
                    continue
                if (xo.maynull or xo.link or xo.part is not None or xo.name.endswith("?")) and not xo.nonnull:
                    c.maynull.add(k)
                if xo.owned and x[0] == "p":
                    ret[k] = "owned"
                    nf = {fld for (kk, fld), y in xo.cells.items() if kk == "0" and y == NULLV} if xo.fresh or xo.cells else set()
                    nulls[k] = nf if k not in nulls else nulls[k] & nf
            for p, x in self.params.items():
                o = st.heap[x[1]]
                i = ps.index(p)
                if o.live != "live":
                    cons.add(i)
                for k, y in enumerate(vs[:n]):
                    if not isinstance(y, tuple):
                        continue
                    r = self.reach(st, [y])
                    if x[1] in r:
                        if y[:2] != x[:2] or o.mod:
                            cons.add(i)
                        else:
                            alias.setdefault(i, set()).add(k)
                    elif isinstance(y, tuple) and y[0] == "p" and st.heap[y[1]].part is not None and self.origin(st, y[1]) == x[1]:
                        alias.setdefault(i, set()).add(k)
                        inner.add((i, k))
                for oid in self.reach(st, [x]):
                    z = st.heap[oid]
                    if oid == x[1] and (z.written and z.mod or z.fields):
                        c.writes.add(i)
                if o.written and not self.linked(o.typ):
                    pass
                for fld in o.stored:
                    if not any(k[1] == fld for k in o.rel):
                        c.fills.add((i, fld))
            if self.selfobj is not None:
                so = st.heap[self.selfobj[1]]
                for (k, fld), x in so.cells.items():
                    xo = self.obj(st, x)
                    if xo is not None and xo.live != "live":
                        c.frees_self.add(fld)
                for xo in st.heap.values():
                    fld = xo.name[5:] if xo.name.startswith("self.") else ""
                    if (self.cls, fld) in self.w.fields and xo.live != "live":
                        c.frees_self.add(fld)
                        if not any(k[1] == fld and st.heap[x[1]] is xo for k, x in so.cells.items() if isinstance(x, tuple) and x[0] == "p"):
                            c.resets.add(fld)
        # stored into something that lives on
        for st, v, line, how in self.exits:
            for p, x in self.params.items():
                for q, y in self.params.items():
                    if q != p and x[1] in self.reach(st, [y]):
                        cons.add(ps.index(p))
        rels = set()
        for st, v, line, how in self.exits:
            for p, x in self.params.items():
                for k in st.heap[x[1]].rel:
                    rels.add((ps.index(p), k[1]))
        c.fills = {f for f in c.fills if f not in rels}
        c.elems = rels
        for i in cons:
            c.params[i] = "take"
            for k in alias.get(i, ()):
                ret[k] = "owned"
        for i, ks in alias.items():
            if i not in cons:
                for k in ks:
                    if ret[k] is None or (i, k) in inner:
                        ret[k] = ("inner" if (i, k) in inner else "alias", i)
        # a structure that is taken over and given back
        if cons:
            parts = [x.strip() for x in rt.strip()[1:-1].split(",")] if rt.startswith("(") else [rt]
            for k, t in enumerate(parts):
                if is_ptr(t) and ret[k] is None or is_ptr(t) and isinstance(ret[k], tuple) and ret[k][1] in cons:
                    if any(isinstance(y, tuple) and y and y[0] == "p" for st, v, _, _ in self.exits for y in [v[1 + k] if isinstance(v, tuple) and v and v[0] == "t" and len(v) > 1 + k else v]):
                        ret[k] = "owned"
        c.ret = ret
        c.retnull = nulls
        c.unique = self.unique
        c.requires = set(self.requires)
        for i, p in enumerate(ps):
            if is_ptr(self.types.get(p)) and self.writes_through(p):
                c.writes.add(i)
        return c

    def origin(self, st, oid):
        while oid in st.heap and st.heap[oid].part is not None:
            oid = st.heap[oid].part
        return oid

    def writes_through(self, p):
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == p:
                return True
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name) and n.value.value.id == p:
                return True
            if isinstance(n, ast.Call):
                g = self.w.lookup(self.m, self.cls, n.func)
                off = 1 if g is not None and g[0].args.args and g[0].args.args[0].arg == "self" else 0
                for i, a in enumerate(n.args):
                    if isinstance(a, ast.Name) and a.id == p:
                        if g is None:
                            if not (isinstance(n.func, ast.Name) and n.func.id in ("free", "print", "len")):
                                return True
                        elif g[0] is not self.fn and i + off in self.contracts.get(id(g[0]), Contract()).writes:
                            return True
        return False


def is_null(e):
    return isinstance(e, ast.Compare) and any(isinstance(x, ast.Name) and x.id == "NULL" for x in [e.left] + e.comparators)


_names = {}


def names_in(t):
    if t not in _names:
        try:
            _names[t] = {x.id for x in ast.walk(ast.parse(t, mode="eval")) if isinstance(x, ast.Name)}
        except SyntaxError:
            _names[t] = set()
    return _names[t]


class World:
    def __init__(self, repo):
        self.repo = repo
        self.structs, self.fields, self.funcs = {}, {}, []
        self.by = {}
        import os, re
        for m in repo.modules.values():
            if not m.is_pyx:
                continue
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef):
                    fs = {s.target.id: s.annotation.value for s in n.body if isinstance(s, ast.AnnAssign) and isinstance(s.annotation, ast.Constant)}
                    if getattr(n, "cstruct", False):
                        self.structs[n.name] = fs
                    else:
                        for k, t in fs.items():
                            self.fields[(n.name, k)] = t
                        for f in n.body:
                            if isinstance(f, ast.FunctionDef):
                                self.funcs.append((f, m, n.name))
                                self.by[(n.name, f.name)] = (f, m, n.name)
                elif isinstance(n, ast.FunctionDef):
                    self.funcs.append((n, m, None))
                    self.by[(None, n.name)] = (n, m, None)
            pxd = os.path.join(repo.root, m.path[:-4] + ".pxd")
            if os.path.exists(pxd):
                for b in re.finditer(r"cdef\s+struct\s+(\w+)\s*:\s*\n((?:[ \t]+.*\n?)+)", open(pxd, encoding="utf-8").read()):
                    fs = {}
                    for l in b.group(2).splitlines():
                        x = re.match(r"\s+([\w ]+?)\s*(\**)\s*(\w+(?:\s*,\s*\w+)*)\s*$", l)
                        if x:
                            for k in x.group(3).split(","):
                                fs[k.strip()] = x.group(1).strip() + x.group(2)
                    self.structs.setdefault(b.group(1), fs)
        self._rel = {}

    def lookup(self, m, cls, f):
        if isinstance(f, ast.Name):
            return self.by.get((None, f.id))
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self":
            return self.by.get((cls, f.attr)) or self.by.get((cls, "_%s%s" % (cls, f.attr)))
        return None

    def callers(self, fn, cls):
        return [g for (c, n), (g, m, _) in self.by.items() if c == cls and g is not fn and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" and x.func.attr == fn.name for x in ast.walk(g))]

    def creates(self, fn, cls, seen=()):
        """part of creating the object: __cinit__ and what only it calls, once"""
        if fn.name == "__cinit__":
            return True
        if cls is None or not getattr(fn, "cdef", False) or fn in seen:
            return False
        c = self.callers(fn, cls)
        return len(c) == 1 and self.creates(c[0], cls, (*seen, fn)) and not any(
            isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == fn.name for b in ast.walk(c[0]) if isinstance(b, (ast.For, ast.While)) for x in ast.walk(b))

    def releases(self, fn, cls):
        """part of releasing the object: __dealloc__ and what only it calls"""
        if cls is None:
            return False
        if fn.name == "__dealloc__":
            return True
        callers = self.callers(fn, cls)
        if not callers and getattr(fn, "cdef", False):
            return True
        return bool(callers) and all(g.name == "__dealloc__" or g is not fn and self.releases(g, cls) for g in callers)


def run(ctx):
    from ..front import Repo
    ctx.rule("C15.R1", "what a function owns is released, returned or kept in something that lives on, on every way out")
    ctx.rule("C15.R2", "nothing is released twice or used after it was released or given away")
    ctx.rule("C15.R3", "nothing is read or handed on before it was written")
    ctx.rule("C15.R4", "what an object allocates is released when the object goes")
    repo = Repo(ctx.repo.root, with_pyx=True)
    w = World(repo)
    if not w.funcs:
        from ..front import AnchorMissing
        raise AnchorMissing("compiled modules")
    contracts = {}
    failed = {}
    for rnd in range(5):
        before = {k: c.sig() for k, c in contracts.items()}
        for fn, m, cls in w.funcs:
            ex = Exec(w, fn, m, cls, contracts, None)
            try:
                ex.run(contracts.get(id(fn)) and given(contracts[id(fn)]))
                contracts[id(fn)] = ex.infer(contracts.get(id(fn)))
                failed.pop(id(fn), None)
            except (Stop, RecursionError):
                failed[id(fn)] = "too many states"
        if before == {k: c.sig() for k, c in contracts.items()}:
            break
    for fn, m, cls in w.funcs:
        con = "%s.%s" % (m.name, (cls + "." if cls else "") + fn.name)
        native = any(is_ptr(a.annotation.value) for a in fn.args.args if isinstance(a.annotation, ast.Constant) and isinstance(a.annotation.value, str)) \
            or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("malloc", "free", "calloc", "realloc") for n in ast.walk(fn)) \
            or any(isinstance(n, ast.AnnAssign) and isinstance(n.annotation, ast.Constant) and is_ptr(n.annotation.value) for n in ast.walk(fn)) \
            or any(isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and is_ptr(w.fields.get((cls, n.attr))) for n in ast.walk(fn))
        if not native or "test" in fn.name:
            continue
        ctx.functions.add(con)
        if id(fn) in failed:
            ctx.undecided("C15.R1", con, failed[id(fn)])
            continue
        found = {}

        def rep(rule, f, mm, line, what):
            found.setdefault((rule, line, what), None)
        ex = Exec(w, fn, m, cls, contracts, rep)
        try:
            ex.run(contracts.get(id(fn)))
        except (Stop, RecursionError):
            ctx.undecided("C15.R1", con, "too many states")
            continue
        ctx.count("ways out of functions", len(ex.exits))
        ctx.count("allocations", sum(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "malloc" for n in ast.walk(fn)))
        overlap(fn, w, rep)
        for rule in ("R1", "R2", "R3"):
            bad = [(l, t) for (r, l, t) in found if r == rule]
            if not bad:
                ctx.ok("C15." + rule, con)
            for l, t in bad:
                ctx.violation("C15." + rule, con, t, m.path, l)
    # R4
    for m in repo.modules.values():
        if not m.is_pyx:
            continue
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef) and not getattr(n, "cstruct", False):
                fs = [k for (c, k), t in w.fields.items() if c == n.name and is_ptr(t)]
                if not fs:
                    continue
                d = w.by.get((n.name, "__dealloc__"))
                for k in fs:
                    allocs = any(isinstance(s, ast.Assign) and any(T(t) == "self." + k for t in s.targets) for s in ast.walk(n))
                    if not allocs:
                        continue
                    con = "%s.%s.%s" % (m.name, n.name, k)
                    if d is None:
                        ctx.violation("C15.R4", con, "the class has no __dealloc__, what self.%s points to is never released" % k, m.path, n.lineno)
                    else:
                        c = contracts.get(id(d[0]))
                        ctx.decide("C15.R4", con, k in c.frees_self if c else None, "__dealloc__ does not release self.%s" % k, m.path, d[0].lineno)


def overlap(fn, w, rep):
    """two calls that fill an array from the same position on"""
    rt = fn.returns.value if isinstance(fn.returns, ast.Constant) else None
    if rt not in ("int", "long") or not any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Name) for n in ast.walk(fn)):
        return
    idx = {n.slice.id for n in ast.walk(fn) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Name)} & {a.arg for a in fn.args.args}
    for b in [n for n in ast.walk(fn) if hasattr(n, "body") and isinstance(n.body, list)]:
        open_ = {}
        for s in b.body:
            for c in ast.walk(s):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == fn.name:
                    for a in c.args:
                        if isinstance(a, ast.Name) and a.id in idx:
                            if a.id in open_:
                                rep("C15.R3"[4:], fn, None, c.lineno, "two calls of %s write from the same position %s on; other elements stay unwritten" % (fn.name, a.id))
                            open_[a.id] = True
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    open_.pop(n.id, None)


def given(c):
    n = Contract()
    n.params = dict(c.params)
    return n
