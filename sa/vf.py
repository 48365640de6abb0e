"""Value-flow interpreter: an abstract interpretation of the repository's Python sources.

Every function is evaluated once per calling context over *terms* (terms.py) instead of values.
Branches are merged (no path enumeration); a loop body is analysed for one generic iteration, whose
effects on containers are recorded as entries quantified over the loop's domain; loop-carried
variables are replaced by counters/sums where they are recognised and by an unknown otherwise.
What cannot be interpreted becomes an unknown term; rules never report on unknown terms.
"""
import ast
import itertools
from . import terms as tm
from .vfexpr import ExprMixin
from .terms import (T, mk, C, B, TRUE, FALSE, NONE, ZERO, ONE, sym, unk, add, sub, mul, neg, div, le, lt, eq, band, bor, bnot,
                    ite, get, inv, item, tup, truth, subst, is_c, is_num, atoms, concat)


class Entry:
    __slots__ = ("op", "key", "val", "guard", "binders", "where")

    def __init__(self, op, key, val, guard, binders, where):
        self.op, self.key, self.val, self.guard, self.binders, self.where = op, key, val, guard, binders, where

    def __repr__(self):
        b = "".join("∀%s∈%s " % (a, x.dom) for x in self.binders for a in x.atoms)
        g = " if " + " & ".join(map(repr, self.guard)) if self.guard else ""
        return "%s%s %s := %s%s" % (b, self.op, self.key, self.val, g)


class Binder:
    __slots__ = ("lid", "atoms", "dom", "has_break")

    def __init__(self, lid, ats, dom, has_break=False):
        self.lid, self.atoms, self.dom, self.has_break = lid, ats, dom, has_break

    def __repr__(self):
        return "%s∈%s" % (",".join(map(repr, self.atoms)), self.dom)


class Obj:
    __slots__ = ("kind", "base", "log", "attrs", "cls", "binders", "path0", "extra", "where")

    def __init__(self, kind, base=None, log=(), attrs=None, cls=None, extra=None, where=None):
        self.kind, self.base, self.log, self.attrs, self.cls, self.extra, self.where = kind, base, log, attrs or {}, cls, extra, where
        self.binders, self.path0 = (), ()      # in effect when the object was created

    def copy(self):
        o = Obj(self.kind, self.base, self.log, dict(self.attrs), self.cls, self.extra, self.where)
        o.binders, o.path0 = self.binders, self.path0
        return o


class Event:
    __slots__ = ("kind", "name", "args", "kw", "path", "binders", "node", "file", "func", "result", "extra", "heap", "stack")

    def __init__(self, kind, name, args, kw, path, binders, node, file, func, result=None, extra=None, heap=None, stack=()):
        self.kind, self.name, self.args, self.kw, self.path, self.binders = kind, name, args, kw, path, binders
        self.node, self.file, self.func, self.result, self.extra, self.heap, self.stack = node, file, func, result, extra, heap, stack

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    def __repr__(self):
        return "<%s %s(%s %s) @%s:%s if %s>" % (self.kind, self.name, ", ".join(map(repr, self.args)), self.kw, self.file, self.line, list(self.path))


class State:
    __slots__ = ("env", "heap", "path", "binders", "dead")

    def __init__(self, env, heap, path, binders, dead=False):
        self.env, self.heap, self.path, self.binders, self.dead = env, heap, path, binders, dead

    def fork(self):
        return State(dict(self.env), dict(self.heap), self.path, self.binders, self.dead)


class Frame:
    def __init__(self, func, module, cls, depth):
        self.func, self.module, self.cls, self.depth = func, module, cls, depth
        self.returns = []       # (State, value)
        self.loops = []         # per open loop: dict(breaks=[], continues=[])
        self.yields = None
        self.globals_decl = set()
        self.exits_in_loop = []


class Unsupported(Exception):
    pass


class Limit(Exception):
    pass


COPYLIKE = {"copy", "tocsr", "tocsc", "todok", "tolil", "tocoo", "toarray", "todense", "ravel", "flatten", "astype", "tolist"}


class Interp(ExprMixin):
    def __init__(self, repo, intercept=None, opaque=None, max_depth=14):
        self.repo = repo
        self.events = []
        self.mute = 0
        self.ids = itertools.count(1)
        self.lids = itertools.count(1)
        self.intercept = intercept or {}
        self.opaque = opaque or set()     # qualified names never inlined
        self.max_depth = max_depth
        self.stack = []
        self.analysed = set()
        self.unknowns = {}
        self.stored_names = {}
        self.nums, self.numrefs = {}, {}
        self.ranks = {}
        self.keep_d = False     # %d stays visible as a conversion
        self.global_cache = {}
        self.dry_ids = None
        self.steps = 0
        self.max_steps = 400000

    # ------------------------------------------------------------------ utilities
    def new_state(self):
        return State({}, {}, (), ())

    def unknown(self, tag, node=None):
        self.unknowns[tag] = self.unknowns.get(tag, 0) + 1
        return mk("unk", "%s@%s" % (tag, next(self.ids)))

    def event(self, kind, name, args, kw, st, node, result=None, extra=None):
        if self.mute:
            return None
        fr = self.frames[-1] if getattr(self, "frames", None) else None
        e = Event(kind, name, tuple(args), dict(kw), st.path, st.binders, node, fr.module.path if fr else "?", fr.func if fr else "?",
                  result, extra, dict(st.heap), tuple(f.func for f in self.frames) if fr else ())
        self.events.append(e)
        return e

    def alloc(self, st, kind, node=None, **kw):
        rid = next(self.ids)
        fr = self.frames[-1]
        o = Obj(kind, where=(fr.module.path, getattr(node, "lineno", 0)), **kw)
        o.binders, o.path0 = st.binders, st.path
        st.heap[rid] = o
        return mk("ref", rid)

    def obj(self, st, ref):
        return st.heap.get(ref.a[0]) if ref.op == "ref" else None

    def log(self, st, ref, op, key, val, node):
        o = st.heap[ref.a[0]].copy()
        fr = self.frames[-1]
        if op == "set" and o.kind == "arr" and val.op == "poly":
            # a[k] = a[k] + v  accumulates
            own = [x for x in tm.subterms(val) if x.op == "cur" and x.a[0] is ref]
            if len(own) == 1 and own[0].a[2] is key:
                rest = sub(val, own[0])
                if own[0] not in set(tm.subterms(rest)):
                    op, val = "incr", rest
        e = Entry(op, key, val, st.path, st.binders, (fr.module.path, getattr(node, "lineno", 0)))
        o.log = o.log + (e,)
        st.heap[ref.a[0]] = o
        if o.extra.__class__ is tuple and len(o.extra) == 2 and o.extra[0] == "copyof":
            self.log(st, o.extra[1], "prev", C(-1), NONE, node)

    # ------------------------------------------------------------------ function calls
    frames = []

    def call_func(self, st, fn, args, kw, node, self_cls=None):
        """fn: FuncInfo ; args: list of terms ; kw: dict"""
        if fn.qual in self.intercept:
            r = self.intercept[fn.qual](self, st, args, kw, node, fn)
            if r is not NotImplemented:
                return r
        if fn.qual in self.opaque:
            r = mk("call", fn.qual, *([self.freeze(st, a) for a in args] + [tup(C(k), self.freeze(st, v)) for k, v in sorted(kw.items())]))
            self.event("call", fn.qual, args, kw, st, node, r, extra=fn)
            return r
        if self.stack.count(fn.qual) >= 1 and (self.stack.count(fn.qual) >= 3 or fn.name != "__init__"):
            r = mk("rec", fn.qual, *([self.freeze(st, a) for a in args] + [tup(C(k), self.freeze(st, v)) for k, v in sorted(kw.items())]))
            self.event("call", fn.qual, args, kw, st, node, r, extra=fn)
            return r
        if len(self.stack) > self.max_depth:
            return self.unknown("depth")
        env = self.bind(st, fn, args, kw, node)
        if env is None:
            return self.unknown("arity")
        self.event("enter", fn.qual, args, kw, st, node, extra=(fn, dict(env)))
        self.analysed.add(fn.qual)
        self.stack.append(fn.qual)
        fr = Frame(fn.qual, fn.module, fn.cls, len(self.stack))
        fr.fn = fn
        self.frames = self.frames + [fr]
        try:
            cst = State(dict(fn.closure or {}), st.heap, st.path, st.binders)
            cst.env.update(env)
            cst.heap = dict(st.heap)
            isgen = fn.is_generator
            if isgen:
                fr.yields = self.alloc(cst, "gen", node)
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body, cst)
                fr.returns.append((cst, v))
            else:
                end = self.exec_block(fn.node.body, cst)
                if end is not None and not end.dead:
                    fr.returns.append((end, NONE))
            if isgen:
                rets = [(s, fr.yields) for s, _ in fr.returns]
            else:
                rets = fr.returns
            return self.join_returns(st, rets)
        finally:
            self.frames = self.frames[:-1]
            self.stack.pop()

    def join_returns(self, st, rets):
        if not rets:
            st.dead = True
            return unk("noreturn")
        base = len(st.path)
        nb = len(st.binders)
        # returns from inside a loop carry additional binders: existential condition
        conds = []
        for s, v in rets:
            delta = [l for l in s.path if l not in st.path]
            extra = s.binders[nb:]
            c = band(*delta) if delta else TRUE
            if extra:
                c = self.exists(extra, c)
                ats = {a for b in extra for a in b.atoms}
                if atoms(v) & ats:
                    v = self.unknown("value of a loop iteration")
            conds.append((c, v, s))
        heap = self.merge_heaps([(c, s.heap) for c, v, s in conds], st.heap)
        st.heap = heap
        res = conds[-1][1]
        for c, v, s in reversed(conds[:-1]):
            res = self.vite(st, c, v, res)
        if len(conds) == 1 and conds[0][2].binders == st.binders:
            # facts established by the callee (assertions) stay known
            st.path = conds[0][2].path
        return res

    def vite(self, st, c, a, b):
        if a is b:
            return a
        return ite(c, a, b)

    def merge_heaps(self, lst, base):
        """join of heaps: object logs get all branches' suffixes (they carry their guards)"""
        if len(lst) == 1:
            return lst[0][1]
        out = {}
        keys = set()
        for _, h in lst:
            keys.update(h)
        for k in keys:
            objs = [(c, h[k]) for c, h in lst if k in h]
            o0 = objs[0][1]
            if all(o is o0 for _, o in objs):
                out[k] = o0
                continue
            bo = base.get(k)
            n = o0.copy()
            pre = len(bo.log) if bo is not None else 0
            if bo is None:
                # common prefix
                pre = 0
                logs = [o.log for _, o in objs]
                while all(len(l) > pre for l in logs) and all(l[pre] is logs[0][pre] for l in logs):
                    pre += 1
            logv = list(o0.log[:pre])
            seen = set(map(id, logv))
            for _, o in objs:
                for e in o.log[pre:]:
                    if id(e) not in seen:
                        seen.add(id(e))
                        logv.append(e)
            n.log = tuple(logv)
            names = []
            for _, o in objs:
                for a in o.attrs:
                    if a not in names:
                        names.append(a)
            for a in names:
                vals = [(c, o.attrs.get(a)) for c, o in objs]
                if any(v is None for _, v in vals):
                    vals = [(c, v) for c, v in vals if v is not None]
                r = vals[-1][1]
                for c, v in reversed(vals[:-1]):
                    r = ite(c, v, r)
                n.attrs[a] = r
            out[k] = n
        return out

    def bind(self, st, fn, args, kw, node):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        for nme, v in zip(names, args):
            env[nme] = v
        if len(args) > len(names):
            if a.vararg:
                env[a.vararg.arg] = mk("tuple", *args[len(names):])
            else:
                return None
        elif a.vararg:
            env[a.vararg.arg] = mk("tuple")
        starkw = kw.pop("**", None)
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = kw.pop(k)
        if a.kwarg:
            d = self.alloc(st, "dict", node)
            for k, v in kw.items():
                self.log(st, d, "set", C(k), v, node)
            if starkw is not None:
                self.log(st, d, "update", starkw, NONE, node)
            env[a.kwarg.arg] = d
        elif kw:
            return None
        pos = names
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for nme in names + [x.arg for x in a.kwonlyargs]:
            if nme not in env:
                if starkw is not None:
                    env[nme] = mk("kwget", starkw, nme)
                elif nme in defaults:
                    env[nme] = self.default_value(st, fn, nme, defaults[nme])
                else:
                    return None
        return env

    def default_value(self, st, fn, name, dnode):
        if isinstance(dnode, (ast.Dict, ast.List, ast.Set)) or (isinstance(dnode, ast.Call)):
            # one mutable object per function: shared
            keyr = ("default", fn.qual, name)
            s = mk("sym", "default:%s.%s" % (fn.qual, name), "default")
            if isinstance(dnode, ast.Dict) and not dnode.keys or isinstance(dnode, ast.List) and not dnode.elts or \
                    isinstance(dnode, ast.Call) and not dnode.args:
                return mk("empty", s)
            return s
        saved = self.frames
        try:
            self.push_module(fn.module)
            return self.eval(dnode, State({}, {}, (), ()))
        except Exception:
            return self.unknown("default")
        finally:
            self.frames = saved

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st is None or st.dead:
                return None
            self.steps += 1
            if self.steps > self.max_steps:
                raise Limit()
            st = self.exec_stmt(s, st)
        return st if st is not None and not st.dead else None

    def exec_stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown("stmt " + type(s).__name__)
            return st
        return m(s, st)

    def s_Pass(self, s, st):
        return st

    s_Import = s_ImportFrom = s_Nonlocal = s_Pass

    def s_Global(self, s, st):
        self.frames[-1].globals_decl.update(s.names)
        return st

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.eval(s.value, st)
        return None if st.dead else st

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        if st.dead:
            return None
        if v.op == "repeat" and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp):
            v = self.alloc(st, "arr", s, base=v)      # [x]*n that is filled in later
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.eval(s.value, st)
            self.assign(s.target, v, st, s)
        return st

    def s_AugAssign(self, s, st):
        rhs = self.eval(s.value, st)
        if isinstance(s.target, ast.Subscript):
            base = self.eval(s.target.value, st)
            k = self.eval_index(s.target.slice, st)
            if base.op == "ref" and isinstance(s.op, (ast.Add, ast.Sub)) and self.obj(st, base).kind == "arr":
                self.log(st, base, "incr", k, rhs if isinstance(s.op, ast.Add) else neg(rhs), s)
                return st
            old = self.subscript(st, base, k, s)
            self.store_sub(st, base, k, self.binop(s.op, old, rhs, st, s), s)
            return st
        old = self.eval(self._load(s.target), st)
        if old.op == "ref" and self.obj(st, old) is not None and self.obj(st, old).kind in ("list", "set") and isinstance(s.op, (ast.Add, ast.BitOr)):
            self.extend(st, old, rhs, s)
            return st
        if old.op == "ext" and old.a[0] in self.inplace:
            self.event("aug", type(s.op).__name__, (old, rhs), {}, st, s)
            return st
        if old.op in ("sym", "attr", "get") and self.symbolic_mutable(old):
            self.event("mutate", "augassign", (old, rhs), {}, st, s)
        self.assign(s.target, self.binop(s.op, old, rhs, st, s), st, s)
        return st

    def symbolic_mutable(self, t):
        return t.op == "sym" and t.a[1] in ("array", "list", "dict", "set", "default", "matrix")

    def _load(self, t):
        import copy
        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if not st.dead:
            self.frames[-1].returns.append((st, v))
            self.frames[-1].exits_in_loop.append(st)
        return None

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.event("raise", "raise", (), {}, st, s)
        return None

    def s_Assert(self, s, st):
        c = truth(self.eval(s.test, st))
        if st.dead:
            return None
        self.event("assert", "assert", (c,), {}, st, s)
        c2 = self.known(st, c)
        if c2 is FALSE:
            return None
        self.assume(st, c)
        return st

    def assume(self, st, c):
        lits = c.a if c.op == "and" else (c,)
        for l in lits:
            if l is not TRUE and l not in st.path:
                st.path = st.path + (l,)

    def known(self, st, c):
        if is_c(c):
            return c
        if c in st.path:
            return TRUE
        if bnot(c) in st.path:
            return FALSE
        if len(st.path) < 40:
            eqs = {}
            for l in st.path:
                if l.op == "eq" and is_c(l.a[1]):
                    eqs[l.a[0]] = l.a[1]
            if eqs:
                c2 = subst(c, eqs)
                if c2 is not c and is_c(c2):
                    return c2
            if band(*(st.path + (c,))) is FALSE:
                return FALSE
            if band(*(st.path + (bnot(c),))) is FALSE:
                return TRUE
        return c

    def s_If(self, s, st):
        c = truth(self.eval(s.test, st))
        if st.dead:
            return None
        return self.branch(c, st, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.orelse, x) if s.orelse else x)

    def branch(self, c, st, f, g):
        c = self.known(st, c)
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        a, b = st.fork(), st.fork()
        self.assume(a, c)
        self.assume(b, bnot(c))
        ra, rb = f(a), g(b)
        if ra is not None and ra.dead:
            ra = None
        if rb is not None and rb.dead:
            rb = None
        return self.merge(st, c, ra, rb)

    def merge(self, st, c, ra, rb):
        if ra is None and rb is None:
            return None
        if ra is None:
            return rb
        if rb is None:
            return ra
        out = State({}, None, None, st.binders)
        out.heap = self.merge_heaps([(c, ra.heap), (bnot(c), rb.heap)], st.heap)
        for k in set(ra.env) | set(rb.env):
            x, y = ra.env.get(k), rb.env.get(k)
            if x is None or y is None:
                out.env[k] = x if x is not None else y     # unbound on the other side
                continue
            out.env[k] = self.merge_vals(out, c, x, y)
        common = [l for l in ra.path if l in rb.path]
        # a branch that got extra facts by early exits: keep the disjunction
        da = [l for l in ra.path if l not in common]
        db = [l for l in rb.path if l not in common]
        d = bor(band(*da), band(*db)) if (da and db) else TRUE
        if d is not TRUE:
            common.append(d)
        out.path = tuple(common)
        return out

    def merge_vals(self, st, c, x, y):
        if x is y:
            return x
        return ite(c, x, y)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value, st)
                k = self.eval_index(t.slice, st)
                if base.op == "ref":
                    self.log(st, base, "del", k, NONE, s)
                elif base.op == "inv" and base.a[0].op == "ref":
                    self.log(st, base.a[0], "delinv", k, NONE, s)
                else:
                    self.event("mutate", "del", (base, k), {}, st, s)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def s_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if st.dead:
                return None
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        return self.exec_block(s.body, st)

    def s_Try(self, s, st):
        tid = next(self.ids)
        lit = mk("exc", tid)
        a, b = st.fork(), st.fork()
        a.path = a.path + (bnot(lit),)
        b.path = b.path + (lit,)
        ra = self.exec_block(s.body, a)
        if ra is not None and s.orelse:
            ra = self.exec_block(s.orelse, ra)
        rbs = []
        for h in s.handlers:
            hb = b.fork()
            if h.name:
                hb.env[h.name] = sym("exception", "exc")
            r = self.exec_block(h.body, hb)
            if r is not None:
                rbs.append(r)
        rb = rbs[0] if rbs else None
        for r in rbs[1:]:
            rb = self.merge(st, mk("exc", next(self.ids)), rb, r)
        out = self.merge(st, bnot(lit), ra, rb)
        if out is not None and s.finalbody:
            out = self.exec_block(s.finalbody, out)
        if out is not None and rb is None:
            out.path = tuple(l for l in out.path if l is not bnot(lit))
        return out

    def s_FunctionDef(self, s, st):
        fr = self.frames[-1]
        fi = self.repo.local_func(s, fr.module, fr.cls, fr.func)
        fi.closure = st.env      # late binding: the live environment
        st.env[s.name] = mk("lfunc", fi.uid)
        return st

    def s_ClassDef(self, s, st):
        return st

    def s_Break(self, s, st):
        self.event("break", "break", (), {}, st, s)
        self.frames[-1].loops[-1]["breaks"].append(st)
        return None

    def s_Continue(self, s, st):
        self.frames[-1].loops[-1]["continues"].append(st)
        return None

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st):
        itv = self.eval(s.iter, st)
        if st.dead:
            return None
        has_break = _has_break(s.body)

        def body(x):
            return self.exec_block(s.body, x)
        r = self.loop(st, itv, lambda x, v: self.assign(s.target, v, x, s), body, s, has_break)
        if r is not None and s.orelse and not has_break:
            r = self.exec_block(s.orelse, r)
        return r

    def loop(self, st, itv, bind, body, node, has_break=False):
        if itv.op == "ite":
            return self.branch(itv.a[0], st, lambda x: self.loop(x, itv.a[1], bind, body, node, has_break),
                               lambda x: self.loop(x, itv.a[2], bind, body, node, has_break))
        conc = self.concrete(st, itv)
        if conc is not None and (not has_break or len(conc) <= 4) and len(conc) <= 40:
            cur = st
            fr = self.frames[-1]
            left = []
            for v in conc:
                fr.loops.append(dict(breaks=[], continues=[]))
                bind(cur, v)
                e = body(cur)
                l = fr.loops.pop()
                left += [x for x in l["breaks"] if not x.dead]
                outs = ([e] if e is not None and not e.dead else []) + l["continues"]
                if not outs:
                    return self._merge_all(st, left) if left else None
                cur2 = outs[0]
                for o in outs[1:]:
                    c = band(*[x for x in cur2.path if x not in o.path])
                    cur2 = self.merge(st, c, cur2, o)
                cur = cur2
            return self._merge_all(st, [cur] + left) if left else cur
        alts = self.alternatives(st, itv, node)
        cur = st
        for (ats, dom, elem, guards) in alts:
            if dom is None:
                b1, b2 = ats
                if has_break:
                    return None if self.unknown("break of a nested loop") is None else st
                g1 = tuple(g for g in guards if not (atoms(g) & set(b2.atoms)))
                g2 = tuple(g for g in guards if atoms(g) & set(b2.atoms))
                cur = self.generic_loop(cur, b1.atoms, b1.dom, b1.atoms[0], g1, lambda x, v: None,
                                        lambda x: self.generic_loop(x, b2.atoms, b2.dom, elem, g2, bind, body, node, False), node, False)
                if cur is None:
                    return None
                continue
            cur = self.generic_loop(cur, ats, dom, elem, guards, bind, body, node, has_break)
            if cur is None:
                return None
        return cur

    def generic_loop(self, st, ats, dom, elem, guards, bind, body, node, has_break, whiletest=None):
        fr = self.frames[-1]
        lid = next(self.lids)
        binder = Binder(lid, ats, dom, has_break)

        def run(carry_env, carry_attr, marked):
            x = st.fork()
            x.binders = st.binders + (binder,)
            for g in guards:
                self.assume(x, g)
            if has_break:
                x.path = x.path + (mk("nobreak", lid),)
            for k, v in carry_env.items():
                x.env[k] = v
            for (rid, a), v in carry_attr.items():
                o = x.heap[rid].copy()
                o.attrs[a] = v
                x.heap[rid] = o
            for rid in marked:
                o = x.heap[rid].copy()
                o.log = o.log + (Entry("prev", C(lid), NONE, x.path, x.binders, None),)
                x.heap[rid] = o
            if whiletest is not None:
                c = truth(whiletest(x))
                c = self.known(x, c)
                if c is FALSE:
                    return [], [], c
                self.assume(x, c)
            else:
                c = TRUE
            bind(x, elem)
            fr.loops.append(dict(breaks=[], continues=[]))
            nret = len(fr.returns)
            e = body(x)
            l = fr.loops.pop()
            outs = ([e] if e is not None and not e.dead else []) + [s for s in l["continues"] if not s.dead]
            return outs, l["breaks"], c

        # ---- dry run: which variables and objects change
        self.mute += 1
        nret, nexit = len(fr.returns), len(fr.exits_in_loop)
        nun = dict(self.unknowns)
        outs, brks, _ = run({}, {}, ())
        del fr.returns[nret:]
        del fr.exits_in_loop[nexit:]
        changed_env, changed_attr, marked = set(), set(), set()
        for o in outs + brks:
            for k, v in o.env.items():
                if k in st.env and st.env[k] is not v:
                    changed_env.add(k)
            for rid, ob in o.heap.items():
                b = st.heap.get(rid)
                if b is None or b is ob:
                    continue
                if len(ob.log) != len(b.log):
                    marked.add(rid)
                for a, v in ob.attrs.items():
                    if b.attrs.get(a) is not v:
                        changed_attr.add((rid, a))
        targets = set()
        mus = {k: mk("mu", lid, k) for k in changed_env}
        amus = {(r, a): mk("mu", lid, "%s.%s" % (r, a)) for r, a in changed_attr}
        # attributes that do not exist before the loop are not carried
        amus = {k: v for k, v in amus.items() if k[1] in st.heap[k[0]].attrs}
        carry, acarry = dict(mus), dict(amus)
        final, afinal = {}, {}
        if mus or amus or marked:
            outs, brks, tc = run(carry, acarry, marked)
            del fr.returns[nret:]
            del fr.exits_in_loop[nexit:]
            m = self._merge_all(st, outs)
            for which, cmap in (("e", mus), ("a", amus)):
                for k, mu in cmap.items():
                    init = st.env[k] if which == "e" else st.heap[k[0]].attrs[k[1]]
                    if m is None:
                        endv = mu
                    else:
                        endv = m.env.get(k, mu) if which == "e" else m.heap[k[0]].attrs.get(k[1], mu)
                    inl, fin = self.solve_mu(lid, k if which == "e" else "%s.%s" % k, mu, init, endv, binder, st, bool(brks), band(*[g for g in guards if not self.domain_fact(g, (binder,))]))
                    (carry if which == "e" else acarry)[k] = inl
                    (final if which == "e" else afinal)[k] = fin
            if whiletest is not None:
                # induction variable: test is  v < n  with  v' = v+1
                ind = self.find_induction(mus, m, tc, st, lid)
                if ind is not None:
                    k, n, atm = ind
                    self.mute -= 1
                    self.unknowns = nun
                    lo = st.env[k]
                    st2 = st.fork()

                    def bind2(x, v, _k=k):
                        x.env[_k] = v
                    r = self.generic_loop(st2, (atm,), mk("range", lo, n), atm, (le(lo, atm), lt(atm, n)), bind2, body, node, has_break)
                    if r is not None and not has_break:
                        r.env[k] = n
                    return r
        self.mute -= 1
        self.unknowns = nun
        # ---- final run
        outs, brks, tc = run(carry, acarry, marked)
        m = self._merge_all(st, outs + brks)
        out = st.fork()
        if m is None:
            # every iteration leaves the function: loop may still run zero times
            pass
        else:
            for rid, ob in m.heap.items():
                n = ob
                if any(e.op == "prev" and e.key.a[0] == lid for e in ob.log):
                    n = ob.copy()
                    n.log = tuple(e for e in ob.log if not (e.op == "prev" and e.key.a[0] == lid))
                out.heap[rid] = n
            for k, v in m.env.items():
                if k in mus:
                    continue
                if k not in st.env:
                    ownat = set(ats)
                    out.env[k] = v if not (atoms(v) & ownat) else mk("last", lid, v)
            for k in mus:
                out.env[k] = final[k]
            for (rid, a), v in afinal.items():
                o = out.heap[rid].copy()
                o.attrs[a] = v
                out.heap[rid] = o
        if m is not None and not has_break and whiletest is None:
            self.find_numbering(st, out, m, marked, mus, binder)
        # facts: no iteration returned
        for s_ in fr.exits_in_loop[nexit:]:
            delta = [l for l in s_.path if l not in st.path]
            ext = [b for b in s_.binders if b not in st.binders]
            c = self.exists(ext, band(*delta))
            self.assume(out, bnot(c))
        if whiletest is not None and not has_break:
            c = self.known(out, truth(whiletest(out)))
            if c is not FALSE:
                self.assume(out, bnot(c))
        return out

    def _merge_all(self, st, outs):
        if not outs:
            return None
        m = outs[0]
        for o in outs[1:]:
            da = band(*[l for l in m.path if l not in o.path])
            m = self.merge(st, da, m, o)
        return m

    def find_numbering(self, st, out, m, marked, mus, binder):
        """d[k] = n; n += 1 for keys not yet in d: numbers the different keys in the order of their first occurrence"""
        for rid in marked:
            o = out.heap.get(rid)
            b = st.heap.get(rid)
            if o is None or b is None or o.kind not in ("dict", "bidict") or b.log or o.base is not None or len(o.log) != 1:
                continue
            e = o.log[0]
            new = bnot(mk("in", e.key, mk("keys", mk("ref", rid))))
            if e.op != "set" or new not in e.guard:
                continue
            g = tuple(l for l in e.guard if l is not new)
            bs = tuple(x for x in e.binders if x not in st.binders)
            if bs != (binder,):
                continue
            lits = band(*[l for l in g if l not in st.path and not self.domain_fact(l, bs)])
            if any(tm.has_op(x, "mu") for x in (lits, e.key)):
                continue
            num = mk("num", binder.lid, rid)
            n = None
            if e.val is mk("len", mk("ref", rid)):
                init = ZERO
            else:
                k = next((k for k, mu in mus.items() if e.val is mu), None)
                if k is None:
                    continue
                init, mu = st.env[k], mus[k]
                pos, neg = cases_of(m.env.get(k, mu), mu)
                want = set(l for l in e.guard if l not in st.path and not self.domain_fact(l, bs))
                if len(pos) != 1 or sub(pos[0][1], mu) is not ONE:
                    continue
                have = set(x for l in pos[0][0] for x in (l.a if l.op == "and" else (l,)))
                if not have <= want or not all(l in have or any(l is x for x in m.path) for l in want):
                    continue
                n = k
            self.nums[num] = (init, lits, e.key, binder)
            self.numrefs[mk("ref", rid)] = num
            c = o.copy()
            c.log = (Entry("set", e.key, add(init, get(num, e.key)), g, e.binders, e.where),)
            out.heap[rid] = c
            if n is not None:
                doms, (gg, kk), _ = self.close(bs, lits, e.key)
                out.env[n] = add(init, mk("distinct", doms, gg, kk))

    def find_induction(self, mus, m, tc, st, lid):
        if m is None or tc is None:
            return None
        for k, mu in mus.items():
            endv = m.env.get(k)
            if endv is None or sub(endv, mu) is not ONE:
                continue
            others = set(mus.values()) - {mu}
            if tc.op in ("le", "lt"):
                # mu + 1 - n <= 0   or mu - n < 0
                n = sub(mu, tc.a[0]) if tc.op == "lt" else add(sub(mu, tc.a[0]), ONE)
            elif tc.op == "not" and tc.a[0].op == "eq":
                x, y = tc.a[0].a
                n = y if x is mu else (x if y is mu else None)
                if n is None and y is ZERO:
                    n = sub(mu, x) if mu in atoms(x) else None
                    if n is not None and mu in atoms(n):
                        n = add(mu, x)
            else:
                continue
            if n is None or mu in atoms(n) or atoms(n) & others:
                continue
            return k, n, mk("it", lid, k)
        return None

    def solve_mu(self, lid, name, mu, init, endv, binder, st, broken, loopg=TRUE):
        if endv is mu:
            return init, init
        if broken:
            return mu, self.unknown("loop with break: " + str(name))
        own = set(binder.atoms)
        if mu not in atoms(endv):
            if not (atoms(endv) & own) and not tm.has_op(endv, "mu"):
                # assigned a loop-invariant value
                fin = ite(mk("nonempty", binder.dom) if loopg is TRUE else self.exists((binder,), loopg), endv, init)
                return mu, fin
            return mu, self.unknown("loop-carried " + str(name))
        if endv.op == "ite" and mu in (endv.a[1], endv.a[2]) and mu not in atoms(endv.a[0]):
            g, v = (endv.a[0], endv.a[1]) if endv.a[2] is mu else (bnot(endv.a[0]), endv.a[2])
        else:
            g, v = TRUE, endv
        g = band(loopg, g)
        d = sub(v, mu)
        if mu not in atoms(d) and v.op != "cat":
            if tm.has_op(d, "mu"):
                return mu, self.unknown("loop-carried " + str(name))
            if is_num(d) or not (atoms(d) & own):
                if g is TRUE:
                    if len(binder.atoms) == 1 and binder.dom.op == "range":
                        i = binder.atoms[0]
                        inl = add(init, mul(d, sub(i, binder.dom.a[0])))
                        return inl, add(init, mul(d, sub(binder.dom.a[1], binder.dom.a[0])))
                    rm = mk("rankmap", lid, str(name))
                    self.ranks[rm] = (init, g, d, binder)
                    n = mk("len", binder.dom)
                    ix = get(rm, binder.atoms[0]) if len(binder.atoms) == 1 else get(rm, tup(*binder.atoms))
                    return (ix if init is ZERO and d is ONE else add(init, mul(d, ix))), add(init, mul(d, n))
                rm = mk("rankmap", lid, str(name))
                self.ranks[rm] = (init, g, d, binder)
                ix = get(rm, binder.atoms[0]) if len(binder.atoms) == 1 else get(rm, tup(*binder.atoms))
                return add(init, mul(d, ix)), add(init, mul(d, self.close_sum((binder,), g, ONE)))
            return mu, add(init, self.close_sum((binder,), g, d))
        if v.op == "cat" and v.a and v.a[0] is mu:
            return mu, self.unknown("string built in a loop")
        if tm.is_bool(endv) or endv.op in ("and", "or"):
            # flag = flag or g / flag and g
            if endv.op == "or" and truth(mu) in endv.a:
                r = bor(*[x for x in endv.a if x is not truth(mu)])
                if mu not in atoms(r):
                    return mu, bor(truth(init), self.exists((binder,), band(loopg, r)))
            if endv.op == "and" and truth(mu) in endv.a:
                r = band(*[x for x in endv.a if x is not truth(mu)])
                if mu not in atoms(r):
                    return mu, band(truth(init), bnot(self.exists((binder,), band(loopg, bnot(r)))))
        if g is not TRUE and mu not in atoms(v) and not (atoms(v) & own):
            return mu, ite(self.exists((binder,), g), v, init)
        return mu, self.unknown("loop-carried " + str(name))

    def s_While(self, s, st):
        has_break = _has_break(s.body)
        atm = mk("it", next(self.lids), "while")

        def test(x):
            return self.eval(s.test, x)

        def body(x):
            return self.exec_block(s.body, x)
        return self.generic_loop(st, (atm,), mk("while", next(self.lids)), atm, (), lambda x, v: None, body, s, has_break, whiletest=test)

    # ---- closing terms over binders
    def close(self, binders, *ts):
        """replace the binders' atoms by canonical bound variables; returns (doms, terms)"""
        depth = 0
        for t in list(ts) + [b.dom for b in binders]:
            for x in atoms(t):
                if x.op == "bv":
                    depth = max(depth, x.a[0] + 1)
        m = {}
        for b in binders:
            for a in b.atoms:
                m[a] = mk("bv", depth)
                depth += 1
        doms = tuple(subst(b.dom, m) for b in binders)
        return doms, [subst(t, m) for t in ts], m

    def exists(self, binders, c):
        binders = tuple(binders)
        if not binders:
            return c
        if c is FALSE:
            return FALSE
        if c.op == "or":
            return bor(*[self.exists(binders, x) for x in c.a])
        # drop literals that only restate the domain; pull out independent ones
        lits = list(c.a) if c.op == "and" else ([c] if c is not TRUE else [])
        own = {a for b in binders for a in b.atoms}
        lits = [l for l in lits if not self.domain_fact(l, binders) and l.op != "nobreak"]
        indep = [l for l in lits if not (atoms(l) & own)]
        dep = [l for l in lits if atoms(l) & own]
        used = set()
        for l in dep:
            used |= atoms(l)
        bs = tuple(b for b in binders if set(b.atoms) & used)
        # domain dependencies
        changed = True
        while changed:
            changed = False
            for b in binders:
                if b in bs:
                    continue
                for b2 in bs:
                    if set(b.atoms) & atoms(b2.dom):
                        bs = tuple(x for x in binders if x in bs or x is b)
                        changed = True
                        break
        ne = [mk("nonempty", b.dom) for b in binders if b not in bs and not (atoms(b.dom) & own)]
        ne = [x for x in ne if not self.surely_nonempty(x.a[0])]
        if not dep:
            return band(*(indep + ne))
        doms, (c2,), _ = self.close(bs, band(*dep))
        return band(*(indep + ne + [mk("exists", doms, c2)]))

    def surely_nonempty(self, dom):
        return dom.op == "range" and is_num(dom.a[0]) and is_num(dom.a[1]) and dom.a[1].a[0] > dom.a[0].a[0]

    def domain_fact(self, l, binders):
        for b in binders:
            if b.dom.op == "range":
                a = b.atoms[0]
                if l is le(b.dom.a[0], a) or l is lt(a, b.dom.a[1]):
                    return True
            if l.op == "in" and l.a[0] in b.atoms and l.a[1] is b.dom:
                return True
        return False

    def close_sum(self, binders, g, v):
        binders = tuple(binders)
        if not binders:
            return ite(g, v, ZERO)
        lits = list(g.a) if g.op == "and" else ([g] if g is not TRUE else [])
        lits = [l for l in lits if not self.domain_fact(l, binders)]
        # eliminate  atom == term
        for b in binders:
            for a in b.atoms:
                for l in lits:
                    if l.op == "eq" and a in l.a:
                        o = l.a[0] if l.a[1] is a else l.a[1]
                        if a not in atoms(o) and len(b.atoms) == 1:
                            rest = tuple(x for x in binders if x is not b)
                            m = {a: o}
                            rest = tuple(Binder(x.lid, x.atoms, subst(x.dom, m), x.has_break) for x in rest)
                            if b.dom.op == "range":
                                inr = band(le(b.dom.a[0], o), lt(o, b.dom.a[1]))
                            else:
                                inr = TRUE
                            ng = band(*[subst(x, m) for x in lits if x is not l])
                            return self.close_sum(rest, ng, subst(v, m))
        own = {a for b in binders for a in b.atoms}
        gi = [l for l in lits if not (atoms(l) & own)]
        gd = [l for l in lits if atoms(l) & own]
        doms, (g2, v2), _ = self.close(binders, band(*gd), v)
        r = mk("sum", doms, g2, v2)
        return ite(band(*gi), r, ZERO)

    def closed_entry(self, st, e, vals, o=None):
        """terms of a log entry closed over the binders/guards not active in st nor when the object was created"""
        ob, op = (o.binders, o.path0) if o is not None else ((), ())
        bs = tuple(b for b in e.binders if b not in st.binders and b not in ob)
        g = band(*[l for l in e.guard if l not in st.path and l not in op])
        lits = list(g.a) if g.op == "and" else ([g] if g is not TRUE else [])
        g = band(*[l for l in lits if not self.domain_fact(l, bs)])
        if not bs and g is TRUE:
            return vals[0] if len(vals) == 1 else tup(*vals)
        doms, ts, _ = self.close(bs, g, *vals)
        v = ts[1] if len(vals) == 1 else mk("tuple", *ts[1:])
        return mk("for", doms, ts[0], v)

    def freeze(self, st, t, depth=0):
        """value of a (possibly heap) term as a closed term"""
        if depth > 6:
            return t
        if t.op != "ref":
            refs = [x for x in atoms(t) if x.op == "ref"]
            if refs and t.op in ("tuple", "ite", "poly", "T", "hstack", "vstack", "dot", "inv", "list", "sub"):
                return subst(t, {r: self.freeze(st, r, depth + 1) for r in refs})
            return t
        o = self.obj(st, t)
        if o is None:
            return t
        if o.kind in ("arr",):
            r = o.base if o.base is not None else mk("empty", NONE)
            if any(e.op == "prev" for e in o.log):
                return t
            for e in o.log:
                ce = self.closed_entry(st, e, [e.key, self.freeze(st, e.val, depth + 1)], o)
                r = mk("upd" if e.op == "set" else "updincr", r, ce)
            return r
        if o.kind in ("list", "gen"):
            if any(e.op in ("prev",) for e in o.log):
                return t
            parts = []
            for e in o.log:
                if e.op == "append":
                    parts.append(self.closed_entry(st, e, [self.freeze(st, e.val, depth + 1)], o))
                else:
                    parts.append(mk(e.op, self.closed_entry(st, e, [self.freeze(st, e.key, depth + 1), self.freeze(st, e.val, depth + 1)], o)))
            if o.base is not None:
                parts = [mk("base", self.freeze(st, o.base, depth + 1))] + parts
            return mk("list", *parts)
        if o.kind in ("dict", "bidict", "ddict"):
            if any(e.op in ("prev",) for e in o.log):
                return t
            parts = []
            for e in o.log:
                ce = self.closed_entry(st, e, [self.freeze(st, e.key, depth + 1), self.freeze(st, e.val, depth + 1)], o)
                parts.append(ce if e.op == "set" else mk(e.op, ce))
            if o.base is not None:
                if not parts:
                    return o.base
                parts = [mk("base", o.base)] + parts
            return mk("dict", *parts)
        if o.kind == "set":
            parts = [self.closed_entry(st, e, [self.freeze(st, e.key, depth + 1)], o) if e.op == "add" else
                     mk(e.op, self.closed_entry(st, e, [self.freeze(st, e.key, depth + 1)], o)) for e in o.log if e.op != "prev"]
            if o.base is not None:
                if not parts:
                    return o.base
                parts = [mk("base", o.base)] + parts
            return mk("set", *sorted(parts))
        return t

    # ------------------------------------------------------------------ iteration
    def concrete(self, st, t):
        """list of elements if the iterable is known element by element"""
        if t.op == "tuple" or (t.op == "list" and all(x.op not in ("for", "base") for x in t.a)):
            return list(t.a)
        if t.op == "range" and is_num(t.a[0]) and is_num(t.a[1]):
            n = t.a[1].a[0] - t.a[0].a[0]
            if n <= 8:
                return [C(t.a[0].a[0] + i) for i in range(max(n, 0))]
            return None
        if t.op == "c" and isinstance(t.a[0], (tuple, list)):
            return [C(x) for x in t.a[0]]
        if t.op == "reversed":
            xs = self.concrete(st, t.a[0])
            return xs[::-1] if xs is not None else None
        if t.op == "repeat" and is_num(t.a[1]) and 0 <= t.a[1].a[0] <= 8:
            xs = self.concrete(st, t.a[0])
            return xs * int(t.a[1].a[0]) if xs is not None else None
        if t.op == "ref":
            o = self.obj(st, t)
            if o.kind in ("list", "set", "gen") and o.base is None:
                out = []
                for e in o.log:
                    if e.op not in ("append", "add"):
                        return None
                    if any(b not in st.binders and b not in o.binders for b in e.binders) or any(l not in st.path and l not in o.path0 for l in e.guard):
                        return None
                    out.append(e.val if e.op == "append" else e.key)
                return out
            if o.kind in ("dict", "ddict", "bidict") and o.base is None:
                out = []
                dels = any(e.op == "del" for e in o.log)
                for e in o.log:
                    if e.op not in ("set", "del") or any(b not in st.binders and b not in o.binders for b in e.binders) or any(l not in st.path and l not in o.path0 for l in e.guard):
                        return None
                    if dels and not is_c(e.key):
                        return None
                    if e.op == "del":
                        if e.key in out:
                            out.remove(e.key)
                        continue
                    if e.key in out:
                        continue
                    out.append(e.key)
                return out
        if t.op == "items":
            b = t.a[0]
            ks = self.concrete(st, b)
            if ks is None:
                return None
            return [tup(k, self.subscript(st, b, k, None)) for k in ks]
        if t.op == "values" or t.op == "keys":
            b = t.a[0]
            ks = self.concrete(st, b)
            if ks is None or b.op not in ("ref",):
                return None
            return ks if t.op == "keys" else [self.subscript(st, b, k, None) for k in ks]
        if t.op == "enumerate":
            c = self.concrete(st, t.a[0])
            return None if c is None else [tup(C(i), x) for i, x in enumerate(c)]
        if t.op == "zip":
            cs = [self.concrete(st, x) for x in t.a]
            if any(c is None for c in cs):
                return None
            return [tup(*x) for x in zip(*cs)]
        return None

    def seq_kind(self, st, t):
        """'vec': position-indexed; 'set': a set of elements"""
        if t.op == "ref":
            k = self.obj(st, t).kind
            return "vec" if k in ("arr", "list", "gen") else "set"
        if t.op in ("keys", "items", "values", "set", "setop", "dict"):
            return "set"
        if t.op == "get" and t.a[0].op in ("attr", "inv", "sym") and (t.a[0].op == "inv" or t.a[0].a[1] in ("states_by_label", "actions_by_label", "actions_by_state", "groupmap")):
            return "set"
        if t.op == "sym" and t.a[1] in ("set", "labels", "dict"):
            return "set"
        if t.op == "attr" and t.a[1] in ("states_by_label", "actions_by_label", "index_by_state_action", "actions_by_state"):
            return "set"
        if t.op == "inv":
            return "set"
        if t.op == "m":
            return "set"
        if t.op == "sym" and t.a[1] in ("model",):
            return "set"
        return "vec"

    def alternatives(self, st, t, node):
        lid = next(self.lids)
        if t.op == "range":
            i = mk("it", lid, "i")
            return [((i,), t, i, (le(t.a[0], i), lt(i, t.a[1])))]
        if t.op == "enumerate":
            x = t.a[0]
            start = t.a[1] if len(t.a) > 1 else ZERO
            one = self.followed(st, x)
            if one is not None:
                k, v, bs, g, _ = one
                o = self.obj(st, x)
                what = mk("pairof", k, v) if x.op == "items" else (v if x.op == "values" or (o is not None and o.kind in ("list", "gen")) else k)
                if what.op == "pairof":
                    what = tup(k, v)
                if len(bs) == 1 and not (bs[0].dom.op == "range" and not [l for l in g if not self.domain_fact(l, bs)]):
                    rm = mk("rankmap", lid, "enumerate")
                    lits = band(*[l for l in g if not self.domain_fact(l, bs)])
                    if lits is not TRUE and len(bs[0].atoms) == 1:
                        self.ranks[rm] = (ZERO, lits, ONE, bs[0])
                        return [(bs[0].atoms, bs[0].dom, tup(add(get(rm, bs[0].atoms[0]), start), what), tuple(g))]
            n = mk("it", lid, "n")
            el, ln = self.nth(st, x, n)
            return [((n,), mk("range", ZERO, ln), tup(add(n, start), el), (le(ZERO, n), lt(n, ln)))]
        if t.op == "zip":
            n = mk("it", lid, "n")
            els, lens = [], []
            for x in t.a:
                e, ln = self.nth(st, x, n)
                els.append(e)
                lens.append(ln)
            ln = lens[0]
            for l in lens[1:]:
                if l is not ln:
                    ln = mk("min", *sorted((ln, l)))
            return [((n,), mk("range", ZERO, ln), tup(*els), (le(ZERO, n), lt(n, ln)))]
        if t.op == "items":
            m = t.a[0]
            o = self.obj(st, m)
            one = self.followed(st, t)
            if one is not None and len(one[2]) <= 2:
                k, v, bs, g, e = one
                if len(bs) == 2:
                    return [(bs, None, tup(k, v), tuple(g))]
                if bs or o.kind == "arr":
                    return [(bs[0].atoms if bs else (mk("it", lid, "one"),), bs[0].dom if bs else mk("single"), tup(k, v), tuple(g))]
            if o is not None and o.kind in ("dict", "ddict", "bidict") and o.base is None and o.log and all(e.op == "set" for e in o.log):
                alts = []
                for e in o.log:
                    k, v, bs, g = self.refresh(st, e)
                    alts.append((tuple(a for b in bs for a in b.atoms), bs[0].dom if len(bs) == 1 else mk("multi", *[b.dom for b in bs]), tup(k, v), tuple(g)))
                if all(len(self.refresh(st, e)[2]) <= 1 for e in o.log):
                    return alts
            k = mk("it", lid, "k")
            return [((k,), mk("keys", m), mk("pairof", k, self.subscript(st, m, k, node)), (mk("in", k, mk("keys", m)),))]
        if t.op in ("keys", "values"):
            one = self.followed(st, t)
            if one is not None and len(one[2]) == 1:
                k, v, bs, g, e = one
                return [(bs[0].atoms, bs[0].dom, k if t.op == "keys" else v, tuple(g))]
        if t.op == "keys":
            m = t.a[0]
            k = mk("it", lid, "k")
            return [((k,), mk("keys", m), k, (mk("in", k, mk("keys", m)),))]
        if t.op == "values":
            m = t.a[0]
            k = mk("it", lid, "k")
            return [((k,), mk("keys", m), self.subscript(st, m, k, node), (mk("in", k, mk("keys", m)),))]
        if t.op == "map":
            alts = self.alternatives(st, t.a[1], node)
            out = []
            for ats, dom, el, g in alts:
                out.append((ats, dom, self.call(st, t.a[0], [el], {}, node), g))
            return out
        if t.op == "ref":
            o = self.obj(st, t)
            if o.kind in ("list", "gen", "set") and o.base is None and o.log and all(e.op in ("append", "add") for e in o.log):
                alts = []
                for e in o.log:
                    k, v, bs, g = self.refresh(st, e)
                    if len(bs) == 1:
                        alts.append((bs[0].atoms, bs[0].dom, v if e.op == "append" else k, tuple(g)))
                    elif not bs:
                        a = mk("it", lid, "one")
                        alts.append(((a,), mk("single"), v if e.op == "append" else k, tuple(g)))
                    else:
                        alts = None
                        break
                if alts is not None:
                    return alts
            if o.kind in ("dict", "ddict", "bidict"):
                return self.alternatives(st, mk("keys", t), node)
            n = mk("it", lid, "n")
            if o.kind in ("list", "gen", "arr"):
                ln = self.length(st, t)
                return [((n,), mk("range", ZERO, ln), self.subscript(st, t, n, node), (le(ZERO, n), lt(n, ln)))]
            e = mk("it", lid, "e")
            return [((e,), t, e, (mk("in", e, t),))]
        if t.op == "list" and len(t.a) == 1 and t.a[0].op == "for":
            doms, g, v = t.a[0].a
            if len(doms) == 1:
                i = mk("it", lid, "i")
                bvs = tm.own_bvs(t.a[0], True)
                m = {bvs[0]: i} if bvs else {}
                g2 = subst(g, m)
                gs = (() if g2 is TRUE else (g2,))
                if doms[0].op == "range":
                    gs = (le(doms[0].a[0], i), lt(i, doms[0].a[1])) + gs
                return [((i,), doms[0], subst(v, m), gs)]
        if self.seq_kind(st, t) == "vec":
            n = mk("it", lid, "n")
            ln = self.length(st, t)
            return [((n,), mk("range", ZERO, ln), self.subscript(st, t, n, node), (le(ZERO, n), lt(n, ln)))]
        e = mk("it", lid, "e")
        return [((e,), t, e, (mk("in", e, t),))]

    def followed(self, st, t):
        """(key, value, binders, guard, entry) if t is a container (or a view of one) with a single entry for each value of its binders"""
        view = None
        if t.op in ("items", "keys", "values"):
            view, t = t.op, t.a[0]
        o = self.obj(st, t) if t.op == "ref" else None
        if o is None or len(o.log) != 1:
            return None
        e = o.log[0]
        if o.kind in ("list", "gen") and view is None and o.base is None and e.op == "append":
            pass
        elif o.kind in ("dict", "bidict") and o.base is None and e.op == "set":
            pass
        elif o.kind == "set" and view is None and o.base is None and e.op == "add":
            pass
        elif o.kind == "arr" and view in ("items", "keys") and o.base is not None and o.base.op == "zeros" and e.op == "set":
            pass
        else:
            return None
        if any(b.has_break for b in e.binders):
            return None
        k, v, bs, g = self.refresh(st, e)
        if e.op != "append":
            for b in bs:
                for a in b.atoms:
                    if not self.injective(k, a, b.dom):
                        return None
        return k, v, bs, g, e

    def injective(self, t, a, dom=None):
        """different values of a (the others fixed) give different values of t"""
        if t is a:
            return True
        if t.op == "tuple":
            if any(self.injective(x, a, dom) for x in t.a):
                return True
            it = [self.stripped(x) for x in t.a]
            it = [x for x in it if x.op == "item"]
            return len(it) >= 2 and it[0].a[0] is it[1].a[0] and {x.a[1] for x in it} >= {0, 1} and self.injective(it[0].a[0], a, dom)
        if t.op == "poly":
            vs = [(m, c) for m, c in t.a[0] if any(a in atoms(x) for x in m)]
            return len(vs) == 1 and len(vs[0][0]) == 1 and self.injective(vs[0][0][0], a, dom)
        if t.op == "item" and t.a[0] is a and t.a[1] == 0:
            return dom is not None and dom.op == "m" and dom.a[0] == "successors"     # of one action
        if t.op == "get":
            m, k = t.a
            if m in self.numrefs or m.op in ("rankmap", "num") or (m.op == "inv" and m.a[0].op == "attr" and m.a[0].a[1] == "index_by_state_action") or \
                    (m.op == "attr" and m.a[1] == "index_by_state_action"):
                return a not in atoms(m) and self.injective(k, a, dom)
        return False

    def stripped(self, t):
        while t.op == "get" and (t.a[0] in self.numrefs or t.a[0].op in ("num", "rankmap")):
            t = t.a[1]
        return t

    def refresh(self, st, e):
        bs, m = [], {}
        for b in e.binders:
            if b in st.binders:
                continue
            ats = tuple(mk("it", next(self.lids), a.a[1]) for a in b.atoms)
            m.update(zip(b.atoms, ats))
            bs.append(Binder(b.lid, ats, subst(b.dom, m), b.has_break))
        g = [subst(l, m) for l in e.guard if l not in st.path]
        return (self.relocate(st, e.key, m) if e.key is not None else None, self.relocate(st, e.val, m) if e.val is not None else None, bs, g)

    def relocate(self, st, t, m):
        """t for other values of the bound variables; objects made per iteration are read as that iteration's object"""
        if not m:
            return t
        r = subst(t, m)
        refs = [x for x in atoms(r) if x.op == "ref"]
        mm = {}
        for x in refs:
            o = self.obj(st, x)
            if o is None or o.kind not in ("list", "set", "dict", "gen", "arr", "ddict", "bidict") or not o.binders:
                continue
            own = {a for b in o.binders for a in b.atoms}
            if not (own & set(m)) or o.attrs:
                continue
            if not any(atoms(y) & set(m) for e in o.log for y in (e.key, e.val) if y is not None) and not (o.base is not None and atoms(o.base) & set(m)):
                continue
            if any(e.op == "prev" for e in o.log):
                continue
            rid = next(self.ids)
            c = o.copy()
            c.binders, c.path0 = st.binders, st.path
            if c.base is not None:
                c.base = self.relocate(st, c.base, m)
            out = []
            for e in o.log:
                bs = tuple(Binder(b.lid, b.atoms, subst(b.dom, m), b.has_break) for b in e.binders if b not in o.binders)
                out.append(Entry(e.op, self.relocate(st, e.key, m), self.relocate(st, e.val, m),
                                 tuple(subst(l, m) for l in e.guard if l not in o.path0), bs, e.where))
            c.log = tuple(out)
            c.extra = ("copyof", x) if c.extra is None else c.extra
            st.heap[rid] = c
            mm[x] = mk("ref", rid)
        return subst(r, mm) if mm else r

    def nth(self, st, t, n):
        """(element n of an iterable, its length)"""
        if t.op == "range":
            return add(t.a[0], n), sub(t.a[1], t.a[0])
        if t.op == "ite":
            a, la = self.nth(st, t.a[1], n)
            b, lb = self.nth(st, t.a[2], n)
            return ite(t.a[0], a, b), ite(t.a[0], la, lb)
        if t.op == "items":
            k = mk("nth", mk("keys", t.a[0]), n)
            return mk("pairof", k, self.subscript(st, t.a[0], k, None)), self.length(st, t.a[0])
        if t.op == "enumerate":
            e, l = self.nth(st, t.a[0], n)
            return tup(n, e), l
        if t.op == "zip":
            els = [self.nth(st, x, n) for x in t.a]
            ln = els[0][1]
            return tup(*[e for e, _ in els]), ln
        if t.op == "map":
            e, l = self.nth(st, t.a[1], n)
            return self.call(st, t.a[0], [e], {}, None), l
        if t.op == "ref" and self.obj(st, t).kind in ("dict", "ddict", "bidict"):
            return mk("nth", mk("keys", t), n), self.length(st, t)
        if t.op == "list" or (t.op == "ref" and self.obj(st, t).kind in ("list", "gen")):
            ft = self.freeze(st, t) if t.op == "ref" else t
            if ft.op == "list" and len(ft.a) == 1 and ft.a[0].op == "for" and len(ft.a[0].a[0]) == 1 and ft.a[0].a[1] is TRUE \
                    and ft.a[0].a[0][0].op == "range":
                v = ft.a[0].a[2]
                bvs = tm.own_bvs(ft.a[0], True)
                lo = ft.a[0].a[0][0].a[0]
                return subst(v, {bvs[0]: add(n, lo)} if bvs else {}), self.length(st, t)
        if self.seq_kind(st, t) == "vec":
            return self.subscript(st, t, n, None), self.length(st, t)
        return mk("nth", t, n), self.length(st, t)

    def length(self, st, t):
        if t.op == "tuple":
            return C(len(t.a))
        if t.op == "c" and isinstance(t.a[0], str):
            return C(len(t.a[0]))
        if t.op in ("keys", "values", "items"):
            return self.length(st, t.a[0])
        if t.op == "range":
            return sub(t.a[1], t.a[0])
        if t.op == "ite":
            return ite(t.a[0], self.length(st, t.a[1]), self.length(st, t.a[2]))
        if t.op in ("zeros", "ones", "full"):
            sh = t.a[0]
            return sh if sh.op != "tuple" else sh.a[0]
        if t.op == "ref":
            o = self.obj(st, t)
            if o.kind == "arr":
                sh = self.shape(st, t)
                if sh is not None:
                    return sh.a[0]
            if o.kind in ("list", "gen") and o.base is None and all(e.op == "append" for e in o.log):
                r = ZERO
                for e in o.log:
                    bs = tuple(b for b in e.binders if b not in st.binders)
                    g = band(*[l for l in e.guard if l not in st.path])
                    r = add(r, self.count(bs, g))
                return r
            if o.kind in ("list", "gen") and o.base is not None and all(e.op == "set" for e in o.log):
                return self.length(st, o.base)
            if o.kind in ("set", "dict", "ddict", "bidict") and o.base is None:
                ks = self.concrete(st, t)
                if ks is not None and (len(ks) <= 1):
                    return C(len(ks))
                if o.kind != "ddict":
                    one = self.followed(st, t)
                    if one is not None and not [b for b in o.binders if b not in st.binders]:
                        if len(one[2]) == 1 and one[2][0].dom.op == "keys" and all(self.domain_fact(l, one[2]) for l in one[3]):
                            return self.length(st, one[2][0].dom)
                        return self.count(one[2], band(*one[3]))
                    if len(o.log) == 1 and o.log[0].op in ("set", "add") and not any(b.has_break for b in o.log[0].binders):
                        k, _, bs, g = self.refresh(st, o.log[0])
                        lits = band(*[l for l in g if not self.domain_fact(l, bs)])
                        if len(bs) == 1 and bs[0].dom.op == "keys" and lits is TRUE and self.injective(k, bs[0].atoms[0]):
                            return self.length(st, bs[0].dom)
                        if bs and k.op != "ref":
                            doms, (gg, kk), _ = self.close(bs, lits, k)
                            return mk("distinct", doms, gg, kk)
            return mk("len", t)
        if t.op == "list":
            if all(x.op not in ("for", "base") for x in t.a):
                return C(len(t.a))
            if len(t.a) == 1 and t.a[0].op == "for" and t.a[0].a[1] is TRUE and len(t.a[0].a[0]) == 1 and t.a[0].a[0][0].op == "range":
                d = t.a[0].a[0][0]
                return sub(d.a[1], d.a[0])
        if t.op == "repeat":
            return mul(self.length(st, t.a[0]), t.a[1])
        sh = self.shape(st, t)
        if sh is not None:
            return sh.a[0]
        return mk("len", t)

    def count(self, bs, g):
        lits = list(g.a) if g.op == "and" else ([g] if g is not TRUE else [])
        lits = [l for l in lits if not self.domain_fact(l, bs)]
        if not bs:
            return ite(band(*lits), ONE, ZERO)
        if not lits and len(bs) == 1:
            d = bs[0].dom
            if d.op == "range":
                return sub(d.a[1], d.a[0])
            return mk("len", d)
        return self.close_sum(bs, band(*lits), ONE)

    # ------------------------------------------------------------------ shapes
    def shape(self, st, t):
        """tuple term (rows, cols) or (n,) or None"""
        if t.op == "ref":
            o = self.obj(st, t)
            if o is not None and o.kind == "arr":
                if o.extra is not None and "shape" in o.extra:
                    return o.extra["shape"]
                return self.shape(st, o.base) if o.base is not None else None
            if o is not None and o.kind in ("list",):
                return None
            return None
        if t.op in ("zeros", "ones", "uninit"):
            return t.a[0] if t.a[0].op == "tuple" else tup1(t.a[0])
        if t.op == "full":
            return t.a[0] if t.a[0].op == "tuple" else tup1(t.a[0])
        if t.op in ("upd", "updincr"):
            return self.shape(st, t.a[0])
        if t.op == "sub":
            b = self.shape(st, t.a[0])
            if b is None:
                return None
            out = []
            for d, s in zip(b.a, t.a[1:]):
                if s.op == "slice":
                    lo, hi = s.a
                    hi = d if hi is NONE else hi
                    lo = ZERO if lo is NONE else lo
                    if is_num(hi) and hi.a[0] < 0:
                        hi = add(d, hi)
                    out.append(sub(hi, lo))
            out += b.a[len(t.a) - 1:]
            return mk("tuple", *out)
        if t.op == "attr" and t.a[1] == "P" and t.a[0].op in ("sym", "attr"):
            return mk("tuple", mk("attr", t.a[0], "C"), mk("attr", t.a[0], "N"))
        if t.op == "T":
            b = self.shape(st, t.a[0])
            return mk("tuple", *reversed(b.a)) if b is not None else None
        if t.op == "sym" and t.a[1] == "vec":
            return mk("tuple", mk("len", t))
        if t.op == "poly":
            for m, c in t.a[0]:
                for x in m:
                    s = self.shape(st, x)
                    if s is not None:
                        return s
            return None
        if t.op == "hstack":
            ss = [self.shape(st, x) for x in t.a]
            if any(s is None for s in ss):
                return None
            cols = ZERO
            for s in ss:
                cols = add(cols, s.a[1] if len(s.a) > 1 else ONE)
            return mk("tuple", ss[0].a[0], cols)
        if t.op == "vstack":
            ss = [self.shape(st, x) for x in t.a]
            if any(s is None for s in ss):
                return None
            rows = ZERO
            for s in ss:
                rows = add(rows, s.a[0] if len(s.a) > 1 else ONE)
            two = [s for s in ss if len(s.a) > 1]
            return mk("tuple", rows, two[0].a[1] if two else ss[0].a[0])
        if t.op == "resize":
            return t.a[1] if t.a[1].op == "tuple" else tup1(t.a[1])
        if t.op == "ite":
            a, b = self.shape(st, t.a[1]), self.shape(st, t.a[2])
            return a if a is b else None
        if t.op == "getcol":
            s = self.shape(st, t.a[0])
            return mk("tuple", s.a[0], ONE) if s is not None else None
        if t.op == "dot":
            a = self.shape(st, t.a[0])
            return tup1(a.a[0]) if a is not None else None
        return None

    # ------------------------------------------------------------------ reads and writes on containers
    def subscript(self, st, base, k, node):
        k = self.normidx(st, base, k)
        if base.op == "ite":
            return ite(base.a[0], self.subscript(st, base.a[1], k, node), self.subscript(st, base.a[2], k, node))
        if base.op == "ref":
            o = self.obj(st, base)
            if o is None:
                return get(base, k)
            if o.kind == "inst":
                f = self.repo.find_method(o.cls, "__getitem__")
                if f is not None:
                    return self.call_func(st, f, [base, k], {}, node)
            return self.read(st, base, o, k, node)
        if base.op == "inv" and base.a[0].op == "ref":
            return self.read_inv(st, base.a[0], k, node)
        if base.op == "tuple" and is_c(k) and isinstance(k.a[0], int):
            return item(base, k.a[0])
        if base.op in ("tuple", "list") and k.op == "slice" and base.op == "tuple" and all(x is NONE or is_num(x) for x in k.a):
            lo, hi = [None if x is NONE else x.a[0] for x in k.a]
            return mk("tuple", *base.a[lo:hi])
        if k.op == "slice" or (k.op == "tuple" and any(x.op == "slice" for x in k.a)):
            return self.slice(st, base, k)
        if base.op == "list" and len(base.a) == 1 and base.a[0].op == "for":
            doms, g, v = base.a[0].a
            if len(doms) == 1 and g is TRUE and doms[0].op == "range" and doms[0].a[0] is ZERO:
                bvs = tm.own_bvs(base.a[0], True)
                return subst(v, {bvs[0]: k} if bvs else {})
        if base.op == "list" and is_c(k) and isinstance(k.a[0], int) and all(x.op not in ("for", "base") for x in base.a) and -len(base.a) <= k.a[0] < len(base.a):
            return base.a[k.a[0]]
        if base.op in ("item", "pairof", "nth", "it") and is_c(k) and isinstance(k.a[0], int):
            return item(base, k.a[0])
        if base.op == "get" and base.a[0].op == "inv" and is_c(k) and isinstance(k.a[0], int):
            return item(base, k.a[0])
        if base.op == "attr" and base.a[1] == "shape" and is_c(k):
            return item(base, k.a[0])
        if base.op in ("upd", "updincr"):
            ce = base.a[1]
            if ce.op == "tuple":
                c = eq(ce.a[0], k)
                if c is TRUE:
                    return ce.a[1] if base.op == "upd" else add(ce.a[1], self.subscript(st, base.a[0], k, node))
                if c is FALSE:
                    return self.subscript(st, base.a[0], k, node)
        if base.op == "repeat" and base.a[0].op == "list" and len(base.a[0].a) == 1:
            return base.a[0].a[0]
        if base.op == "resize":
            # positions below the old size are unchanged
            return mk("get", base, k)
        if base.op in ("zeros", "ones", "full"):
            return get(base, k)
        if base.op == "empty":
            return self.unknown("element of empty default")
        return get(base, k)

    def slice(self, st, base, k):
        ks = k.a if k.op == "tuple" else (k,)
        if k.op == "slice" and all(x is NONE or is_num(x) for x in k.a):
            o = self.obj(st, base) if base.op == "ref" else None
            if o is not None and o.kind == "list" and len(o.log) <= 12:
                xs = self.concrete(st, base)
                if xs is not None and xs:
                    return mk("tuple", *xs[slice(*[None if x is NONE else int(x.a[0]) for x in k.a])])
        fr = self.freeze(st, base) if base.op == "ref" else base
        sh = self.shape(st, base)
        norm = []
        for i, x in enumerate(ks):
            if x.op == "slice":
                lo, hi = x.a
                if lo is ZERO:
                    lo = NONE
                if sh is not None and i < len(sh.a):
                    d = sh.a[i]
                    if hi is not NONE and is_num(hi) and hi.a[0] < 0:
                        hi = add(d, hi)
                    if hi is d:
                        hi = NONE
                x = mk("slice", lo, hi)
            norm.append(x)
        while norm and norm[-1].op == "slice" and norm[-1].a[0] is NONE and norm[-1].a[1] is NONE:
            norm.pop()
        if not norm:
            return fr
        if fr.op == "sub" and len(norm) == 1 and len(fr.a) == 2 and norm[0].op == "slice" and norm[0].a[0] is NONE and fr.a[1].a[0] is NONE:
            return mk("sub", fr.a[0], norm[0])
        if fr.op in ("zeros", "ones") and all(x.op == "slice" for x in norm) and fr.a[0].op != "tuple":
            s = self.shape(st, mk("sub", fr, *norm))
            if s is not None:
                return mk(fr.op, s.a[0])
        return mk("sub", fr, *norm)

    def read(self, st, ref, o, k, node):
        if k.op == "slice" or (k.op == "tuple" and any(x.op == "slice" for x in k.a)):
            if o.kind in ("arr", "list"):
                return self.slice(st, ref, k)
            return self.unknown("slice")
        if o.kind in ("dict", "ddict") and o.base is None and not is_c(k) and 0 < len(o.log) <= 12:
            # a table with constant keys
            tab = {}
            for e in o.log:
                if e.op != "set" or [b for b in e.binders if b not in st.binders] or [l for l in e.guard if l not in st.path]:
                    tab = None
                    break
                if not (is_c(e.key) or e.key.op in ("class", "extf")):
                    tab = None
                    break
                tab[e.key] = e.val
            if tab:
                if set(tab) == {TRUE, FALSE}:
                    return ite(self.known(st, truth(k)), tab[TRUE], tab[FALSE])
                ks = list(tab)
                r = tab[ks[-1]]
                for kk in reversed(ks[:-1]):
                    r = ite(self.known(st, eq(k, kk)), tab[kk], r)
                return r
        return self._read(st, ref, o, k, len(o.log) - 1, node)

    def _read(self, st, ref, o, k, i, node):
        sets = [e for e in o.log if e.op == "set"]
        while i >= 0:
            e = o.log[i]
            i -= 1
            if e.op == "prev":
                if o.kind == "arr":
                    return mk("cur", ref, C(len(o.log)), k)
                return self.slot(st, ref, o, k)
            bs = [b for b in e.binders if b not in st.binders]
            g = band(*[l for l in e.guard if l not in st.path])
            if e.op in ("set", "incr"):
                if not bs:
                    c = self.known(st, eq(e.key, k))
                    if c is FALSE:
                        continue
                    g2 = self.known(st, band(g, c))
                    if e.op == "incr":
                        return add(self._read(st, ref, o, k, i, node), ite(g2, e.val, ZERO))
                    if g2 is TRUE:
                        return e.val
                    if o.kind == "arr":
                        return ite(g2, e.val, self._read(st, ref, o, k, i, node))
                    if len(sets) == 1 and o.base is None and not any(x.op == "prev" for x in o.log):
                        return subst_eq(e.val, e.key, k) if c is TRUE else self.slot(st, ref, o, k)
                    return self.slot(st, ref, o, k)
                s = self.match(e, k, bs, st=st)
                if s is None and o.kind in ("dict", "bidict") and len(sets) == 1 and o.base is None and len(o.log) == 1:
                    v = subst(e.val, {e.key: k})
                    if e.val.op != "ref" and not (atoms(v) & {a for b in bs for a in b.atoms}):
                        return v
                if s is None:
                    if e.op == "incr" and o.kind == "arr":
                        rest = self._read(st, ref, o, k, i, node)
                        gg = band(g, eq(e.key, k))
                        return add(rest, self.close_sum(tuple(bs), gg, e.val))
                    if o.kind == "arr" and e.op == "set":
                        cs = eq(e.key, k)
                        if cs is FALSE:
                            continue
                    return self.slot(st, ref, o, k)
                val, guard = s(e.val), self.known(st, s(band(*[l for l in e.guard if l not in st.path])))
                if e.op == "incr":
                    rest = self._read(st, ref, o, k, i, node)
                    return add(rest, ite(guard, val, ZERO))
                if o.kind == "arr":
                    if guard is TRUE:
                        return val
                    return ite(guard, val, self._read(st, ref, o, k, i, node))
                if len(sets) == 1 and o.base is None:
                    return val
                if guard is TRUE:
                    return val
                return self.slot(st, ref, o, k)
            if e.op in ("add2", "del", "update", "delinv"):
                if e.op == "add2":
                    return self.slot(st, ref, o, k)
                if e.op in ("delinv", "del"):
                    continue
                return self.slot(st, ref, o, k)
            if e.op == "append":
                # list: position known only for concretely built lists
                conc = self.concrete(st, ref)
                if conc is not None and is_c(k) and isinstance(k.a[0], int) and -len(conc) <= k.a[0] < len(conc):
                    return conc[k.a[0]]
                if all(x.op == "append" for x in o.log) and len(o.log) == 1 and o.base is None:
                    f = self.freeze(st, ref)
                    if f.op == "list" and f.a[0].op == "for":
                        return self.subscript(st, f, k, node) if f.a[0].a[1] is TRUE and len(f.a[0].a[0]) == 1 and f.a[0].a[0][0].op == "range" \
                            and f.a[0].a[0][0].a[0] is ZERO else mk("get", ref, k)
                return mk("get", ref, k)
            return mk("get", ref, k)
        if o.base is not None:
            return self.subscript(st, o.base, k, node) if o.base.op != "ref" else self.subscript(st, o.base, k, node)
        if o.kind == "ddict":
            return self.slot(st, ref, o, k)
        if o.kind == "dict" and is_c(k) and all(e.op in ("set", "del") and is_c(e.key) for e in o.log):
            self.event("missing", k.a[0], (ref, k), {}, st, node)
        return self.unknown("missing key")

    def slot(self, st, ref, o, k):
        if o.kind == "ddict" or any(e.op == "add2" for e in o.log):
            return mk("slot", ref, k)
        return get(ref, k)

    def match(self, e, k, bs, pattern=None, st=None):
        """substitution that solves  e.key == k  for the entry's bound variables, or None"""
        pat = e.key if pattern is None else pattern
        own = {a for b in bs for a in b.atoms}
        pairs = []

        def go(p, t):
            if p.op == "tuple":
                for i, x in enumerate(p.a):
                    go(x, item(t, i))
                return
            pairs.append((p, t))
            if p.op == "get":
                if p.a[0].op in ("rankmap", "inv", "attr", "ref", "sym") and (atoms(p.a[1]) & own):
                    go(p.a[1], get(inv(p.a[0]), t))
            elif p.op == "poly":
                vs = [(m, c) for m, c in p.a[0] if any(atoms(x) & own for x in m)]
                if len(vs) == 1 and len(vs[0][0]) == 1 and vs[0][1] in (1, -1):
                    x, c = vs[0][0][0], vs[0][1]
                    rest = sub(p, mul(C(c), x))
                    go(x, mul(C(c), sub(t, rest)))
        go(pat, k)
        # both components of a pair
        parts = {}
        for p, t in pairs:
            if p.op == "item" and (atoms(p) & own):
                parts.setdefault(p.a[0], {}).setdefault(p.a[1], t)
        for p, c in parts.items():
            if set(c) == {0, 1} and p.op == "get" and p.a[0].op == "inv":
                x = tup(c[0], c[1])
                go(p, c[0].a[0] if c[0].op == "item" and c[1].op == "item" and c[0].a[0] is c[1].a[0] and (c[0].a[1], c[1].a[1]) == (0, 1) else x)
        m = {}
        for p, t in pairs:
            if atoms(p) & own:
                m.setdefault(p, t)

        def s(x):
            return self.relocate(st, x, m) if st is not None else subst(x, m)
        need = set()
        for x in (e.val if pattern is None else e.key, band(*e.guard)):
            r = s(x)
            if atoms(r) & own:
                # domain facts of the binders may keep the atom: ignore those
                if x is e.val or x is e.key:
                    return None
                lits = e.guard
                for l in lits:
                    if atoms(s(l)) & own and not self.domain_fact(l, bs):
                        return None
        if not (atoms(s(e.val if pattern is None else e.key)) & own):
            def s2(x):
                if x.op == "and" or tm.is_bool(x):
                    lits = x.a if x.op == "and" else (x,)
                    return band(*[s(l) for l in lits if not (self.domain_fact(l, bs) and (atoms(s(l)) & own))])
                return s(x)
            return s2
        return None

    def read_inv(self, st, ref, v, node):
        o = self.obj(st, ref)
        if o is None:
            return get(inv(ref), v)
        sets = [e for e in o.log if e.op == "set"]
        if any(e.op == "prev" for e in o.log):
            return get(inv(ref), v)
        cands = []
        for e in reversed(o.log):
            if e.op in ("del", "delinv"):
                continue
            if e.op != "set":
                return get(inv(ref), v)
            bs = [b for b in e.binders if b not in st.binders]
            if not bs:
                c = self.known(st, eq(e.val, v))
                if c is TRUE:
                    return e.key
                if c is FALSE:
                    continue
                cands.append(None)
                continue
            s = self.match(e, v, bs, pattern=e.val, st=st)
            cands.append(s(e.key) if s is not None else None)
        if o.base is None:
            if len(cands) == 1 and cands[0] is not None:
                return cands[0]
            # several entries: constants excluded by range reasoning are the special (appended) ones
            gen = [c for c in cands if c is not None]
            return get(inv(ref), v)
        if not cands:
            return self.subscript(st, inv(o.base), v, node) if o.base.op == "ref" else get(inv(o.base), v)
        return get(inv(ref), v)

    def normidx(self, st, base, k):
        """negative constant indices of arrays with known shape count from the end"""
        def neg_(x):
            return is_num(x) and x.a[0] < 0
        ks = k.a if k.op == "tuple" else (k,)
        if not any(neg_(x) or (x.op == "slice" and (neg_(x.a[0]) or neg_(x.a[1]))) for x in ks):
            return k
        o = self.obj(st, base) if base.op == "ref" else None
        if o is not None and o.kind != "arr":
            return k
        sh = self.shape(st, base)
        if sh is None or len(ks) > len(sh.a):
            return k
        out = []
        for x, d in zip(ks, sh.a):
            if neg_(x):
                x = add(d, x)
            elif x.op == "slice":
                x = mk("slice", *[add(d, y) if neg_(y) else y for y in x.a])
            out.append(x)
        return mk("tuple", *out) if k.op == "tuple" else out[0]

    def store_sub(self, st, base, k, v, node):
        k = self.normidx(st, base, k)
        if base.op == "ref":
            o = self.obj(st, base)
            if o.kind == "inst":
                f = self.repo.find_method(o.cls, "__setitem__")
                if f is not None:
                    self.call_func(st, f, [base, k, v], {}, node)
                    return
            if o.kind == "list" and is_num(k) and not self.mute:
                # an element of a list that is known element by element
                xs = self.concrete(st, base)
                if xs is not None and 0 <= k.a[0] < len(xs) and not [b for b in st.binders if b not in o.binders] and not [l for l in st.path if l not in o.path0]:
                    o = o.copy()
                    e = o.log[int(k.a[0])]
                    self.event("mutate", "setitem", (base, k, v), {}, st, node)
                    import copy as _c
                    e = _c.copy(e)
                    e.val = v
                    o.log = o.log[:int(k.a[0])] + type(o.log)([e]) + o.log[int(k.a[0]) + 1:]
                    st.heap = dict(st.heap)
                    st.heap[base.a[0]] = o
                    return
            self.log(st, base, "set", k, v, node)
            return
        if base.op == "ite":
            for c, b in ((base.a[0], base.a[1]), (bnot(base.a[0]), base.a[2])):
                if b.op == "ref":
                    x = st.fork()
                    self.assume(x, c)
                    self.log(x, b, "set", k, v, node)
                    st.heap = x.heap
                elif not is_c(b):
                    self.event("mutate", "setitem", (b, k, v), {}, st, node)
            return
        if base.op == "slot":
            self.log(st, base.a[0], "setsub", tup(base.a[1], k), v, node)
            return
        self.event("mutate", "setitem", (base, k, v), {}, st, node)

    def extend(self, st, ref, other, node):
        o = self.obj(st, ref)
        op = "append" if o.kind in ("list", "gen") else "add"

        def bind(x, v):
            x.env["$el"] = v

        def body(x):
            v = x.env["$el"]
            if op == "append":
                self.log(x, ref, "append", NONE, v, node)
            else:
                self.log(x, ref, "add", v, NONE, node)
            return x
        r = self.loop(st, other, bind, body, node)
        if r is not None:
            st.heap, st.path = r.heap, r.path
        st.env.pop("$el", None)

    # ------------------------------------------------------------------ assignment
    def stored(self, fr):
        """local names of the function some of whose elements are assigned"""
        fn = getattr(fr, "fn", None)
        if fn is None:
            return ()
        r = self.stored_names.get(fn.uid)
        if r is None:
            r = set()
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                    r.add(n.value.id)
            self.stored_names[fn.uid] = r
        return r

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            if v.op in ("m", "ext") and t.id in self.stored(self.frames[-1]):
                # the result of a call whose elements are assigned later
                v = self.alloc(st, "arr", node, base=v)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, self.unknown("starred"), st, node)
                return
            conc = None
            if v.op == "ref" or v.op == "list":
                conc = self.concrete(st, v)
            for i, x in enumerate(t.elts):
                self.assign(x, conc[i] if conc is not None and i < len(conc) else self.unpack(st, v, i), st, node)
        elif isinstance(t, ast.Attribute):
            base = self.eval(self.deref(t.value), st)
            name = self.mangle(t.attr)
            self.setattr(st, base, name, v, node)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            k = self.eval_index(t.slice, st)
            self.store_sub(st, base, k, v, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.unknown("starred"), st, node)

    def unpack(self, st, v, i):
        if v.op == "attr" and v.a[1] == "shape":
            s = self.shape(st, v.a[0])
            if s is not None:
                return item(s, i)
        if v.op == "ite":
            return ite(v.a[0], self.unpack(st, v.a[1], i), self.unpack(st, v.a[2], i))
        return item(v, i)

    def setattr(self, st, base, name, v, node):
        o = self.obj(st, base)
        if o is not None and o.kind in ("inst", "model"):
            o = o.copy()
            o.attrs[name] = v
            st.heap[base.a[0]] = o
            self.event("setattr", name, (base, v), {}, st, node)
            # property setters
            return
        self.event("mutate", "setattr:" + name, (base, v), {}, st, node)

    def mangle(self, name):
        fr = self.frames[-1]
        if name.startswith("__") and not name.endswith("__") and fr.cls is not None:
            return "_%s%s" % (fr.cls.name.lstrip("_"), name)
        return name


def cases_of(t, mu, g=()):
    """([(conditions, value)] of the cases in which t is not mu, [conditions of the others])"""
    if t is mu:
        return [], [g]
    if t.op == "ite":
        a, b = cases_of(t.a[1], mu, g + (t.a[0],)), cases_of(t.a[2], mu, g + (bnot(t.a[0]),))
        return a[0] + b[0], a[1] + b[1]
    return [(g, t)], []


def tup1(x):
    return mk("tuple", x)


def subst_eq(v, a, b):
    return subst(v, {a: b})


def _has_break(body):
    def walk(ss):
        for s in ss:
            if isinstance(s, ast.Break):
                return True
            if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                if isinstance(s, (ast.For, ast.While)) and walk(s.orelse):
                    return True
                continue
            for f in ("body", "orelse", "finalbody"):
                if walk(getattr(s, f, []) or []):
                    return True
            for h in getattr(s, "handlers", []) or []:
                if walk(h.body):
                    return True
        return False
    return walk(body)
