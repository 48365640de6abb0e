"""Front end: loads the current sources of the repository, resolves names, classes and methods.

Python modules are parsed with `ast`; Cython modules are parsed with Cython's own parser and
translated to `ast` trees by pyx.py (C declarations become annotated assignments, casts become calls)."""
import ast
import os
import itertools
import builtins
import hashlib


class AnchorMissing(Exception):
    """a public name the property talks about does not exist (any more)"""


class FuncInfo:
    def __init__(self, uid, qual, node, module, cls):
        self.uid, self.qual, self.node, self.module, self.cls = uid, qual, node, module, cls
        self.name = getattr(node, "name", "<lambda>")
        self.closure = None
        self.is_generator = (not isinstance(node, ast.Lambda)) and _has_yield(node)
        decos = [_dotted(d) for d in getattr(node, "decorator_list", [])]
        self.decos = decos
        last = [d.split(".")[-1] for d in decos]
        self.kind = "static" if "staticmethod" in last else "class" if ("classmethod" in last or "abstractclassmethod" in last) \
            else "property" if ("property" in last or "abstractproperty" in last) else \
            "setter" if "setter" in last else "method" if cls is not None else "func"
        self.abstract = any(x.startswith("abstract") for x in last)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def __repr__(self):
        return "<fn %s>" % self.qual


def _dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return _dotted(e.value) + "." + e.attr
    if isinstance(e, ast.Call):
        return _dotted(e.func)
    return "?"


def _has_yield(node):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                if isinstance(c, ast.GeneratorExp):
                    continue
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(c):
                return True
        return False
    return walk(node)


class ClassInfo:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module, self.name = qual, node, module, node.name
        self.methods, self.attrs = {}, {}
        self.bases = []

    def __repr__(self):
        return "<class %s>" % self.qual


class Module:
    def __init__(self, name, path, tree, src, is_pkg, is_pyx):
        self.name, self.path, self.tree, self.src, self.is_pkg, self.is_pyx = name, path, tree, src, is_pkg, is_pyx
        self.names = {}

    def __repr__(self):
        return "<module %s>" % self.name


class Repo:
    def __init__(self, root="/repo", with_pyx=True, with_tests=False):
        self.root = root
        self.modules, self.funcs, self.classes, self.by_uid = {}, {}, {}, {}
        self.uids = itertools.count(1)
        self._local = {}
        self.errors = []
        files = []
        for d, dirs, fs in os.walk(os.path.join(root, "switss")):
            dirs.sort()
            if "__pycache__" in d or (not with_tests and os.path.basename(d) == "test"):
                continue
            for f in sorted(fs):
                if f.endswith(".py") or (with_pyx and f.endswith(".pyx")):
                    files.append(os.path.join(d, f))
        cli = os.path.join(root, "bin", "switss")
        if os.path.exists(cli):
            files.append(cli)
        for p in files:
            self.load(p)
        for m in self.modules.values():
            self.collect(m)
        for c in self.classes.values():
            for b in c.node.bases:
                c.bases.append(self.resolve_expr(b, c.module))

    def load(self, path):
        rel = os.path.relpath(path, self.root)
        src = open(path, encoding="utf-8").read()
        name = rel.replace("/", ".")
        is_pyx = path.endswith(".pyx")
        is_pkg = False
        for suf in (".pyx", ".py"):
            if name.endswith(suf):
                name = name[:-len(suf)]
        if name.endswith(".__init__"):
            name, is_pkg = name[:-9], True
        if is_pyx:
            from . import pyx
            tree = pyx.parse(path, self.root)
        else:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(src, path)
        self.modules[name] = Module(name, rel, tree, src, is_pkg, is_pyx)

    def _stmts(self, body):
        for s in body:
            yield s
            for f in ("body", "orelse", "finalbody"):
                if isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    yield from self._stmts(getattr(s, f, []) or [])
            for h in getattr(s, "handlers", []) or []:
                yield from self._stmts(h.body)

    def collect(self, m):
        for s in self._stmts(m.tree.body):
            if isinstance(s, ast.FunctionDef):
                fi = self.newfunc(m.name + "." + s.name, s, m, None)
                self.funcs[fi.qual] = fi
                m.names[s.name] = ("func", fi)
            elif isinstance(s, ast.ClassDef):
                ci = ClassInfo(m.name + "." + s.name, s, m)
                self.classes[ci.qual] = ci
                m.names[s.name] = ("class", ci)
                for x in s.body:
                    if isinstance(x, ast.FunctionDef):
                        fi = self.newfunc(ci.qual + "." + x.name, x, m, ci)
                        if fi.kind == "setter":
                            continue
                        ci.methods[x.name] = fi
                        self.funcs[fi.qual] = fi
                    elif isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Name):
                                ci.attrs[t.id] = x.value
                    elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                        ci.attrs[x.target.id] = x.value
            elif isinstance(s, ast.Import):
                for a in s.names:
                    m.names[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == "*":
                        m.names.setdefault("*", []).append(base)
                    else:
                        m.names[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            m.names[x.id] = ("assign", s, x.id)
            elif isinstance(s, (ast.AnnAssign,)) and isinstance(s.target, ast.Name):
                m.names[s.target.id] = ("assign", s, s.target.id)
            elif isinstance(s, ast.With):
                pass

    def newfunc(self, qual, node, module, cls):
        fi = FuncInfo(next(self.uids), qual, node, module, cls)
        self.by_uid[fi.uid] = fi
        return fi

    def local_func(self, node, module, cls, funcqual):
        # cls None: a nested function is not a method (only for name mangling)
        k = (id(node), next(self.uids))
        fi = FuncInfo(next(self.uids), "%s.<locals>.%s" % (funcqual, getattr(node, "name", "<lambda>")), node, module, cls)
        fi.kind = "func"
        self.by_uid[fi.uid] = fi
        return fi

    # ---- resolution: returns ("func",fi) ("class",ci) ("mod",name) ("ext",dotted) ("assign",node,id) or None
    def resolve(self, m, name, seen=()):
        b = m.names.get(name)
        if b is None or name == "*":
            for base in m.names.get("*", []):
                if base in self.modules and (base, name) not in seen:
                    r = self.resolve(self.modules[base], name, seen + ((base, name),))
                    if r is not None:
                        return r
            if m.is_pkg and (m.name + "." + name) in self.modules and name != "*":
                return ("mod", m.name + "." + name)
            return None
        if b[0] == "import":
            base, attr = b[1], b[2]
            if attr is None:
                return ("mod", base) if base in self.modules else ("ext", base)
            return self.resolve_attr(base, attr, seen + ((m.name, name),))
        if b[0] == "assign":
            return ("assign", b[1], b[2], m)
        return b

    def resolve_attr(self, base, attr, seen=()):
        if base in self.modules:
            if (base, attr) in seen:
                sub = base + "." + attr
                return ("mod", sub) if sub in self.modules else None
            r = self.resolve(self.modules[base], attr, seen + ((base, attr),))
            if r is not None:
                return r
            if base + "." + attr in self.modules:
                return ("mod", base + "." + attr)
            return None
        return ("ext", base + "." + attr)

    def resolve_expr(self, e, m):
        if isinstance(e, ast.Name):
            r = self.resolve(m, e.id)
            if r is None and hasattr(builtins, e.id):
                return ("ext", "builtins." + e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value, m)
            if b is None:
                return None
            if b[0] == "mod":
                return self.resolve_attr(b[1], e.attr)
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if b[0] == "class":
                f = self.find_method(b[1], e.attr)
                return ("func", f) if f else None
        return None

    def mro(self, ci):
        out, todo = [], [ci]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo += [b[1] for b in c.bases if b and b[0] == "class"]
        return out

    def ext_bases(self, ci):
        return [b[1] for c in self.mro(ci) for b in c.bases if b and b[0] == "ext"] + [None for c in self.mro(ci) for b in c.bases if b is None]

    def find_method(self, ci, name, after=None):
        m = self.mro(ci)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if name in c.methods:
                return c.methods[name]
            pre = "_%s__" % c.name.lstrip("_")
            if name.startswith(pre) and name[len(pre) - 2:] in c.methods:
                return c.methods[name[len(pre) - 2:]]
        return None

    def subclasses(self, ci):
        return [c for c in self.classes.values() if ci in self.mro(c)]

    def cls(self, name):
        r = [c for c in self.classes.values() if c.qual == name or c.name == name]
        if not r:
            raise AnchorMissing("class %s" % name)
        return r[0]

    def func(self, qual):
        """function by qualified name; `Class.method` looks through base classes"""
        if qual in self.funcs:
            return self.funcs[qual]
        if "." in qual:
            c, n = qual.rsplit(".", 1)
            cs = [k for k in self.classes.values() if k.qual == c or k.name == c]
            for k in cs:
                f = self.find_method(k, n)
                if f is not None:
                    return f
            mods = [x for x in self.modules if x == c or x.endswith("." + c)]
            for mname in mods:
                r = self.resolve(self.modules[mname], n)
                if r is not None and r[0] == "func":
                    return r[1]
        else:
            r = [f for f in self.funcs.values() if f.name == qual and f.cls is None]
            if r:
                return r[0]
        raise AnchorMissing(qual)

    def maybe(self, qual):
        try:
            return self.func(qual)
        except AnchorMissing:
            return None

    def private(self, cls, name):
        """a name-mangled private method of a class"""
        return cls.methods.get(name)

    def tree_hash(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]
