"""C18: files and processes are touched only where documented.

R1  places that open files for writing, start processes, delete, rename or create files and directories lie in operations that are documented to do
    so (save, prism_to_tra, from_prism_model, the benchmarks' run, the commands rf, minimize, subsystem and render); no other public operation
    reaches them, no import runs them.
R2  the path written to begins with a path the operation was given (or one of a temporary file); followed through assignments, string and path
    operations and the callers inside the library.
R3  every file that is opened is closed on every path, and temporary files are removed.
R4  processes: the program is prism, its arguments are a list, no shell."""
import ast
import multiprocessing
from .common import *
from .api import *
from . import c09, c13

OPEN = {"builtins.open", "io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open", "os.fdopen", "tokenize.open", "zipfile.ZipFile", "tarfile.open", "gzip.GzipFile"}
TEMP = {"tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "tempfile.SpooledTemporaryFile", "tempfile.TemporaryDirectory"}
LEFT = {"tempfile.mkdtemp", "tempfile.mkstemp", "tempfile.mktemp"}
# name -> position of the path that is written
WRITE = {"os.open": 0, "os.mkdir": 0, "os.makedirs": 0, "os.mkfifo": 0, "os.mknod": 0, "os.truncate": 0, "os.chmod": 0, "os.symlink": 1, "os.link": 1, "shutil.copy": 1, "shutil.copy2": 1,
         "shutil.copyfile": 1, "shutil.copytree": 1, "shutil.make_archive": 0, "numpy.save": 0, "numpy.savez": 0, "numpy.savez_compressed": 0, "numpy.savetxt": 0,
         "scipy.sparse.save_npz": 1 - 1, "scipy.io.mmwrite": 0, "scipy.io.savemat": 0, "matplotlib.pyplot.savefig": 0, "logging.FileHandler": 0, "shelve.open": 0,
         "dbm.open": 0, "sqlite3.connect": 0, "pathlib.Path.write_text": 0, "networkx.write_gpickle": 1, "matplotlib.backends.backend_pdf.PdfPages": 0}
RENAME = {"os.rename": (0, 1), "os.replace": (0, 1), "os.renames": (0, 1), "shutil.move": (0, 1)}
DELETE = {"os.remove", "os.unlink", "os.rmdir", "os.removedirs", "shutil.rmtree"}
SHELL = {"os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput", "commands.getoutput", "asyncio.create_subprocess_shell", "pty.spawn"}
PROCESS = {"subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen", "asyncio.create_subprocess_exec"}
OTHER = {"os.fork", "os.forkpty", "os.posix_spawn", "os.posix_spawnp", "os.startfile", "os.kill", "webbrowser.open", "multiprocessing.Process", "multiprocessing.Pool",
         "concurrent.futures.ProcessPoolExecutor", "os.execv", "os.execve", "os.execvp", "os.execvpe", "os.execl", "os.execle", "os.execlp", "os.execlpe", "os.spawnv",
         "os.spawnve", "os.spawnvp", "os.spawnl", "os.spawnle", "os.spawnlp"}
NATIVE = {"fopen": "write", "freopen": "write", "fdopen": "write", "creat": "write", "open": "write", "mkstemp": "write", "tmpfile": "write", "remove": "delete", "unlink": "delete",
          "rename": "rename", "rmdir": "delete", "system": "shell", "popen": "shell", "fork": "process", "vfork": "process", "execv": "process", "execvp": "process", "execl": "process"}
# methods of objects whose type is not known
M_WRITE = {"write_text", "write_bytes", "touch", "mkdir", "savefig", "tofile", "writeLP", "writeMPS", "to_csv", "to_pickle", "symlink_to", "hardlink_to", "toJson", "to_json"}
M_DELETE = {"unlink", "rmdir"}
# public operations documented to write
WRITERS = {"save", "prism_to_tra", "from_prism_model", "run", "rfargs", "minargs", "subsysargs", "renderargs"}
READERS = {"infoargs", "certargs"}


class Site:
    def __init__(self, kind, name, node, module, fn, qual, path=None, old=None):
        self.kind, self.name, self.node, self.module, self.fn, self.qual, self.path, self.old = kind, name, node, module, fn, qual, path, old
        self.entries = set()

    @property
    def con(self):
        return "%s: %s" % (self.qual, self.name)


def owned(fn):
    """nodes of a function or module body, without nested functions"""
    todo = [fn]
    first = True
    while todo:
        n = todo.pop()
        if not first and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and n is not fn:
            for d in list(getattr(n, "decorator_list", [])) + list(n.args.defaults) + [x for x in n.args.kw_defaults if x is not None]:
                todo.append(d)
            if isinstance(n, ast.Lambda):
                todo.append(n.body)
            continue
        first = False
        yield n
        todo += list(ast.iter_child_nodes(n))


def scopes(m):
    """(function node or module tree, qual, enclosing functions)"""
    out = [(m.tree, m.name, ())]

    def walk(n, q, up):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((c, q + "." + c.name, up))
                walk(c, q + "." + c.name, up + (c,))
            elif isinstance(c, ast.ClassDef):
                walk(c, q + "." + c.name, up)
            else:
                walk(c, q, up)
    walk(m.tree, m.name, ())
    return out


def params(fn):
    a = getattr(fn, "args", None)
    if a is None:
        return []
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x is not None]


class Scope:
    def __init__(self, repo, m, fn, qual, up):
        self.repo, self.m, self.fn, self.qual, self.up = repo, m, fn, qual, up
        self.params = params(fn)
        self.binds, self.imports = {}, {}
        for n in owned(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.bind(t, n.value)
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                self.bind(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                self.bind(n.target, ast.BinOp(left=ast.Name(id="", ctx=ast.Load()), op=n.op, right=n.value) if not isinstance(n.op, ast.Add) else None, keep=True)
            elif isinstance(n, (ast.For, ast.comprehension)):
                if isinstance(n.iter, (ast.List, ast.Tuple, ast.Set)) and n.iter.elts and not any(isinstance(x, ast.Starred) for x in n.iter.elts):
                    for x in n.iter.elts:
                        self.bind(n.target, x)
                else:
                    self.bind(n.target, None)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.bind(i.optional_vars, i.context_expr)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    self.imports[a.asname or a.name] = "%s.%s" % (n.module, a.name)
        if isinstance(fn, ast.Module):
            self.imports = {}

    def bind(self, t, v, keep=False):
        if isinstance(t, ast.Name):
            if keep and v is None:
                return              # x += ...: begins as before
            self.binds.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for x, y in zip(t.elts, v.elts):
                    self.bind(x, y)
            else:
                for x in t.elts:
                    self.bind(x.value if isinstance(x, ast.Starred) else x, None)


class World:
    def __init__(self, repo):
        self.repo = repo
        self.scopes = {}
        self.by_fn = {}
        for m in repo.modules.values():
            for fn, q, up in scopes(m):
                s = Scope(repo, m, fn, q, up)
                self.scopes[id(fn)] = s
        self.calls = {}
        for s in self.scopes.values():
            for n in owned(s.fn):
                if isinstance(n, ast.Call):
                    nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                    self.calls.setdefault(nm, []).append((n, s))

    def local(self, s, name):
        """the scope in which a name is a local, or None"""
        if not isinstance(s.fn, ast.Module) and (name in s.params or name in s.binds):
            return s
        for f in reversed(s.up):
            t = self.scopes[id(f)]
            if name in t.params or name in t.binds:
                return t
        return None

    def dotted(self, e, s):
        """full name of something outside of the repository"""
        if isinstance(e, ast.Name):
            for t in [s] + [self.scopes[id(f)] for f in reversed(s.up)]:
                if e.id in t.imports:
                    return t.imports[e.id]
            loc = self.local(s, e.id)
            if loc is not None:
                vs = loc.binds.get(e.id, [])
                if e.id not in loc.params and len(vs) == 1 and isinstance(vs[0], (ast.Name, ast.Attribute)):
                    return self.dotted(vs[0], loc) if not (isinstance(vs[0], ast.Name) and vs[0].id == e.id) else None
                return None
            r = self.repo.resolve_expr(e, s.m)
            if r is not None and r[0] == "assign" and isinstance(r[1], (ast.Name, ast.Attribute)):
                return self.dotted(r[1], self.scopes[id(r[3].tree)])
            return r[1] if r is not None and r[0] == "ext" else None
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value, s)
            if b is not None:
                return b + "." + e.attr
            r = self.repo.resolve_expr(e, s.m) if not self.mentions_local(e, s) else None
            return r[1] if r is not None and r[0] == "ext" else None
        return None

    def mentions_local(self, e, s):
        while isinstance(e, ast.Attribute):
            e = e.value
        return not isinstance(e, ast.Name) or self.local(s, e.id) is not None

    # ---- where a path comes from
    def lead(self, e, s, depth=0, seen=()):
        """set of what the beginning of a path may be: ("param", scope, name), ("args", name), ("const", text), ("tmp",), ("cwd", what), ("?", text)"""
        if id(e) in seen:
            return set()              # x = f(x): as before
        if e is None or depth > 25:
            return {("?", "")}
        seen = seen + (id(e),)
        go = lambda x, t=s: self.lead(x, t, depth + 1, seen)
        if isinstance(e, ast.Constant):
            return {("const", e.value)} if isinstance(e.value, str) and e.value else set() if e.value is None or e.value == "" else {("?", repr(e.value))}
        if isinstance(e, ast.JoinedStr):
            for v in e.values:
                return {("const", v.value)} if isinstance(v, ast.Constant) else go(v.value)
            return set()
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Div)):
            return go(e.left) or go(e.right)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
            f = e.left
            if isinstance(f, ast.Constant) and isinstance(f.value, str):
                if f.value.startswith("%s"):
                    return go(e.right.elts[0] if isinstance(e.right, ast.Tuple) and e.right.elts else e.right)
                return {("const", f.value)}
            return go(f)
        if isinstance(e, ast.IfExp):
            return go(e.body) | go(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[go(v) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return go(e.value)
        if isinstance(e, ast.Call):
            return self.lead_call(e, s, go)
        if isinstance(e, ast.Name):
            t = self.local(s, e.id)
            if t is not None:
                out = {("param", t, e.id)} if e.id in t.params else set()
                for v in t.binds.get(e.id, []):
                    out |= go(v, t)
                return out
            r = self.repo.resolve(s.m, e.id)
            if r is not None and r[0] == "assign":
                t = self.scopes[id(r[3].tree)]
                if isinstance(r[1], ast.Call) and self.dotted(r[1].func, t) and self.dotted(r[1].func, t).endswith("parse_args"):
                    return {("args", e.id)}
                return go(r[1], t)
            return {("?", e.id)}
        if isinstance(e, ast.Attribute):
            if e.attr == "environ":
                return {("cwd", "os.environ")}
            b = go(e.value) if not (isinstance(e.value, ast.Name) and e.value.id == "self") else set()
            if isinstance(e.value, ast.Name) and e.value.id == "self":
                out = set()
                for f, t in self.self_stores(s, e.attr):
                    out |= self.lead(f, t, depth + 1, seen)
                return out or {("?", "self." + e.attr)}
            if e.attr in ("name", "stem", "suffix") and b and all(x[0] in ("param", "args") for x in b) and isinstance(e.value, ast.Call) and (self.dotted(e.value.func, s) or "").startswith("pathlib."):
                return {("cwd", "the last part of a path")}
            if e.attr in ("parent", "parts", "name", "stem", "suffix"):
                return b
            if any(x[0] in ("param", "args", "tmp") for x in b):
                return b
            return b or {("?", ast.unparse(e))}
        if isinstance(e, ast.Subscript):
            d = self.dotted(e.value, s)
            if d == "os.environ":
                return {("cwd", "os.environ")}
            c, i = e.value, e.slice
            if isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.USub) and isinstance(i.operand, ast.Constant):
                i = ast.Constant(value=-i.operand.value)
            if isinstance(c, ast.Call) and isinstance(i, ast.Constant) and isinstance(i.value, int):
                d = self.dotted(c.func, s)
                meth = c.func.attr if isinstance(c.func, ast.Attribute) else None
                of = c.args[0] if d in ("os.path.split", "os.path.splitext", "os.path.splitdrive") and c.args else c.func.value if d is None and meth in ("split", "rsplit", "partition", "rpartition") else None
                if of is not None:
                    return go(of) if i.value == 0 else {("cwd", "a later part of a path")} if any(x[0] in ("param", "args") for x in go(of)) else {("?", ast.unparse(e)[:40])}
            return go(e.value)
        return {("?", ast.unparse(e)[:40])}

    def lead_call(self, e, s, go):
        d = self.dotted(e.func, s)
        a0 = e.args[0] if e.args else None
        if d in TEMP or d in LEFT:
            for k in e.keywords:
                if k.arg == "dir":
                    return go(k.value) or {("tmp",)}
            return {("tmp",)}
        if d in ("os.path.join", "builtins.str", "pathlib.Path", "pathlib.PurePath", "os.path.abspath", "os.path.normpath", "os.path.realpath", "os.fspath", "os.path.expanduser", "os.path.expandvars",
                 "os.path.dirname", "os.path.splitext", "builtins.open", "os.path.normcase", "io.open", "os.fsencode", "os.fsdecode"):
            return go(a0) if a0 is not None else {("cwd", d)}
        if d in ("os.getcwd", "os.getenv", "tempfile.gettempdir", "pathlib.Path.home", "pathlib.Path.cwd", "os.path.basename"):
            return {("cwd", d)}
        if d is not None and d.split(".")[0] in ("time", "datetime", "random", "uuid", "socket", "getpass"):
            return {("cwd", d)}
        if isinstance(e.func, ast.Attribute):
            if e.func.attr in ("format", "format_map"):
                f = e.func.value
                if isinstance(f, ast.Constant) and isinstance(f.value, str):
                    if f.value.startswith("{}") or f.value.startswith("{0"):
                        return go(a0) if a0 is not None else {("?", "")}
                    if f.value.startswith("{"):
                        n = f.value[1:].split("}")[0].split(":")[0].split("!")[0].split(".")[0]
                        for k in e.keywords:
                            if k.arg == n:
                                return go(k.value)
                        return {("?", "")}
                    return {("const", f.value)}
            if e.func.attr == "join" and isinstance(e.func.value, ast.Constant) and isinstance(a0, (ast.List, ast.Tuple)) and a0.elts:
                return go(a0.elts[0])
            if e.func.attr in ("format", "joinpath", "with_suffix", "with_name", "resolve", "absolute", "expanduser", "strip", "rstrip", "replace", "as_posix", "removesuffix", "encode", "decode", "lower"):
                return go(e.func.value)
        f = self.target(e, s)
        if f is not None:
            t = self.scopes.get(id(f.node))
            out = set()
            for n in owned(f.node):
                if isinstance(n, ast.Return) and n.value is not None and t is not None:
                    for x in go(n.value, t):
                        if x[0] == "param" and x[1] is t:
                            arg = self.argument(e, f, x[2], s)
                            out |= go(arg) if arg is not None else {("?", "")}
                        else:
                            out.add(x)
            return out or {("?", "")}
        return {("?", ast.unparse(e)[:40])}

    def target(self, call, s):
        r = self.repo.resolve_expr(call.func, s.m) if isinstance(call.func, (ast.Name, ast.Attribute)) and not self.mentions_local(call.func, s) else None
        if r is not None and r[0] == "func":
            return r[1]
        if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id in ("self", "cls"):
            for q, f in self.repo.funcs.items():
                if f.name == call.func.attr and f.module is s.m and f.cls is not None:
                    return f
        return None

    def argument(self, call, f, p, s):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        skip = 1 if f.cls is not None and f.kind != "static" else 0
        for k in call.keywords:
            if k.arg == p:
                return k.value
        if p in pos:
            i = pos.index(p) - skip
            if 0 <= i < len(call.args) and not any(isinstance(x, ast.Starred) for x in call.args[:i + 1]):
                return call.args[i]
            j = pos.index(p) - (len(pos) - len(a.defaults))
            if j >= 0 and not any(k.arg is None for k in call.keywords):
                return a.defaults[j]
        return None

    def self_stores(self, s, attr):
        """assignments to an attribute in the methods of the class"""
        q = s.qual.rsplit(".", 1)[0]
        for t in self.scopes.values():
            if t.qual.rsplit(".", 1)[0] == q and not isinstance(t.fn, ast.Module):
                for n in owned(t.fn):
                    if isinstance(n, ast.Assign):
                        for x in n.targets:
                            if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.value, ast.Name) and x.value.id == "self":
                                yield n.value, t


# ------------------------------------------------------------------------------------------------ the places

def mode_of(call, name):
    i = 1
    m = next((k.value for k in call.keywords if k.arg == "mode"), call.args[i] if len(call.args) > i else None)
    if m is None:
        return "r"
    if isinstance(m, ast.Constant) and isinstance(m.value, str):
        return m.value
    if isinstance(m, ast.IfExp) and all(isinstance(x, ast.Constant) for x in (m.body, m.orelse)):
        return "%s%s" % (m.body.value, m.orelse.value)
    return None


def pick(call, i, names=("path", "file", "filename", "fname", "dst", "name", "filepath")):
    if len(call.args) > i:
        return call.args[i]
    return next((k.value for k in call.keywords if k.arg in names), None)


def sites(w, s):
    out = []
    m = s.m
    for n in owned(s.fn):
        if not isinstance(n, ast.Call):
            continue
        d = w.dotted(n.func, s)
        add = lambda kind, name, path=None, old=None: out.append(Site(kind, name, n, m, s.fn, s.qual, path, old))
        if m.is_pyx:
            nm = n.func.id if isinstance(n.func, ast.Name) else None
            if nm in NATIVE and (d is None or d.startswith("libc") or d.startswith("posix") or not d.startswith("builtins")) and w.local(s, nm) is None and not repo_func(w.repo, m, nm):
                add(NATIVE[nm], nm)
                continue
        if d is None:
            a = n.func.attr if isinstance(n.func, ast.Attribute) else None
            if a in M_WRITE:
                add("write", "." + a, n.func.value if a in ("write_text", "write_bytes", "touch", "mkdir", "symlink_to", "hardlink_to") else pick(n, 0))
            elif a in M_DELETE:
                add("delete", "." + a, n.func.value)
            elif a == "open" and not w.repo.modules.get("x"):
                md = mode_of(ast.Call(func=n.func, args=[ast.Constant(value="")] + n.args, keywords=n.keywords), "open")
                add("open" if md is None or not set(md) & set("wax+") else "write", ".open", n.func.value)
            elif a in ("render", "save", "view") and digraph(w, n.func.value, s):
                if a == "view":
                    add("process", ".view")
                else:
                    add("write", ".%s of a graph" % a, pick(n, 0))
            elif a is not None and a.startswith("setParam") and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value in ("LogFile", "ResultFile"):
                add("write", "solver parameter %s" % n.args[0].value, pick(n, 1))
            continue
        if d in OPEN:
            md = mode_of(n, d)
            if d in ("os.fdopen",):
                add("open", d)
            elif md is None:
                add("maybe", d, pick(n, 0))
            else:
                add("write" if set(md) & set("wax+") else "open", d, pick(n, 0))
        elif d in TEMP:
            add("temp", d)
        elif d in LEFT:
            add("left", d)
        elif d in WRITE:
            add("write", d, pick(n, WRITE[d]))
        elif d in RENAME:
            add("rename", d, pick(n, 1), pick(n, 0))
        elif d in DELETE:
            add("delete", d, pick(n, 0))
        elif d in SHELL:
            add("shell", d)
        elif d in PROCESS:
            add("process", d, pick(n, 0, ("args",)))
        elif d in OTHER:
            add("process", d)
        elif d.startswith("pulp."):
            for k in n.keywords:
                if k.arg in ("keepFiles",) and not (isinstance(k.value, ast.Constant) and not k.value.value):
                    add("write", "%s(keepFiles)" % d)
                elif k.arg in ("logPath", "writeSolution", "warmStart") and not (isinstance(k.value, ast.Constant) and not k.value.value):
                    if k.arg == "logPath":
                        add("write", "%s(logPath)" % d, k.value)
        elif d.endswith((".write_text", ".write_bytes", ".touch")) and d.startswith("pathlib."):
            add("write", d)
    return out


def repo_func(repo, m, name):
    r = repo.resolve(m, name)
    return r is not None and r[0] in ("func", "class")


def digraph(w, e, s):
    """the expression is a graph of graphviz, as far as it shows"""
    if isinstance(e, ast.Name):
        t = w.local(s, e.id)
        if t is None:
            return False
        return any(v is not None and digraph(w, v, t) for v in t.binds.get(e.id, []))
    if isinstance(e, ast.IfExp):
        return digraph(w, e.body, s) or digraph(w, e.orelse, s)
    if isinstance(e, ast.Call):
        d = w.dotted(e.func, s)
        if d in ("graphviz.Digraph", "graphviz.Graph", "graphviz.Source"):
            return True
        return isinstance(e.func, ast.Attribute) and e.func.attr == "digraph"
    return False


# ------------------------------------------------------------------------------------------------ closing

def parents(tree):
    out = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            out[id(c)] = n
    return out


def closes(n, x, how):
    """the statement closes x"""
    for c in ast.walk(n):
        if isinstance(c, ast.Call):
            if isinstance(c.func, ast.Attribute) and c.func.attr in how and isinstance(c.func.value, ast.Name) and c.func.value.id == x:
                return True
            if any(isinstance(a, ast.Name) and a.id == x for a in c.args) and isinstance(c.func, ast.Attribute) and c.func.attr in ("enter_context", "push", "callback", "rmtree", "close", "unlink", "remove"):
                return True
            if isinstance(c.func, ast.Name) and c.func.id in ("rmtree", "closing") and any(isinstance(a, ast.Name) and a.id == x for a in c.args):
                return True
    return False


def released(call, pm, fn, how=("close", "cleanup", "__exit__")):
    """True: on every path; False: there is a path without; None: not known"""
    p = pm.get(id(call))
    n = call
    while isinstance(p, (ast.IfExp, ast.NamedExpr, ast.BoolOp)):
        n, p = p, pm.get(id(p))
    if isinstance(p, ast.withitem):
        return True
    if isinstance(p, ast.Call):
        f = p.func
        if isinstance(f, ast.Attribute) and f.attr in ("enter_context", "closing", "push") or isinstance(f, ast.Name) and f.id in ("closing", "ExitStack", "enter_context"):
            return True
        if isinstance(f, (ast.Name, ast.Attribute)) and n in p.args or n in [k.value for k in p.keywords]:
            # handed to another function that does not own it: json.load(open(path))
            nm = f.id if isinstance(f, ast.Name) else f.attr
            return False if nm in ("load", "loads", "dump", "list", "reader", "read", "copyfileobj", "map", "enumerate", "tuple", "iter", "print", "TextIOWrapper", "writer", "sum", "parse") else None
        return None
    if isinstance(p, ast.Attribute):
        return False              # open(path).read()
    if isinstance(p, (ast.For, ast.comprehension, ast.Expr)):
        return False
    if isinstance(p, (ast.Return, ast.Yield)):
        return None
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        x = p.targets[0].id
        body, i = block_of(p, pm)
        if body is None:
            return None
        return after(body[i + 1:], x, p, pm, how)
    return None


def block_of(s, pm):
    p = pm.get(id(s))
    for f in ("body", "orelse", "finalbody"):
        b = getattr(p, f, None)
        if isinstance(b, list) and any(x is s for x in b):
            return b, next(i for i, x in enumerate(b) if x is s)
    return None, 0


def uses_with(s, x):
    return isinstance(s, (ast.With, ast.AsyncWith)) and any(isinstance(i.context_expr, ast.Name) and i.context_expr.id == x or isinstance(i.context_expr, ast.Call)
                                                           and any(isinstance(a, ast.Name) and a.id == x for a in i.context_expr.args) and ast.unparse(i.context_expr.func).endswith("closing") for i in s.items)


def after(rest, x, s, pm, how):
    """the statements that follow the assignment"""
    r = flow(rest, x, how)
    if r in (True, None):
        return r
    if r == "escapes":
        return None
    # falls out of the block: in a try with a finally that closes it, or the statements behind the block
    up = pm.get(id(s))
    while up is not None and not isinstance(up, (ast.FunctionDef, ast.Module, ast.AsyncFunctionDef)):
        if isinstance(up, ast.Try) and any(closes(y, x, how) for y in up.finalbody):
            return True
        b, i = block_of(up, pm)
        if r == "falls" and b is not None:
            r = flow(b[i + 1:], x, how)
            if r in (True, None):
                return r
        up = pm.get(id(up))
    return False


def flow(body, x, how):
    """True closed whatever happens, None closed unless something raises, "leaves": a return before the close, "falls": end of the block reached"""
    risky = False
    for s in body:
        if uses_with(s, x):
            return None if risky else True
        if isinstance(s, ast.Try):
            if any(closes(y, x, how) for y in s.finalbody):
                return None if risky else True
            r = flow(s.body, x, how)
            if r in (True, None):
                return None
            if r == "leaves":
                return r
            risky = True
            continue
        if isinstance(s, ast.If):
            rs = [flow(s.body, x, how), flow(s.orelse, x, how)]
            if "leaves" in rs:
                return "leaves"
            if all(r in (True, None) for r in rs):
                return None
            risky = True
            continue
        if isinstance(s, ast.Return):
            return "escapes" if s.value is not None and any(isinstance(n, ast.Name) and n.id == x for n in [s.value]) else None if closes(s, x, how) else "leaves"
        if isinstance(s, (ast.For, ast.While)):
            if any(isinstance(n, ast.Return) for n in ast.walk(s)) and not closes(s, x, how):
                return "leaves"
            risky = True
            continue
        if isinstance(s, ast.With):
            r = flow(s.body, x, how)
            if r != "falls":
                return r
            risky = True
            continue
        if closes(s, x, how):
            return None if risky else True
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id == x:
            return "escapes"
        risky = True
    return "falls"


# ------------------------------------------------------------------------------------------------ who reaches a place

def reach(x):
    root, models, forms, specs, lines = x
    import sys
    sys.setrecursionlimit(20000)
    try:
        from ..front import Repo
        repo = Repo(root, with_pyx=False)
        a = Api(repo, models, forms)
        a.own.native = specs
        out = set()

        def on_call(f, vars_, node):
            k = (f.module.path, f.node.lineno, f.name)
            if k in lines:
                out.add((k, a.own.entry, tuple(sorted({fr.fn.qual for fr in a.own.frames if fr.fn is not None}))))
        a.own.on_call = on_call
        c13.explore(a, models, forms)
        return out, len(a.own.functions)
    except Exception as e:
        import traceback
        return "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-600:])


def known_public():
    out = set()
    for d in (QUERIES, MUTATORS):
        for k, ms in d.items():
            out |= set(ms)
    return out | {q.split(".")[-1] for q in STATICS + FUNCTIONS} | {"reduce", "fromsystem", "__init__"}


def run(ctx):
    ctx.rule("C18.R1", "files are written, deleted and renamed, and processes started, only in operations documented to do so")
    ctx.rule("C18.R2", "written paths begin with a path that was given")
    ctx.rule("C18.R3", "opened files are closed on every path")
    ctx.rule("C18.R4", "the only process is prism, started without a shell")
    ctx.notes.append("what pulp, gurobipy, graphviz and matplotlib do themselves is not looked at; only their options that leave files behind are")
    from ..front import Repo
    repo = Repo(ctx.repo.root, with_pyx=True)
    w = World(repo)
    all_ = []
    nfun = 0
    for s in list(w.scopes.values()):
        nfun += 1
        ctx.count("calls looked at", sum(isinstance(n, ast.Call) for n in owned(s.fn)))
        all_ += sites(w, s)
    ctx.count("functions scanned", nfun)
    if not all_:
        from ..front import AnchorMissing
        raise AnchorMissing("no place with an external effect found")
    # compiled helpers that nothing calls are no operation of the library
    idle = [x for x in all_ if x.module.is_pyx and not isinstance(x.fn, ast.Module) and not w.calls.get(x.fn.name)]
    for x in idle:
        ctx.notes.append("not looked at: %s in %s, which nothing calls" % (x.name, x.qual))
    all_ = [x for x in all_ if x not in idle]
    who_reaches(ctx, repo, all_)
    for x in all_:
        ctx.count("places with an external effect", 1)
        ctx.functions.add(x.qual)
        place(ctx, w, x)
    callers(ctx, w)


def kept(w, s, x, pm):
    """a temporary file that nothing removes by itself: True when it is removed whatever happens, False when there is an ordinary path without"""
    gone = [y.node for y in sites(w, s) if y.kind in ("delete", "rename")]
    if not gone:
        return False
    st = x.node
    while st is not None and not isinstance(st, ast.stmt):
        st = pm.get(id(st))
    if st is None:
        return None
    removes = lambda n: any(any(c is g for g in gone) for c in ast.walk(n))
    # statements in which the file exists: the body of its with, or those that follow
    b, i = block_of(st, pm)
    rest = ([st.body] if isinstance(st, ast.With) else []) + ([b[i + 1:]] if b is not None else [])
    r = path_without([y for z in rest for y in z], removes)
    up = pm.get(id(st))
    while up is not None and not isinstance(up, (ast.FunctionDef, ast.Module)):
        if isinstance(up, ast.Try) and any(removes(y) for y in up.finalbody):
            return True
        if isinstance(up, (ast.If, ast.For, ast.While, ast.With)):
            b, i = block_of(up, pm)
            if r == "falls" and b is not None:
                r = path_without(b[i + 1:], removes)
        up = pm.get(id(up))
    return None if r == "done" else False


def path_without(body, removes):
    """"done": removed on every ordinary path, "leaves": some path returns (or handles an exception and goes on) without, "falls": the end is reached without"""
    for n in body:
        if isinstance(n, ast.Try):
            if any(removes(y) for y in n.finalbody):
                return "done"
            rs = [path_without(n.body + n.orelse, removes)] + [path_without(h.body, removes) for h in n.handlers]
            if "leaves" in rs:
                return "leaves"
            if rs[0] == "done" and all(x == "done" for x in rs[1:]):
                return "done"
            continue
        if isinstance(n, ast.If):
            rs = [path_without(n.body, removes), path_without(n.orelse, removes)]
            if "leaves" in rs:
                return "leaves"
            if rs == ["done", "done"]:
                return "done"
            if removes(n.test) or (removes(n) and ("exists" in ast.unparse(n.test) or "isfile" in ast.unparse(n.test))):
                return "done"
            continue
        if isinstance(n, ast.With):
            r = path_without(n.body, removes)
            if r != "falls":
                return r
            continue
        if isinstance(n, (ast.For, ast.While)):
            if removes(n):
                return "done"
            if any(isinstance(y, ast.Return) for y in ast.walk(n)):
                return "leaves"
            continue
        if isinstance(n, ast.Raise):
            return "done"
        if removes(n):
            return "done"
        if isinstance(n, ast.Return):
            return "leaves"
    return "falls"


def who_reaches(ctx, repo, all_):
    lines = {(x.module.path, x.fn.lineno, getattr(x.fn, "name", "")) for x in all_ if not isinstance(x.fn, ast.Module)}
    specs = c13.native_specs(repo.root)
    with multiprocessing.get_context("fork").Pool(4) as pool:
        res = pool.map(reach, [(repo.root, m, f, specs, lines) for m, f in c09.FORMS])
    for (m, f), r in zip(c09.FORMS, res):
        if isinstance(r, str):
            ctx.undecided("C18.R1", "%s/%s" % (m[0], f[0]), r)
            continue
        ctx.count("functions followed from the public operations", r[1])
        for k, entry, chain in r[0]:
            for x in all_:
                if not isinstance(x.fn, ast.Module) and (x.module.path, x.fn.lineno, x.fn.name) == k:
                    x.entries.add((entry, chain))


def writer(entry, chain):
    names = [entry.split(".")[-1]] + [q.split(".")[-1] for q in chain]
    if any(n in READERS for n in names):
        return False
    last = entry.split(".")[-1]
    if last in WRITERS or entry == "bin/switss" or entry.startswith("bin."):
        return any(n in WRITERS for n in names) or None
    return False if last in known_public() else None


def place(ctx, w, x):
    file, line = x.module.path, x.node.lineno
    s = w.scopes[id(x.fn)]
    pm = parents(x.fn)
    if x.kind in ("open", "write", "maybe", "temp") and (x.name in OPEN | TEMP or x.name == ".open"):
        r = released(x.node, pm, x.fn)
        if x.name == "tempfile.NamedTemporaryFile" and any(k.arg in ("delete", "delete_on_close") and isinstance(k.value, ast.Constant) and not k.value.value for k in x.node.keywords):
            r = kept(w, s, x, pm)
        if r is None:
            ctx.undecided("C18.R3", x.con, "whether it is closed when something raises is not known")
        else:
            ctx.decide("C18.R3", x.con, r, "the file is not closed on every path", file, line)
    if x.kind == "left":
        ctx.decide("C18.R3", x.con, kept(w, s, x, pm), "the temporary file or directory is left behind", file, line)
        who(ctx, x, file, line, "creates a temporary file")
        return
    if x.kind == "open":
        return
    if x.kind == "temp":
        who(ctx, x, file, line, "creates a temporary file")
        return
    if x.kind == "shell":
        ctx.violation("C18.R4", x.con, "a string is passed to a shell", file, line)
        return
    if x.kind == "process":
        process(ctx, w, x, s, file, line)
        return
    if x.module.is_pyx:
        ctx.violation("C18.R1", x.con, "native code with an effect outside", file, line)
        return
    leads = w.lead(x.path, s) if x.path is not None else {("?", "")}
    tmp = leads == {("tmp",)}
    if x.kind == "delete":
        if tmp:
            ctx.ok("C18.R1", x.con)
        else:
            ctx.violation("C18.R1", x.con, "something is deleted", file, line)
        return
    if x.kind == "maybe":
        ctx.undecided("C18.R1", x.con, "the mode is not known")
    else:
        who(ctx, x, file, line, {"write": "writes a file", "rename": "renames a file"}[x.kind])
    origin(ctx, w, x.con, leads, file, line)
    if x.old is not None:
        l2 = w.lead(x.old, s)
        origin(ctx, w, x.con + " (old name)", l2, file, line)


def who(ctx, x, file, line, what):
    if isinstance(x.fn, ast.Module):
        ctx.decide("C18.R1", x.con, True if x.module.name == "bin.switss" else False, "%s when the module is imported" % what, file, line)
        return
    bad = sorted(e for e, c in x.entries if writer(e, c) is False)
    unsure = sorted(e for e, c in x.entries if writer(e, c) is None)
    good = [e for e, c in x.entries if writer(e, c)]
    if bad:
        cmd = [c for e, c in x.entries if writer(e, c) is False]
        by = next((q for c in cmd for q in c if q.split(".")[-1] in READERS), bad[0])
        ctx.violation("C18.R1", x.con, "%s although reached from %s, which is not documented to" % (what, by), file, line)
    elif good or x.qual.split(".")[-1] in WRITERS or any(p in WRITERS for p in x.qual.split(".")):
        ctx.ok("C18.R1", x.con)
    elif unsure:
        ctx.undecided("C18.R1", x.con, "only reached from %s, which is not a documented operation" % unsure[0])
    else:
        ctx.undecided("C18.R1", x.con, "no public operation reaches it")


def origin(ctx, w, con, leads, file, line):
    bad = [x for x in leads if x[0] in ("const", "cwd")]
    unk = [x for x in leads if x[0] == "?"]
    if bad:
        ctx.violation("C18.R2", con, "the path begins with %s, not with a path that was given" % (repr(bad[0][1]),), file, line)
    elif unk or not leads:
        ctx.undecided("C18.R2", con, "where the path comes from is not known (%s)" % (unk[0][1] if unk else ""))
    else:
        ctx.ok("C18.R2", con)
        for x in leads:
            if x[0] == "param":
                w.needed = getattr(w, "needed", [])
                w.needed.append((x[1], x[2]))


def callers(ctx, w):
    """what the library itself hands to the parameters that become written paths"""
    todo, seen = list(getattr(w, "needed", [])), set()
    while todo:
        s, p = todo.pop()
        if (id(s.fn), p) in seen or isinstance(s.fn, ast.Module):
            continue
        seen.add((id(s.fn), p))
        name = s.fn.name
        f = next((f for f in w.repo.funcs.values() if f.node is s.fn), None)
        a = s.fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        for call, t in w.calls.get(name, []):
            if t.m.is_pyx:
                continue
            method = bool(pos) and pos[0] in ("self", "cls")
            if isinstance(call.func, ast.Name) and method or isinstance(call.func, ast.Attribute) and not method and w.dotted(call.func, t) is not None:
                continue
            if isinstance(call.func, ast.Attribute) and digraph(w, call.func.value, t):
                continue
            skip = 1 if method else 0
            arg = next((k.value for k in call.keywords if k.arg == p), None)
            if arg is None and p in pos:
                i = pos.index(p) - skip
                if 0 <= i < len(call.args) and not any(isinstance(x, ast.Starred) for x in call.args[:i + 1]):
                    arg = call.args[i]
                elif not any(k.arg is None for k in call.keywords) and not any(isinstance(x, ast.Starred) for x in call.args):
                    j = pos.index(p) - (len(pos) - len(a.defaults))
                    if j >= 0:
                        arg = a.defaults[j]
            con = "%s: path for %s" % (t.qual, name)
            if arg is None:
                ctx.undecided("C18.R2", con, "the argument is not known")
                continue
            leads = w.lead(arg, t)
            bad = [x for x in leads if x[0] in ("const", "cwd")]
            if bad:
                ctx.violation("C18.R2", con, "the path begins with %s, not with a path that was given" % (repr(bad[0][1]),), t.m.path, call.lineno)
            elif any(x[0] == "?" for x in leads):
                ctx.undecided("C18.R2", con, "where the path comes from is not known")
            elif not leads:
                ctx.ok("C18.R2", con)
            else:
                ctx.ok("C18.R2", con)
                todo += [(x[1], x[2]) for x in leads if x[0] == "param"]


def process(ctx, w, x, s, file, line):
    if x.name not in PROCESS:
        ctx.violation("C18.R4", x.con, "starts a process that is neither prism nor a solver", file, line)
        return
    sh = next((k.value for k in x.node.keywords if k.arg == "shell"), None)
    if sh is not None and not (isinstance(sh, ast.Constant) and not sh.value):
        if isinstance(sh, ast.Constant):
            ctx.violation("C18.R4", x.con, "a string is passed to a shell", file, line)
        else:
            ctx.undecided("C18.R4", x.con, "whether a shell is used is not known")
        return
    ps = programs(w, x.path, s)
    bad = [p for p in ps if p is not None and p.split("/")[-1] not in ("prism",)]
    if bad:
        ctx.violation("C18.R4", x.con, "starts %s" % bad[0], file, line)
    elif None in ps or not ps:
        ctx.undecided("C18.R4", x.con, "which program is started is not known")
    else:
        ctx.ok("C18.R4", x.con)
    who(ctx, x, file, line, "starts a process")
    words = command(w, x.path, s)
    for (a, sa), (b, sb) in zip(words, words[1:]):
        if a is not None and isinstance(a, ast.Constant) and isinstance(a.value, str) and a.value.lstrip("-").startswith(("export", "mainlog")):
            origin(ctx, w, "%s %s" % (x.con, a.value), w.lead(b, sb) if b is not None else {("?", "")}, file, line)


def command(w, e, s, depth=0):
    """the words of a command with their scopes, as far as they are known"""
    if e is None or depth > 12:
        return [(None, s)]
    go = lambda y, t=s: command(w, y, t, depth + 1)
    if isinstance(e, (ast.List, ast.Tuple)):
        return [y for x in e.elts for y in (go(x.value) if isinstance(x, ast.Starred) else [(x, s)])]
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return go(e.left) + go(e.right)
    if isinstance(e, ast.Call) and w.dotted(e.func, s) in ("builtins.list", "builtins.tuple") and e.args:
        return go(e.args[0])
    if isinstance(e, ast.Name):
        t = w.local(s, e.id)
        if t is None or e.id in t.params or len(t.binds.get(e.id, [])) != 1:
            return [(None, s)]
        out = go(t.binds[e.id][0], t)
        for n in owned(t.fn):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                out = out + go(n.value, t)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id and n.args:
                out = out + ([(None, s)] if n.func.attr == "insert" else [(n.args[0], t)] if n.func.attr == "append" else go(n.args[0], t))
        return out
    return [(None, s)]


def programs(w, e, s, depth=0):
    """the program of a command"""
    if e is None or depth > 12:
        return {None}
    go = lambda y, t=s: programs(w, y, t, depth + 1)
    if isinstance(e, (ast.List, ast.Tuple)):
        if not e.elts:
            return set()
        y = e.elts[0]
        if isinstance(y, ast.Starred):
            return go(y.value)
        ls = w.lead(y, s)
        return {x[1] if x[0] == "const" else None for x in ls} if ls else {None}
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return go(e.left) or go(e.right)
    if isinstance(e, ast.Call) and w.dotted(e.func, s) in ("builtins.list", "builtins.tuple") and e.args:
        return go(e.args[0])
    if isinstance(e, ast.IfExp):
        return go(e.body) | go(e.orelse)
    if isinstance(e, ast.Name):
        t = w.local(s, e.id)
        if t is None or e.id in t.params:
            return {None}
        out = set()
        for v in t.binds.get(e.id, []):
            out |= go(v, t)
        return out
    if isinstance(e, (ast.Constant, ast.JoinedStr)):
        return {x[1].split(" ")[0] if x[0] == "const" else None for x in w.lead(e, s)}
    return {None}
