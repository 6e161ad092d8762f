"""What a piece of code does to the world outside the program, from its syntax tree."""
import ast
import builtins
from .project import External, Module, FuncInfo, ClassInfo, body_nodes, iter_own, assigned_pairs

EXEC = {"builtins.eval", "builtins.exec", "builtins.compile", "os.system", "os.popen", "os.fork", "os.forkpty", "os.startfile",
        "pickle.load", "pickle.loads", "pickle.Unpickler", "_pickle.loads", "cPickle.loads", "cPickle.load", "marshal.load",
        "marshal.loads", "shelve.open", "yaml.load", "yaml.unsafe_load", "dill.loads", "dill.load", "jsonpickle.decode",
        "types.FunctionType", "types.CodeType", "importlib.import_module", "importlib.reload", "builtins.__import__",
        "imp.load_source", "imp.load_module", "pydoc.locate", "os.startfile", "webbrowser.open", "platform.popen"}
EXECP = ("subprocess.", "runpy.", "code.", "codeop.", "ctypes.", "commands.", "os.exec", "os.spawn", "os.posix_spawn",
         "multiprocessing.", "pty.", "asyncio.subprocess.", "imp.", "importlib.util.")
WRITE = {"os.unlink", "os.remove", "os.rename", "os.renames", "os.replace", "os.mkdir", "os.makedirs", "os.rmdir", "os.removedirs",
         "os.chmod", "os.chown", "os.lchown", "os.truncate", "os.ftruncate", "os.link", "os.symlink", "os.utime", "os.mkfifo",
         "os.mknod", "os.write", "os.pwrite", "os.setxattr", "os.removexattr", "os.fchmod", "os.fchown", "sqlite3.connect",
         "dbm.open", "logging.FileHandler", "logging.basicConfig", "fileinput.input", "fileinput.FileInput", "os.copy_file_range",
         "os.sendfile", "os.posix_fallocate"}
WRITEP = ("shutil.", "tempfile.", "sqlite3.", "dbm.", "logging.handlers.")
WRITE_EXCEPT = {"shutil.get_terminal_size", "shutil.which", "shutil.disk_usage", "tempfile.gettempdir",
                "tempfile.SpooledTemporaryFile", "shutil.copyfileobj"}
NETP = ("socket.", "ssl.", "urllib.request.", "http.client.", "http.server.", "ftplib.", "smtplib.", "telnetlib.", "poplib.",
        "imaplib.", "nntplib.", "xmlrpc.", "socketserver.", "asyncio.open_", "requests.", "urllib2.", "httplib.")
NET_EXCEPT = ("socket.inet_", "socket.AF_", "socket.SOCK_", "socket.ntoh", "socket.hton", "socket.herror", "socket.gaierror",
              "socket.error", "socket.timeout", "socket.IPPROTO", "socket.INADDR")
EXIT = {"sys.exit", "builtins.exit", "builtins.quit", "os._exit", "os.abort", "builtins.SystemExit"}
PROC = {"os.chdir", "os.fchdir", "os.chroot", "os.putenv", "os.unsetenv", "os.umask", "os.kill", "os.killpg", "os.nice",
        "os.setuid", "os.setgid", "os.setsid", "os.close", "os.closerange", "os.dup2", "resource.setrlimit", "locale.setlocale",
        "sys.setrecursionlimit", "sys.settrace", "sys.setprofile", "sys.setswitchinterval", "atexit.register", "signal.signal",
        "signal.alarm", "signal.setitimer", "gc.disable", "gc.set_threshold", "socket.setdefaulttimeout", "warnings.simplefilter",
        "warnings.filterwarnings", "builtins.input", "faulthandler.enable", "threading.settrace", "decimal.setcontext",
        "random.seed", "time.tzset", "codecs.register", "codecs.register_error", "copyreg.pickle", "_thread.interrupt_main",
        "sys.set_int_max_str_digits"}
PROC_STATE = ("os.environ", "sys.stdout", "sys.stderr", "sys.stdin", "sys.path", "sys.modules", "sys.argv", "sys.excepthook",
              "sys.displayhook", "sys.meta_path")
OUT = {"sys.stdout.write", "sys.stdout.writelines", "sys.stdout.buffer", "sys.__stdout__", "pprint.pprint"}
OPEN = {"builtins.open": 1, "io.open": 1, "codecs.open": 1, "os.fdopen": 1, "gzip.open": 1, "bz2.open": 1, "lzma.open": 1,
        "io.FileIO": 1, "zipfile.ZipFile": 1, "tarfile.open": 1, "gzip.GzipFile": 1, "bz2.BZ2File": 1, "wave.open": 1,
        "mmap.mmap": None}
FILEMETH = {"write_text", "write_bytes", "extractall"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault", "popitem", "add", "discard", "sort",
            "reverse", "appendleft", "popleft", "difference_update", "intersection_update", "symmetric_difference_update"}


class Scope:
    """Names of one function (or of the module or class body)."""

    def __init__(self, project, module, func=None, outer=None):
        self.p = project
        self.module = module
        self.func = func
        self.outer = outer
        self.locals = {}          # name -> list of value expressions (None: unknown)
        self.imports = {}
        self.globals = set()
        if func is None:
            return
        for a in func.all_params:
            self.locals.setdefault(a, []).append(None)
        for n in body_nodes(func.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.globals.update(n.names)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    self.imports[a.asname or a.name] = (n.module or "") + "." + a.name
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.locals.setdefault(n.name, []).append(None)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.setdefault(n.name, []).append(None)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.setdefault(n.id, [])
            for t, v in assigned_pairs(n):
                if isinstance(t, ast.Name):
                    self.locals.setdefault(t.id, []).append(v)
        for g in self.globals:
            self.locals.pop(g, None)

    def is_local(self, name):
        if name in self.locals or name in self.imports:
            return True
        if name in self.globals:
            return False
        return self.outer is not None and self.outer.is_local(name)

    def resolve(self, e, depth=0):
        """Module, External, FuncInfo, ClassInfo, ValueBinding or None"""
        p = self.p
        if isinstance(e, ast.Name):
            if e.id in self.locals:
                vals = [v for v in self.locals[e.id]]
                if len(vals) == 1 and vals[0] is not None and depth < 4 and isinstance(vals[0], (ast.Name, ast.Attribute)):
                    return self.resolve(vals[0], depth + 1)
                return None
            if e.id in self.imports:
                dotted = self.imports[e.id]
                if dotted in p.modules:
                    return p.modules[dotted]
                mod, _, name = dotted.rpartition(".")
                if mod in p.modules:
                    return p.lookup(p.modules[mod], name)
                return External(dotted)
            if self.outer is not None and e.id not in self.globals:
                return self.outer.resolve(e, depth)
            return p.resolve_expr(self.module, e)
        if isinstance(e, ast.Attribute):
            b = self.resolve(e.value, depth)
            if isinstance(b, Module):
                return p.lookup(b, e.attr)
            if isinstance(b, External):
                return External(b.dotted + "." + e.attr)
            if isinstance(b, ClassInfo):
                return p.find_attr(b, e.attr)
        return None

    def const(self, e, depth=0):
        """constant strings an expression can be, or None"""
        if isinstance(e, ast.Constant):
            return {e.value}
        if isinstance(e, ast.IfExp):
            a, b = self.const(e.body, depth), self.const(e.orelse, depth)
            return a | b if a and b else None
        if isinstance(e, ast.Name) and depth < 3:
            vals = self.locals.get(e.id)
            if vals and all(v is not None for v in vals):
                out = set()
                for v in vals:
                    c = self.const(v, depth + 1)
                    if not c:
                        return None
                    out |= c
                return out
            if vals is None:
                r = self.p.lookup(self.module, e.id)
                ex = getattr(r, "expr", None)
                if isinstance(ex, ast.Constant):
                    return {ex.value}
        return None


def units(project, module):
    """(label, FuncInfo or None, own nodes, Scope) of each function and of the module's own body"""
    scopes = {}

    def scope(f):
        if f not in scopes:
            scopes[f] = Scope(project, module, f, scope(f.parent) if f.parent is not None else None)
        return scopes[f]
    body = [st for st in module.tree.body if not (isinstance(st, ast.If) and "__name__" in ast.unparse(st.test))]
    own, todo = [], list(body)
    while todo:
        n = todo.pop()
        own.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    yield "<module>", None, own, Scope(project, module)
    for f in module.functions:
        yield f.qual, f, body_nodes(f.node), scope(f)


def _modes(scope, call, pos):
    if pos is None:
        for k in call.keywords:
            if k.arg == "access":
                return {"r"} if "READ" in ast.unparse(k.value) else {"w"}
        return {"w"}
    m = None
    if len(call.args) > pos:
        m = call.args[pos]
    for k in call.keywords:
        if k.arg in ("mode", "flags"):
            m = k.value
        if k.arg is None:
            return None
    if any(isinstance(a, ast.Starred) for a in call.args):
        return None
    if m is None:
        return {"r"}
    return scope.const(m)


def effects(scope, nodes):
    """(effect, detail, node) of the nodes; the detail '?' marks an unknown file mode"""
    out = []
    for n in nodes:
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            r = scope.resolve(n)
            if isinstance(r, External):
                d = r.dotted
                if d in EXEC or d.startswith(EXECP):
                    out.append(("exec", d, n))
                elif d in WRITE or d.startswith(WRITEP) and d not in WRITE_EXCEPT:
                    out.append(("write", d, n))
                elif d.startswith(NETP) and not d.startswith(NET_EXCEPT):
                    out.append(("net", d, n))
                elif d in EXIT:
                    out.append(("exit", d, n))
                elif d in PROC:
                    out.append(("process", d, n))
                elif d in OUT:
                    out.append(("stdout", d, n))
        if isinstance(n, ast.Call):
            r = scope.resolve(n.func)
            if isinstance(r, External):
                d = r.dotted
                if d in OPEN:
                    m = _modes(scope, n, OPEN[d])
                    if m is None:
                        out.append(("open?", d, n))
                    elif all(isinstance(x, str) and not set(x) & set("wax+") for x in m):
                        out.append(("read", d, n))
                    else:
                        out.append(("write", "%s(%s)" % (d, "/".join(sorted(map(str, m)))), n))
                elif d == "os.open":
                    fl = ast.unparse(n.args[1]) if len(n.args) > 1 else "?"
                    if any(x in fl for x in ("WRONLY", "RDWR", "CREAT", "TRUNC", "APPEND")):
                        out.append(("write", "os.open(%s)" % fl, n))
                elif d == "builtins.print":
                    f = next((k.value for k in n.keywords if k.arg == "file"), None)
                    if f is None or isinstance(f, ast.Attribute) and ast.unparse(f) == "sys.stdout":
                        out.append(("stdout", "print()", n))
            elif isinstance(n.func, ast.Attribute) and n.func.attr in FILEMETH:
                out.append(("write", "." + n.func.attr + "()", n))
        # assignments to process state
        for t, v in assigned_pairs(n):
            base = t
            while isinstance(base, ast.Subscript):
                base = base.value
            if isinstance(base, ast.Attribute):
                r = scope.resolve(base)
                if isinstance(r, External) and r.dotted in PROC_STATE:
                    out.append(("process", r.dotted, n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            r = scope.resolve(n.func.value)
            if isinstance(r, External) and r.dotted in PROC_STATE:
                out.append(("process", r.dotted, n))
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    r = scope.resolve(t.value)
                    if isinstance(r, External) and r.dotted in PROC_STATE:
                        out.append(("process", r.dotted, n))
    return out
