"""The same file gives the same result in every run, on every machine."""
import ast
from ..project import FuncInfo, ClassInfo, External, ValueBinding, assigned_pairs
from ..effects import units, Scope
from .c03 import under, is_library

CLOCK = {"time.time", "time.time_ns", "time.monotonic", "time.perf_counter", "time.process_time", "time.clock", "time.ctime",
         "time.asctime", "time.gmtime", "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow",
         "datetime.date.today", "time.strftime", "time.perf_counter_ns", "time.monotonic_ns"}
ZONE = {"time.localtime", "time.mktime", "datetime.datetime.fromtimestamp", "datetime.date.fromtimestamp", "time.timezone",
        "time.altzone", "time.daylight", "time.tzname"}
CHANCE = {"os.urandom", "uuid.uuid1", "uuid.uuid4", "os.getpid", "os.getppid", "threading.get_ident", "os.times",
          "resource.getrusage", "sys.getrefcount", "gc.get_objects", "gc.get_referrers", "tempfile.mktemp", "os.getrandom"}
CHANCEP = ("random.", "secrets.")
HOST = {"os.environ", "os.getenv", "os.environb", "os.getcwd", "os.uname", "os.cpu_count", "os.getlogin", "os.name", "os.sep",
        "os.linesep", "sys.platform", "sys.byteorder", "sys.maxsize", "locale.getlocale",
        "locale.getdefaultlocale", "locale.getpreferredencoding", "locale.nl_langinfo", "locale.localeconv", "locale.atof",
        "locale.str", "locale.format_string", "locale.currency", "locale.strcoll", "locale.strxfrm",
        "sys.getfilesystemencoding", "os.path.expanduser", "os.path.expandvars", "os.path.abspath", "os.path.realpath",
        "os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.getmtime", "os.path.getctime", "os.path.getatime",
        "os.stat", "os.lstat", "os.fstat", "os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob", "os.access"}
HOSTP = ("platform.", "getpass.", "socket.gethost", "socket.getfqdn")
ADDRESS = {"builtins.id", "builtins.hash"}
TEXT = {"clock": "depends on the current time", "zone": "depends on the time zone of the machine",
        "chance": "depends on chance", "host": "depends on the machine or its environment",
        "address": "depends on where objects lie in memory"}
# the modules whose purpose it is
PURPOSE = {
    "clock": ("hachoir.core.log",),
    "zone": (),
    "chance": (),
    "host": ("hachoir.core.log", "hachoir.core.i18n", "hachoir.core.timeout", "hachoir.core.memory",
             "hachoir.parser.network.common"),
    "address": (),
}
ORDERED = {"builtins.list", "builtins.tuple", "builtins.iter", "builtins.enumerate", "builtins.zip", "builtins.reversed",
           "builtins.next", "builtins.map", "builtins.filter", "builtins.repr", "builtins.str", "builtins.print"}
UNORDERED = {"builtins.sorted", "builtins.min", "builtins.max", "builtins.sum", "builtins.len", "builtins.any", "builtins.all",
             "builtins.set", "builtins.frozenset", "builtins.bool"}
NATIVE = set("hHiIlLqQnNfdePgG")


def kind_of(d):
    if d in CLOCK:
        return "clock"
    if d in ZONE:
        return "zone"
    if d in CHANCE or d.startswith(CHANCEP):
        return "chance"
    if d in HOST or d.startswith(HOSTP):
        return "host"
    if d in ADDRESS:
        return "address"
    return None


def dotted(r):
    return r.dotted if isinstance(r, External) else None


class Sets:
    """which expressions are sets"""

    def __init__(self, p):
        self.p = p
        self.attrs = {}
        self.busy = set()

    def is_set(self, e, sc, f, depth=0):
        if depth > 6:
            return False
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            r = sc.resolve(e.func)
            if r is None and isinstance(e.func, ast.Name) and not sc.is_local(e.func.id):
                r = External("builtins." + e.func.id)
            if dotted(r) in ("builtins.set", "builtins.frozenset"):
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in (
                    "union", "intersection", "difference", "symmetric_difference", "copy"):
                return self.is_set(e.func.value, sc, f, depth + 1)
            return False
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.is_set(e.left, sc, f, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body, sc, f, depth + 1) or self.is_set(e.orelse, sc, f, depth + 1)
        if isinstance(e, ast.Name):
            s = sc
            while s is not None and e.id not in s.locals:
                s = s.outer
            if s is not None:
                vals = list(s.locals[e.id])
                if s.func is not None:
                    # x |= y keeps x a set
                    n = sum(1 for x in ast.walk(s.func.node) if isinstance(x, ast.AugAssign) and isinstance(
                        x.target, ast.Name) and x.target.id == e.id and isinstance(x.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)))
                    for _ in range(n):
                        if None in vals and len(vals) > 1:
                            vals.remove(None)
                # x = list(x): inside, x still is what it was
                vals = [v for v in vals if not (isinstance(v, ast.Call) and e in v.args)]
                if not vals or None in vals:
                    return False
                if (id(s), e.id) in self.busy:
                    return False
                self.busy.add((id(s), e.id))
                try:
                    return all(self.is_set(v, s, f, depth + 1) for v in vals)
                finally:
                    self.busy.discard((id(s), e.id))
            r = sc.resolve(e)
            if isinstance(r, ValueBinding):
                return self.is_set(r.expr, Scope(self.p, r.module), None, depth + 1)
            return False
        if isinstance(e, ast.Attribute):
            r = sc.resolve(e)
            if isinstance(r, ValueBinding):
                return self.is_set(r.expr, Scope(self.p, r.module), None, depth + 1)
            if isinstance(e.value, ast.Name) and e.value.id == "self" and f is not None and f.cls is not None:
                return self.attr(f.cls, e.attr)
        return False

    def attr(self, cls, name):
        k = (cls, name)
        if k in self.attrs:
            return self.attrs[k]
        self.attrs[k] = False
        fam = [c for c in self.p.mro(cls) if isinstance(c, ClassInfo)]
        vals = []
        for c in fam:
            for b in c.attrs.get(name, ()):
                if isinstance(b, ValueBinding) and b.expr is not None:
                    vals.append((b.expr, Scope(self.p, b.module), None))
            for fs in c.attrs.values():
                for g in fs:
                    if isinstance(g, FuncInfo):
                        from ..project import body_nodes
                        sc = None
                        for n in body_nodes(g.node):
                            for t, v in assigned_pairs(n):
                                if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and \
                                        t.value.id == "self":
                                    sc = sc or Scope(self.p, g.module, g)
                                    vals.append((v, sc, g))
        vals = [x for x in vals if not (isinstance(x[0], ast.Constant) and x[0].value is None)]
        self.attrs[k] = any(v is not None and self.is_set(v, s, g) for v, s, g in vals)
        return self.attrs[k]


def ordered_body(body):
    """the order of the iterations can be told from outside"""
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Return, ast.Break)):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "append", "extend", "insert", "write", "appendleft"):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
                return True
    return False


def sorted_later(node, nodes):
    """x = list(a set) ... x.sort()"""
    for n in nodes:
        if isinstance(n, ast.Assign) and n.value is node:
            for t in n.targets:
                if isinstance(t, ast.Name):
                    for m in nodes:
                        if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr == "sort" and isinstance(
                                m.func.value, ast.Name) and m.func.value.id == t.id:
                            return True
                        if isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id == "sorted" and any(
                                isinstance(a, ast.Name) and a.id == t.id for a in m.args):
                            return True
    return False


def run(ctx, rep):
    p = ctx.project
    for k in TEXT:
        rep.rule(k, "no result %s" % TEXT[k], 1400)
    rep.rule("order", "no result depends on the order in which a set is iterated", 3)
    rep.rule("native", "no number is read or written in the byte order or size of the machine", 3)
    sets = Sets(p)
    seen = {}
    for m in sorted(p.modules.values(), key=lambda m: m.name):
        if not is_library(m.name):
            continue
        for label, f, nodes, sc in units(p, m):
            key = "%s:%s" % (m.name, label)
            parent = {}
            for n in nodes:
                for c in ast.iter_child_nodes(n):
                    parent[c] = n
            bad = set()
            for n in nodes:
                if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                    r = sc.resolve(n)
                    if r is None and isinstance(n, ast.Name) and not sc.is_local(n.id):
                        r = External("builtins." + n.id)
                    d = dotted(r)
                    k = d and kind_of(d)
                    if not k:
                        continue
                    if f is None and k != "clock" and k != "chance" and not (k == "zone"):
                        # a module may look what machine it runs on when it is imported (only to choose what to import)
                        up = parent.get(n)
                        while up is not None and not isinstance(up, (ast.If, ast.IfExp, ast.Compare)):
                            up = parent.get(up)
                        if up is not None:
                            continue
                    call = parent.get(n)
                    if k == "address" and fine_address(n, call, parent, f):
                        continue
                    if k == "address" and not isinstance(call, ast.Call):
                        continue
                    if d in ("time.gmtime", "time.asctime", "time.ctime", "time.strftime") and isinstance(call, ast.Call):
                        if len(call.args) >= (2 if d == "time.strftime" else 1):
                            if d != "time.ctime":
                                continue
                            k = "zone"
                    if d == "datetime.datetime.fromtimestamp" and isinstance(call, ast.Call) and (
                            len(call.args) > 1 or call.keywords):
                        continue
                    if under(m.name, PURPOSE[k]):
                        continue
                    bad.add(k)
                    # known by the module and the call, wherever in the module that is
                    seen[m.name, d] = seen.get((m.name, d), 0) + 1
                    rep.violation(k, "%s:%s%s" % (m.name, d, "" if seen[m.name, d] == 1 else " #%d" % seen[m.name, d]), "%s:%d" % (m.path, n.lineno), "%s: the result %s (%s)" % (
                        label, TEXT[k], d.replace("builtins.", "")))
            for k in TEXT:
                if k not in bad:
                    rep.passed(k)
            for n in nodes:
                order(rep, sets, m, label, f, n, nodes, sc, parent, key)
                native(rep, m, label, n, sc, key)


def fine_address(n, call, parent, f):
    """compared with another id or hash, or the hash of an object is made of another hash"""
    if not isinstance(call, ast.Call) or call.func is not n:
        return False
    up = parent.get(call)
    if isinstance(up, ast.Compare) and all(isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in up.ops):
        return True
    if f is not None and f.name == "__hash__":
        return True
    # the key of a dictionary
    if isinstance(up, ast.Subscript) or isinstance(up, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in up.ops):
        return True
    return isinstance(up, ast.Call) and isinstance(up.func, ast.Attribute) and up.func.attr in ("add", "get", "discard", "remove", "pop")


def order(rep, sets, m, label, f, n, nodes, sc, parent, key):
    where = "%s:%d" % (m.path, getattr(n, "lineno", 0))

    def callee(c):
        r = sc.resolve(c.func)
        if r is None and isinstance(c.func, ast.Name) and not sc.is_local(c.func.id):
            return "builtins." + c.func.id
        return dotted(r)

    def bad(e, how):
        rep.violation("order", "%s:%s" % (key, ast.unparse(e)), where, "%s: %s is a set: the order of %s differs from run to run" % (
            label, ast.unparse(e), how))

    def consumer(x):
        """what takes the elements in x's place: True when it does not care for the order"""
        up = parent.get(x)
        if isinstance(up, ast.Call) and x in up.args:
            c = callee(up)
            if c in UNORDERED:
                return True
            if c in ("builtins.list", "builtins.tuple"):
                return consumer(up) or sorted_later(up, nodes)
            if isinstance(up.func, ast.Attribute) and up.func.attr in ("update", "union", "difference", "issubset", "issuperset",
                                                                       "intersection", "difference_update"):
                return True
        if isinstance(up, ast.Compare) or isinstance(up, (ast.SetComp, ast.BinOp)):
            return True
        return False
    if isinstance(n, (ast.For, ast.AsyncFor)) and sets.is_set(n.iter, sc, f):
        if ordered_body(n.body):
            bad(n.iter, "the loop")
        else:
            rep.undecided("order")
    elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
        for g in n.generators:
            if sets.is_set(g.iter, sc, f):
                if consumer(n) or sorted_later(n, nodes):
                    rep.passed("order")
                else:
                    bad(g.iter, "the elements")
    elif isinstance(n, ast.Call):
        c = callee(n)
        if c in ORDERED:
            for a in n.args:
                if sets.is_set(a, sc, f):
                    if consumer(n) or sorted_later(n, nodes):
                        rep.passed("order", sample="%s: %s sorted" % (key, ast.unparse(a)))
                    else:
                        bad(a, "the elements")
        elif c in UNORDERED:
            for a in n.args:
                if sets.is_set(a, sc, f):
                    rep.passed("order")
        elif isinstance(n.func, ast.Attribute):
            if n.func.attr == "join" and n.args and sets.is_set(n.args[0], sc, f):
                bad(n.args[0], "the elements")
            elif n.func.attr == "extend" and n.args and sets.is_set(n.args[0], sc, f):
                bad(n.args[0], "the elements")
            elif n.func.attr == "pop" and not n.args and sets.is_set(n.func.value, sc, f):
                bad(n.func.value, "taking one")
    elif isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
        for c in n.comparators:
            if sets.is_set(c, sc, f):
                rep.passed("order")
    elif isinstance(n, ast.YieldFrom) and sets.is_set(n.value, sc, f):
        bad(n.value, "the elements")
    elif isinstance(n, ast.Starred) and isinstance(n.ctx, ast.Load) and sets.is_set(n.value, sc, f):
        if isinstance(parent.get(n), (ast.List, ast.Tuple)):
            bad(n.value, "the elements")
    elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and sets.is_set(n.value, sc, f):
        bad(n.value, "the elements")


def native(rep, m, label, n, sc, key):
    if not isinstance(n, ast.Call):
        return
    d = dotted(sc.resolve(n.func))
    if d is None:
        return
    if d == "array.array" and len(n.args) > 1 and isinstance(n.args[1], (ast.Constant, ast.Call)) and (
            not isinstance(n.args[1], ast.Constant) or isinstance(n.args[1].value, bytes)) and not (
            isinstance(n.args[0], ast.Constant) and n.args[0].value in ("b", "B")):
        # made of bytes
        if isinstance(n.args[1], ast.Call) and not (isinstance(n.args[1].func, ast.Attribute) and n.args[1].func.attr in (
                "read", "readBytes", "tobytes")):
            rep.undecided("native")
            return
        rep.violation("native", "%s:%s" % (key, d), "%s:%d" % (m.path, n.lineno), "%s: %s has the byte order of the machine" % (label, d))
    if d.startswith("struct.") and d[7:] in ("pack", "unpack", "calcsize", "Struct", "unpack_from", "pack_into", "iter_unpack"):
        if not n.args:
            return
        fmts = sc.const(n.args[0])
        if not fmts:
            # a format built from a constant prefix
            a = n.args[0]
            while isinstance(a, ast.BinOp):
                a = a.left
            if isinstance(a, ast.Constant) and isinstance(a.value, str) and a.value[:1] in ("<", ">", "!"):
                rep.passed("native")
            else:
                rep.undecided("native")
            return
        for x in fmts:
            if not isinstance(x, str):
                rep.undecided("native")
            elif x[:1] in ("<", ">", "!") or not set(x) & NATIVE or d == "struct.calcsize" and not set(x) - set("0123456789fdhi"):
                rep.passed("native", sample="%s: %r" % (key, x))
            else:
                rep.violation("native", "%s:%s" % (key, x), "%s:%d" % (m.path, n.lineno),
                              "%s: the format %r of struct uses the byte order or sizes of the machine" % (label, x))
