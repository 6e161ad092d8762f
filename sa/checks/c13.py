"""Loops move on: a turn which leads to another turn changes something the loop goes by."""
import ast
from ..project import ClassInfo, FuncInfo, ValueBinding, body_nodes, nid
from ..domains import Domains
from ..types import TOP

PURE = {"len", "isinstance", "issubclass", "str", "bytes", "int", "float", "bool", "ord", "chr", "hex", "oct", "bin", "repr",
        "range", "min", "max", "abs", "sum", "any", "all", "sorted", "tuple", "list", "dict", "set", "frozenset", "divmod",
        "pow", "round", "hasattr", "getattr", "callable", "type", "id", "reversed", "zip", "enumerate", "map", "filter",
        "print", "format", "bytearray", "super", "slice", "hash", "memoryview"}
# reading a stream or a field set at given places, text, logging
PURE_METHODS = {"readBits", "readBytes", "readInteger", "sizeGe", "getFieldByAddress", "searchBytes", "searchBytesLength",
                "startswith", "endswith", "find", "rfind", "index", "rindex", "count", "strip", "lstrip", "rstrip", "split", "rsplit", "lower",
                "upper", "title", "isdigit", "isalpha", "isalnum", "isspace", "encode", "decode", "replace", "join", "format", "get",
                "keys", "values", "items", "copy", "hex", "ljust", "rjust", "center", "zfill", "partition", "rpartition",
                "warning", "warn", "info", "error", "debug", "log", "exception", "nextFieldAddress", "array",
                "seekByte", "seekBit", "isFixedSize", "bit_length", "createOrphanField"}
MUTATORS = {"append", "extend", "insert", "add", "update", "setdefault", "remove", "discard", "clear", "sort", "reverse", "write"}
# what reads the stream at a given place, whatever was read before
STREAM = {"readBits", "readBytes", "readInteger", "sizeGe", "searchBytes", "searchBytesLength"}
READS = {"readBits", "readBytes", "readInteger"}
# attributes which adding fields does not change
CONSTANT = {"absolute_address", "address", "_address", "endian", "_parent", "parent", "stream", "_stream", "root", "_root"} | READS
LIMIT = 4000


def own(st):
    """the nodes of a statement, without those of statements in it"""
    todo = [st]
    while todo:
        n = todo.pop()
        yield n
        todo += [c for c in ast.iter_child_nodes(n) if not isinstance(c, (ast.stmt, ast.excepthandler))]


class TooMany(Exception):
    pass


def run(ctx, rep):
    rep.rule("turn", "every path from one turn of an open-ended loop to the next creates a field or changes something "
                     "the loop's condition or exits depend on", 86)
    rep.rule("condition", "something in a loop can change what its condition reads, or it has another end", 85)
    rep.rule("reads", "a read of the stream in a loop is not the same one in every turn", 12)
    rep.rule("step", "a loop which counts towards a bound steps towards it", 0)
    rep.rule("recursion", "a function reaches an end without calling itself again", 759)
    w = Progress(ctx, rep)
    for f in ctx.project.functions:
        if isinstance(f.node, ast.Lambda):
            continue
        for nd in body_nodes(f.node):
            if isinstance(nd, ast.While):
                w.loop(f, nd)
                w.reading(f, nd)
                w.condition(f, nd)
            elif isinstance(nd, ast.For):
                if endless(nd.iter):
                    w.loop(f, nd)
                if isinstance(nd.iter, ast.Call) and isinstance(nd.iter.func, ast.Name) and nd.iter.func.id in ("range", "count"):
                    w.reading(f, nd)
    w.recursion()


def endless(it):
    if isinstance(it, ast.Call):
        n = it.func.attr if isinstance(it.func, ast.Attribute) else it.func.id if isinstance(it.func, ast.Name) else None
        return n == "count" and not (isinstance(it.func, ast.Attribute) and not (
            isinstance(it.func.value, ast.Name) and it.func.value.id == "itertools")) or n == "repeat" and len(it.args) == 1 \
            or n == "cycle"
    return False


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b and b + "." + e.attr
    return None


def reads(e):
    """names and attributes an expression reads"""
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add("." + n.attr)
    return out


def inner(stmts):
    """the statements and expressions of a block, not those of functions defined in it"""
    todo = list(stmts)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            todo += ast.iter_child_nodes(n)


def target_names(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, ast.Attribute):
        return {"." + t.attr}
    if isinstance(t, ast.Subscript):
        return {"[]"} | reads(t.value)
    if isinstance(t, ast.Starred):
        return target_names(t.value)
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*[target_names(x) for x in t.elts]) if t.elts else set()
    return {"[]"}


class Progress:
    def __init__(self, ctx, rep):
        self.ctx, self.rep, self.p, self.ty, self.fm = ctx, rep, ctx.project, ctx.types, ctx.fields
        self.memo = {}
        self.doms = Domains(ctx)

    # -- calls which change nothing --------------------------------------------------
    def pure_call(self, f, c, relevant=None, cls=None):
        """the call leaves everything a loop can go by as it was; cls is the class of the function's self, if known"""
        fn = c.func
        if cls is not None and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and f.params and \
                fn.value.id == f.params[0]:
            m = self.p.find_attr_owner(cls, fn.attr)[1]
            if isinstance(m, FuncInfo):
                return self.pure_func(m, cls)
        if isinstance(fn, ast.Name) and fn.id in PURE and self.p.lookup(f.module, fn.id) is None and \
                fn.id not in f.all_params:
            return True
        if isinstance(fn, ast.Attribute) and (fn.attr in ("warning", "info", "error", "debug") or fn.attr in STREAM) or \
                isinstance(fn, ast.Name) and fn.id == "createOrphanField":
            return True         # an orphan leaves its parent as it was (C17)
        fv = self.ty.fact(fn)
        if (fv is TOP or not fv) and isinstance(fn, ast.Name) and fn.id not in f.all_params:
            t = self.p.lookup(f.module, fn.id)
            fv = [('f', t)] if isinstance(t, FuncInfo) else [('C', t)] if isinstance(t, ClassInfo) else TOP
        if fv is not TOP and fv:
            if all(a[0] == 'f' for a in fv):
                return all(self.pure_func(a[1]) for a in fv)
            if all(a[0] == 'C' and self.fm.is_field(a[1]) for a in fv):
                return True
            if all(a[0] == 'C' and any(b.dotted.endswith(("Exception", "Error")) for b in self.p.external_bases(a[1])) for a in fv):
                return True
            if any(a[0] not in ('x', 'bm') for a in fv):
                return False
        if isinstance(fn, ast.Attribute):
            if fn.attr in PURE_METHODS:
                own = [m for m in self.methods(fn.attr)]
                return all(self.pure_func(m) for m in own)
            if fn.attr in MUTATORS and relevant is not None and isinstance(fn.value, ast.Name) and \
                    fn.value.id not in relevant and fn.value.id not in f.all_params:
                return True
        return False

    def methods(self, name):
        if not hasattr(self, "_methods"):
            self._methods = {}
            for c in self.p.classes:
                for n, bs in c.attrs.items():
                    for b in bs:
                        if isinstance(b, FuncInfo):
                            self._methods.setdefault(n, []).append(b)
        return self._methods.get(name, ())

    def pure_func(self, f, cls=None):
        k = (nid(f.node), cls)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = True
        body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
        ok = True
        for n in inner(body):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) or \
                    isinstance(n, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Await, ast.Import, ast.ImportFrom)) or \
                    isinstance(n, ast.Call) and not self.pure_call(f, n, set(), cls):
                ok = False
                break
        self.memo[k] = ok
        return ok

    def moves(self, f, e, relevant):
        """evaluating the expression may change something"""
        for n in inner([e]):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                return True
            if isinstance(n, ast.NamedExpr) and n.target.id in relevant:
                return True
            if isinstance(n, ast.Call) and not self.pure_call(f, n, relevant):
                return True
        return False

    def total(self, f, c):
        """a call which does not end a loop with an exception of its own accord"""
        fn = c.func
        if isinstance(fn, ast.Name) and fn.id in PURE and fn.id not in ("int", "float", "ord", "chr", "bytes", "min", "max") and \
                self.p.lookup(f.module, fn.id) is None:
            return True
        if isinstance(fn, ast.Attribute) and (fn.attr in ("warning", "info", "error", "debug") or fn.attr in MUTATORS and
                                              fn.attr != "remove"):
            return True
        fv = self.ty.fact(fn)
        return fv is not TOP and bool(fv) and all(a[0] == 'C' and self.fm.is_field(a[1]) for a in fv)

    # -- reads in loops --------------------------------------------------------------
    def still(self, f, nd):
        """decides whether an expression has one value in all turns of the loop"""
        stored, calls = set(), False
        for n in inner(nd.body + ([nd.test] if isinstance(nd, ast.While) else [])):
            if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stored |= {"[]"} if isinstance(n, ast.Subscript) else target_names(n)
            elif isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) or isinstance(n, ast.Call) and not self.pure_call(f, n, None):
                calls = True
                if isinstance(n, ast.Call):
                    # what a method or function may change
                    stored |= {x for x in reads(n) if x.isidentifier()} - {"self"}
            elif isinstance(n, ast.NamedExpr):
                stored |= target_names(n.target)
        if isinstance(nd, ast.For):
            stored |= target_names(nd.target)
        # names which get the same value each turn
        same = set()
        again = True

        def fixed(e):
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and n.id in stored and n.id not in same:
                    return False
                if isinstance(n, ast.Attribute) and ("." + n.attr in stored or calls and n.attr not in CONSTANT):
                    return False
                if isinstance(n, ast.Subscript) and ("[]" in stored or calls):
                    return False
                if isinstance(n, ast.Call) and not self.pure_call(f, n, None):
                    return False
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                    return False
            return True
        while again:
            again = False
            for x in stored - same:
                if not x.isidentifier():
                    continue
                ds = [n for n in inner(nd.body) if isinstance(n, ast.stmt) and any(
                    isinstance(y, ast.Name) and y.id == x and isinstance(y.ctx, (ast.Store, ast.Del)) for y in own(n))]
                if ds and all(isinstance(d, ast.Assign) and isinstance(d.targets[0], ast.Name) and fixed(d.value) for d in ds) and \
                        len(ds) == 1 and not (isinstance(nd, ast.For) and x in target_names(nd.target)):
                    same.add(x)
                    again = True
        return fixed

    def reading(self, f, nd):
        """the reads of a loop are not all of the same bits"""
        fixed = self.still(f, nd)
        for n in inner(nd.body):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in READS and n.args:
                v = self.ty.fact(n.func.value)
                if v is not TOP and v and not all(a[0] in ('i', 'x') for a in v) or \
                        any(isinstance(a, ast.Starred) for a in n.args):
                    continue
                if any(isinstance(c, (ast.FunctionDef, ast.Lambda)) for c in ast.walk(nd)):
                    continue
                # a position kept in a variable of the function
                local = {x.id for st in body_nodes(f.node) if isinstance(st, (ast.Name,)) and isinstance(st.ctx, ast.Store)
                         for x in [st]}
                if not fixed(n) or any(isinstance(x, ast.Subscript) for x in ast.walk(n)) or \
                        not local & reads(n.args[0]):
                    self.rep.passed("reads")
                    continue
                self.rep.violation("reads", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(n)[:80]),
                                   "%s:%d" % (f.module.path, n.lineno),
                                   "%s reads the same bits in every turn of its loop: %s" % (f.qual, ast.unparse(n)[:90]))

    def condition(self, f, nd):
        """the condition of the loop can come out otherwise some time, or the loop has other ends"""
        if isinstance(nd.test, ast.Constant):
            ends = [n for n in inner(nd.body) if isinstance(n, (ast.Break, ast.Return, ast.Raise, ast.Yield, ast.YieldFrom, ast.Await))
                    or isinstance(n, ast.Call) and not self.total(f, n) or isinstance(n, ast.Subscript)]
            if not ends and nd.test.value:
                self.stays(f, nd)
            else:
                self.rep.passed("condition")
        elif any(isinstance(n, (ast.Break, ast.Return, ast.Raise)) for n in inner(nd.body)) or not self.still(f, nd)(nd.test):
            self.rep.passed("condition", sample="%s: while %s" % (f.where, ast.unparse(nd.test)[:70]))
        else:
            self.stays(f, nd)

    def stays(self, f, nd):
        self.rep.violation("condition", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(nd.test)[:80]),
                           "%s:%d" % (f.module.path, nd.lineno),
                           "%s: nothing in the loop changes what its condition reads, and it has no other end: while %s" % (
                               f.qual, ast.unparse(nd.test)[:80]))

    # -- one loop ------------------------------------------------------------------
    def loop(self, f, nd):
        test = nd.test if isinstance(nd, ast.While) else ast.Constant(True)
        rel = set(reads(test))
        for n in inner(nd.body):
            if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                rel |= reads(n.test)
            elif isinstance(n, ast.For):
                rel |= reads(n.iter)
            elif isinstance(n, ast.Match):
                rel |= reads(n.subject)
            elif isinstance(n, ast.comprehension):
                for t in n.ifs:
                    rel |= reads(t)
            elif isinstance(n, ast.BoolOp):
                rel |= reads(n)
        # what can end the turn with an exception
        for n in inner(nd.body):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                rel |= reads(n)
            elif isinstance(n, ast.Call) and not self.total(f, n):
                for a in list(n.args) + [k.value for k in n.keywords]:
                    rel |= reads(a)
                rel |= reads(n.func)
        again = True
        while again:
            again = False
            for n in inner(nd.body):
                if isinstance(n, ast.Assign):
                    ts, v = n.targets, n.value
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    ts, v = [n.target], n.value
                elif isinstance(n, ast.For):
                    ts, v = [n.target], n.iter
                elif isinstance(n, ast.NamedExpr):
                    ts, v = [n.target], n.value
                else:
                    continue
                if v is not None and any(target_names(t) & rel for t in ts):
                    new = reads(v) - rel
                    if new:
                        rel |= new
                        again = True
        carried = set()
        self.exposed(nd.body, set(), carried)
        carried |= reads(test)
        self.f, self.rel, self.carried, self.steps = f, rel, carried, 0
        self.again = self.settled(nd)
        # conditions kept in variables
        self.held, n = {}, {}
        for x in inner(f.node.body):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                n[x.id] = n.get(x.id, 0) + 1
        self.stored = set(n)
        for x in inner(nd.body):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and \
                    n[x.targets[0].id] == 1 and isinstance(x.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
                self.held[x.targets[0].id] = x.value
        if self.moves(f, test, rel) or isinstance(nd, ast.For) and target_names(nd.target) & rel:
            self.rep.passed("turn")
            return
        try:
            ends = [x for st in self.assume(test, True, frozenset()) for x in self.block(nd.body, st)]
        except TooMany:
            self.rep.undecided("turn")
            return
        stuck = [c for k, c in ends if k in ("next", "continue")]
        sure = [c for c in stuck if not self.exhausted(nd, c)]
        if stuck and not sure:
            self.rep.undecided("turn")
        elif stuck:
            stuck = sure
            cs = min(stuck, key=len)
            self.rep.violation("turn", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(test)[:80]),
                               "%s:%d" % (f.module.path, nd.lineno),
                               "%s: the loop can turn again with nothing changed: no field is created and nothing its "
                               "condition or exits read is assigned%s" % (
                                   f.qual, " when " + " and ".join(sorted(("" if v else "not ") + t for t, v in cs))[:160]
                                   if cs else ""))
        else:
            self.rep.passed("turn", sample="%s: while %s" % (f.where, ast.unparse(test)[:70]))
        self.step(f, nd, test)

    def settled(self, nd):
        """assignments of the loop which put a position where a search from it has found something: done again,
        they leave the position where it is"""
        defs = {}
        for n in inner(nd.body):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                defs.setdefault(n.targets[0].id, []).append(n.value)
            elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                defs.setdefault(dotted(n), []).append(None) if not (
                    isinstance(n, ast.Name) and any(isinstance(m, ast.Assign) and n in m.targets for m in inner(nd.body))) else None

        def search(e, name, x, pos):
            """e is what the named method finds from the position x on"""
            if isinstance(e, ast.Name) and len(defs.get(e.id, ())) == 1:
                e = defs[e.id][0]
            if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == name and not any(
                    isinstance(a, ast.Starred) for a in e.args)):
                return False
            if name == "searchBytesLength":
                inc = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == "include_needle"), None)
                if not (isinstance(inc, ast.Constant) and not inc.value):
                    return False
            at = e.args[pos] if len(e.args) > pos else next((k.value for k in e.keywords if k.arg == "start_address"), None)
            return at is not None and dotted(at) == x
        out = set()
        for n in inner(nd.body):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and dotted(n.targets[0]) and \
                    search(n.value, "searchBytes", dotted(n.targets[0]), 1):
                out.add(id(n))
            elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and dotted(n.target):
                v = n.value
                if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Mult, ast.LShift)):
                    v = v.left if not isinstance(v.left, ast.Constant) else v.right
                if search(v, "searchBytesLength", dotted(n.target), 2):
                    out.add(id(n))
        return out

    def exhausted(self, nd, cs):
        """the path is what remains of a value after several tests for constants, which may be nothing"""
        tests = {}
        for t, v in cs:
            if " == " in t and not v:
                l, r = t.split(" == ", 1)
                try:
                    tests.setdefault(l, []).append(ast.literal_eval(r))
                except (ValueError, SyntaxError):
                    pass
        for l, consts in tests.items():
            if len(consts) < 2:
                continue
            for n in inner(nd.body):
                if isinstance(n, ast.expr) and not isinstance(n, ast.Constant) and ast.unparse(n) == l:
                    ds = self.doms.of(self.f, n)
                    break
            else:
                ds = None
            if ds is None or len(consts) >= self.width(ds):
                return True
        return False

    def width(self, ds):
        n = 0
        for d in ds:
            if d.kind != 'int' or d.lo is None or d.hi is None:
                return 0
            n += d.hi - d.lo + 1
        return n

    def exposed(self, stmts, must, out):
        """names read before they are assigned in the turn -> out; False if the end is not reached"""
        for st in stmts:
            if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                if st.value is not None:
                    out |= reads(st.value) - must
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in ts:
                    if isinstance(st, ast.AugAssign):
                        out |= target_names(t) - must
                    for n in ast.walk(t):
                        if isinstance(n, (ast.Attribute, ast.Subscript)):
                            out |= reads(n) - must
                    if isinstance(t, (ast.Name, ast.Tuple, ast.List)):
                        must |= {x for x in target_names(t) if x.isidentifier()}
            elif isinstance(st, ast.If):
                out |= reads(st.test) - must
                a, b = set(must), set(must)
                ra, rb = self.exposed(st.body, a, out), self.exposed(st.orelse, b, out)
                if not ra and not rb:
                    return False
                new = (a & b) if ra and rb else a if ra else b
                must |= new
            elif isinstance(st, (ast.For, ast.While)):
                out |= reads(st.iter if isinstance(st, ast.For) else st.test) - must
                a = set(must)
                if isinstance(st, ast.For):
                    a |= {x for x in target_names(st.target) if x.isidentifier()}
                self.exposed(st.body, a, out)
                self.exposed(st.orelse, set(must), out)
            elif isinstance(st, ast.Try):
                a = set(must)
                r = self.exposed(st.body, a, out)
                if r:
                    r = self.exposed(st.orelse, a, out)
                outs = [a] if r else []
                for h in st.handlers:
                    b = set(must)
                    if self.exposed(h.body, b, out):
                        outs.append(b)
                self.exposed(st.finalbody, set(must), out)
                if not outs:
                    return False
                must |= set.intersection(*outs)
            elif isinstance(st, ast.With):
                for i in st.items:
                    out |= reads(i.context_expr) - must
                    if i.optional_vars is not None:
                        must |= {x for x in target_names(i.optional_vars) if x.isidentifier()}
                if not self.exposed(st.body, must, out):
                    return False
            else:
                for n in ast.iter_child_nodes(st):
                    if isinstance(n, ast.expr):
                        out |= reads(n) - must
                if isinstance(st, (ast.Break, ast.Continue, ast.Return, ast.Raise)):
                    return False
                if isinstance(st, ast.Match):
                    for c in st.cases:
                        self.exposed(c.body, set(must), out)
        return True

    # states are sets of (text of a test, outcome); only paths without progress are followed
    def assume(self, test, want, st):
        """the states in which the test can come out as wanted"""
        if isinstance(test, ast.Constant):
            return [st] if bool(test.value) == want else []
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, not want, st)
        if isinstance(test, ast.Name) and test.id in self.held and (test.id, want) not in st:
            if (test.id, not want) in st:
                return []
            return self.assume(self.held[test.id], want, st | {(test.id, want)})
        if isinstance(test, ast.BoolOp):
            every = isinstance(test.op, ast.And) == want
            if every:
                out = [st]
                for v in test.values:
                    out = [y for x in out for y in self.assume(v, want, x)]
                return out
            return [y for v in test.values for y in self.assume(v, want, st)]
        t, w = normal(self.fold(test), want)
        if (t, not w) in st:
            return []
        for n, v in st:
            if excluded(n, v, t, w):
                return []
        st = st | {(t, w)}
        # neither less, nor greater, nor equal
        no = {x for x, v in st if not v}
        for x in no:
            if " < " in x:
                a, b = x.split(" < ", 1)
                if "%s < %s" % (b, a) in no and ("%s == %s" % (a, b) in no or "%s == %s" % (b, a) in no):
                    return []
        return [st]

    def fold(self, test):
        """constants of the module stand for their values"""
        if not isinstance(test, ast.Compare) or len(test.ops) != 1:
            return test
        out = []
        for e in [test.left] + test.comparators:
            if isinstance(e, ast.Name):
                b = self.p.lookup(self.f.module, e.id)
                if isinstance(b, ValueBinding) and b.expr is not None and isinstance(b.expr, ast.Constant) and \
                        e.id not in self.f.all_params and e.id not in self.stored and isinstance(b.expr.value, (int, str, bytes)):
                    e = b.expr
            out.append(e)
        return ast.Compare(out[0], test.ops, out[1:])

    def forget(self, st, names):
        if not names:
            return st
        return frozenset(x for x in st if not names & words(x[0]))

    def block(self, stmts, st):
        """ends of the paths without progress: [(kind, state)]"""
        states = [st]
        out = []
        for s in stmts:
            nxt = []
            for x in states:
                for k, y in self.stmt(s, x):
                    if k == "next":
                        nxt.append(y)
                    else:
                        out.append((k, y))
            states = list(dict.fromkeys(nxt))
            self.steps += len(states)
            if self.steps > LIMIT:
                raise TooMany()
            if not states:
                return out
        return out + [("next", x) for x in states]

    def changed(self, t, v):
        """storing to the target is progress"""
        names = target_names(t)
        if isinstance(t, ast.Name):
            return t.id in self.rel and t.id in self.carried
        if isinstance(t, ast.Attribute):
            return bool(names & self.rel)
        if isinstance(t, (ast.Tuple, ast.List)):
            return any(self.changed(x, None) for x in t.elts)
        if isinstance(t, ast.Subscript):
            return bool(reads(t.value) & self.rel)
        return True

    def stmt(self, s, st):
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            if s.value is None:
                return [("next", st)]
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if self.moves(self.f, s.value, self.rel) or id(s) not in self.again and any(self.changed(t, s.value) for t in ts):
                return []
            names = set().union(*[target_names(t) for t in ts])
            st = self.forget(st, {n.lstrip(".") for n in names})
            return [("next", st)]
        if isinstance(s, ast.Expr):
            return [] if self.moves(self.f, s.value, self.rel) else [("next", st)]
        if isinstance(s, ast.If):
            if self.moves(self.f, s.test, self.rel):
                return []
            out = []
            for x in self.assume(s.test, True, st):
                out += self.block(s.body, x)
            for x in self.assume(s.test, False, st):
                out += self.block(s.orelse, x) if s.orelse else [("next", x)]
            return out
        if isinstance(s, (ast.For, ast.While)):
            e = s.iter if isinstance(s, ast.For) else s.test
            if self.moves(self.f, e, self.rel):
                return []
            if isinstance(s, ast.For) and self.changed(s.target, None):
                return []
            # a loop which can move on is taken to do so
            if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) or isinstance(n, ast.Call) and not self.pure_call(
                    self.f, n, self.rel) for n in inner(s.body)):
                return []
            assigned = set()
            for n in inner(s.body):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if self.changed(t, None):
                            return []
                        assigned |= {x.lstrip(".") for x in target_names(t)}
            out = []
            base = self.forget(st, assigned)
            for k, x in self.block(s.body, base):
                if k in ("return", "raise"):
                    out.append((k, x))
            out.append(("next", base))
            return out
        if isinstance(s, ast.Try):
            out = []
            for k, x in self.block(s.body, st):
                if k == "next" and s.orelse:
                    out += self.block(s.orelse, x)
                else:
                    out.append((k, x))
            # a handler is entered with what happened before the exception: something may have
            # moved on if anything in the block can
            if not any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) or isinstance(n, ast.Call) and not self.pure_call(
                    self.f, n, self.rel) for n in inner(s.body)):
                names = set()
                for n in inner(s.body):
                    if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                        names |= {x.lstrip(".") for x in target_names(n)}
                for h in s.handlers:
                    out += self.block(h.body, self.forget(st, names))
            if s.finalbody:
                fin = []
                for k, x in out:
                    for k2, y in self.block(s.finalbody, x):
                        fin.append((k if k2 == "next" else k2, y))
                out = fin
            return out
        if isinstance(s, ast.With):
            return []
        if isinstance(s, ast.Match):
            out = []
            for c in s.cases:
                out += self.block(c.body, st)
            return out + [("next", st)]
        if isinstance(s, ast.Break):
            return [("break", st)]
        if isinstance(s, ast.Continue):
            return [("continue", st)]
        if isinstance(s, ast.Return):
            return [("return", st)]
        if isinstance(s, ast.Raise):
            return [("raise", st)]
        if isinstance(s, ast.Assert):
            return [("next", x) for x in self.assume(s.test, True, st)]
        if isinstance(s, (ast.Pass, ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return [("next", st)]
        return []

    # -- direction -----------------------------------------------------------------
    def step(self, f, nd, test):
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and not nd.orelse:
            l, op, r = test.left, test.ops[0], test.comparators[0]
            if isinstance(op, (ast.Gt, ast.GtE)):
                l, r = r, l
            elif not isinstance(op, (ast.Lt, ast.LtE)):
                return
            # l < r: l has to go up or r down
            ups = self.direction(f, nd, l)
            downs = self.direction(f, nd, r)
            if ups is None or downs is None:
                return
            if ups or downs:
                if (ups <= {-1, 0}) and (downs <= {1, 0}) and not any(
                        isinstance(n, (ast.Break, ast.Return, ast.Raise, ast.Yield, ast.YieldFrom)) for n in inner(nd.body)):
                    self.rep.violation("step", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(test)[:80]),
                                       "%s:%d" % (f.module.path, nd.lineno),
                                       "%s: each turn of the loop goes away from the bound of its condition %s" % (
                                           f.qual, ast.unparse(test)[:80]))
                else:
                    self.rep.passed("step")

    def direction(self, f, nd, e):
        """signs of the steps of the expression in the loop, None if not known"""
        if isinstance(e, ast.Constant):
            return set()
        d = dotted(e)
        if d is None:
            return None if reads(e) & {x for n in inner(nd.body) if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(
                n.ctx, ast.Store) for x in target_names(n)} or any(isinstance(n, ast.Call) for n in inner([e])) else set()
        out = set()
        for n in inner(nd.body):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and dotted(n) == d:
                out.add(None)
        if isinstance(e, ast.Attribute) and not out:
            return None
        n_aug = 0
        for n in inner(nd.body):
            if isinstance(n, ast.AugAssign) and dotted(n.target) == d and isinstance(n.op, (ast.Add, ast.Sub)):
                v = n.value
                if isinstance(v, ast.Constant) and isinstance(v.value, int) and v.value > 0 or \
                        isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "len" or self.positive(v):
                    out.add(1 if isinstance(n.op, ast.Add) else -1)
                    n_aug += 1
        total = sum(1 for n in inner(nd.body) if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(
            n.ctx, (ast.Store, ast.Del)) and dotted(n) == d)
        if total != n_aug:
            return None
        return out - {None}

    def positive(self, e):
        ds = self.doms.of(self.f, e)
        return bool(ds) and all(d.kind == 'int' and d.lo is not None and d.lo >= 0 for d in ds)

    # -- recursion -----------------------------------------------------------------
    def recursion(self):
        must = {}
        funcs = {}
        for f in self.p.functions:
            if isinstance(f.node, ast.Lambda):
                continue
            if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in inner(f.node.body)):
                continue        # calling a generator runs nothing
            funcs[nid(f.node)] = f
            must[nid(f.node)] = self.always(f, f.node.body) or set()
        for k, f in funcs.items():
            seen, todo = set(), [k]
            hit = False
            while todo and not hit:
                x = todo.pop()
                for y in must.get(x, ()):
                    if y == k:
                        hit = True
                    elif y not in seen:
                        seen.add(y)
                        todo.append(y)
            if hit:
                self.rep.violation("recursion", "%s:%s" % (f.module.name, f.qual), f.where,
                                   "%s calls itself again on every path: it never ends" % f.qual)
            else:
                self.rep.passed("recursion")

    def called(self, f, e):
        """functions certainly called when the expression is evaluated"""
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if not isinstance(e, ast.Lambda):
                return self.called(f, e.generators[0].iter)
            return set()
        if isinstance(e, ast.BoolOp):
            return self.called(f, e.values[0])
        if isinstance(e, ast.IfExp):
            return self.called(f, e.test) | self.called(f, e.body) & self.called(f, e.orelse)
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            return self.called(f, e.left) | self.called(f, e.comparators[0])
        out = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.called(f, c)
            elif isinstance(c, ast.keyword):
                out |= self.called(f, c.value)
        if isinstance(e, ast.Call):
            fv = self.ty.fact(e.func)
            if fv is not TOP and fv and len({a[1] for a in fv if a[0] == 'f'}) == 1 and all(a[0] == 'f' for a in fv):
                t = next(iter(fv))[1]
                if not isinstance(e.func, ast.Attribute) or self.alone(f, e.func, t):
                    out.add(nid(t.node))
        elif isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load) and f.cls is not None and f.params and \
                isinstance(e.value, ast.Name) and e.value.id == f.params[0] and f.name == e.attr and not hidden(f, e.attr):
            if any(isinstance(d, ast.Name) and d.id == "property" for d in f.node.decorator_list) and not any(
                    e.attr in d.attrs for d in self.p.descendants(f.cls) if d is not f.cls):
                out.add(nid(f.node))
        return out

    def alone(self, f, e, t):
        """the method the call reaches is the same in every subclass"""
        if t.cls is None:
            return True
        if not (isinstance(e.value, ast.Name) and f.params and e.value.id == f.params[0] and f.cls is not None):
            return isinstance(e.value, ast.Name) and e.value.id == t.cls.name
        return not any(e.attr in d.attrs for d in self.p.descendants(f.cls) if d is not f.cls) and \
            e.attr not in f.cls.inst_attrs

    def always(self, f, stmts):
        """functions called on every path through the block, None if no path gets out of it"""
        out = set()
        for s in stmts:
            if isinstance(s, ast.If):
                out |= self.called(f, s.test)
                a, b = self.always(f, s.body), self.always(f, s.orelse)
                # a branch which leaves the function is a path of its own
                la, lb = leaves(s.body), leaves(s.orelse)
                if la or lb:
                    early = [x for x, l in ((a, la), (b, lb)) if l]
                    rest = self.always(f, stmts[stmts.index(s) + 1:])
                    keep = [x for x, l in ((a, la), (b, lb)) if not l]
                    tails = [x | rest for x in keep] if keep else []
                    return out | set.intersection(*(early + tails))
                out |= a & b
            elif isinstance(s, (ast.For, ast.While)):
                out |= self.called(f, s.iter if isinstance(s, ast.For) else s.test)
                if leaves(s.body):
                    return out
            elif isinstance(s, ast.Try):
                return out
            elif isinstance(s, ast.With):
                for i in s.items:
                    out |= self.called(f, i.context_expr)
                if leaves(s.body):
                    return out | self.always(f, s.body)
                out |= self.always(f, s.body)
            elif isinstance(s, ast.Match):
                return out
            else:
                for c in ast.iter_child_nodes(s):
                    if isinstance(c, ast.expr) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        out |= self.called(f, c)
                if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                    return out
        return out


def hidden(f, name):
    return f.node.decorator_list == []


def leaves(stmts):
    return any(isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for n in inner(stmts))


def words(text):
    import re
    return set(re.findall(r"\w+", text))


def normal(test, want):
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        flip = {ast.NotEq: "==", ast.NotIn: "in", ast.IsNot: "is", ast.GtE: "<", ast.LtE: ">"}
        plain = {ast.Eq: "==", ast.In: "in", ast.Is: "is", ast.Lt: "<", ast.Gt: ">"}
        op = type(test.ops[0])
        l, r = ast.unparse(test.left), ast.unparse(test.comparators[0])
        if op in plain:
            o = plain[op]
        else:
            o, want = flip[op], not want
        if o == ">":
            l, r, o = r, l, "<"
        elif o in ("==", "is") and (isinstance(test.left, ast.Constant), l) > (isinstance(test.comparators[0], ast.Constant), r):
            l, r = r, l
        return "%s %s %s" % (l, o, r), want
    return ast.unparse(test), want


def excluded(t1, w1, t2, w2):
    """two tests which cannot come out like this together: different constants for one expression"""
    for a, va, b, vb in ((t1, w1, t2, w2), (t2, w2, t1, w1)):
        # x < y excludes x == y and y < x
        if va and vb and " < " in a:
            x, y = a.split(" < ", 1)
            if b in ("%s == %s" % (x, y), "%s == %s" % (y, x), "%s < %s" % (y, x)):
                return True
    if w1 and w2 and " == " in t1 and " == " in t2:
        l1, r1 = t1.split(" == ", 1)
        l2, r2 = t2.split(" == ", 1)
        try:
            return l1 == l2 and ast.literal_eval(r1) != ast.literal_eval(r2)
        except (ValueError, SyntaxError):
            return False
    return False
