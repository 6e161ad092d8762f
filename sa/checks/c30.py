"""Counts, sizes, addresses and indexes are whole numbers, never the result of a true division."""
import ast
from ..project import FuncInfo, body_nodes, nid
from ..reach import Reach
from ..types import TOP, str_parts, typename

# what field classes call the numbers they want
COUNTS = ("size", "length", "nbytes", "nbits", "nb_items", "count", "width", "height", "start_index", "num_elements",
          "ngroups", "num", "index", "start", "nb_block", "bitmap_nb", "base_addr", "db_start", "db_count")
# functions and methods which refuse a float, with the arguments they refuse it in
CALLS = {"range": (0, 1, 2), "hex": (0,), "bin": (0,), "oct": (0,), "chr": (0,), "bytes": (0,), "bytearray": (0,)}
METHODS = {"readBytes": (0, 1), "readBits": (0, 1), "readInteger": (0, 2), "seekByte": (0,), "seekBit": (0,),
           "read": (0, 1), "seek": (0,), "to_bytes": (0,), "searchBytes": (1, 2), "readFirstFields": (0,),
           "readMoreFields": (0,), "ljust": (0,), "rjust": (0,), "center": (0,), "zfill": (0,), "writeBits": (0, 1),
           "copyBitsFrom": (1, 2), "copyBytesFrom": (1, 2), "writeInteger": (2,), "seekBitAddress": (0,),
           "searchBytesLength": (2, 3)}
STORED = ("_size", "_address", "_current_size", "_nbits", "_length", "_offset", "_content_size", "_content_offset")
BIT = (ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr, ast.BitXor)


def run(ctx, rep):
    rep.rule("field-size", "the size, length or number of items given to a field is a whole number", 213)
    rep.rule("index", "the index of an item and the bounds of a slice are whole numbers", 96)
    rep.rule("count", "range(), reads, seeks and paddings count whole bits, bytes or items", 380)
    rep.rule("bits", "shifts, masks and hexadecimal formats are applied to whole numbers", 190)
    rep.rule("stored", "an address or size is stored as a whole number", 80)
    w = Whole(ctx, rep)
    for f in ctx.project.functions:
        w.scan(f)
    w.fields()
    w.callers()
    for x in w.uses:
        w.judge(*x)


class Whole:
    def __init__(self, ctx, rep):
        self.ctx, self.rep, self.ty, self.fm = ctx, rep, ctx.types, ctx.fields
        self.reaches, self.attrs, self.stack, self.uses = {}, {}, [], []

    # -- floats ------------------------------------------------------------------
    def reach(self, f):
        k = nid(f.node)
        if k not in self.reaches:
            self.reaches[k] = Reach(f.node)
        return self.reaches[k]

    def typed(self, e):
        """the types of the expression decide"""
        v = self.ty.fact(e)
        if v is TOP or not v:
            return None
        ts = {typename(a) for a in v}
        if "float" in ts:
            return True
        return None if None in ts else False

    def defs(self, f, ds, env, depth):
        """some definition is a float: True, none is: False"""
        out = False
        for d in ds:
            if isinstance(d, ast.AST):
                r = self.real(f, d, env, depth + 1)
            elif d[0] == "aug":
                st = d[1]
                if isinstance(st.op, ast.Div):
                    r = True
                elif isinstance(st.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv)):
                    a = self.real(f, st.value, env, depth + 1)
                    b = self.defs(f, self.reach(f).before.get(nid(st), ()), env, depth + 1) if depth < 6 else None
                    r = True if a or b else None if a is None or b is None else False
                elif isinstance(st.op, BIT):
                    r = False
                else:
                    r = None
            elif d[0] == "param" and env is not None and d[1] in env:
                r = env[d[1]]
            else:
                r = None
            if r:
                return True
            if r is None:
                out = None
        return out

    def real(self, f, e, env=None, depth=0):
        """is the expression a float on some path, None if unknown"""
        if depth > 6:
            return None
        if isinstance(e, ast.Name):
            ds = self.reach(f).of(e)
            if ds:
                r = self.defs(f, ds, env, depth)
                if r is not None:
                    return r
                if not any(isinstance(d, tuple) and d[0] in ("param", "other") for d in ds):
                    return None
                if len(ds) > 1:
                    return None
            return self.typed(e)
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Div):
                return True     # whatever is divided: the result is never an int
            if isinstance(e.op, BIT):
                return False
            if isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv)) or \
                    isinstance(e.op, ast.Mod) and self.typed(e.left) is not None:
                a, b = self.real(f, e.left, env, depth + 1), self.real(f, e.right, env, depth + 1)
                if a or b:
                    return True
                return False if a is False and b is False else None
            return self.typed(e)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
            return self.real(f, e.operand, env, depth + 1)
        if isinstance(e, ast.IfExp):
            a, b = self.real(f, e.body, env, depth + 1), self.real(f, e.orelse, env, depth + 1)
            return True if a or b else False if a is False and b is False else None
        if isinstance(e, ast.NamedExpr):
            return self.real(f, e.value, env, depth + 1)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ("max", "min", "abs") and e.args:
                rs = [self.real(f, a, env, depth + 1) for a in e.args if not isinstance(a, ast.Starred)]
                if any(rs):
                    return True
            return self.result(f, e, env, depth)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.cls is not None and f.params and \
                e.value.id == f.params[0]:
            t = self.typed(e)
            return t if t is not None else self.attribute(f.cls, e.attr, depth)
        return self.typed(e)

    def result(self, f, e, env, depth):
        """what the function called answers, given the kinds of its arguments"""
        v = self.ty.fact(e.func)
        if (v is TOP or not v) and isinstance(e.func, ast.Attribute):
            # every method of that name in the project answers a float
            gs = [g for g in self.ctx.project.functions if g.name == e.func.attr and g.cls is not None]
            if 0 < len(gs) < 4 and depth < 3 and not any(g in self.stack for g in gs):
                self.stack += gs
                rs = [any(self.real(g, nd.value, None, depth + 2) for nd in body_nodes(g.node)
                          if isinstance(nd, ast.Return) and nd.value is not None) for g in gs]
                del self.stack[-len(gs):]
                return True if all(rs) else None
        if v is TOP or not v or len({x[1] for x in v}) != 1:
            return self.typed(e)
        a = sorted(v, key=repr)[0]
        if a[0] != "f" or isinstance(a[1].node, ast.Lambda) or depth > 3 or a[1] in self.stack or \
                any(isinstance(x, ast.Starred) for x in e.args):
            return self.typed(e)
        g = a[1]
        inner = {}
        ps = list(g.params)
        if a[2] is not None or (g.cls is not None and isinstance(e.func, ast.Attribute)):
            ps = ps[1:]
        for n, x in list(zip(ps, e.args)) + [(k.arg, k.value) for k in e.keywords if k.arg]:
            inner[n] = self.real(f, x, env, depth + 1)
        rets = [nd.value for nd in body_nodes(g.node) if isinstance(nd, ast.Return) and nd.value is not None]
        if not rets or any(isinstance(nd, (ast.Yield, ast.YieldFrom)) for nd in body_nodes(g.node)):
            return self.typed(e)
        self.stack.append(g)
        rs = [self.real(g, x, inner, depth + 2) for x in rets]
        self.stack.pop()
        if any(rs):
            return True
        return False if all(r is False for r in rs) else self.typed(e)

    def attribute(self, cls, name, depth):
        """what the methods of the class store in the attribute"""
        k = (cls, name)
        if k in self.attrs:
            return self.attrs[k]
        self.attrs[k] = None
        for g in self.ctx.project.functions:
            if g.cls is not cls or not g.params:
                continue
            for nd in body_nodes(g.node):
                if isinstance(nd, ast.Assign):
                    ts, val = nd.targets, nd.value
                elif isinstance(nd, ast.AugAssign):
                    ts, val = [nd.target], nd.value
                    if isinstance(nd.op, ast.Div) and is_attr(nd.target, g.params[0], name):
                        self.attrs[k] = True
                        return True
                else:
                    continue
                if any(is_attr(t, g.params[0], name) for t in ts) and self.real(g, val, None, depth + 1):
                    self.attrs[k] = True
                    return True
        return None

    def want(self, rule, f, node, e, what):
        self.uses.append((rule, f, node, e, what))

    def judge(self, rule, f, node, e, what):
        r = self.real(f, e)
        if r is None:
            self.rep.undecided(rule)
        elif r:
            self.rep.violation(rule, "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(node)[:110]),
                               "%s:%d" % (f.module.path, node.lineno), "%s: %s is the result of a true division or another "
                               "float: %s" % (f.qual, what % ast.unparse(e)[:60], ast.unparse(node)[:90]))
        else:
            self.rep.passed(rule)

    # -- parameters and attributes which have to be whole -----------------------------
    def leaves(self, f, e, depth=0):
        """parameters ('p', function, name) and attributes ('a', class, name) which
        have to be whole for the expression to be whole"""
        if depth > 5:
            return set()
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv)):
            return self.leaves(f, e.left, depth + 1) | self.leaves(f, e.right, depth + 1)
        if isinstance(e, ast.UnaryOp):
            return self.leaves(f, e.operand, depth + 1)
        if isinstance(e, ast.Name):
            out = set()
            for d in self.reach(f).of(e):
                if isinstance(d, ast.AST):
                    out |= self.leaves(f, d, depth + 1)
                elif d[0] == "param":
                    out.add(("p", f, d[1]))
            return out
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.cls is not None and f.params and \
                e.value.id == f.params[0]:
            return {("a", f.cls, e.attr)}
        return set()

    def calls(self):
        """(function, call, callee, {parameter: argument}) of the calls of project functions"""
        out = []
        for f in self.ctx.project.functions:
            for nd in body_nodes(f.node):
                if not isinstance(nd, ast.Call) or any(isinstance(x, ast.Starred) for x in nd.args):
                    continue
                v = self.ty.fact(nd.func)
                if v is TOP or not v or len(v) != 1:
                    continue
                a, = v
                if a[0] == "f" and not isinstance(a[1].node, ast.Lambda):
                    g = a[1]
                    ps = g.params[1:] if a[2] is not None else g.params
                elif a[0] == "C" and not self.fm.is_field(a[1]):
                    g = self.ctx.project.find_attr(a[1], "__init__")
                    if not isinstance(g, FuncInfo):
                        continue
                    ps = g.params[1:]
                else:
                    continue
                m = dict(zip(ps, nd.args))
                m.update({k.arg: k.value for k in nd.keywords if k.arg})
                out.append((f, nd, g, m))
        return out

    def callers(self):
        calls = self.calls()
        stores = []
        for f in self.ctx.project.functions:
            if f.cls is None or not f.params:
                continue
            for nd in body_nodes(f.node):
                if isinstance(nd, ast.Assign):
                    for t in nd.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.params[0]:
                            stores.append((f, nd, t.attr))
        need, todo = set(), set()
        for _, f, _, e, _ in self.uses:
            todo |= self.leaves(f, e)
        for _ in range(4):
            todo -= need
            if not todo:
                break
            need |= todo
            new = set()
            for f, nd, g, m in calls:
                for n, x in m.items():
                    if ("p", g, n) in todo:
                        new |= self.leaves(f, x)
            for f, nd, attr in stores:
                if ("a", f.cls, attr) in todo:
                    new |= self.leaves(f, nd.value)
            todo = new
        for f, nd, g, m in calls:
            for n, x in m.items():
                if ("p", g, n) in need and not isinstance(x, ast.Constant):
                    self.want("count", f, nd, x, "%s, of which " + g.qual.replace("%", "%%") + "() makes a size or count,")
        for f, nd, attr in stores:
            if ("a", f.cls, attr) in need and attr not in STORED and not isinstance(nd.value, ast.Constant):
                self.want("stored", f, nd, nd.value, "%s, stored as a size or count,")

    # -- uses ----------------------------------------------------------------------
    def scan(self, f):
        for nd in body_nodes(f.node):
            if isinstance(nd, ast.Call):
                self.call(f, nd)
            elif isinstance(nd, ast.BinOp):
                self.binary(f, nd, nd.op, nd.left, nd.right)
            elif isinstance(nd, ast.AugAssign):
                self.binary(f, nd, nd.op, nd.target, nd.value)
                self.store(f, nd, nd.target, nd.value)
            elif isinstance(nd, ast.UnaryOp) and isinstance(nd.op, ast.Invert):
                self.want("bits", f, nd, nd.operand, "%s, whose bits are inverted,")
            elif isinstance(nd, ast.Subscript):
                if isinstance(nd.slice, ast.Slice):
                    for x in (nd.slice.lower, nd.slice.upper, nd.slice.step):
                        if x is not None and not isinstance(x, ast.Constant):
                            self.want("index", f, nd, x, "%s, the bound of a slice,")
                elif not isinstance(nd.slice, ast.Constant):
                    b = self.ty.fact(nd.value)
                    if b is not TOP and b and not any(a[0] == "dict" or typename(a) == "dict" for a in b):
                        self.want("index", f, nd, nd.slice, "the index %s")
            elif isinstance(nd, ast.Assign):
                for t in nd.targets:
                    self.store(f, nd, t, nd.value)

    def store(self, f, nd, t, value):
        if isinstance(t, ast.Attribute) and t.attr in STORED:
            self.want("stored", f, nd, value, "%s, which is stored as a size or address,")
        elif isinstance(t, ast.Attribute) and t.attr == "value" and isinstance(t.value, ast.Subscript) and \
                f.module.name != "hachoir.editor.typed_field":
            self.want("stored", f, nd, value, "%s, the new value of an edited field,")

    def call(self, f, nd):
        if isinstance(nd.func, ast.Name) and nd.func.id in CALLS:
            v = self.ty.fact(nd.func)
            if v is not TOP and v and any(a[0] == "f" for a in v):
                return
            for i in CALLS[nd.func.id]:
                if i < len(nd.args) and not isinstance(nd.args[i], (ast.Constant, ast.Starred)):
                    self.want("count", f, nd, nd.args[i], "%s")
        elif isinstance(nd.func, ast.Attribute) and nd.func.attr in METHODS:
            for i in METHODS[nd.func.attr]:
                if i < len(nd.args) and not isinstance(nd.args[i], (ast.Constant, ast.Starred)):
                    self.want("count", f, nd, nd.args[i], "%s")

    def binary(self, f, nd, op, left, right):
        if isinstance(op, BIT):
            for x in (left, right):
                if not isinstance(x, ast.Constant):
                    self.want("bits", f, nd, x, "the operand %s of a bit operation")
        elif isinstance(op, ast.Mult):
            for a, b in ((left, right), (right, left)):
                v = self.ty.fact(a)
                seq = isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice) or isinstance(a, (ast.List, ast.Tuple)) \
                    or v is not TOP and v and all(typename(x) in ("str", "bytes", "list", "tuple") for x in v)
                if seq and not isinstance(b, ast.Constant):
                    self.want("count", f, nd, b, "%s, a number of repetitions,")
        elif isinstance(op, ast.Mod):
            v = self.ty.fact(left)
            if v is TOP or not v or len(v) != 1:
                return
            a, = v
            ps = str_parts(a)
            if ps is None or len(ps) != 1 or ps[0] is None:
                return
            specs = conversions(ps[0])
            items = right.elts if isinstance(right, ast.Tuple) else [right]
            if specs and len(specs) == len(items):
                for s, x in zip(specs, items):
                    if s in "xXoc" and not isinstance(x, ast.Constant):
                        self.want("bits", f, nd, x, "%s, formatted with %%" + s + ",")

    def fields(self):
        calls = {}
        for (site, cls), rec in self.ty.sites.items():
            if self.fm.is_field(cls):
                calls.setdefault(nid(rec["node"]), []).append((cls, rec))
        for group in calls.values():
            rec = group[0][1]
            node, f = rec["node"], rec["func"]
            if f is None or not isinstance(node, ast.Call):
                continue
            todo = {}
            for cls, r in group:
                init = self.ctx.project.find_attr(cls, "__init__")
                if not isinstance(init, FuncInfo):
                    continue
                ps = init.params[1:]
                for i, x in enumerate(node.args):
                    if isinstance(x, ast.Starred):
                        break
                    if i < len(ps) and ps[i] in COUNTS:
                        todo.setdefault(nid(x), (x, ps[i], 0))
                for k in node.keywords:
                    if k.arg in COUNTS and (k.arg in ps or init.node.args.kwarg):
                        todo.setdefault(nid(k.value), (k.value, k.arg, 0))
            for x, n, _ in todo.values():
                if not isinstance(x, ast.Constant):
                    self.want("field-size", f, node, x, "%s, given as " + n + " of a field,")


def is_attr(t, me, name):
    return isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == me


def conversions(s):
    """conversion characters of a format without names and stars"""
    out, i = "", 0
    while i < len(s):
        if s[i] == "%":
            i += 1
            while i < len(s) and s[i] in "#0- +.123456789":
                i += 1
            if i >= len(s) or s[i] in "(*":
                return None
            if s[i] != "%":
                out += s[i]
        i += 1
    return out
