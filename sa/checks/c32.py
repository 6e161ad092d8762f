"""What a parser builds is added: no field and no generator of fields is built and forgotten."""
import ast
from ..project import body_nodes, nid
from ..reach import Reach
from ..types import TOP, typename
from .c13 import Progress, inner

YIELDS = (ast.Yield, ast.YieldFrom)


def run(ctx, rep):
    rep.rule("statement", "a statement which only builds a field, or only calls a generator, does nothing: it was meant to "
                          "be yielded", 624)
    rep.rule("returned", "a generator of fields does not return a field: nobody receives it", 18)
    rep.rule("kept", "a field which a generator of fields builds is yielded, handed on or stored on some path", 89)
    w = Built(ctx, rep)
    for f in ctx.project.functions:
        if not isinstance(f.node, ast.Lambda):
            w.scan(f)


class Built:
    def __init__(self, ctx, rep):
        self.ctx, self.rep, self.p, self.ty, self.fm = ctx, rep, ctx.project, ctx.types, ctx.fields
        self.pure = Progress(ctx, rep)

    def fields(self, e):
        """the expression is a field, whatever its class"""
        v = self.ty.fact(e)
        return v is not TOP and bool(v) and all(
            a[0] == 'i' and self.fm.is_field(a[1]) or typename(a) == 'NoneType' for a in v) and any(a[0] == 'i' for a in v)

    def builds(self, f, e):
        """the expression builds a field and does nothing else"""
        if not isinstance(e, ast.Call):
            return False
        v = self.ty.fact(e.func)
        if v is TOP or not v:
            return False
        if all(a[0] == 'C' and self.fm.is_field(a[1]) for a in v):
            return True
        if all(a[0] == 'f' for a in v) and self.fields(e):
            return all(self.pure.pure_func(a[1], a[2][1] if a[2] and a[2][0] == 'i' else None) or self.wraps(a[1]) for a in v)
        return False

    def wraps(self, g, depth=0):
        """a helper which changes nothing but the field it is given, and returns it"""
        if g.cls is not None or not g.params or isinstance(g.node, ast.Lambda) or depth > 4:
            return False
        p = g.params[0]
        back = 0
        for n in body_nodes(g.node):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if not (isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p):
                    return False
            elif isinstance(n, YIELDS + (ast.Global, ast.Nonlocal)):
                return False
            elif isinstance(n, ast.Return):
                v = n.value
                if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], ast.Name) and v.args[0].id == p:
                    t = self.ty.fact(v.func)
                    if t is TOP or not t or not all(a[0] == 'f' and self.wraps(a[1], depth + 1) for a in t):
                        return False
                elif not (isinstance(v, ast.Name) and v.id == p):
                    return False
                back += 1
        return back > 0

    def generator(self, e):
        if not isinstance(e, ast.Call):
            return False
        v = self.ty.fact(e.func)
        return v is not TOP and bool(v) and all(a[0] == 'f' and self.generates(a[1]) for a in v)

    def generates(self, g):
        return isinstance(g.node, ast.FunctionDef) and not g.node.decorator_list and any(
            isinstance(n, YIELDS) for n in body_nodes(g.node))

    def scan(self, f):
        gen = any(isinstance(n, YIELDS) for n in body_nodes(f.node))
        made = False
        for n in body_nodes(f.node):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                e = n.value
                if self.generator(e):
                    self.bad("statement", f, e, "calls a generator and does not iterate over it: %s")
                elif self.builds(f, e) and not self.initialises(e) and self.fresh(f, e):
                    self.bad("statement", f, e, "builds a field and drops it: %s")
                else:
                    self.rep.passed("statement")
            elif isinstance(n, ast.Yield) and n.value is not None and self.fields(n.value):
                made = True
        if not gen:
            if f.cls is not None and f.name == "createFields" and self.fm.is_fieldset(f.cls):
                rs = [n for n in body_nodes(f.node) if isinstance(n, ast.Return) and n.value is not None]
                if rs and all(self.fields(n.value) for n in rs):
                    self.bad("returned", f, rs[0].value, "is not a generator, it returns one field: %s")
                made = True
            else:
                return
        for n in body_nodes(f.node):
            if isinstance(n, ast.Return) and n.value is not None and self.fields(n.value):
                self.bad("returned", f, n.value, "is a generator, the field it returns is lost: %s")
            elif isinstance(n, ast.Return):
                self.rep.passed("returned")
        if made:
            self.locals(f)

    def fresh(self, f, e):
        """what the call returns is made by it, or by one of its arguments"""
        v = self.ty.fact(e.func)
        if all(a[0] == 'C' for a in v) or not any(self.wraps(a[1]) for a in v):
            return True
        return bool(e.args) and self.builds(f, e.args[0]) and self.fresh(f, e.args[0])

    def initialises(self, e):
        return isinstance(e.func, ast.Attribute) and e.func.attr == "__init__"

    def bad(self, rule, f, e, msg):
        t = ast.unparse(e)[:90]
        self.rep.violation(rule, "%s:%s:%s" % (f.module.name, f.qual, t), "%s:%d" % (f.module.path, e.lineno),
                           "%s " % f.qual + msg % t)

    def own(self, f, e):
        """the parent of the field is what the function builds fields for"""
        while isinstance(e, ast.Call) and e.args and isinstance(e.args[0], ast.Call):
            e = e.args[0]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and \
                e.func.value.id in f.all_params:
            v = self.ty.fact(e.func)
            if v is not TOP and v and all(a[0] == 'f' for a in v):
                return True     # a method of the parent
        return isinstance(e, ast.Call) and bool(e.args) and isinstance(e.args[0], ast.Name) and \
            e.args[0].id in f.all_params

    # -- fields in local variables ---------------------------------------------------
    def locals(self, f):
        stores, built, escapes = {}, {}, set()
        nested = [n for n in ast.walk(f.node) if n is not f.node and isinstance(n, (ast.FunctionDef, ast.Lambda))]
        # a hook of the field itself may refer to it
        hooks = {nid(n.value): n.targets[0].value.id for n in body_nodes(f.node) if isinstance(n, ast.Assign) and isinstance(
            n.value, ast.Lambda) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.targets[0].value, ast.Name)}
        captured = {x.id for n in nested for x in ast.walk(n) if isinstance(x, ast.Name) and hooks.get(nid(n)) != x.id}
        for n in body_nodes(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores.setdefault(n.id, []).append(n)
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    self.builds(f, n.value) and self.own(f, n.value):
                built.setdefault(n.targets[0].id, []).append(n)
            if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and self.generator(n.iter) and n.iter.args and \
                    isinstance(n.iter.args[0], ast.Name) and n.iter.args[0].id in f.all_params and n.target.id not in captured:
                x = n.target.id
                if any(isinstance(y, ast.Name) and y.id == x and isinstance(y.ctx, ast.Load) for y in inner(n.body + n.orelse)):
                    self.rep.passed("kept")
                else:
                    self.bad("kept", f, n.iter, "iterates over the fields of a generator and drops them: %s")
        only = {x for x in built if x not in captured and x not in f.all_params}
        if not only:
            return
        looked = set()
        for n in body_nodes(f.node):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.value, ast.Name):
                looked.add(nid(n.value))
            elif isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)) and isinstance(n.test, ast.Name):
                looked.add(nid(n.test))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Name):
                looked.add(nid(n.operand))
            elif isinstance(n, ast.Compare):
                for x in [n.left] + n.comparators:
                    if isinstance(x, ast.Name):
                        looked.add(nid(x))
        r = Reach(f.node)
        kept = set()
        for n in body_nodes(f.node):
            if isinstance(n, ast.Name) and n.id in only and isinstance(n.ctx, ast.Load) and nid(n) not in looked:
                ds = r.of(n)
                if not ds:
                    return
                for d in ds:
                    if isinstance(d, ast.AST):
                        kept.add(nid(d))
        for x in sorted(only):
            for b in built[x]:
                if nid(b.value) in kept:
                    self.rep.passed("kept", sample="%s: %s" % (f.where, ast.unparse(b)[:80]))
                else:
                    self.bad("kept", f, b, "builds a field which is never yielded, handed on or stored: %s")
