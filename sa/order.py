"""The fields a generator creates, in order, with the tests each creation is under.

`Creations.of(f, cls)` lists the creations of a generator function as
(name, call, guards): `guards` are the facts which hold whenever the creation
happens.  A creation whose guards are all among those of a later one has
happened whenever the later one happens."""
import ast
from .project import ClassInfo, nid
from .types import TOP, str_parts


class Creation:
    __slots__ = ("name", "call", "guards", "func", "loops", "pure", "here")

    def __init__(self, name, call, guards, func, loops):
        self.name, self.call, self.guards, self.func, self.loops = name, call, guards, func, loops
        self.here = guards


def assigned(stmts):
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            elif isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                out.add("." + x.attr)
    return out


def fixed(t):
    """a test which keeps its result while nothing it names is assigned: names,
    constants, attributes value/display of items with a constant key"""
    for x in ast.walk(t):
        if isinstance(x, (ast.Call, ast.NamedExpr, ast.Yield, ast.Await, ast.Lambda, ast.ListComp, ast.GeneratorExp)):
            return False
        if isinstance(x, ast.Attribute) and x.attr in ("eof", "current_size", "done", "size", "_current_size", "current_length"):
            return False
        if isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops) and \
                not all(isinstance(c, (ast.Tuple, ast.List, ast.Set)) for c in x.comparators):
            return False    # "name" in self changes while fields are added
    return True


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Creations:
    def __init__(self, ctx):
        self.ctx, self.p, self.fm, self.ty = ctx, ctx.project, ctx.fields, ctx.types
        self.by_node = {}
        for (site, cls), rec in self.ty.sites.items():
            if self.fm.is_field(cls):
                self.by_node.setdefault(nid(rec["node"]), []).append((cls, rec))
        self.fresh = 0

    # -- names ----------------------------------------------------------------
    def name_of(self, call, parent):
        """constant name of the one field the call creates in the field set the
        function fills, or None"""
        recs = self.by_node.get(nid(call))
        if not recs:
            u = self.fm.unk_sites.get(nid(call))    # a class given as an argument or attribute
            if u and len(u[1]) == 1:
                ps = next(iter(u[1]))
                if len(ps) == 1 and isinstance(ps[0], str):
                    return ps[0]
            return None
        names = set()
        for cls, rec in recs:
            if not rec["args"] and "parent" not in rec["kw"] or self.renames(cls):
                return None
            v = self.fm.ctor_param(cls, rec, "name")
            if v is TOP or not v:
                return None
            for a in v:
                ps = str_parts(a)
                if ps is None or len(ps) != 1 or ps[0] is None:
                    return None
                names.add(ps[0])
        return names.pop() if len(names) == 1 else None

    def renames(self, cls):
        """the class gives itself another name when it is created"""
        return any(isinstance(k, ClassInfo) and "_name" in k.inst_attrs and
                   not k.module.name.startswith("hachoir.field.") for k in self.p.mro(cls))

    def created(self, e, me):
        """(name, call) a yielded expression creates"""
        out = []
        while isinstance(e, ast.Call):
            a0 = e.args[0] if e.args else None
            if isinstance(a0, ast.Name) and a0.id == me:
                n = self.name_of(e, me)
                if n is not None:
                    out.append((n, e))
                return out
            if nid(e) in self.by_node:
                return out
            e = a0      # a display adapter around the field
        return out

    # -- walk -------------------------------------------------------------------
    def of(self, f):
        self.out = []
        self.stack = []
        if f.params and isinstance(f.node, ast.FunctionDef):
            self.enter(f, frozenset(), ())
        return self.out

    def enter(self, f, guards, loops):
        if len(self.stack) > 3 or any(x[0] is f for x in self.stack):
            return
        self.fresh += 1
        self.stack.append((f, f.params[0], self.fresh))
        self.block(f.node.body, guards, loops)
        self.stack.pop()

    def token(self):
        self.fresh += 1
        return ("token", self.fresh)

    def names(self, stmts):
        """what the statements assign, as facts mention it"""
        frame = self.stack[-1][2]
        return {n if n.startswith(".") else (frame, n) for n in assigned(stmts)}

    def drop(self, guards, names):
        """facts which survive an assignment"""
        return frozenset(g for g in guards if g[0] == "token" or not (set(g[3]) & names))

    def facts(self, t, pol):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.facts(t.operand, not pol)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == pol:
            return frozenset().union(*[self.facts(v, pol) for v in t.values])
        if not fixed(t):
            return frozenset([self.token()])
        f, me, frame = self.stack[-1]
        ids = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
        about = {(frame, n) for n in ids if n != me} | \
            {"." + x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute)}
        text = ast.dump(t).replace("Name(id=%r" % me, "Name(id='$'")
        return frozenset([("fact", (text, frame if ids - {me} else 0), pol, frozenset(about))])

    def block(self, body, guards, loops):
        local = {}
        for st in body:
            gone = self.names([st])
            if isinstance(st, ast.If):
                self.block(st.body, guards | self.facts(st.test, True), loops)
                self.block(st.orelse, guards | self.facts(st.test, False), loops)
                self.forget(gone)
                guards = self.drop(guards, gone)
                if leaves(st.body) and not leaves(st.orelse):
                    guards = guards | self.drop(self.facts(st.test, False), self.names(st.orelse))
                elif st.orelse and leaves(st.orelse) and not leaves(st.body):
                    guards = guards | self.drop(self.facts(st.test, True), self.names(st.body))
            elif isinstance(st, (ast.For, ast.While, ast.AsyncFor)):
                if isinstance(st, ast.For) and yields_all(st) and isinstance(st.iter, ast.Call):
                    self.call(st.iter, guards, loops)
                    continue
                self.forget(gone)
                guards = self.drop(guards, gone)
                inner = guards | {self.token()}
                if isinstance(st, ast.While):
                    inner = inner | self.drop(self.facts(st.test, True), gone)
                self.block(st.body, inner, loops + ((st, inner),))
                self.forget(gone)
                self.block(st.orelse, guards | {self.token()}, loops)
            elif isinstance(st, ast.Try):
                self.block(st.body, guards | {self.token()} if st.handlers else guards, loops)
                self.forget(gone)
                guards = self.drop(guards, gone)
                for h in st.handlers:
                    self.block(h.body, guards | {self.token()}, loops)
                self.block(st.orelse, guards | {self.token()}, loops)
                self.block(st.finalbody, guards, loops)
            elif isinstance(st, ast.With):
                guards = self.drop(guards, gone)
                self.block(st.body, guards, loops)
            elif isinstance(st, ast.Match):
                for c in st.cases:
                    self.block(c.body, guards | {self.token()}, loops)
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            else:
                self.statement(st, guards, loops, local)
            if gone:
                self.forget(gone)
                guards = self.drop(guards, gone)
                for n in gone:
                    local.pop(n, None)
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    local[(self.stack[-1][2], st.targets[0].id)] = st.value

    def forget(self, names):
        """facts about assigned names no longer speak of the same value: an
        earlier creation under such a fact is not known to have happened"""
        for c in self.out:
            if any(g[0] == "fact" and set(g[3]) & names for g in c.guards):
                c.guards = c.guards | {self.token()}

    def statement(self, st, guards, loops, local):
        if not isinstance(st, ast.Expr):
            return
        e = st.value
        if isinstance(e, ast.YieldFrom) and isinstance(e.value, ast.Call):
            self.call(e.value, guards, loops)
        elif isinstance(e, ast.Yield) and e.value is not None:
            f, me, frame = self.stack[-1]
            e = e.value
            if isinstance(e, ast.Name) and (frame, e.id) in local:
                e = local[(frame, e.id)]
            for n, call in self.created(e, me):
                self.out.append(Creation(n, call, guards, f, loops))

    def call(self, e, guards, loops):
        """a generator function which fills the same field set"""
        me = self.stack[-1][1]
        own = isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == me
        given = bool(e.args) and isinstance(e.args[0], ast.Name) and e.args[0].id == me
        sup = isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
            isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super"
        v = self.ty.fact(e.func)
        if v is TOP or not v or not (own or given or sup):
            return
        fs = [a[1] for a in v if a[0] == "f" and isinstance(a[1].node, ast.FunctionDef) and a[1].params and
              (sup or (a[2] is None) == given)]
        for g in fs:
            self.enter(g, guards if len(v) == 1 else guards | {self.token()}, loops)


def yields_all(st):
    return len(st.body) == 1 and isinstance(st.body[0], ast.Expr) and isinstance(st.body[0].value, ast.Yield) and \
        isinstance(st.target, ast.Name) and isinstance(st.body[0].value.value, ast.Name) and \
        st.body[0].value.value.id == st.target.id


def again(st):
    """the loop goes on after a creation on some path"""
    if isinstance(st, ast.For) and isinstance(st.iter, (ast.Tuple, ast.List)) and len(st.iter.elts) < 2:
        return False
    return not any(isinstance(s, (ast.Return, ast.Raise, ast.Break)) for s in st.body)


def rest(st, call):
    """the loop goes by what is left, and the created field may take all of it"""
    return isinstance(st, ast.While) and any(
        isinstance(x, ast.Attribute) and x.attr in ("eof", "current_size", "_current_size", "size", "_size") for x in ast.walk(st.test)) and any(
        not isinstance(a, ast.Constant) for a in call.args[2:] + [k.value for k in call.keywords if k.arg != "description"])
