"""Constant propagation over module-level and class-level definitions.

`Const(project).value(module, expr, cls)` folds an expression to a Python value
when every name in it is bound (once) to a foldable definition; `class_value(cls,
name)` interprets the straight-line statements and constant loops of a class body
which define the name.  Anything else raises Unknown.  Nothing of the analysed
program is imported or executed: operators are applied to folded constants only.
"""
import ast
from .project import ClassInfo, ValueBinding, Module, External, FuncInfo


class Unknown(Exception):
    pass


class Ref:
    """an entity of the program used as a value (a class, a function)"""

    def __init__(self, ent):
        self.ent = ent

    def __eq__(self, o):
        return isinstance(o, Ref) and o.ent is self.ent

    def __hash__(self):
        return hash(id(self.ent))

    def __repr__(self):
        return "<%r>" % (self.ent,)


BIN = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
       ast.FloorDiv: lambda a, b: a // b, ast.Div: lambda a, b: a / b, ast.Mod: lambda a, b: a % b,
       ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b, ast.BitOr: lambda a, b: a | b,
       ast.BitAnd: lambda a, b: a & b, ast.BitXor: lambda a, b: a ^ b, ast.Pow: lambda a, b: a ** b}
SAFE = {"tuple": tuple, "list": list, "set": set, "frozenset": frozenset, "dict": dict, "len": len, "sorted": sorted,
        "range": range, "int": int, "str": str, "bytes": bytes, "min": min, "max": max, "sum": sum, "ord": ord,
        "chr": chr, "bool": bool, "enumerate": enumerate, "zip": zip, "reversed": reversed, "abs": abs, "float": float,
        "divmod": divmod}
METHODS = {"keys", "values", "items", "get", "encode", "decode", "join", "lower", "upper", "split", "strip", "replace",
           "format", "copy", "startswith", "endswith"}
MUT = {"append", "extend", "update", "insert", "add", "setdefault"}


class Const:
    def __init__(self, project):
        self.p = project
        self.memo = {}
        self.busy = set()
        self.calls = []

    # names --------------------------------------------------------------
    def entity(self, e, depth=0):
        if isinstance(e, ValueBinding):
            if e.kind != "assign" or e.expr is None:
                raise Unknown("binding")
            return self.value(e.module, e.expr, e.cls)
        if isinstance(e, (ClassInfo, FuncInfo, Module)):
            return Ref(e)
        if isinstance(e, External) and e.dotted == "builtins." + e.dotted.rsplit(".", 1)[-1]:
            raise Unknown(e.dotted)
        raise Unknown(repr(e))

    def module_name(self, mod, name):
        key = (mod.name, name)
        if key in self.memo:
            v = self.memo[key]
            if isinstance(v, Unknown):
                raise v
            return v
        if key in self.busy:
            raise Unknown("cycle")
        self.busy.add(key)
        try:
            ents = self.p.lookup_all(mod, name)
            if not ents:
                raise Unknown(name)
            if len(ents) == 1 and isinstance(ents[0], ValueBinding) and ents[0].module is not mod:
                v = self.entity(ents[0])
            elif len(ents) == 1 and not isinstance(ents[0], ValueBinding):
                v = self.entity(ents[0])
            else:
                v = self.body(mod, mod.tree.body, name, None, {})
        except Unknown as e:
            self.memo[key] = e
            raise
        finally:
            self.busy.discard(key)
        self.memo[key] = v
        return v

    def class_value(self, cls, name):
        """value of a class attribute (inherited ones included)"""
        for k in self.p.mro(cls):
            if isinstance(k, ClassInfo):
                if name in k.attrs:
                    return self.own_value(k, name)
            elif k.dotted not in ("builtins.object",):
                raise Unknown("external base")
        raise Unknown("no attribute %s" % name)

    def rebound(self):
        """(class, name) of class attributes assigned by code outside the class body"""
        if getattr(self.p, "rebound_attrs", None) is None:
            out = set()
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) \
                            and isinstance(n.value, ast.Name):
                        for e in self.p.lookup_all(m, n.value.id):
                            if isinstance(e, ClassInfo):
                                out.add((e, n.attr))
            self.p.rebound_attrs = out
        return self.p.rebound_attrs

    def own_value(self, k, name):
        key = (k, name)
        if key in self.memo:
            v = self.memo[key]
            if isinstance(v, Unknown):
                raise v
            return v
        if key in self.busy:
            raise Unknown("cycle")
        if key in self.rebound():
            raise Unknown("assigned from outside the class")
        self.busy.add(key)
        try:
            if k.attrs[name] and not any(isinstance(b, ValueBinding) for b in k.attrs[name]):
                v = Ref(k.attrs[name][-1])
            else:
                v = self.body(k.module, k.node.body, name, k, {})
        except Unknown as e:
            self.memo[key] = e
            raise
        finally:
            self.busy.discard(key)
        self.memo[key] = v
        return v

    # bodies -------------------------------------------------------------
    def body(self, mod, stmts, name, cls, env):
        """interpret the statements which concern `name`; env: local names"""
        env = Env(self, mod, cls, stmts, env)
        env.only = {name} | env.feeders(name)
        env.run(stmts)
        if name not in env.vals:
            raise Unknown(name)
        v = env.vals[name]
        if isinstance(v, Unknown):
            raise v
        return v

    def value(self, mod, e, cls=None, env=None):
        try:
            return Env(self, mod, cls, (), env or {}).ev(e)
        except Unknown:
            raise
        except Exception as err:
            raise Unknown(str(err))


def touched(st):
    """names a statement binds, stores into or calls a mutating method of"""
    out = set()
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) \
                or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
            b = n.func if isinstance(n, ast.Call) else n
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                out.add(b.id)
    return out


class Env:
    def __init__(self, c, mod, cls, stmts, vals):
        self.c, self.mod, self.cls = c, mod, cls
        self.vals = dict(vals)
        self.stmts = stmts
        self.only = None
        self.fuel = 20000

    def feeders(self, name):
        """names used by the statements which touch `name`"""
        out, todo = set(), {name}
        while todo:
            n = todo.pop()
            out.add(n)
            for st in self.stmts:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                    continue
                if n in touched(st):
                    for x in ast.walk(st):
                        if isinstance(x, ast.Name) and x.id not in out:
                            todo.add(x.id)
        return out

    def run(self, stmts):
        for st in stmts:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom,
                               ast.Pass, ast.Global)):
                continue
            t = touched(st)
            if self.only is not None and not (t & self.only):
                continue
            try:
                self.stmt(st)
            except Unknown as e:
                for n in t:
                    self.vals[n] = e
            except Exception as err:
                for n in t:
                    self.vals[n] = Unknown(str(err))

    def stmt(self, st):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unknown("too long")
        if isinstance(st, ast.Assign):
            v = self.ev(st.value)
            for t in st.targets:
                self.assign(t, v)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value))
        elif isinstance(st, ast.AugAssign):
            if type(st.op) not in BIN:
                raise Unknown("op")
            self.assign(st.target, BIN[type(st.op)](self.ev(self.load(st.target)), self.ev(st.value)))
        elif isinstance(st, ast.Expr):
            v = st.value
            if isinstance(v, ast.Constant):
                return
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in MUT:
                o = self.ev(v.func.value)
                if not isinstance(o, (list, dict, set)):
                    raise Unknown("mutation")
                getattr(o, v.func.attr)(*[self.ev(a) for a in v.args])
                return
            raise Unknown("call")
        elif isinstance(st, ast.For) and not st.orelse:
            for x in list(self.ev(st.iter)):
                self.assign(st.target, x)
                for s in st.body:
                    self.stmt(s)
        elif isinstance(st, ast.If):
            for s in (st.body if self.ev(st.test) else st.orelse):
                self.stmt(s)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.vals.pop(t.id, None)
        elif not isinstance(st, ast.Pass):
            raise Unknown(type(st).__name__)

    def load(self, t):
        t = ast.parse(ast.unparse(t), mode="eval").body
        return t

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.vals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = list(v)
            if len(v) != len(t.elts):
                raise Unknown("unpack")
            for a, b in zip(t.elts, v):
                self.assign(a, b)
        elif isinstance(t, ast.Subscript):
            self.ev(t.value)[self.ev(t.slice)] = v
        else:
            raise Unknown("target")

    # expressions --------------------------------------------------------
    def ev(self, e):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unknown(type(e).__name__)
        try:
            return m(e)
        except Unknown:
            raise
        except Exception as err:
            raise Unknown(str(err))

    def ev_Constant(self, e):
        return e.value

    def ev_Name(self, e):
        if e.id in self.vals:
            v = self.vals[e.id]
            if isinstance(v, Unknown):
                raise v
            return v
        if self.cls is not None and e.id in self.cls.attrs and e.id not in (self.only or ()):
            return self.c.own_value(self.cls, e.id)
        if self.only is not None and self.cls is None and e.id in self.only and e.id in self.mod.bindings \
                and any(e.id in touched(s) for s in self.stmts):
            raise Unknown("not yet bound")
        if e.id in self.mod.bindings or self.c.p.lookup_all(self.mod, e.id):
            return self.c.module_name(self.mod, e.id)
        if e.id in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[e.id]
        raise Unknown(e.id)

    def ev_Attribute(self, e):
        b = self.ev(e.value)
        if isinstance(b, Ref):
            if isinstance(b.ent, ClassInfo):
                return self.c.class_value(b.ent, e.attr)
            if isinstance(b.ent, Module):
                return self.c.module_name(b.ent, e.attr)
        raise Unknown("attribute")

    def ev_Tuple(self, e):
        return tuple(self.seq(e.elts))

    def ev_List(self, e):
        return self.seq(e.elts)

    def ev_Set(self, e):
        return set(self.seq(e.elts))

    def seq(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.ev(x.value))
            else:
                out.append(self.ev(x))
        return out

    def ev_Dict(self, e):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                out.update(self.ev(v))
            else:
                try:
                    val = self.ev(v)
                except Unknown as u:
                    val = u
                out[self.ev(k)] = val
        return out

    def ev_BinOp(self, e):
        if type(e.op) not in BIN:
            raise Unknown("op")
        a, b = self.ev(e.left), self.ev(e.right)
        if isinstance(e.op, (ast.LShift, ast.Pow)) and (not isinstance(b, int) or b > 512):
            raise Unknown("big")
        if isinstance(e.op, ast.Mult) and any(isinstance(x, (str, bytes, list, tuple)) for x in (a, b)) \
                and any(isinstance(x, int) and x > 100000 for x in (a, b)):
            raise Unknown("big")
        return BIN[type(e.op)](a, b)

    def ev_UnaryOp(self, e):
        v = self.ev(e.operand)
        return {ast.USub: lambda: -v, ast.Not: lambda: not v, ast.Invert: lambda: ~v, ast.UAdd: lambda: +v}[type(e.op)]()

    def ev_BoolOp(self, e):
        v = None
        for x in e.values:
            v = self.ev(x)
            if bool(v) != isinstance(e.op, ast.And):
                return v
        return v

    def ev_IfExp(self, e):
        return self.ev(e.body if self.ev(e.test) else e.orelse)

    def ev_Compare(self, e):
        l = self.ev(e.left)
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r)
            f = {ast.Eq: lambda: l == r, ast.NotEq: lambda: l != r, ast.Lt: lambda: l < r, ast.LtE: lambda: l <= r,
                 ast.Gt: lambda: l > r, ast.GtE: lambda: l >= r, ast.In: lambda: l in r,
                 ast.NotIn: lambda: l not in r, ast.Is: lambda: l is r, ast.IsNot: lambda: l is not r}[type(op)]
            if not f():
                return False
            l = r
        return True

    def ev_Subscript(self, e):
        b = self.ev(e.value)
        if isinstance(b, Ref):
            raise Unknown("subscript")
        if isinstance(e.slice, ast.Slice):
            s = slice(*[None if x is None else self.ev(x) for x in (e.slice.lower, e.slice.upper, e.slice.step)])
            return b[s]
        v = b[self.ev(e.slice)]
        if isinstance(v, Unknown):
            raise v
        return v

    def ev_JoinedStr(self, e):
        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            elif v.format_spec is None and v.conversion == -1:
                out += str(self.ev(v.value))
            else:
                raise Unknown("format")
        return out

    def ev_Call(self, e):
        args = None
        if isinstance(e.func, ast.Name) and e.func.id in SAFE and not self.c.p.lookup_all(self.mod, e.func.id) \
                and e.func.id not in self.vals:
            args = self.seq(e.args)
            kw = {k.arg: self.ev(k.value) for k in e.keywords if k.arg}
            if any(isinstance(a, (Ref, Unknown)) for a in args):
                raise Unknown("ref")
            r = SAFE[e.func.id](*args, **kw)
            if isinstance(r, range) and len(r) > 100000:
                raise Unknown("big")
            return list(r) if e.func.id in ("enumerate", "zip", "reversed", "range") else r
        if isinstance(e.func, ast.Attribute) and e.func.attr in METHODS:
            o = self.ev(e.func.value)
            if isinstance(o, (str, bytes, dict, list, tuple, set)):
                r = getattr(o, e.func.attr)(*self.seq(e.args))
                return list(r) if e.func.attr in ("keys", "values", "items") else r
        if isinstance(e.func, ast.Name) and not e.keywords:
            return self.call(self.ev_Name(e.func), self.seq(e.args))
        raise Unknown("call")

    def call(self, f, args):
        """fold a function which is a straight line of folded statements"""
        f = f.ent if isinstance(f, Ref) else None
        if not isinstance(f, FuncInfo) or isinstance(f.node, ast.Lambda) or len(args) != len(f.params) or f.is_generator \
                or f.node.args.vararg or f.node.args.kwarg or f.node.args.kwonlyargs or f.node.decorator_list:
            raise Unknown("call")
        body = f.node.body
        if not isinstance(body[-1], ast.Return) or body[-1].value is None or len(self.c.calls) > 20:
            raise Unknown("call")
        env = Env(self.c, f.module, None, (), dict(zip(f.params, args)))
        self.c.calls.append(f)
        try:
            for st in body[:-1]:
                env.stmt(st)
            return env.ev(body[-1].value)
        finally:
            self.c.calls.pop()

    def comp(self, e, emit):
        def rec(i):
            if i == len(e.generators):
                emit()
                return
            g = e.generators[i]
            for x in list(self.ev(g.iter)):
                self.fuel -= 1
                if self.fuel < 0:
                    raise Unknown("too long")
                self.assign(g.target, x)
                if all(self.ev(c) for c in g.ifs):
                    rec(i + 1)
        saved = dict(self.vals)
        try:
            rec(0)
        finally:
            self.vals = saved

    def ev_ListComp(self, e):
        out = []
        self.comp(e, lambda: out.append(self.ev(e.elt)))
        return out

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e):
        return set(self.ev_ListComp(e))

    def ev_DictComp(self, e):
        out = {}

        def emit():
            out[self.ev(e.key)] = self.ev(e.value)
        self.comp(e, emit)
        return out
