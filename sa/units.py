"""Unit inference over the program: quantities in bits and quantities in bytes.

Every numeric expression gets a term (variable, offset): its value times
8**(unit of variable + offset) is a number of bits, so a quantity of bits has
unit 0 and a quantity of bytes unit 1.  Multiplying by 8 lowers the unit by one,
dividing by 8 raises it.  Additions, comparisons, min/max, ranges and argument
passing relate the terms of their operands; anything else gives an unrelated
variable.  Variables are joined by a union-find with offsets.  A relation
between a bit quantity and a byte quantity is a conflict.

Function parameters are generalised: inside a body a parameter is one variable;
what the body (never a caller) fixes about it is applied to every call.
"""
import ast
import re
from .project import FuncInfo, ValueBinding, iter_own, nid
from .types import TOP

NEUTRAL = ("neutral",)


class Units:
    def __init__(self):
        self.parent = {}
        self.off = {}
        self.unit = {}          # root -> (unit, provenance)
        self.n = 0
        self.memo = {}

    def fresh(self):
        self.n += 1
        v = self.n
        self.parent[v] = v
        self.off[v] = 0
        return (v, 0)

    def find(self, t):
        v, o = t
        path = []
        while self.parent[v] != v:
            path.append(v)
            v = self.parent[v]
        # accumulate
        tot = 0
        for x in reversed(path):
            tot += self.off[x]
            self.off[x] = tot
            self.parent[x] = v
        return v, o + (self.off[path[0]] if path else 0)

    def var(self, key):
        if key not in self.memo:
            self.memo[key] = self.fresh()
        return self.memo[key]

    def get(self, t):
        """unit of a term or None, with provenance"""
        if t is NEUTRAL:
            return None, None
        r, o = self.find(t)
        u = self.unit.get(r)
        if u is None:
            return None, None
        return u[0] + o, u[1]

    def bind(self, t, unit, why):
        """None, or the conflict (unit already there, its provenance)."""
        if t is NEUTRAL:
            return None
        r, o = self.find(t)
        u = self.unit.get(r)
        if u is None:
            self.unit[r] = (unit - o, why)
            return None
        if u[0] + o == unit:
            return None
        return (u[0] + o, u[1])

    def unify(self, a, b):
        """None, or the conflict ((unit a, why), (unit b, why))."""
        if a is NEUTRAL or b is NEUTRAL:
            return None
        ra, oa = self.find(a)
        rb, ob = self.find(b)
        if ra == rb:
            if oa == ob:
                return None
            u = self.unit.get(ra)
            if u is None:
                return ((None, None), (None, None))
            return ((u[0] + oa, u[1]), (u[0] + ob, u[1]))
        ua, ub = self.unit.get(ra), self.unit.get(rb)
        if ua is not None and ub is not None and ua[0] + oa != ub[0] + ob:
            return ((ua[0] + oa, ua[1]), (ub[0] + ob, ub[1]))
        # unit(rb) + ob == unit(ra) + oa
        self.parent[rb] = ra
        self.off[rb] = oa - ob
        if ub is not None and ua is None:
            self.unit[ra] = (ub[0] + ob - oa, ub[1])
        self.unit.pop(rb, None)
        return None


def shift(t, k):
    if t is NEUTRAL:
        return t
    return (t[0], t[1] + k)


def const(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd, ast.Invert)):
        c = const(e.operand)
        if c is not None and not (isinstance(e.op, ast.Invert) and isinstance(c, float)):
            return {ast.USub: lambda x: -x, ast.UAdd: lambda x: x, ast.Invert: lambda x: ~x}[type(e.op)](c)
    if isinstance(e, ast.BinOp):
        a, b = const(e.left), const(e.right)
        if a is None or b is None:
            return None
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                    ast.FloorDiv: lambda: a // b, ast.Div: lambda: a / b, ast.LShift: lambda: a << b,
                    ast.RShift: lambda: a >> b, ast.Pow: lambda: a ** b if abs(b) < 64 else None,
                    ast.Mod: lambda: a % b}[type(e.op)]()
        except (KeyError, ZeroDivisionError, TypeError, ValueError, OverflowError):
            return None
    return None


class Walk:
    """One function body: relates the terms of its expressions."""

    def __init__(self, an, f):
        self.an = an
        self.u = an.u
        self.f = f
        self.ty = an.ty
        self.env = {}
        self.rets = []

    def run(self):
        a = self.f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.env[x.arg] = self.u.var(("param", self.f, x.arg))
        if isinstance(self.f.node, ast.Lambda):
            self.ret(self.ev(self.f.node.body))
        else:
            self.block(self.f.node.body)
        if self.rets:
            self.an.returns[self.f] = self.rets

    def ret(self, t):
        self.rets.append(t)

    # relations -----------------------------------------------------------
    def same(self, a, b, node, what):
        c = self.u.unify(a, b)
        self.an.count("relations")
        if c is not None and c[0][0] is not None:
            self.an.conflict(self.f, node, what, c[0], c[1])

    def must(self, t, unit, node, what):
        self.an.count("axioms")
        c = self.u.bind(t, unit, (self.f, node, what))
        if c is not None:
            self.an.conflict(self.f, node, what, c, (unit, (self.f, node, what)))

    def soft(self, a, b):
        """Join of two values of one variable: related when compatible."""
        if a is NEUTRAL:
            return b
        if b is NEUTRAL:
            return a
        if self.u.unify(a, b) is None:
            return a
        return self.u.fresh()

    # expressions ------------------------------------------------------------
    def ev(self, e):
        if e is None:
            return NEUTRAL
        if const(e) is not None:
            return NEUTRAL
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.ev(ch)
        return self.u.fresh()

    def ev_Constant(self, e):
        return NEUTRAL if e.value is None or isinstance(e.value, bool) else self.u.fresh()

    def ev_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        r = self.an.module_const(self.f, e.id)
        return r if r is not None else self.u.fresh()

    def ev_NamedExpr(self, e):
        t = self.ev(e.value)
        self.env[e.target.id] = t
        return t

    def ev_Lambda(self, e):
        return self.u.fresh()

    def ev_GeneratorExp(self, e):
        return self.comp(e)

    ev_ListComp = ev_SetComp = ev_GeneratorExp

    def comp(self, e):
        save = dict(self.env)
        for g in e.generators:
            self.bind_loop(g.target, g.iter)
            for c in g.ifs:
                self.ev(c)
        t = self.ev(e.elt)
        self.env = save
        return t        # the element's term: sum(), max(), min() read it

    def ev_DictComp(self, e):
        save = dict(self.env)
        for g in e.generators:
            self.bind_loop(g.target, g.iter)
            for c in g.ifs:
                self.ev(c)
        self.ev(e.key)
        self.ev(e.value)
        self.env = save
        return self.u.fresh()

    def ev_IfExp(self, e):
        self.ev(e.test)
        a, b = self.ev(e.body), self.ev(e.orelse)
        return self.soft(a, b)

    def ev_BoolOp(self, e):
        ts = [self.ev(v) for v in e.values]
        if isinstance(e.op, ast.Or):
            t = ts[0]
            for x in ts[1:]:
                t = self.soft(t, x)
            return t
        return self.u.fresh()

    def ev_UnaryOp(self, e):
        t = self.ev(e.operand)
        return self.u.fresh() if isinstance(e.op, ast.Not) else t

    def numeric(self, e):
        """Nothing shows the expression to be other than a number."""
        v = self.an.fact(e)
        if v is TOP:
            return True
        for a in v:
            n = a[2] if a[0] == 'k' else a[1] if a[0] == 't' else None
            if n not in ("int", "float", "bool", "NoneType"):
                return False
        return True

    def ev_BinOp(self, e):
        op = e.op
        a, b = self.ev(e.left), self.ev(e.right)
        ca, cb = const(e.left), const(e.right)
        if isinstance(op, (ast.Add, ast.Sub)):
            if not (self.numeric(e.left) and self.numeric(e.right)):
                return self.u.fresh()
            if a is NEUTRAL:
                return b
            if b is NEUTRAL:
                return a
            self.same(a, b, e, "operands of %s" % ("+" if isinstance(op, ast.Add) else "-"))
            return a
        if isinstance(op, ast.Mult):
            if cb is not None or ca is not None:
                t, c = (a, cb) if cb is not None else (b, ca)
                if c == 8:
                    return shift(t, -1)
                if c in (1, -1):
                    return t
                if c == 64:
                    return shift(t, -2)
                return self.u.fresh()
            return self.product(a, b, e)
        if isinstance(op, (ast.FloorDiv, ast.Div, ast.Mod)) and cb is not None and a is not NEUTRAL:
            self.an.compared.append((self.f, e, e.right, a))
        if isinstance(op, (ast.FloorDiv, ast.Div)):
            if cb == 8:
                return shift(a, 1)
            if cb == 1:
                return a
            if cb == 64:
                return shift(a, 2)
            if cb is None and a is not NEUTRAL and b is not NEUTRAL:
                # a ratio is a count only when both sides have one unit
                ua, ub = self.u.get(a), self.u.get(b)
                if ua[0] in (0, 1) and ub[0] in (0, 1) and ua[0] != ub[0]:
                    self.an.conflict(self.f, e, "operands of /", ua, ub)
            return self.u.fresh()
        if isinstance(op, ast.Mod):
            if isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
                self.formatted(e)
                return self.u.fresh()
            if not self.numeric(e.left):
                return self.u.fresh()
            if cb is None and a is not NEUTRAL and b is not NEUTRAL:
                ua, ub = self.u.get(a), self.u.get(b)
                if ua[0] in (0, 1) and ub[0] in (0, 1) and ua[0] != ub[0]:
                    self.an.conflict(self.f, e, "operands of %", ua, ub)
            return a
        if isinstance(op, ast.LShift):
            if cb == 3:
                return shift(a, -1)
            return self.u.fresh()
        if isinstance(op, ast.RShift):
            if cb == 3:
                return shift(a, 1)
            return self.u.fresh()
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            if cb is not None:
                return a
            return self.u.fresh()
        return self.u.fresh()

    def formatted(self, e):
        """"%u bytes" % x"""
        items = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
        i = 0
        text = e.left.value
        for m in re.finditer(r"%(%|\([^)]*\))?[-#0 +]*[0-9*]*(?:\.[0-9*]+)?([a-zA-Z])?( ?bytes?\b| ?bits?\b)?", text):
            if m.group(1) == "%" or m.group(2) is None:
                continue
            if m.group(1) or "*" in m.group(0):
                return
            if i < len(items) and m.group(3) and m.group(2) in "udsi" and text[m.start() - 1:m.start()] != ".":
                unit = 1 if "byte" in m.group(3) else 0
                # "16 bits", "bits per pixel": a width, not an amount
                if not text[m.end():].startswith("/") and not re.match(r" ?per|-", text[m.end():]):
                    self.must(self.ev(items[i]), unit, e, "format %r" % m.group(0))
            i += 1

    def product(self, a, b, e):
        """quantity times count: the quantity's unit"""
        t = self.u.fresh()
        ua, ub = self.u.get(a), self.u.get(b)
        if (ua[0] in (0, 1)) != (ub[0] in (0, 1)):
            un = ua if ua[0] in (0, 1) else ub
            if self.an.products or any(
                    isinstance(x, ast.Attribute) and x.attr == "static_size" for x in (e.left, e.right)):
                self.u.bind(t, un[0], un[1])
        return t

    def ev_Compare(self, e):
        ts = [(e.left, self.ev(e.left))] + [(c, self.ev(c)) for c in e.comparators]
        for (le, l), op, (re_, r) in zip(ts, e.ops, ts[1:]):
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) and \
                    self.numeric(le) and self.numeric(re_) and l is not NEUTRAL and r is not NEUTRAL:
                self.same(l, r, e, "operands of a comparison")
            elif isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                if l is NEUTRAL and r is not NEUTRAL:
                    self.an.compared.append((self.f, e, le, r))
                elif r is NEUTRAL and l is not NEUTRAL:
                    self.an.compared.append((self.f, e, re_, l))
        return self.u.fresh()

    def ev_Attribute(self, e):
        base = self.ev(e.value)
        return self.an.attr(self, e, base)

    def ev_Subscript(self, e):
        self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            isb = self.an.is_bytes(e.value)
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None:
                    t = self.ev(x)
                    if isb and x is not e.slice.step:
                        self.must(t, 1, x, "bound of a slice of bytes")
        else:
            self.ev(e.slice)
        return self.u.fresh()

    def ev_Tuple(self, e):
        for x in e.elts:
            self.ev(x)
        return self.u.fresh()

    ev_List = ev_Set = ev_Tuple

    def ev_Yield(self, e):
        if e.value is not None:
            self.ev(e.value)
        return self.u.fresh()

    def ev_JoinedStr(self, e):
        for x in ast.walk(e):
            if isinstance(x, ast.FormattedValue):
                self.ev(x.value)
        return self.u.fresh()

    def ev_Call(self, e):
        return self.an.call(self, e)

    # statements ---------------------------------------------------------------
    def block(self, body):
        for st in body:
            if not self.stmt(st):
                return False
        return True

    def store(self, t, term):
        if isinstance(t, ast.Name):
            self.env[t.id] = term if term is not NEUTRAL else NEUTRAL
        elif isinstance(t, ast.Attribute):
            self.ev(t.value)
            v = self.an.attr_var(self, t)
            if v is not None and term is not NEUTRAL:
                self.same(v, term, t, "value stored in %s" % ast.unparse(t))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, self.u.fresh())
        elif isinstance(t, ast.Starred):
            self.store(t.value, self.u.fresh())
        elif isinstance(t, ast.Subscript):
            self.ev(t.value)

    def assigned(self, body):
        out = set()
        for st in body:
            for n in [st] + list(iter_own(st)):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
        return out

    def merge(self, a, b):
        out = {}
        for k in set(a) | set(b):
            if k in a and k in b:
                out[k] = a[k] if a[k] == b[k] else self.soft(a[k], b[k])
            else:
                out[k] = a.get(k, b.get(k))
        return out

    def bind_loop(self, target, it):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" \
                and "range" not in self.env:
            ts = [self.ev(x) for x in it.args]
            t = NEUTRAL
            for x in ts:
                if x is NEUTRAL:
                    continue
                if t is NEUTRAL:
                    t = x
                else:
                    self.same(t, x, it, "bounds of range()")
            self.store(target, t)
            return
        self.ev(it)
        if isinstance(target, (ast.Tuple, ast.List)) or isinstance(target, ast.Name):
            self.store(target, self.u.fresh())
        else:
            self.store(target, self.u.fresh())

    def stmt(self, st):
        """False when control does not pass the statement."""
        u = self.u
        if isinstance(st, ast.Expr):
            self.ev(st.value)
        elif isinstance(st, ast.Assign):
            if len(st.targets) == 1 and isinstance(st.targets[0], ast.Tuple) and \
                    isinstance(st.value, ast.Tuple) and len(st.value.elts) == len(st.targets[0].elts):
                ts = [self.ev(x) for x in st.value.elts]
                for t, x in zip(st.targets[0].elts, ts):
                    self.store(t, x)
            elif len(st.targets) == 1 and isinstance(st.targets[0], (ast.Tuple, ast.List)) and \
                    isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and \
                    st.value.func.id == "divmod" and len(st.value.args) == 2 and \
                    len(st.targets[0].elts) == 2:
                a = self.ev(st.value.args[0])
                c = const(st.value.args[1])
                self.store(st.targets[0].elts[0], shift(a, 1) if c == 8 else u.fresh())
                self.store(st.targets[0].elts[1], a if c is not None else u.fresh())
            else:
                v = self.ev(st.value)
                for t in st.targets:
                    self.store(t, v)
                    self.an.stored_bits(self, t, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.store(st.target, self.ev(st.value))
        elif isinstance(st, ast.AugAssign):
            cur = ast.copy_location(ast.BinOp(left=self.load(st.target), op=st.op, right=st.value), st)
            v = self.ev(cur)
            if isinstance(st.target, ast.Name):
                self.store(st.target, v)
            elif isinstance(st.target, ast.Attribute) and isinstance(st.op, (ast.Add, ast.Sub)):
                pass        # related by the addition itself
        elif isinstance(st, ast.Return):
            if st.value is not None:
                self.ret(self.ev(st.value))
                if self.an.ax["returns"].get(self.f) == 0:
                    self.an.bits.append((self.f, st.value, None, "result of %s" % self.f.name, st))
            return False
        elif isinstance(st, ast.Raise):
            for x in (st.exc, st.cause):
                if x is not None:
                    self.ev(x)
            return False
        elif isinstance(st, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1].append(dict(self.env))
            return False
        elif isinstance(st, ast.If):
            self.ev(st.test)
            e0 = dict(self.env)
            t = st.test
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
                    isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                if isinstance(t.ops[0], ast.Is):
                    self.env[t.left.id] = NEUTRAL
                elif isinstance(t.ops[0], ast.IsNot):
                    e0[t.left.id] = NEUTRAL
            r1 = self.block(st.body)
            e1 = self.env
            self.env = e0
            r2 = self.block(st.orelse)
            if r1 and r2:
                self.env = self.merge(e1, self.env)
            elif r1:
                self.env = e1
            return r1 or r2
        elif isinstance(st, (ast.While, ast.For)):
            if isinstance(st, ast.For):
                it = st
            names = self.assigned(st.body)
            before = dict(self.env)
            for n in names:
                if n in self.env:
                    v = u.fresh()
                    if self.env[n] is not NEUTRAL:
                        u.unify(self.env[n], v)
                    self.env[n] = v
            head = dict(self.env)
            self.loops.append([])
            if isinstance(st, ast.While):
                self.ev(st.test)
            else:
                self.bind_loop(st.target, st.iter)
                head.update({k: self.env[k] for k in self.env if k not in head})
            live = self.block(st.body)
            outs = self.loops.pop()
            ends = ([dict(self.env)] if live else []) + outs
            for en in ends:
                for n in names:
                    if n in head and n in en and en[n] != head[n] and en[n] is not NEUTRAL \
                            and n in before:
                        u.unify(head[n], en[n])
            self.env = head
            for en in ends:
                self.env = self.merge(self.env, en)
            if st.orelse:
                self.block(st.orelse)
            return not (isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and
                        st.test.value and not outs)
        elif isinstance(st, ast.Try) or type(st).__name__ == "TryStar":
            e0 = dict(self.env)
            r = self.block(st.body)
            e1 = dict(self.env)
            envs = []
            mid = self.merge(e0, e1)
            if r:
                if self.block(st.orelse):
                    envs.append(dict(self.env))
            for h in st.handlers:
                self.env = dict(mid)
                if h.name:
                    self.env[h.name] = u.fresh()
                if self.block(h.body):
                    envs.append(dict(self.env))
            if envs:
                self.env = envs[0]
                for x in envs[1:]:
                    self.env = self.merge(self.env, x)
            else:
                self.env = mid
            r = self.block(st.finalbody)
            return bool(envs) and r
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, u.fresh())
            return self.block(st.body)
        elif isinstance(st, ast.Assert):
            self.ev(st.test)
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            self.env[st.name] = u.fresh()
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                self.env[(a.asname or a.name).split(".")[0]] = u.fresh()
        elif isinstance(st, ast.Global):
            pass
        elif isinstance(st, ast.Delete):
            pass
        return True

    loops = None

    def load(self, t):
        c = ast.copy_location(type(t)(**{k: getattr(t, k) for k in t._fields}), t)
        c.ctx = ast.Load()
        # facts are kept per node: the copy answers as the original
        self.an.alias[id(c)] = t
        return c


class Analysis:
    def __init__(self, ctx, axioms):
        self.ctx = ctx
        self.p = ctx.project
        self.fm = ctx.fields
        self.ty = self.fm.ty
        self.ax = axioms
        self.alias = {}
        self.counts = {}
        self.param_units = {}    # (func, param) -> (unit, why)
        self.ret_units = {}      # func -> unit
        self.ret_poly = {}       # func -> (param, offset)
        self.conflicts = {}
        self.products = False
        self.forward = {}

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def run(self, rounds=4):
        self.param_units, self.ret_units, self.ret_poly = {}, {}, {}
        for i in range(rounds):
            self.u = Units()
            self.returns = {}
            self.counts = {}
            self.conflicts = {}
            self.seeds = {}
            self.values = []
            self.bits = []
            self.compared = []
            for f, ps in self.ax["methods"].items():
                for x, unit in ps.items():
                    self.u.bind(self.u.var(("param", f, x)), unit,
                                (f, f.node, "parameter %s of %s" % (x, f.qual)))
            for f in self.p.functions:
                w = Walk(self, f)
                w.loops = []
                w.run()
            pu, ru, rp = {}, {}, {}
            for key, t in self.u.memo.items():
                if key[0] == "param":
                    un, why = self.u.get(t)
                    if un in (0, 1):
                        pu[(key[1], key[2])] = (un, why)
            ru.update(self.ax["returns"])
            for f, ts in self.returns.items():
                if f in ru:
                    for t in ts:
                        c = self.u.bind(t, ru[f], (f, f.node, "result of %s" % f.qual))
                        if c is not None:
                            self.conflict(f, f.node, "result", c, (ru[f], (f, f.node, "result of %s" % f.qual)))
                    continue
                ts = [t for t in ts if t is not NEUTRAL]
                us = {self.u.get(t)[0] for t in ts}
                if len(us) == 1 and us <= {0, 1}:
                    ru[f] = us.pop()
                elif us == {None}:
                    rs = {self.u.find(t) for t in ts}
                    if len(rs) == 1:
                        r = rs.pop()
                        for x in f.all_params:
                            k = ("param", f, x)
                            if k in self.u.memo:
                                pr = self.u.find(self.u.memo[k])
                                if pr[0] == r[0]:
                                    rp[f] = (x, r[1] - pr[1])
                                    break
            same = ({k: x[0] for k, x in pu.items()}, ru, rp) == (
                {k: x[0] for k, x in self.param_units.items()}, self.ret_units, self.ret_poly)
            if same:
                break
            self.param_units, self.ret_units, self.ret_poly = pu, ru, rp
        return self

    def conflict(self, f, node, what, a, b):
        if {a[0], b[0]} != {0, 1}:
            return
        k = (f.module.name, f.qual, ast.unparse(node))
        self.conflicts.setdefault(k, (f, node, what, a, b))

    def fact(self, e):
        return self.ty.fact(self.alias.get(id(e), e))

    def is_bytes(self, e):
        v = self.fact(e)
        return v is not TOP and bool(v) and all(
            (a[0] == 'k' and a[2] == 'bytes') or (a[0] == 't' and a[1] in ('bytes', 'bytearray')) for a in v)

    def bound(self, f, skip, args, kws, depth):
        """parameters the arguments of a call reach, also those passed on by *args and **kw"""
        bound, rest, more = {}, [], {}
        ps = f.params
        a = f.node.args
        for i, xt in enumerate(args):
            if isinstance(xt[0], ast.Starred):
                rest = None
                break
            if i + skip < len(ps):
                bound[ps[i + skip]] = xt
            else:
                rest.append(xt)
        for k, xt in kws.items():
            if k in f.all_params:
                bound[k] = xt
            elif k is not None:
                more[k] = xt
        out = [(f, bound)]
        if depth < 4 and (rest and a.vararg or more and a.kwarg):
            for c, g, gskip in self.passes_on(f):
                ga, gk = [], {}
                for x in c.args:
                    if isinstance(x, ast.Starred):
                        if isinstance(x.value, ast.Name) and a.vararg and x.value.id == a.vararg.arg and rest is not None:
                            ga += rest
                            continue
                        break
                    ga.append((x, NEUTRAL))
                if any(k.arg is None and isinstance(k.value, ast.Name) and a.kwarg and k.value.id == a.kwarg.arg
                       for k in c.keywords):
                    gk = more
                for g2, b2 in self.bound(g, gskip, ga, gk, depth + 1):
                    b2 = {k: xt for k, xt in b2.items() if any(xt is y for y in rest or ()) or
                          any(xt is y for y in more.values())}
                    if b2:
                        out.append((g2, b2))
        return out

    def passes_on(self, f):
        """calls of f's body which hand on its *args or **kw: (call, function, implicit arguments)"""
        if f not in self.forward:
            a = f.node.args
            names = {x.arg for x in (a.vararg, a.kwarg) if x is not None}
            out = []
            for c in ast.walk(f.node):
                if isinstance(c, ast.Call) and any(
                        isinstance(n, ast.Name) and n.id in names for n in
                        [x.value for x in c.args if isinstance(x, ast.Starred)] +
                        [k.value for k in c.keywords if k.arg is None]):
                    v = self.fact(c.func)
                    if v is TOP or len(v) != 1:
                        continue
                    t = next(iter(v))
                    if t[0] == 'f':
                        out.append((c, t[1], 1 if t[2] is not None else 0))
                    elif t[0] == 'C':
                        g = self.p.find_attr(t[1], "__init__")
                        if isinstance(g, FuncInfo):
                            out.append((c, g, 1))
            self.forward[f] = out
        return self.forward[f]

    def stored_bits(self, w, t, value):
        if isinstance(t, ast.Attribute):
            v = self.attr_var(w, t)
            if v is not None and v is not NEUTRAL and self.u.get(v)[0] == 0:
                self.bits.append((w.f, value, None, t.attr, t))

    # attributes -------------------------------------------------------------
    def attr_owner(self, cls, name):
        key = (cls, name)
        if key not in self.owner_memo:
            own = None
            for c in self.p.mro(cls):
                if c is not None and not isinstance(c, str) and name in self.stored().get(c, ()):
                    own = c
            self.owner_memo[key] = own
        return self.owner_memo[key]

    owner_memo = {}

    def stored(self):
        if not hasattr(self, "_stored"):
            self._stored = {}
            for f in self.p.functions:
                if f.cls is None or not f.params:
                    continue
                me = f.params[0]
                for n in iter_own(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                            isinstance(n.value, ast.Name) and n.value.id == me:
                        self._stored.setdefault(f.cls, set()).add(n.attr)
            self.owner_memo = {}
        return self._stored

    def attr_var(self, w, e):
        """variable of an instance attribute, None when the object is unknown"""
        name = e.attr
        if isinstance(self.alias.get(id(e)), ast.Attribute):
            e = self.alias[id(e)]
        v = self.fact(e.value)
        if v is TOP or not v:
            return None
        own = set()
        for a in v:
            if a[0] != 'i':
                return None
            u = self.ax["attr_unit"](self, a[1], name)
            if u is not None:
                own.add(("unit", u))
                continue
            self.stored()
            c = self.attr_owner(a[1], name)
            if c is None:
                return None
            own.add(c)
        if len(own) != 1:
            return None
        o = own.pop()
        if isinstance(o, tuple):
            k = ("unitattr", name, o[1])
            t = self.u.var(k)
            self.u.bind(t, o[1], (None, None, "a field or stream's %s" % name))
            return t
        return self.u.var(("attr", o, name))

    def attr(self, w, e, base):
        t = self.attr_term(w, e, base)
        if e.attr == "value":
            self.values.append((w.f, e, t))
        return t

    def attr_term(self, w, e, base):
        name = e.attr
        v = self.fact(e.value)
        if name == "value" and v is not TOP and v:
            keys = set()
            for a in v:
                if a[0] == 'i' and self.fm.is_field(a[1]) and len(a) > 2 and isinstance(a[2], tuple):
                    keys.add(a[2][-1])
                else:
                    return self.u.fresh()
            if len(keys) == 1:
                self.count("field values")
                return self.u.var(("value", keys.pop()))
            t = NEUTRAL
            for k in keys:
                t = w.soft(t, self.u.var(("value", k)))
            return t
        if name == "static_size":
            t = self.u.var(("unitattr", name, 0))
            self.u.bind(t, 0, (None, None, "static_size"))
            return t
        t = self.attr_var(w, e)
        if t is not None:
            return t
        if v is TOP and self.ax["by_name"](e) is not None:
            t = self.u.var(("unitattr", name, 0))
            self.u.bind(t, self.ax["by_name"](e), (None, None, "a field or stream's %s" % name))
            return t
        if v is not TOP and v and all(a[0] in ('i', 'C') for a in v):
            bs = {self.p.find_attr(a[1], name) for a in v}
            if len(bs) == 1:
                t = self.const_var(bs.pop())
                if t is not None:
                    return t
        # a property of the object
        if v is not TOP and len(v) == 1:
            a = next(iter(v))
            if a[0] == 'i':
                pr = self.p.find_attr(a[1], name)
                if isinstance(pr, FuncInfo) and pr.is_property and pr in self.ret_units:
                    t = self.u.fresh()
                    self.u.bind(t, self.ret_units[pr], (pr, pr.node, "result of %s" % pr.qual))
                    return t
        return self.u.fresh()

    def module_const(self, f, name):
        """A module-level number: one variable wherever it is used."""
        b = self.p.lookup(f.module, name)
        return self.const_var(b)

    def const_var(self, b):
        if isinstance(b, ValueBinding) and b.expr is not None and const(b.expr) is not None:
            return self.u.var(("const", nid(b.expr)))
        return None

    # calls --------------------------------------------------------------------
    def call(self, w, e):
        args = [(x, w.ev(x.value) if isinstance(x, ast.Starred) else w.ev(x)) for x in e.args]
        kws = {k.arg: (k.value, w.ev(k.value)) for k in e.keywords}
        fn = e.func
        if isinstance(fn, ast.Attribute):
            w.ev(fn.value)
        u = self.u
        if isinstance(fn, ast.Name) and fn.id not in w.env:
            n = fn.id
            if n in ("min", "max") and len(args) > 1:
                t = NEUTRAL
                for x, a in args:
                    if a is NEUTRAL:
                        self.compared += [(w.f, e, x, y) for _, y in args if y is not NEUTRAL]
                        continue
                    if t is NEUTRAL:
                        t = a
                    elif w.numeric(x):
                        w.same(t, a, e, "arguments of %s()" % n)
                return t
            if n in ("min", "max", "sum") and len(args) == 1 and isinstance(
                    e.args[0], (ast.GeneratorExp, ast.ListComp)):
                return args[0][1]
            if n in ("int", "abs", "float", "round") and args:
                return args[0][1]
            if n == "len" and len(args) == 1:
                if self.is_bytes(e.args[0]):
                    t = u.fresh()
                    u.bind(t, 1, (w.f, e, "length of bytes"))
                    return t
                return u.fresh()
        fv = self.fact(fn)
        star = any(isinstance(x, ast.Starred) for x in e.args) or None in kws
        r = self.ax["call"](self, w, e, fv, args, kws)
        if r is not None:
            return r
        if fv is TOP or not fv:
            return u.fresh()
        targets = []
        for a in fv:
            if a[0] == 'C':
                init = self.p.find_attr(a[1], "__init__")
                if not isinstance(init, FuncInfo):
                    return u.fresh()
                targets.append((init, 1))
            elif a[0] == 'f':
                targets.append((a[1], 1 if a[2] is not None else 0))
            else:
                return u.fresh()
        ret = None
        for f, skip in targets:
            for g, bound in self.bound(f, skip, args, kws, 0):
                for pname, (x, t) in bound.items():
                    un = self.param_units.get((g, pname))
                    if un is not None and g is not w.f:
                        self.count("arguments")
                        if un[0] == 0:
                            self.bits.append((w.f, x, g, pname, e))
                        c = u.bind(t, un[0], (g, g.node, "parameter %s of %s" % (pname, g.qual)))
                        if c is not None:
                            self.conflict(w.f, e, "argument %s of %s" % (pname, g.qual), c, un)
                if g is f:
                    own = bound
            bound = own
            if f in self.ret_units:
                t = u.fresh()
                u.bind(t, self.ret_units[f], (f, f.node, "result of %s" % f.qual))
            elif f in self.ret_poly and self.ret_poly[f][0] in bound and \
                    bound[self.ret_poly[f][0]][1] is not NEUTRAL:
                t = shift(bound[self.ret_poly[f][0]][1], self.ret_poly[f][1])
            else:
                t = u.fresh()
            ret = t if ret is None else w.soft(ret, t)
        if any(a[0] == 'C' for a in fv):
            return u.fresh()
        return ret if ret is not None else u.fresh()
