"""Sizes and addresses in bits which are made of numbers that count something else.

An expression used as a number of bits is resolved (locals through their
reaching definitions, constants of modules and classes) to a sum of products.
Each summand has to count bits: it has a factor 8, a factor which is a size or
an address in bits, or a factor not known well enough.  A summand made only of
constants and of values read from the file, with a coefficient which is not a
multiple of 8, counts bytes or items.
"""
import ast
import re
from .const import Const, Unknown
from .domains import Domains
from .reach import Reach
from .project import ClassInfo, ValueBinding, body_nodes, nid
from .types import TOP, str_parts

SIZES = ("size", "_size", "address", "_address", "absolute_address", "current_size", "_current_size")
BITS = re.compile(r"bit|bpp|depth", re.I)
NAMED = re.compile(r"size|len|bytes|offset|ofs", re.I)
COUNT = re.compile(r"count|per_|nb_|num|inode|block", re.I)


class Grain:
    def __init__(self, ctx):
        self.ctx, self.p, self.fm, self.ty = ctx, ctx.project, ctx.fields, ctx.fields.ty
        self.reaches, self.bitwise = {}, {}
        self.doms = Domains(ctx)
        self.const = Const(self.p)

    def reach(self, f):
        k = nid(f.node)
        if k not in self.reaches:
            self.reaches[k] = Reach(f.node)
        return self.reaches[k]

    def check(self, f, e):
        """the summand which does not count bits, None if there is none known"""
        for c, parts in self.lin(f, e, {}, 0):
            for t, k in parts:
                if k % 8:
                    return t
            if c % 8 and not self.loose(f):
                return "%d" % c
        return None

    def loose(self, f):
        """the function deals in single bits"""
        k = nid(f.node)
        if k not in self.bitwise:
            self.bitwise[k] = any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
                n.func.id in ("Bit", "Bits", "RawBits", "NullBits", "PaddingBits", "GenericInteger") for n in ast.walk(f.node))
        return self.bitwise[k]

    # every alternative: (constant, [(text, coefficient)])
    def lin(self, f, e, env, depth):
        if depth > 12:
            return [(0, [])]
        if isinstance(e, tuple):
            if e[0] == 'aug':
                st = e[1]
                k = nid(st)
                if k in env:
                    return [(0, [])]
                env = dict(env)
                env[k] = True
                if isinstance(st.value, ast.Constant) and st.value.value in (1, -1):
                    return [(0, [])]        # goes from bit to bit
                a = self.defs(f, self.reach(f).before.get(k, ()), env, depth)
                return self.op(st.op, a, self.lin(f, st.value, env, depth + 1), st.target, st.value, f)
            return [(0, [])]
        if isinstance(e, ast.Constant):
            if isinstance(e.value, int) and not isinstance(e.value, bool):
                return [(e.value, [])]
            return [(0, [])]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return [(-c, [(t, -k) for t, k in ps]) for c, ps in self.lin(f, e.operand, env, depth + 1)]
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
                if not isinstance(e.op, ast.Mult) and isinstance(e.left, ast.Name) and \
                        any(d is e for d in self.reach(f).of(e.left)):
                    # x = x + y in a loop: like x += y
                    k = nid(e)
                    if k in env or isinstance(e.right, ast.Constant) and e.right.value in (1, -1):
                        return [(0, [])]
                    env = dict(env)
                    env[k] = True
                return self.op(e.op, self.lin(f, e.left, env, depth + 1), self.lin(f, e.right, env, depth + 1),
                               e.left, e.right, f)
            return [(0, [])]
        if isinstance(e, ast.IfExp):
            return self.cap(self.lin(f, e.body, env, depth + 1) + self.lin(f, e.orelse, env, depth + 1))
        if isinstance(e, ast.Name):
            ds = self.reach(f).of(e)
            if ds:
                return self.defs(f, ds, env, depth)
            return self.constant(self.p.lookup(f.module, e.id))
        if isinstance(e, ast.Attribute):
            if e.attr == "value":
                return self.value(e)
            return self.attribute(f, e, env, depth)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("int", "max", "min") and \
                not self.reach(f).of(e.func) and e.args and not e.keywords:
            out = []
            for a in e.args:
                out += self.lin(f, a, env, depth + 1)
            return self.cap(out)
        if isinstance(e, ast.Call):
            v = self.ty.fact(e.func)
            if v is not TOP and len(v) == 1:
                a = next(iter(v))
                if a[0] == 'f' and a[1] is not f and not isinstance(a[1].node, ast.Lambda) and \
                        a[1].module.name.startswith("hachoir.parser"):
                    rs = [n.value for n in body_nodes(a[1].node) if isinstance(n, ast.Return) and n.value is not None]
                    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in body_nodes(a[1].node)):
                        return [(0, [])]
                    out = []
                    for r in rs:
                        out += self.lin(a[1], r, env, depth + 3)
                    return self.cap(out) or [(0, [])]
        return [(0, [])]

    def cap(self, xs):
        out = []
        for x in xs:
            if x not in out:
                out.append(x)
        return out if len(out) <= 16 else [(0, [])]

    def defs(self, f, ds, env, depth):
        out = []
        for d in ds:
            out += self.lin(f, d, env, depth + 1)
        return self.cap(out)

    def op(self, op, a, b, le, re_, f):
        out = []
        for c1, p1 in a:
            for c2, p2 in b:
                if isinstance(op, ast.Add):
                    out.append((c1 + c2, p1 + p2))
                elif isinstance(op, ast.Sub):
                    out.append((c1 - c2, p1 + [(t, -k) for t, k in p2]))
                elif isinstance(op, ast.Mult):
                    k1, k2 = not p1 and self.known(f, le), not p2 and self.known(f, re_)
                    if k1 and k2:
                        out.append((c1 * c2, []))
                    elif k1:
                        out.append((c1 * c2, [(t, k * c1) for t, k in p2]))
                    elif k2:
                        out.append((c1 * c2, [(t, k * c2) for t, k in p1]))
                    elif p1 and p2:
                        # a product of values: counts something unless a factor counts bits
                        out.append((c1 * c2, [(t1 + " * " + t2, k1 * k2) for t1, k1 in p1 for t2, k2 in p2] +
                                    [(t, k * c2) for t, k in p1 if c2] + [(t, k * c1) for t, k in p2 if c1]))
                    else:
                        out.append((0, []))
                else:
                    out.append((0, []))
        return self.cap(out)

    def known(self, f, e, depth=0):
        """the expression is a constant"""
        if isinstance(e, ast.Constant):
            return isinstance(e.value, int)
        if isinstance(e, ast.BinOp):
            return self.known(f, e.left, depth) and self.known(f, e.right, depth)
        if isinstance(e, ast.Name) and depth < 5:
            ds = self.reach(f).of(e)
            if ds:
                return all(isinstance(d, ast.AST) and self.known(f, d, depth + 1) for d in ds)
            b = self.p.lookup(f.module, e.id)
            return isinstance(b, ValueBinding) and self.number(b) is not None
        if isinstance(e, ast.Attribute):
            return self.attr_const(e) is not None
        return False

    def number(self, b):
        if not isinstance(b, ValueBinding) or b.expr is None:
            return None
        try:
            v = self.const.entity(b)
        except (Unknown, RecursionError, AttributeError):
            return None
        return v if isinstance(v, int) and not isinstance(v, bool) else None

    def constant(self, b):
        v = self.number(b)
        return [(v if v is not None else 0, [])]

    def attr_const(self, e):
        """the constants an attribute of a class can be, None if it is not constant"""
        v = self.ty.fact(e.value)
        if v is TOP or not v or self.stored(e.attr):
            return None
        out = set()
        for a in v:
            if a[0] not in ('i', 'C'):
                return None
            for k in [a[1]] + list(self.p.descendants(a[1])):
                if self.fm.is_field(k) and e.attr in SIZES:
                    return None
                n = self.number(self.p.find_attr(k, e.attr))
                if n is not None:
                    out.add(n)
                elif self.p.find_attr(k, e.attr) is not None:
                    return None
        return sorted(out) or None

    def stored(self, name):
        """some method stores the attribute"""
        if not hasattr(self, "_stored"):
            self._stored = set()
            for f in self.p.functions:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        self._stored.add(n.attr)
        return name in self._stored

    def attribute(self, f, e, env, depth):
        c = self.attr_const(e)
        if c is not None:
            return [(x, []) for x in c]
        v = self.ty.fact(e.value)
        if v is TOP or len(v) != 1:
            return [(0, [])]
        a = next(iter(v))
        if a[0] != 'i' or self.fm.is_field(a[1]) and e.attr in SIZES:
            return [(0, [])]
        st = self.stores(e.attr)
        mine = [x for x in st if x[0].cls is not None and x[0].cls in self.p.mro(a[1])]
        if len(st) != 1 or len(mine) != 1 or ("attr", e.attr) in env:
            return [(0, [])]
        env = dict(env)
        env["attr", e.attr] = True
        return self.lin(mine[0][0], mine[0][1], env, depth + 1)

    def stores(self, name):
        """(function, value) for every store of the attribute"""
        if not hasattr(self, "_values"):
            self._values = {}
            for f in self.p.functions:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                    self._values.setdefault(x.attr, []).append(
                                        (f, n.value if x is t else ("other",)))
                    elif isinstance(n, (ast.AugAssign, ast.For, ast.With, ast.AnnAssign)):
                        for x in ast.walk(n):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and \
                                    not isinstance(n, (ast.For, ast.With)):
                                self._values.setdefault(x.attr, []).append((f, ("other",)))
        return self._values.get(name, [])

    def value(self, e):
        """x["name"].value of a whole number of one byte or more"""
        v = self.ty.fact(e.value)
        name = ""
        if isinstance(e.value, ast.Subscript) and isinstance(e.value.slice, ast.Constant) and \
                isinstance(e.value.slice.value, str):
            name = e.value.slice.value.rsplit("/", 1)[-1]
        if v is TOP or not v:
            if not name or BITS.search(name) or COUNT.search(name) and not NAMED.search(name):
                return [(0, [])]
            return [(0, [(ast.unparse(e), 1)])]
        for a in v:
            if a[0] != 'i' or not self.fm.is_field(a[1]):
                return [(0, [])]
            ds = self.doms.field(a)
            if not ds and not NAMED.search(name) or any(d.kind != 'int' or d.hi is not None and d.hi < 127 for d in ds or ()):
                return [(0, [])]
            if len(a) > 2 and isinstance(a[2], tuple):
                s = self.site(a[2][-1])
                if s and (BITS.search(s) or COUNT.search(s) and not NAMED.search(name)):
                    return [(0, [])]
        if BITS.search(name) or COUNT.search(name) and not NAMED.search(name):
            return [(0, [])]
        return [(0, [(ast.unparse(e), 1)])]

    def site(self, k):
        """text of name and description of the construction"""
        if not hasattr(self, "_sites"):
            self._sites = {}
            for f in self.p.functions:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call):
                        self._sites[nid(n)] = " ".join(
                            x.value for x in ast.walk(n) if isinstance(x, ast.Constant) and isinstance(x.value, str))
        return self._sites.get(k)
