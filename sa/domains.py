"""What values an expression can have: intervals of integers, lengths and
shapes of byte strings and texts, read off the field classes and sizes."""
import ast
from .project import ClassInfo, body_nodes, nid
from .types import TOP, typename

BIG = 1 << 4096


class Dom:
    """One kind of value; `may(c)` is False only if no value equals c."""

    def __init__(self, kind, lo=None, hi=None, mask=None, strip=None, forbid=(), case=None):
        self.kind = kind
        self.lo = lo
        self.hi = hi
        self.mask = mask
        self.strip = strip
        self.forbid = tuple(forbid)
        self.case = case

    def __repr__(self):
        return "%s[%s..%s]%s" % (self.kind, self.lo, self.hi, "" if self.mask is None else "&%#x" % self.mask)

    def may(self, c):
        if c is None:
            return True
        if self.kind == 'int':
            if isinstance(c, (str, bytes)):
                return False
            if isinstance(c, float):
                if c != int(c):
                    return False
                c = int(c)
            if not isinstance(c, int):
                return True
            c = int(c)
            if self.lo is not None and c < self.lo:
                return False
            if self.hi is not None and c > self.hi:
                return False
            if self.mask is not None and (c < 0 or c & ~self.mask):
                return False
            return True
        if self.kind == 'float':
            return not isinstance(c, (str, bytes))
        if self.kind in ('str', 'bytes'):
            if isinstance(c, (int, float)) or type(c).__name__ in ('str', 'bytes') and type(c).__name__ != self.kind:
                return False
            if type(c).__name__ != self.kind:
                return True
            if self.lo is not None and len(c) < self.lo:
                return False
            if self.hi is not None and len(c) > self.hi:
                return False
            if self.strip is not None:
                t = c.strip() if self.strip is True else c.strip(self.strip)
                if t != c:
                    return False
            if any(x in c for x in self.forbid):
                return False
            if self.case == 'lower' and c != c.lower() or self.case == 'upper' and c != c.upper():
                return False
        return True

    def starts(self, c):
        if self.kind not in ('str', 'bytes') or type(c).__name__ != self.kind:
            return True
        if self.hi is not None and len(c) > self.hi:
            return False
        if self.case == 'lower' and c != c.lower() or self.case == 'upper' and c != c.upper():
            return False
        return True

    def ends(self, c):
        return self.starts(c)


def may(doms, c):
    return doms is None or any(d.may(c) for d in doms)


def interval(doms):
    """(lo, hi) of a union of bounded integer domains, or None"""
    if not doms or any(d.kind != 'int' or d.lo is None or d.hi is None for d in doms):
        return None
    return min(d.lo for d in doms), max(d.hi for d in doms)


class Domains:
    SUFFIX = {"C": "\0", "UnixLine": "\n"}     # never part of the text it ends

    def __init__(self, ctx):
        self.p = ctx.project
        self.fm = ctx.fields
        self.ty = ctx.types
        p = self.p
        self.GI = p.cls("hachoir.field.integer.GenericInteger")
        self.RB = p.cls("hachoir.field.bit_field.RawBits")
        self.BIT = p.cls("hachoir.field.bit_field.Bit")
        self.RBYTES = p.cls("hachoir.field.byte_field.RawBytes")
        self.GS = p.cls("hachoir.field.string_field.GenericString")
        self.STRING = p.cls("hachoir.field.string_field.String")
        self.CHAR = p.cls("hachoir.field.character.Character")
        self.memo = {}
        self.defs = {}
        self.known_int = True

    # -- fields -----------------------------------------------------------
    def field(self, a):
        """domains of the value of a field atom, None when unknown"""
        if a not in self.memo:
            self.memo[a] = self._field(a)
        return self.memo[a]

    def const_of(self, v, kinds=(int,)):
        if v is TOP or not v or not all(x[0] == 'k' and type(x[1]) in kinds for x in v):
            return None
        return [x[1] for x in v]

    def _field(self, a):
        p, fm, ty = self.p, self.fm, self.ty
        if a[0] != 'i' or not fm.is_field(a[1]):
            return None
        cls = a[1]
        if len(a) > 2 and a[2] == 'open':
            for d in p.descendants(cls):
                if d is not cls and ("createValue" in d.inst_attrs or "createValue" in d.attrs or "value" in d.attrs):
                    return None
        for k in p.mro(cls):
            if isinstance(k, ClassInfo):
                if "createValue" in k.inst_attrs or "_getValue" in k.inst_attrs:
                    return None
                if k is not fm.Field and 'value' in k.attrs:
                    return None
        owner, e = p.find_attr_owner(cls, "createValue")
        rec = ty.sites.get((a[2], cls)) if len(a) > 2 else None
        if owner is self.BIT:
            return [Dom('int', 0, 1)]
        if owner is self.GI:
            for k in p.mro(cls):
                c = getattr(k, 'closure', None)
                if c is not None:
                    s = self.const_of(c.vars.get('size'))
                    g = self.const_of(c.vars.get('is_signed'), (bool,))
                    if s and g and len(s) == len(g) == 1:
                        n = s[0]
                        return [Dom('int', -(1 << (n - 1)), (1 << (n - 1)) - 1) if g[0] else
                                Dom('int', 0, (1 << n) - 1)]
            if rec:
                s = self.const_of(fm.ctor_param(cls, rec, 'size'))
                g = self.const_of(fm.ctor_param(cls, rec, 'signed'), (bool,))
                if s and g and len(g) == 1:
                    n = max(s)
                    return [Dom('int', -(1 << (n - 1)), (1 << (n - 1)) - 1) if g[0] else Dom('int', 0, (1 << n) - 1)]
            return [Dom('int')]
        if owner is self.RB:
            s = self.const_of(fm.ctor_param(cls, rec, 'size')) if rec else None
            if not s or max(s) > 4096:
                return [Dom('int', 0, None)]
            return [Dom('int', 0, (1 << max(s)) - 1)]
        if owner is self.RBYTES:
            s = self.const_of(fm.ctor_param(cls, rec, 'length')) if rec else None
            return [Dom('bytes', min(s) if s else None, max(s) if s else None)]
        if owner is self.CHAR:
            return [Dom('str', 1, 1)]
        if owner is self.GS:
            hi = None
            strip = None
            forbid = []
            if rec is None:
                return [Dom('str')]
            if self.STRING in p.mro(cls):
                s = self.const_of(fm.ctor_param(cls, rec, 'nbytes'))
                hi = max(s) if s else None
            st = self.const_of(fm.ctor_param(cls, rec, 'strip'), (bool, str, type(None)))
            if st and len(st) == 1 and st[0]:
                strip = st[0]
            tr = self.const_of(fm.ctor_param(cls, rec, 'truncate'), (str, type(None)))
            if tr and len(tr) == 1 and tr[0]:
                forbid.append(tr[0])
            for k in p.mro(cls):
                c = getattr(k, 'closure', None)
                fmt = self.const_of(c.vars.get('format'), (str,)) if c is not None else None
                if fmt and len(fmt) == 1:
                    if fmt[0] in self.SUFFIX:
                        forbid.append(self.SUFFIX[fmt[0]])
                    elif fmt[0] == "Pascal8":
                        hi = 255
            return [Dom('str', None, hi, strip=strip, forbid=forbid)]
        v = ty.value_type(a) if hasattr(ty, "value_type") else fm.value_type(a)
        return self.kinds(v)

    def kinds(self, v):
        if v is TOP or not v:
            return None
        out = []
        for a in v:
            t = typename(a)
            if a[0] == 'k' and type(a[1]) in (int, bool):
                out.append(Dom('int', int(a[1]), int(a[1])))
            elif t in ('int', 'bool'):
                out.append(Dom('int', *((0, 1) if t == 'bool' else ())))
            elif t == 'float':
                out.append(Dom('float'))
            elif t in ('str', 'bytes'):
                if a[0] == 'k':
                    out.append(Dom(t, len(a[1]), len(a[1])))
                else:
                    out.append(Dom(t))
            else:
                return None
        return out

    # -- expressions --------------------------------------------------------
    def local_defs(self, f):
        """name -> list of defining expressions of a local name, None entries
        for definitions which are not a plain assignment"""
        k = nid(f.node)
        if k in self.defs:
            return self.defs[k]
        d = {}
        for nd in body_nodes(f.node):
            if isinstance(nd, ast.Assign):
                for t in nd.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            d.setdefault(x.id, []).append(nd.value if x is t else None)
            elif isinstance(nd, ast.AugAssign):
                if isinstance(nd.target, ast.Name):
                    d.setdefault(nd.target.id, []).append(None)
            elif isinstance(nd, ast.NamedExpr):
                d.setdefault(nd.target.id, []).append(None)
            elif isinstance(nd, (ast.For, ast.AsyncFor, ast.comprehension)):
                for x in ast.walk(nd.target):
                    if isinstance(x, ast.Name):
                        d.setdefault(x.id, []).append(None)
            elif isinstance(nd, (ast.With, ast.AsyncWith)):
                for it in nd.items:
                    if it.optional_vars is not None:
                        for x in ast.walk(it.optional_vars):
                            if isinstance(x, ast.Name):
                                d.setdefault(x.id, []).append(None)
            elif isinstance(nd, (ast.FunctionDef, ast.ClassDef)):
                d.setdefault(nd.name, []).append(None)
            elif isinstance(nd, ast.ExceptHandler) and nd.name:
                d.setdefault(nd.name, []).append(None)
            elif isinstance(nd, (ast.Import, ast.ImportFrom)):
                for al in nd.names:
                    d.setdefault((al.asname or al.name).split(".")[0], []).append(None)
            elif isinstance(nd, (ast.Global, ast.Nonlocal)):
                for x in nd.names:
                    d.setdefault(x, []).append(None)
        for nd in ast.walk(f.node):
            if isinstance(nd, ast.Nonlocal):    # rebound by a nested function
                for x in nd.names:
                    d.setdefault(x, []).append(None)
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            d.setdefault(x.arg, []).append(None)
        self.defs[k] = d
        return d

    def of(self, f, e, d=0):
        """domains of expression e in function f, None when unknown"""
        if d > 8:
            return None
        r = self._of(f, e, d)
        if r is None:
            r = self.kinds(self.ty.fact(e))
        return r

    def num(self, f, e, d):
        return interval(self.of(f, e, d))

    def _of(self, f, e, d):
        if isinstance(e, ast.Constant):
            return self.kinds(frozenset([('k', e.value, type(e.value).__name__)]))
        if isinstance(e, ast.Attribute) and e.attr == 'value':
            b = self.ty.fact(e.value)
            if b is TOP or not b:
                return None
            out = []
            for a in b:
                x = self.field(a)
                if x is None:
                    return None
                out += x
            return out
        if isinstance(e, ast.Name):
            ds = self.local_defs(f).get(e.id)
            if not ds or not all(ds):
                return None
            out = []
            for x in ds:
                r = self.of(f, x, d + 1)
                if r is None:
                    return None
                out += r
            return out
        if isinstance(e, ast.IfExp):
            a, b = self.of(f, e.body, d + 1), self.of(f, e.orelse, d + 1)
            return a + b if a and b else None
        if isinstance(e, ast.BinOp):
            o = type(e.op)
            l, r = self.num(f, e.left, d + 1), self.num(f, e.right, d + 1)
            if o is ast.BitAnd:
                c = [x for x in (l, r) if x and x[0] == x[1] and x[0] >= 0]
                if c:
                    m = c[0][0]
                    if len(c) == 2:
                        m &= c[1][0]
                    other = r if c[0] is l else l
                    hi = m if not other or other[0] < 0 else min(m, other[1])
                    return [Dom('int', 0, hi, mask=m)]
                c = [x for x in (l, r) if x and x[0] >= 0]
                return [Dom('int', 0, min(x[1] for x in c))] if c else None
            if o is ast.Mod and r and r[0] > 0 and self.is_int(f, e.left, d):
                return [Dom('int', 0, r[1] - 1)]
            if not l or not r:
                return None
            if o is ast.Add:
                return [Dom('int', l[0] + r[0], l[1] + r[1])]
            if o is ast.Sub:
                return [Dom('int', l[0] - r[1], l[1] - r[0])]
            if o is ast.Mult:
                q = [x * y for x in l for y in r]
                return [Dom('int', min(q), max(q))]
            if o is ast.RShift and r[0] == r[1] >= 0:
                return [Dom('int', l[0] >> r[0], l[1] >> r[0])]
            if o is ast.LShift and r[0] == r[1] and 0 <= r[0] < 256:
                return [Dom('int', l[0] << r[0], l[1] << r[0])]
            if o is ast.FloorDiv and r[0] == r[1] > 0:
                return [Dom('int', l[0] // r[0], l[1] // r[0])]
            if o in (ast.BitOr, ast.BitXor) and l[0] >= 0 and r[0] >= 0:
                return [Dom('int', 0, (1 << max(l[1], r[1]).bit_length()) - 1)]
            return None
        if isinstance(e, ast.Subscript):
            b = self.of(f, e.value, d + 1)
            if not b or any(x.kind not in ('str', 'bytes') for x in b):
                return None
            if isinstance(e.slice, ast.Slice):
                return [self.cut(f, x, e.slice, d) for x in b]
            if all(x.kind == 'bytes' for x in b):
                return [Dom('int', 0, 255)]
            if all(x.kind == 'str' for x in b):
                return [Dom('str', 1, 1)]
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            n = e.func.attr
            if n in ('readBytes', 'readBits') and len(e.args) >= 2 and self.is_stream(e.func.value):
                k = self.num(f, e.args[1], d + 1)
                if not k or k[0] < 0:
                    return [Dom('bytes')] if n == 'readBytes' else [Dom('int', 0, None)]
                return [Dom('bytes', k[0], k[1])] if n == 'readBytes' else \
                    [Dom('int', 0, (1 << k[1]) - 1 if k[1] <= 4096 else None)]
            b = self.of(f, e.func.value, d + 1)
            if b and all(x.kind in ('str', 'bytes') for x in b):
                if n in ('lower', 'upper') and not e.args:
                    return [Dom(x.kind, None, None, case=n) for x in b]
                if n in ('strip', 'rstrip', 'lstrip'):
                    return [Dom(x.kind, None, x.hi) for x in b]
        return None

    def is_int(self, f, e, d):
        r = self.of(f, e, d + 1)
        return bool(r) and all(x.kind == 'int' for x in r)

    def is_stream(self, e):
        v = self.ty.fact(e)
        return v is not TOP and v and all(
            a[0] == 'i' and self.fm.Stream in self.p.mro(a[1]) for a in v)

    def cut(self, f, x, s, d):
        """domain of x[lower:upper]"""
        if s.step is not None:
            return Dom(x.kind)

        def bound(e, default):
            if e is None:
                return default
            r = self.num(f, e, d + 1)
            return r[0] if r and r[0] == r[1] else "?"
        lo = bound(s.lower, 0)
        hi = bound(s.upper, None)
        exact = x.lo is not None and x.lo == x.hi
        if lo == "?" or hi == "?":
            return Dom(x.kind, None, x.hi)
        if exact:
            n = len(range(x.lo)[slice(lo, hi)])
            return Dom(x.kind, n, n)
        if hi is not None and hi >= 0 and lo >= 0:
            n = max(hi - lo, 0)
            return Dom(x.kind, None, n if x.hi is None else min(n, x.hi))
        if hi is None and lo < 0:
            return Dom(x.kind, None, -lo)
        return Dom(x.kind, None, x.hi)
