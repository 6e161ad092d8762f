"""How many bits the fields a field set creates take: bounds over all paths.

`Layout.body(f)` answers (low, high, rests) for the fields a generator function
creates from its start to a normal end; high is None when it is not bounded or
not known; rests are the possible rests modulo 8.  Raising paths are left out:
they do not finish the field set."""
import ast
from .const import Const, Ref, Unknown
from .project import ClassInfo, FuncInfo, body_nodes, nid
from .types import TOP

ALL = frozenset(range(8))
WHOLE = frozenset((0,))
NOTHING, ANY, BYTES = (0, 0, WHOLE), (0, None, ALL), (0, None, WHOLE)


def exact(n):
    return (n, n, frozenset((n % 8,)))


def rests(a, b):
    return frozenset((x + y) % 8 for x in a for y in b)


def add(a, b):
    return (a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1], rests(a[2], b[2]))


def after(a, b):
    """b begins where a ends: its rests are those of the whole"""
    return (a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1], b[2])


def hull(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return (min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]), a[2] | b[2])


def core(mod):
    return mod.name.startswith("hachoir.field") and mod.name != "hachoir.field.timestamp"


class Layout:
    def __init__(self, ctx):
        self.ctx, self.p, self.fm, self.ty = ctx, ctx.project, ctx.fields, ctx.types
        self.const = Const(self.p)
        self.by_node = {}
        for (site, cls), rec in self.ty.sites.items():
            if self.fm.is_field(cls):
                self.by_node.setdefault(nid(rec["node"]), []).append((cls, rec))
        for recs in self.by_node.values():
            recs.sort(key=lambda x: (x[0].module.name, x[0].node.lineno, repr(sorted(map(str, x[1]["kw"])))))
        c = self.p.cls
        self.factor = {c("hachoir.field.bit_field.RawBits"): 1, c("hachoir.field.padding.PaddingBits"): 1,
                       c("hachoir.field.byte_field.RawBytes"): 8, c("hachoir.field.padding.PaddingBytes"): 8,
                       c("hachoir.field.string_field.String"): 8}
        self.vector = c("hachoir.field.vector.GenericVector")
        self.whole = [c("hachoir.field.byte_field.RawBytes"), c("hachoir.field.string_field.GenericString")]
        self.whole += [c("hachoir.field.integer.GenericInteger"), c("hachoir.field.timestamp.GenericTimestamp"),
                       c("hachoir.field.character.Character")]
        self.stamp = c("hachoir.field.timestamp.GenericTimestamp")
        self.link = c("hachoir.field.link.Link")
        self.static_set = c("hachoir.field.static_field_set.StaticFieldSet")
        self.words = self.bitstreams()
        self.reset({})

    def run(self):
        """all field sets, from the addresses they begin at"""
        entry, clean = {}, frozenset()
        classes = [c for c in self.p.classes if self.fm.is_fieldset(c) and
                   not core(c.module)]
        for _ in range(6):
            self.reset(entry, clean)
            for c in classes:
                self.content(c)
            for f in self.p.functions:
                # parts of field sets called through tables
                if nid(f.node) not in self.done and f.params and isinstance(f.node, ast.FunctionDef) and \
                        not core(f.module) and f.module.name.startswith("hachoir.parser") and \
                        any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in body_nodes(f.node)):
                    self.of.append(f)
                    self.once((f, f), f, WHOLE, 0)
                    self.of.pop()
            starts, whole = {}, set()
            for (k, n), (f, e, cl, m) in self.events.items():
                for c in cl:
                    starts[c] = starts.get(c, frozenset()) | m
            new = {c: m for c, m in starts.items() if 0 not in m and self.fm.is_fieldset(c)}
            for (k, n), (f, e, cl, m) in self.events.items():
                if k not in new and k.module.name not in self.words and m == WHOLE and all(self.bytewise(c) for c in cl):
                    whole.add(k)
            if new == entry and whole == clean:
                break
            entry, clean = new, frozenset(whole)
        self.starts = starts
        return self

    def bitstreams(self):
        """modules with streams of 16-bit words, where integers begin at any bit"""
        return {m.name for m in self.p.modules.values() if m.tree is not None and
                any(isinstance(n, ast.Name) and n.id == "MIDDLE_ENDIAN" for n in ast.walk(m.tree))}

    def reset(self, entry, clean=frozenset()):
        """entry: the rests of the addresses a class begins at, when none is 0"""
        self.memo, self.busy, self.entry, self.of = {}, set(), entry, []
        self.events = {}        # (class, creation) -> [function, node, classes, rests]
        self.done = set()
        self.seeks = {}         # (class, call) -> (function, node, position, least end before)
        self.clean = clean      # structures of whole bytes

    # -- sizes of fields ---------------------------------------------------------
    def static(self, cls):
        """the constant static_size of a class"""
        if self.static_set in self.p.mro(cls):
            if self.p.find_attr(cls, "createFields").cls is not self.static_set:
                return None
            r = self.format(cls)
            return r[0] if r[0] == r[1] else None
        owner, b = self.p.find_attr_owner(cls, "static_size")
        if owner is None:
            return None
        try:
            v = self.const.class_value(cls, "static_size")
            if isinstance(v, int) and not isinstance(v, bool):
                return v
        except (Unknown, RecursionError):
            pass
        for k in self.p.mro(cls):
            cl = getattr(k, "closure", None)
            if cl is not None and "static_size" in k.attrs:
                return self.number(cl.vars.get("size"))
        return None

    def bytewise(self, cls):
        """fields of whole bytes"""
        if cls in self.clean:
            return True
        if not any(k in self.p.mro(cls) for k in self.whole):
            return False
        s = self.static(cls)
        if s is None and self.stamp in self.p.mro(cls):
            return self.stamped(cls) in (32, 64)
        return s is None or s % 8 == 0

    def stamped(self, cls):
        """the size of a class made by timestampFactory()"""
        for k in self.p.mro(cls):
            cl = getattr(k, "closure", None)
            if cl is not None:
                return self.number(cl.vars.get("size"))
        return None

    def number(self, v):
        if v is None or v is TOP or len(v) != 1:
            return None
        a = next(iter(v))
        if a[0] == 'k' and type(a[1]) is int:
            return a[1]
        return None

    def sized_by_itself(self, cls):
        """the class stores its own size"""
        return any(isinstance(k, ClassInfo) and "_size" in k.inst_attrs and
                   not k.module.name.startswith("hachoir.field.") for k in self.p.mro(cls))

    def own_bytes(self, cls):
        """every size the class stores is a number of bytes"""
        seen = False
        for k in self.p.mro(cls):
            if not isinstance(k, ClassInfo) or k.module.name.startswith("hachoir.field."):
                continue
            for n in ast.walk(k.node):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    if any(isinstance(t, ast.Attribute) and t.attr == "_size" for x in ts for t in ast.walk(x)):
                        seen = True
                        if not isinstance(n, ast.Assign) or not self.whole8(n.value):
                            return False
        return seen

    def whole8(self, e):
        """a multiple of 8, from its form"""
        if isinstance(e, ast.Constant):
            return isinstance(e.value, int) and e.value % 8 == 0
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Mult):
                return self.whole8(e.left) or self.whole8(e.right)
            if isinstance(e.op, (ast.Add, ast.Sub)):
                return self.whole8(e.left) and self.whole8(e.right)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("min", "max"):
            return all(self.whole8(x) for x in e.args)
        if isinstance(e, ast.IfExp):
            return self.whole8(e.body) and self.whole8(e.orelse)
        return False

    def table(self, cls):
        """the items of the format of a StaticFieldSet"""
        try:
            t = self.const.class_value(cls, "format")
        except (Unknown, RecursionError):
            return None
        if not isinstance(t, (tuple, list)):
            return None
        out = []
        for x in t:
            if not isinstance(x, (tuple, list)) or len(x) < 2 or not isinstance(x[0], Ref) or \
                    not isinstance(x[0].ent, ClassInfo):
                return None
            out.append((x[0].ent, x))
        return out

    def format(self, cls):
        t = self.table(cls)
        if t is None:
            return ANY
        cur = (0, 0, self.entry.get(cls, WHOLE))
        for i, (c, x) in enumerate(t):
            owner, b = self.p.find_attr_owner(c, "static_size")
            if owner in self.factor:
                n = x[2] if len(x) > 2 else None
                n = exact(n * self.factor[owner]) if type(n) is int and n >= 0 else ANY
            elif self.static_set in self.p.mro(c):
                n = self.content(c)
            else:
                s = self.static(c)
                n = ANY if s is None else exact(s)
            ev = self.events.setdefault((cls, "item %d, %s" % (i, x[1])), [None, cls.node, [c], frozenset()])
            ev[3] |= cur[2]
            if self.bytewise(c) and 0 in cur[2]:
                cur = (cur[0], cur[1], WHOLE)
            cur = add(cur, n)
        return cur

    def size(self, cls, rec):
        if self.sized_by_itself(cls):
            return BYTES if self.own_bytes(cls) else ANY
        if self.link in self.p.mro(cls):
            return exact(0)
        if self.stamp in self.p.mro(cls):
            s = self.stamped(cls)
            if s is not None:
                return exact(s)
        owner, b = self.p.find_attr_owner(cls, "static_size")
        init_owner, init = self.p.find_attr_owner(cls, "__init__")
        s = self.fixed(init_owner, init)
        if s is not None:
            return exact(s)
        if owner in self.factor:
            o, oinit = self.p.find_attr_owner(owner, "__init__")
            if init is not oinit or len(oinit.params) < 4:
                own = init.params[3] if isinstance(init, FuncInfo) and len(init.params) > 3 else None
                if own not in ("nbits", "nbytes", "length", "size") or owner not in self.p.mro(init_owner)[:4]:
                    return BYTES if self.factor[owner] == 8 else ANY
                n = self.number(self.fm.ctor_param(cls, rec, own))
            else:
                n = self.number(self.fm.ctor_param(cls, rec, oinit.params[3]))
            if n is None or n < 0:
                return BYTES if self.factor[owner] == 8 else ANY
            return exact(n * self.factor[owner])
        if self.vector is not None and self.vector in self.p.mro(cls):
            if init_owner is not self.vector:
                return ANY
            n = self.number(self.fm.ctor_param(cls, rec, "nb_items"))
            k = self.fm.ctor_param(cls, rec, "item_class")
            if k is TOP or len(k) != 1:
                return ANY
            a = next(iter(k))
            s = self.static(a[1]) if a[0] == 'C' else None
            if n is None and s is not None and s % 8 == 0:
                return BYTES
            return ANY if s is None or n is None else exact(n * s)
        if not self.fm.is_fieldset(cls):
            s = self.static(cls)
            if s is not None:
                return exact(s)
            return BYTES if self.bytewise(cls) else ANY
        given = self.given(cls, rec)
        if given is not None:
            return given
        s = self.static(cls)
        if s is not None:
            return exact(s)
        return self.content(cls)

    def fixed(self, owner, init):
        """the constant size a constructor passes to that of Field"""
        if not isinstance(init, FuncInfo) or owner is None or core(owner.module):
            return None
        calls = [n for n in body_nodes(init.node) if isinstance(n, ast.Call) and
                 isinstance(n.func, ast.Attribute) and n.func.attr == "__init__"]
        if len(calls) != 1:
            return None
        n = calls[0]
        sup = isinstance(n.func.value, ast.Call)
        v = self.ty.fact(n.func.value)
        if sup:
            base = owner.bases[0] if len(owner.bases) == 1 else None
        else:
            base = next(iter(v))[1] if v is not TOP and len(v) == 1 and next(iter(v))[0] == 'C' else None
        if not isinstance(base, ClassInfo) or base not in self.p.mro(owner)[1:]:
            return None
        init = self.p.find_attr(base, "__init__")
        if not isinstance(init, FuncInfo) or not init.module.name.startswith("hachoir.field.") or \
                not isinstance(init.node, ast.FunctionDef) or init.params[1:4] != ["parent", "name", "size"] or \
                self.fm.is_fieldset(base):
            return None
        given = [x.value for x in n.keywords if x.arg == "size"] + n.args[2 if sup else 3:][:1]
        x = self.number(self.ty.fact(given[0])) if given and not isinstance(given[0], ast.Starred) else None
        return x if x is not None and x >= 0 else None

    def given(self, cls, rec):
        """the size passed to the constructor of a field set: None when none is"""
        if rec["star"]:
            return ANY
        init = self.p.find_attr(cls, "__init__")
        if not isinstance(init, FuncInfo):
            return ANY
        k = cls
        while not init.module.name.startswith("hachoir.field."):
            # a constructor which leaves the size to the fields
            if "size" in rec["kw"] or len(rec["args"]) > 3 and (
                    "size" in init.params[3:5] or init.node.args.vararg is not None):
                return ANY
            ks = list(self.p.mro(cls))
            k = init.cls
            calls = [n for n in body_nodes(init.node) if isinstance(n, ast.Call) and
                     isinstance(n.func, ast.Attribute) and n.func.attr == "__init__"]
            if len(calls) != 1 or k not in ks:
                return ANY
            n = calls[0]
            sup = isinstance(n.func.value, ast.Call)
            given = [x.value for x in n.keywords if x.arg == "size"] + n.args[3 if sup else 4:]
            if given:
                return BYTES if all(self.whole8(x) for x in given) else ANY
            nxt = None
            for b in ks[ks.index(k) + 1:]:
                nxt = b.attrs.get("__init__") if isinstance(b, ClassInfo) else None
                nxt = nxt[-1] if isinstance(nxt, list) and nxt else nxt
                if isinstance(nxt, FuncInfo):
                    break
            if not isinstance(nxt, FuncInfo):
                return ANY
            init = nxt
            if init.module.name.startswith("hachoir.field."):
                return None
        if init.module.name.startswith("hachoir.field."):
            if "size" in rec["kw"]:
                n = self.number(rec["kw"]["size"])
            elif len(rec["args"]) > 3:
                n = self.number(rec["args"][3])
            else:
                return None
            return ANY if n is None else exact(n)
        return ANY

    def content(self, cls):
        """bounds of what createFields of the class makes"""
        f = self.p.find_attr(cls, "createFields")
        if isinstance(f, FuncInfo) and f.cls is self.static_set and cls is not self.static_set:
            return self.relative(cls, self.format(cls))
        if not isinstance(f, FuncInfo) or core(f.module):
            return ANY
        self.of.append(cls)
        r = self.once((f, cls), f, self.entry.get(cls, WHOLE), 0)
        self.of.pop()
        return self.relative(cls, r)

    def relative(self, cls, r):
        """the rests of the end, from the begin of the class"""
        start = self.entry.get(cls, WHOLE)
        if start != WHOLE and len(start) == 1:
            return (r[0], r[1], frozenset((x - y) % 8 for x in r[2] for y in start))
        return r if start == WHOLE else (r[0], r[1], ALL)

    def once(self, key, f, start, depth):
        key += (start,)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy or len(self.busy) > 40:
            return ANY
        self.busy.add(key)
        r = self.body(f, depth, start)
        self.busy.discard(key)
        self.memo[key] = r
        return r

    # -- bodies -------------------------------------------------------------------
    def body(self, f, depth=0, start=WHOLE):
        """bounds of what f creates from an address with such a rest; the rests
        of the answer are those of the end"""
        if not isinstance(f.node, ast.FunctionDef) or not f.params:
            return ANY
        self.done.add(nid(f.node))
        w = Body(self, f, depth)
        end = w.block(f.node.body, (0, 0, start))
        for r in w.returns:
            end = hull(end, r)
        return end if end is not None else ANY


class Body:
    def __init__(self, lay, f, depth):
        self.lay, self.f, self.depth = lay, f, depth
        self.me = f.params[0]
        self.returns = []
        self.out = []       # (breaks, continues) of the loops around
        self.local = {}
        self.tests = None

    def block(self, body, cur):
        for st in body:
            if cur is None:
                return None
            cur = self.stmt(st, cur)
        return cur

    def yields(self, st):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(st))

    def stmt(self, st, cur):
        if isinstance(st, ast.Expr):
            return self.expr(st.value, cur)
        if isinstance(st, ast.Return):
            self.returns.append(cur)
            return None
        if isinstance(st, ast.Raise):
            return None
        if isinstance(st, ast.Break):
            self.out[-1][0].append(cur)
            return None
        if isinstance(st, ast.Continue):
            self.out[-1][1].append(cur)
            return None
        if isinstance(st, ast.If) and not st.orelse and len(st.body) == 1:
            # padding = self.seekByte(n); if padding: yield padding
            t = st.test
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                t = t.left
            y = st.body[0].value if isinstance(st.body[0], ast.Expr) else None
            if isinstance(t, ast.NamedExpr):
                self.local[t.target.id] = t.value
                t = t.target
            if isinstance(t, ast.Name) and isinstance(y, ast.Yield) and isinstance(y.value, ast.Name) and \
                    y.value.id == t.id and t.id in self.local:
                to = self.seek(self.local[t.id], cur)
                if to is not None:
                    return to
        if isinstance(st, ast.If):
            keep = dict(self.local)
            a = self.block(st.body, cur)
            self.local = dict(keep)
            b = self.block(st.orelse, cur)
            self.local = {}
            r = hull(a, b)
            if a is not None and b is not None and a != b and self.related(st):
                # another test depends on the same: the paths are not independent
                r = (r[0], None, r[2] if a[2] == b[2] else ALL)
            return r
        if isinstance(st, (ast.For, ast.While)):
            self.local = {}
            if not self.yields(st) and not any(isinstance(n, (ast.Return, ast.Raise)) for n in ast.walk(st)):
                return cur
            if isinstance(st, ast.For) and len(st.body) == 1 and isinstance(st.body[0], ast.Expr) and \
                    isinstance(st.body[0].value, ast.Yield) and isinstance(st.target, ast.Name) and \
                    isinstance(st.body[0].value.value, ast.Name) and st.body[0].value.value.id == st.target.id:
                return after(cur, self.delegate(st.iter, cur[2]))
            n = self.turns(st)
            entry, known, turn = cur[2], n is not None, 0
            while True:
                self.out.append(([], []))
                end = self.block(st.body, (0, 0, entry))
                brk, cont = self.out.pop()
                self.local = {}
                for c in cont:
                    end = hull(end, c)
                if end is None:
                    end = (0, 0, frozenset())
                turn += 1
                if known and not brk and n <= 64:
                    # the turns one by one
                    if turn >= n:
                        break
                    entry = end[2]
                    continue
                if end[2] <= entry:
                    break
                entry |= end[2]
            if known and not brk:
                if n == 0:
                    return cur
                return after(cur, (end[0] * n, None if end[1] is None else end[1] * n,
                                   end[2] if n <= 64 else entry))
            endless = isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value
            if entry != WHOLE and entry != cur[2]:
                entry = ALL
            r = (0, 0 if end[1] == 0 else None, entry)
            if endless:
                r = None
            for b in brk:
                r = hull(r, b if end[1] == 0 else (b[0], None, b[2]))
            return None if r is None else after(cur, r)
        if isinstance(st, ast.Try):
            if not self.yields(st):
                return cur
            a = self.block(st.body, cur)
            if a is not None:
                a = self.block(st.orelse, a)
            for h in st.handlers:
                b = self.block(h.body, (cur[0], None, ALL))
                a = hull(a, b)
            self.local = {}
            return a if a is None else self.block(st.finalbody, a)
        if isinstance(st, ast.With):
            return self.block(st.body, cur)
        if isinstance(st, ast.Match):
            r = cur if not any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None for c in st.cases) else None
            for c in st.cases:
                r = hull(r, self.block(c.body, cur))
            self.local = {}
            return r
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return cur
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            self.local[st.targets[0].id] = st.value
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute):
            self.local[ast.unparse(st.targets[0])] = st.value
        if self.yields(st):
            return add(cur, ANY)
        return cur

    def related(self, st):
        """is what the test looks at tested elsewhere?"""
        if self.tests is None:
            self.tests = [(n, self.subjects(n.test)) for n in ast.walk(self.f.node)
                          if isinstance(n, (ast.If, ast.While, ast.IfExp))]
        own = self.subjects(st.test)
        inside = {nid(n) for n in ast.walk(st)}
        return any(own & seen and nid(n) not in inside and not any(x is st for x in ast.walk(n))
                   for n, seen in self.tests)

    def subjects(self, test):
        """what a test looks at: fields and variables"""
        out = set()
        for n in ast.walk(test):
            if isinstance(n, ast.Subscript):
                out.add(ast.unparse(n))
            elif isinstance(n, ast.Name) and n.id != self.me and isinstance(n.ctx, ast.Load):
                out.add(n.id)
            elif isinstance(n, ast.Attribute) and n.attr != "value":
                out.add(ast.unparse(n))
        return out

    def turns(self, st):
        """how often the loop runs"""
        if not isinstance(st, ast.For) or st.orelse:
            return None
        if isinstance(st.iter, (ast.Tuple, ast.List)):
            return len(st.iter.elts)
        if isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and st.iter.func.id == "range" and \
                1 <= len(st.iter.args) <= 2 and not st.iter.keywords:
            ns = [self.lay.number(self.lay.ty.fact(x)) for x in st.iter.args]
            if None in ns:
                return None
            return max(0, ns[-1] - (ns[0] if len(ns) == 2 else 0))
        return None

    def expr(self, e, cur):
        if isinstance(e, ast.YieldFrom):
            return after(cur, self.delegate(e.value, cur[2]))
        if isinstance(e, ast.Yield):
            v = e.value
            to = self.seek(self.local.get(v.id) if isinstance(v, ast.Name) else v, cur)
            if to is not None:
                return to
            n, aligned = self.field(v, cur[2])
            if aligned and 0 in cur[2]:
                cur = (cur[0], cur[1], WHOLE)
            return add(cur, n)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("seekBit", "seekByte"):
            return after(cur, ANY if e.func.attr == "seekBit" else BYTES)
        return cur

    def seek(self, e, cur):
        """the end after a padding up to a position"""
        if not isinstance(e, ast.Call) or not isinstance(e.func, ast.Attribute) or \
                e.func.attr not in ("seekByte", "seekBit") or not isinstance(e.func.value, ast.Name) or \
                e.func.value.id != self.me:
            return None
        lay = self.lay
        v = lay.ty.fact(e.func)
        if v is TOP or len(v) != 1 or next(iter(v))[0] != 'f' or next(iter(v))[1].cls is not lay.fm.GFS:
            return ANY
        k = 8 if e.func.attr == "seekByte" else 1
        n = lay.number(lay.ty.fact(e.args[0])) if e.args else None
        if n is not None and not any(x.arg == "relative" for x in e.keywords) and len(e.args) < 4:
            key = (lay.of[-1] if lay.of else None, nid(e))
            old = lay.seeks.get(key)
            lay.seeks[key] = (self.f, e, n * k, cur[0] if old is None else min(cur[0], old[3]))
            if not self.depth and not self.out:
                return exact(n * k)
        return (cur[0], None, WHOLE if k == 8 or e.args and lay.whole8(e.args[0]) else ALL)

    def field(self, e, rest):
        if isinstance(e, (ast.Name, ast.Attribute)) and ast.unparse(e) in self.local:
            e = self.local[ast.unparse(e)]
        while isinstance(e, ast.Call):
            a0 = e.args[0] if e.args else None
            recs = self.lay.by_node.get(nid(e))
            own = isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and \
                e.func.value.id == self.me
            if not recs and self.depth < 4 and (own or isinstance(a0, ast.Name) and a0.id == self.me):
                return self.made(e, rest, own)
            if isinstance(a0, ast.Name) and a0.id == self.me:
                if not recs:
                    return ANY, False
                r = None
                for cls, rec in recs:
                    n = self.lay.size(cls, rec)
                    if n[0] != n[1] and 0 in n[2] and self.lay.bytewise(cls):
                        n = (n[0], n[1], WHOLE)
                    r = hull(r, n)
                ev = self.lay.events.setdefault((self.lay.of[-1] if self.lay.of else None, nid(e)),
                                                [self.f, e, [c for c, x in recs], frozenset()])
                ev[3] |= rest
                return r, all(self.lay.bytewise(c) for c, x in recs)
            if recs:
                return ANY, False
            if isinstance(e.func, ast.Attribute) and e.func.attr == "seekByte":
                return ANY, False
            e = a0
        return ANY, False

    def made(self, e, rest, own):
        """a field made by a function"""
        v = self.lay.ty.fact(e.func)
        if v is TOP or len(v) != 1 or next(iter(v))[0] != 'f':
            return ANY, False
        g = next(iter(v))[1]
        if not isinstance(g.node, ast.FunctionDef) or not g.params or \
                any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in body_nodes(g.node)):
            return ANY, False
        w = Body(self.lay, g, self.depth + 1)
        r, aligned = None, True
        for n in body_nodes(g.node):
            if isinstance(n, ast.Return):
                if n.value is None:
                    return ANY, False
                x, al = w.field(n.value, rest)
                r, aligned = hull(r, x), aligned and al
        return (ANY, False) if r is None else (r, aligned)

    def delegate(self, e, rest):
        if not isinstance(e, ast.Call) or self.depth > 4:
            return ANY
        v = self.lay.ty.fact(e.func)
        if v is TOP or not v:
            return ANY
        r = None
        for a in sorted(v, key=lambda a: (a[0], a[1].qual if a[0] == 'f' else "")):
            if a[0] != 'f' or not isinstance(a[1].node, ast.FunctionDef):
                r = hull(r, ANY)
                continue
            own = isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and \
                e.func.value.id == self.me
            given = bool(e.args) and isinstance(e.args[0], ast.Name) and e.args[0].id == self.me
            if not (own or given) or not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(a[1].node)):
                r = hull(r, ANY)
                continue
            r = hull(r, self.lay.once((a[1], self.lay.of[-1] if self.lay.of else None), a[1], rest,
                                        self.depth + 1))
        return r
