"""Field-tree model on top of the abstract interpreter: which field set class
declares which child names with which field classes, what type .value has, who
the possible parents and roots of a field set class are, and the resolution of
field paths."""
import ast
import functools
from .project import FuncInfo, ClassInfo, AnalysisBroken, nid
from .types import (Types, TOP, BOT, K, T, kval, INT, STR, BYTES, BOOL, NONE, FLOAT,
                    join, joinall, str_parts, typename, limit_depth)

STREAM_RET = {
    "readBits": INT, "readInteger": INT, "readBytes": BYTES,
    "searchBytes": frozenset([('t', 'int'), K(None)]),
    "searchBytesLength": frozenset([('t', 'int'), K(None)]),
    "sizeGe": BOOL,
}

STR_ATTRS = {"display", "raw_display", "description", "name", "path"}


class FieldModel:
    def __init__(self, project):
        self.p = project
        self.ty = Types(project)
        p = project
        self.Field = p.cls("hachoir.field.Field")
        self.BFS = p.cls("hachoir.field.BasicFieldSet")
        self.GFS = p.cls("hachoir.field.GenericFieldSet")
        self.CoreParser = p.cls("hachoir.field.Parser")
        self.Stream = p.cls("hachoir.stream.InputStream")
        self.RootSeek = p.cls("hachoir.field.RootSeekableFieldSet")
        self.model = {}          # ClassInfo -> list of (parts, inst atom, site key)
        self.wild = set()        # classes with children of unknown name
        self.parents = {}        # ClassInfo -> set of ClassInfo | TOP
        self.orphans = []        # sites with unknown parent
        self.roots_memo = {}
        self.vt_memo = {}
        sp = self.ty.special
        sp['attr'] = self.h_attr
        sp['anyattr'] = self.h_anyattr
        sp['item'] = self.h_item
        sp['iter'] = self.h_iter
        sp['opaque'] = self.h_opaque
        sp['func'] = self.h_func
        sp['endpass'] = self.h_endpass
        sp['unkcall'] = self.h_unkcall
        self.unk_sites = {}
        self.extractor_of = {}
        self.extract_param = {}
        sp['rootparams'] = lambda f, vals: vals.update(self.extract_param.get(f, {}))
        self.imp_memo = {}

    def run(self, passes=3):
        self.resolve_value_bases()
        self.ty.run_all(passes)
        return self

    def resolve_value_bases(self):
        """Base classes produced by a call (class factories): evaluate them."""
        from .types import Ctx
        from .project import ValueBinding
        todo = [c for c in self.p.classes
                if any(isinstance(b, ValueBinding) or b is None for b in c.bases)]
        for _ in range(3):
            for c in todo:
                if not any(isinstance(b, ValueBinding) or b is None for b in c.bases):
                    continue
                for i, b in enumerate(c.bases):
                    if not (isinstance(b, ValueBinding) or b is None):
                        continue
                    ctx = Ctx(None, c.module, None, None, False, 0, ())
                    v = self.ty.ev(c.node.bases[i], ctx)
                    if v is not TOP and len(v) == 1:
                        a = next(iter(v))
                        if a[0] == 'C':
                            c.bases[i] = a[1]
                            if c not in a[1].subclasses:
                                a[1].subclasses.append(c)
                                self.p.desc_memo.clear()
            for c in self.p.classes:
                c._mro = None
            self.ty.val_memo = {}
            self.ty.memo = {}
        for c in self.ty.spec_classes.values():
            c._mro = None
        self.unresolved_bases = [c for c in todo if any(
            isinstance(b, ValueBinding) or b is None for b in c.bases)]

    # -- helpers ---------------------------------------------------------
    def base(self, c):
        return getattr(c, "spec_of", c)

    def is_field(self, c):
        return self.p.is_subclass(c, self.Field)

    def is_fieldset(self, c):
        return self.p.is_subclass(c, self.BFS)

    def is_root_class(self, c):
        """A class that is itself the root of a tree (built from a stream)."""
        return self.p.is_subclass(c, self.CoreParser) or any(
            isinstance(k, ClassInfo) and k.name == "HachoirParser" for k in self.p.mro(c))

    # -- hooks -------------------------------------------------------------
    def h_opaque(self, f):
        m = f.module.name
        if m in ("hachoir.field.field", "hachoir.field.basic_field_set",
                 "hachoir.field.generic_field_set", "hachoir.field.parser"):
            return f.name not in ("joinPath",)
        if m.startswith("hachoir.stream"):
            return True
        return False

    def h_func(self, ty, f, recv, args, kw, star, ctx, node):
        m = f.module.name
        if f.name == "registerExtractor" and len(args) == 2:
            self.note_extractor(ty, args)
        for n, v in self.extract_param.get(f, {}).items():
            i = f.params.index(n)
            if i < len(args) and args[i] is TOP:
                args[i] = v     # extractors are called with the parsers they are registered for
        if f.cls is not None and f.cls.name in ("InputStream", "InputIOStream", "StringInputStream", "InputSubStream", "FragmentedStream", "ConcatStream") and f.name in STREAM_RET:
            ty.observe(f, ty.bind_args(f, args, kw))
            return STREAM_RET[f.name]
        if f.name == "__getitem__" and f.cls is self.Field and len(args) >= 2 and args[0] is not TOP:
            return ty.subscript(args[0], args[1], ctx, node)
        if f.name == "getField" and f.cls is not None and self.is_field(f.cls) and len(args) >= 2 and args[0] is not TOP:
            return ty.subscript(args[0], args[1], ctx, node)
        if f.name == "array" and f.cls is self.GFS and len(args) >= 2 and args[0] is not TOP:
            out = BOT
            for a in args[0]:
                if a[0] != 'i':
                    return TOP
                out = join(out, self.array(a, args[1], ctx))
            return frozenset([('list', limit_depth(out))])
        if f.name in ("seekBit", "seekByte") and f.cls is self.GFS:
            # may create a padding child
            self.note_core_child(ty, f, args, kw, ctx, node)
            pb = self.p.cls("hachoir.field.PaddingBytes")
            return frozenset([('i', pb, None), K(None)])
        if f.name in ("seekBit", "seekByte") and f.cls is self.RootSeek:
            return NONE
        if f.name == "createOrphanField" and len(args) >= 3:
            cls = args[2]
            rest = [args[0]] + list(args[3:])
            if cls is TOP:
                return TOP
            out = BOT
            for a in cls:
                out = join(out, ty.call1(a, rest, kw, star, ctx, node))
            return out
        if f.name == "fault_tolerant":
            return TOP
        return NotImplemented

    def note_extractor(self, ty, args):
        """registerExtractor(Parser, Extractor): extract() receives that parser"""
        if args[0] is TOP or args[1] is TOP:
            return
        for e in args[1]:
            if e[0] != 'C':
                continue
            ex = self.p.find_attr(e[1], "extract")
            if not isinstance(ex, FuncInfo) or len(ex.params) < 2:
                continue
            v = frozenset(('i', a[1], 'open') for a in args[0] if a[0] == 'C')
            if v:
                d = self.extract_param.setdefault(ex, {})
                d[ex.params[1]] = join(d.get(ex.params[1], BOT), v)
                self.extractor_of.setdefault(e[1], set()).update(a[1] for a in args[0] if a[0] == 'C')

    def note_core_child(self, ty, f, args, kw, ctx, node):
        name = None
        if len(args) > 2:
            name = args[2]
        elif "name" in kw:
            name = kw["name"]
        if name is None or node is None:
            return
        pb = self.p.cls("hachoir.field.PaddingBytes")
        ty.mksite(pb, [args[0], name, INT], {}, False, ctx, node)

    def h_anyattr(self, name):
        """An attribute of an unknown object whose name only streams and
        fields use, with one type everywhere."""
        if name == "stream":
            return frozenset([('i', self.Stream, 'open')])
        if name in ("absolute_address", "current_size"):
            return INT
        return TOP

    def h_attr(self, ty, a, name, ctx):
        cls = a[1]
        if not self.is_field(cls):
            return NotImplemented
        if name in STR_ATTRS:
            return STR
        if name in ("size", "address", "absolute_address", "current_size", "_current_size", "_address", "index", "current_length"):
            return INT
        if name in ("_size",):
            return frozenset([('t', 'int')])
        if name in ("eof", "done", "autofix", "is_field_set"):
            return BOOL
        if name in ("parent", "_parent"):
            ps = self.parents_of(cls, len(a) > 2 and a[2] == 'open')
            if ps is TOP or not ps:
                return TOP
            return frozenset(('i', c, 'open') for c in ps)
        if name == "root":
            rs = self.roots_of(cls, len(a) > 2 and a[2] == 'open')
            if rs is TOP or not rs:
                return TOP
            return frozenset(('i', c, 'open') for c in rs)
        if name == "stream":
            return frozenset([('i', self.Stream, 'open')])
        if name == "endian":
            return TOP
        if name == "value":
            return self.value_type(a)
        return NotImplemented

    def value_type(self, a):
        cls = a[1]
        key = (cls, a[2] == 'open' if len(a) > 2 else False)
        if key in self.vt_memo:
            return self.vt_memo[key]
        self.vt_memo[key] = TOP
        v = self._value_type(cls, key[1])
        self.vt_memo[key] = v
        return v

    def _value_type(self, cls, is_open):
        ty = self.ty
        for k in self.p.mro(cls):
            if isinstance(k, ClassInfo) and ("createValue" in k.inst_attrs or "_getValue" in k.inst_attrs):
                return TOP
        if is_open:
            for d in self.p.descendants(cls):
                if "createValue" in d.inst_attrs or "createValue" in d.attrs or "value" in d.attrs:
                    return TOP
        for k in self.p.mro(cls):
            if isinstance(k, ClassInfo) and k is not self.Field and "value" in k.attrs:
                e = k.attrs["value"][-1]
                from .types import Ctx
                return ty.attr_of_class_entity(e, k, ('i', cls, None), cls, Ctx(None, k.module, k, None, False, 1, ()))
        owner, e = self.p.find_attr_owner(cls, "createValue")
        if not isinstance(e, FuncInfo) or owner is self.Field:
            return TOP
        if owner is self.BFS:
            return NONE
        n = owner.fullname
        if owner.module.name == "hachoir.field.string_field":
            return STR
        if owner.module.name == "hachoir.field.character":
            return STR
        if owner.module.name == "hachoir.field.integer" or owner.fullname == "hachoir.field.bit_field.RawBits":
            return INT
        from .types import Ctx
        ctx = Ctx(None, owner.module, owner, getattr(owner, "closure", None), False, 1, ())
        return ty.call_func(e, ('i', cls, None), [frozenset([('i', cls, None)])], {}, ctx, None, getattr(owner, "closure", None))

    def h_item(self, ty, a, i, ctx, node):
        if not self.is_field(a[1]):
            return NotImplemented
        if i is TOP or not self.model:
            return TOP
        out = BOT
        for k in i:
            parts = str_parts(k)
            if parts is None:
                if typename(k) == 'int':
                    out = join(out, self.children(a))
                    continue
                return TOP
            r = self.resolve(a, parts)
            if r is TOP or r is None or not r:
                return TOP
            out = join(out, r)
        return out

    def array(self, a, i, ctx):
        if i is TOP or not self.model:
            return TOP
        out = BOT
        for k in i:
            parts = str_parts(k)
            if parts is None:
                return TOP
            r = self.resolve(a, parts + ("[", None, "]"))
            if not r:
                return TOP
            out = join(out, r)
        return out

    def h_iter(self, ty, a, ctx):
        if not self.is_fieldset(a[1]):
            return NotImplemented
        return self.children(a)

    def children(self, a):
        c = a[1]
        if not self.model:
            return TOP
        out = BOT
        found = False
        for k in self.family(c, len(a) > 2 and a[2] == 'open'):
            if k in self.wildall:
                return TOP
            if k in (self.GFS, self.BFS, self.RootSeek):
                continue
            for parts, atom, site in self.model.get(k, ()):
                if atom is None:
                    return TOP
                found = True
                out = join(out, frozenset([atom]))
        return out if found else TOP

    # -- model construction --------------------------------------------------
    def ctor_param(self, cls, rec, pname):
        """abstract value of constructor parameter pname at a site"""
        init = self.p.find_attr(cls, "__init__")
        args, kw = rec["args"], rec["kw"]
        if pname in kw:
            return kw[pname]
        if isinstance(init, FuncInfo):
            names = init.params[1:]
            if pname in names:
                i = names.index(pname)
                if i < len(args):
                    return args[i]
                a = init.node.args
                dfl = dict(zip(init.params[len(init.params) - len(a.defaults):], a.defaults))
                if rec["star"]:
                    return TOP
                if pname in dfl:
                    from .types import Ctx
                    return self.ty.ev(dfl[pname], Ctx(None, init.module, None, None, False, 0, ()))
                return TOP
            if init.node.args.vararg:
                std = {"parent": 0, "name": 1}
                if pname in std and std[pname] < len(args):
                    return args[std[pname]]
        return TOP

    def h_unkcall(self, ty, args, kw, ctx, node):
        """call of an unknown callee with (field set, name, ...): it may create
        a child of that name"""
        a0 = args[0] if args else kw.get("parent", TOP)
        a1 = args[1] if len(args) > 1 else kw.get("name", TOP)
        if a0 is TOP or (len(args) < 2 and "name" not in kw):
            return
        ps = {self.base(x[1]) for x in a0 if x[0] == 'i' and self.is_fieldset(x[1])}
        nm = [str_parts(x) for x in a1] if a1 is not TOP else [(None,)]
        if ps and nm and all(nm):
            d = self.unk_sites.setdefault(nid(node), (set(), set(), node))
            d[0].update(ps)
            d[1].update(nm)

    def static_format(self, model):
        """children declared by a class-level `format` table"""
        from .types import Ctx
        try:
            sfs = self.p.cls("hachoir.field.StaticFieldSet")
        except AnalysisBroken:
            return
        for c in self.p.descendants(sfs):
            ca = self.ty.class_attr(c, "format")
            if not ca:
                continue
            v = self.ty.attr_of_class_entity(ca[0], ca[1], None, c, Ctx(None, c.module, c, None, False, 0, ()))
            if v == kval(None):
                continue
            elems = self.ty.iter_elem(v, None)
            if elems is TOP or not elems:
                model.setdefault(c, []).append(((None,), None, None))
                continue
            for a in elems:
                if a[0] != 'tup' or len(a[1]) < 2 or a[1][1] is TOP or not all(str_parts(x) for x in a[1][1]):
                    model.setdefault(c, []).append(((None,), None, None))
                    continue
                for x in a[1][1]:
                    nm = str_parts(x)
                    if a[1][0] is TOP:
                        model.setdefault(c, []).append((nm, None, None))
                        continue
                    for k in a[1][0]:
                        if k[0] == 'C':
                            site = ("format", nid(ca[0]), nm)
                            model.setdefault(c, []).append((nm, ('i', k[1], site), site))
                            cur = self.format_parents.setdefault(k[1], set())
                            cur.add(c)
                        else:
                            model.setdefault(c, []).append((nm, None, None))

    def h_endpass(self, ty, n):
        self.vt_memo = {}
        self.format_parents = {}
        self.roots_memo = {}
        model = {}
        wild = set()
        parents = {}
        orphans = []
        for (site, cls), rec in ty.sites.items():
            if not self.is_field(cls):
                continue
            init = self.p.find_attr(cls, "__init__")
            if not isinstance(init, FuncInfo):
                continue
            pn = init.params[1:2]
            if pn == ["stream"] or (init.params[1:] and init.params[1] == "stream"):
                continue
            pv = self.ctor_param(cls, rec, init.params[1]) if len(init.params) > 1 else (rec["args"][0] if rec["args"] else TOP)
            nv = self.ctor_param(cls, rec, "name")
            names = [(None,)]
            if nv is not TOP:
                names = [str_parts(x) or (None,) for x in nv] or [(None,)]
            for k in self.p.mro(cls):
                if not isinstance(k, ClassInfo) or "_name" not in k.inst_attrs or \
                        k.module.name.startswith("hachoir.field."):
                    continue
                rn = ty.inst_attr_vals.get((k, "_name"), TOP)
                if rn is TOP:
                    names = names + [(None,)]
                else:
                    names = names + [str_parts(x) or (None,) for x in rn]
            atom = ('i', cls, site)
            if pv is TOP or not pv or any(x[0] != 'i' for x in pv):
                orphans.append((cls, names, atom, rec))
                continue
            for x in pv:
                pc = self.base(x[1])
                for nm in names:
                    if nm == (None,) and pc.module.name.startswith("hachoir.field."):
                        continue    # generic helper: the name comes from its callers
                    model.setdefault(pc, []).append((nm, atom, site))
                    if nm == (None,):
                        wild.add(pc)
                cur = parents.get(cls, set())
                cur.add(pc)
                parents[cls] = cur
        self.static_format(model)
        for k, v in self.format_parents.items():
            parents.setdefault(k, set()).update(v)
        for ps, nms, node in self.unk_sites.values():
            for pc in ps:
                for nm in nms:
                    if nm == (None,) and pc.module.name.startswith("hachoir.field."):
                        continue
                    model.setdefault(pc, []).append((nm, None, nid(node)))
        for pc, lst in model.items():
            if any(x[1] is None and x[0] == (None,) for x in lst):
                wild.add(pc)
        self.unk_sites = {}
        # classes used by unknown parents
        for cls, names, atom, rec in orphans:
            parents[cls] = TOP
        self.model, self.wild, self.parents, self.orphans = model, wild, parents, orphans
        # orphan children (unknown parent): they may belong to any field set of
        # the modules that use the function; keep them per module
        self.orphans_by_module = {}
        for cls, names, atom, rec in orphans:
            f = rec["func"]
            m = f.module.name if f is not None else None
            self.orphans_by_module.setdefault(m, []).append((names, atom, rec))
        self.wildall = set(wild)

    def parents_of(self, cls, is_open=False):
        if not self.parents:
            return TOP
        out = set()
        fam = [cls] + (self.p.descendants(cls) if is_open else [])
        if is_open:
            pass
        for c in fam:
            ps = self.parents.get(c)
            if ps is None:
                continue
            if ps is TOP:
                return TOP
            out |= ps
        return out

    def roots_of(self, cls, is_open=False):
        key = (cls, is_open)
        if key in self.roots_memo:
            return self.roots_memo[key]
        seen = set()
        out = set()
        todo = [cls] + (self.p.descendants(cls) if is_open else [])
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            if self.is_root_class(c):
                out.add(c)
                continue
            ps = self.parents.get(c)
            if ps is TOP:
                out = TOP
                break
            if ps:
                for q in ps:
                    todo.append(q)
                    todo.extend(self.p.descendants(q))
        self.roots_memo[key] = out
        return out

    def family(self, c, is_open):
        c = self.base(c)
        fam = [k for k in self.p.mro(c) if isinstance(k, ClassInfo)]
        if is_open:
            fam += self.p.descendants(c)
        return fam

    # -- path resolution -----------------------------------------------------
    def lookup_child(self, a, parts):
        """Children of instance atom a whose declared name may equal the name
        pattern: TOP (unknown), or a frozenset of atoms (empty = none)."""
        c = a[1]
        is_open = len(a) > 2 and a[2] == 'open'
        if not self.is_fieldset(c):
            return frozenset()
        out = set()
        wild = False
        for k in self.family(c, is_open):
            for nm, atom, site in self.model.get(k, ()):
                if name_match(nm, parts):
                    if nm == (None,):
                        wild = True
                    elif atom is None:
                        return TOP
                    else:
                        out.add(atom)
        # a child whose name is computed is not taken for one with a literal name
        if wild and not (out and len(parts) == 1 and parts[0] is not None):
            return TOP
        if not out and self.orphan_may(c, parts):
            return TOP
        return frozenset(out)

    def orphan_may(self, c, parts):
        """May a construction site whose parent is unknown add this child?"""
        mods = {k.module.name for k in self.family(c, True)
                if not k.module.name.startswith("hachoir.field")}
        for m in mods:
            vis = {m}
            mod = self.p.modules.get(m)
            if mod is not None:
                vis |= self.imported_modules(mod)
            for v in vis:
                for names, atom, rec in self.orphans_by_module.get(v, ()):
                    if v != m and all(x == (None,) for x in names):
                        continue
                    if any(name_match(nm, parts) for nm in names):
                        return True
        return False

    def imported_modules(self, mod):
        if mod not in self.imp_memo:
            out = set()
            for nd in ast.walk(mod.tree):
                if isinstance(nd, ast.ImportFrom):
                    b = self.p._import_base(mod, nd)
                    if b:
                        out.add(b)
                        for a in nd.names:
                            out.add(b + "." + a.name)
                elif isinstance(nd, ast.Import):
                    for a in nd.names:
                        out.add(a.name)
            self.imp_memo[mod] = {m for m in out if m in self.p.modules}
        return self.imp_memo[mod]

    def resolve(self, a, parts):
        """Resolve a path pattern from instance atom a.  Returns TOP, or the
        frozenset of atoms it may denote (empty: definitely unresolvable)."""
        segs = split_path(parts)
        cur = frozenset([a])
        if segs and segs[0] == () or (parts and parts[0] is not None and parts[0].startswith("/")):
            r = self.roots_of(a[1], len(a) > 2 and a[2] == 'open') if not self.is_root_class(a[1]) else {a[1]}
            if r is TOP or not r:
                return TOP
            cur = frozenset(('i', c, 'open') for c in r)
            segs = segs[1:]
            if segs == [()] or not segs:
                return cur
        for s in segs:
            nxt = set()
            for x in cur:
                if x[0] != 'i':
                    return TOP
                r = self.step(x, s)
                if r is TOP:
                    return TOP
                nxt |= r
            if not nxt:
                return frozenset()
            if len(nxt) > 60:
                return TOP
            cur = frozenset(nxt)
        return cur

    def step(self, x, s):
        if s == (None,) or s == ():
            return TOP
        if len(s) == 1 and s[0] is not None and not s[0].strip("."):
            n = len(s[0]) - 1
            cur = {x}
            for _ in range(n):
                nxt = set()
                for y in cur:
                    ps = self.parents_of(y[1], len(y) > 2 and y[2] == 'open')
                    if ps is TOP or not ps:
                        return TOP
                    nxt |= {('i', c, 'open') for c in ps}
                cur = nxt
            return frozenset(cur)
        if not self.is_fieldset(x[1]):
            # Link delegates to its target; generic classes may be subclassed
            if x[1].name == "Link" or x[1] is self.Field:
                return TOP
            return frozenset()
        if x[1] in (self.BFS, self.GFS, self.Field):
            return TOP
        return self.lookup_child(x, s)


def split_path(parts):
    """pattern parts -> list of segment patterns, split at '/'."""
    segs = [[]]
    for p in parts:
        if p is None:
            segs[-1].append(None)
            continue
        bits = p.split("/")
        for j, b in enumerate(bits):
            if j:
                segs.append([])
            if b:
                segs[-1].append(b)
    return [tuple(s) for s in segs]


def decl_variants(nm):
    """Declared name pattern -> patterns of the names it can end up with."""
    if nm and isinstance(nm[-1], str) and nm[-1].endswith("[]"):
        head = nm[:-1] + (nm[-1][:-1],) if nm[-1] != "[]" else nm[:-1] + ("[",)
        return [head + (None, "]")]
    # a duplicate is renamed name[N]
    return [nm, nm + ("[", None, "]")]


@functools.lru_cache(maxsize=None)
def name_match(nm, parts):
    return any(glob_overlap(v, parts) for v in decl_variants(nm))


def glob_overlap(a, b):
    """Can two wildcard patterns denote a common string?"""
    a = tuple(x for p in a for x in ((None,) if p is None else p))
    b = tuple(x for p in b for x in ((None,) if p is None else p))
    memo = {}

    def rec(i, j):
        k = (i, j)
        if k in memo:
            return memo[k]
        memo[k] = False
        if i == len(a) and j == len(b):
            r = True
        elif i < len(a) and a[i] is None:
            r = rec(i + 1, j) or (j < len(b) and rec(i, j + 1))
        elif j < len(b) and b[j] is None:
            r = rec(i, j + 1) or (i < len(a) and rec(i + 1, j))
        elif i < len(a) and j < len(b) and a[i] == b[j]:
            r = rec(i + 1, j + 1)
        else:
            r = False
        memo[k] = r
        return r
    return rec(0, 0)
