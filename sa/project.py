"""Whole-program model of the analysed Python package, built from source only.

Loads every module under <root>/hachoir, resolves imports (including star
imports and re-exports), classes and their C3 linearisation, functions,
methods, properties and module-level bindings.  Nothing of the analysed
package is ever imported or executed.
"""
import ast
import itertools
import builtins
import os
import sys
from .normal import normalise

sys.setrecursionlimit(10000)

PKG = "hachoir"


class AnalysisBroken(Exception):
    """An anchor the analysis relies on vanished: an error of the check."""


_serial = itertools.count(1)


def nid(o):
    """Identity of a node or entity, the same in every run on one tree."""
    if o is None:
        return 0
    n = getattr(o, "_nid", None)
    if n is None:
        n = o._nid = next(_serial)
    return n


class Entity:
    """Hash by creation order: set iteration does not depend on addresses."""
    _nid = None

    def __hash__(self):
        n = self.__dict__.get("_nid")
        if n is None:
            n = self.__dict__["_nid"] = next(_serial)
        return n


class Module(Entity):
    def __init__(self, name, path, tree, source):
        self.name = name
        self.path = path
        self.tree = tree
        self.source = source
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.bindings = {}      # name -> list of raw binding records
        self.stars = []         # modules star-imported
        self.classes = []
        self.functions = []     # all FuncInfo incl. methods and nested

    def __repr__(self):
        return "<Module %s>" % self.name


class External:
    """Something outside the analysed package (dotted name)."""
    __slots__ = ("dotted",)

    def __init__(self, dotted):
        self.dotted = dotted

    def __repr__(self):
        return "<ext %s>" % self.dotted

    def __eq__(self, other):
        return isinstance(other, External) and other.dotted == self.dotted

    def __hash__(self):
        return hash(self.dotted)


class ValueBinding(Entity):
    """A name bound to the value of an expression."""

    def __init__(self, module, expr, stmt, kind="assign", cls=None):
        self.module = module
        self.expr = expr
        self.stmt = stmt
        self.kind = kind
        self.cls = cls

    def __repr__(self):
        return "<Value %s:%s>" % (self.module.name,
                                  getattr(self.stmt, "lineno", "?"))


class FuncInfo(Entity):
    def __init__(self, module, node, cls, parent):
        self.module = module
        self.node = node
        self.cls = cls            # ClassInfo when a method
        self.parent = parent      # enclosing FuncInfo
        self.name = getattr(node, "name", "<lambda>")
        q = [self.name]
        if parent is not None:
            q.insert(0, parent.qual + ".<locals>")
        elif cls is not None:
            q.insert(0, cls.qual)
        self.qual = ".".join(q)
        self.is_generator = False
        self.decorators = [decorator_name(d)
                           for d in getattr(node, "decorator_list", [])]
        self.is_static = "staticmethod" in self.decorators
        self.is_classmethod = "classmethod" in self.decorators
        self.is_property = ("property" in self.decorators)

    @property
    def args(self):
        return self.node.args

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def all_params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + \
            [x.arg for x in (a.vararg, a.kwarg) if x is not None]

    @property
    def where(self):
        return "%s:%s %s" % (self.module.path, self.node.lineno, self.qual)

    def __repr__(self):
        return "<Func %s.%s>" % (self.module.name, self.qual)


class ClassInfo(Entity):
    enclosing = None              # FuncInfo of a factory function

    def __init__(self, module, node, outer):
        self.module = module
        self.node = node
        self.name = node.name
        self.outer = outer
        self.qual = node.name if outer is None else outer + "." + node.name
        self.bases = []
        self._mro = None
        self.attrs = {}           # name -> list of FuncInfo | ValueBinding | ClassInfo
        self.inst_attrs = {}      # name -> list of (FuncInfo, value expr|None)
        self.subclasses = []

    @property
    def where(self):
        return "%s:%s %s" % (self.module.path, self.node.lineno, self.qual)

    @property
    def fullname(self):
        return self.module.name + "." + self.qual

    def __repr__(self):
        return "<Class %s>" % self.fullname


def decorator_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    parts = []
    while isinstance(d, ast.Attribute):
        parts.append(d.attr)
        d = d.value
    if isinstance(d, ast.Name):
        parts.append(d.id)
    return ".".join(reversed(parts))


def dotted_name(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
        return ".".join(reversed(parts))
    return None


def iter_own(node):
    """Walk the nodes of a function body, not entering nested scopes
    (nested function/class/lambda nodes are yielded, not entered)."""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
    todo.reverse()
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        todo.extend(reversed(list(ast.iter_child_nodes(n))))


def body_nodes(func_node):
    """Own nodes of a function's body (defaults/decorators excluded)."""
    out = getattr(func_node, "_own", None)
    if out is None:
        if isinstance(func_node, ast.Lambda):
            out = [func_node.body]
            if not isinstance(func_node.body, ast.Lambda):
                out += iter_own(func_node.body)
        else:
            out = list(iter_own(list(func_node.body)))
        func_node._own = out
    return out


class Project:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.load()

    # -- loading ---------------------------------------------------------
    def load(self):
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken("no %s package under %s" % (PKG, self.root))
        for dirpath, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dirpath, f)
                rel = os.path.relpath(path, self.root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(path, "rb") as fp:
                    src = fp.read()
                try:
                    tree = normalise(ast.parse(src, path))
                except SyntaxError as err:
                    raise AnalysisBroken("cannot parse %s: %s" % (rel, err))
                mod = Module(name, rel, tree, src)
                self.modules[name] = mod
        for mod in self.modules.values():
            for n in ast.walk(mod.tree):
                for child in ast.iter_child_nodes(n):
                    child._parent = n
            self._collect(mod)
        self.classes = [c for m in self.modules.values() for c in m.classes]
        self.functions = [f for m in self.modules.values() for f in m.functions]
        for c in self.classes:
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                c.bases.append(r)
        for c in self.classes:
            for b in c.bases:
                if isinstance(b, ClassInfo):
                    b.subclasses.append(c)
        self._node_func = {nid(f.node): f for f in self.functions}
        self.functions_by_parent = {}
        self.desc_memo = {}
        for f in self.functions:
            if f.parent is not None:
                self.functions_by_parent.setdefault(f.parent, []).append(f)
            elif f.cls is not None and f.cls.enclosing is not None:
                self.functions_by_parent.setdefault(f.cls.enclosing, []).append(f)

    def func_of_node(self, node):
        return self._node_func.get(nid(node))

    def _collect(self, mod):
        self._collect_block(mod, mod.tree.body, mod.bindings)
        for c in mod.classes:
            pass

    def _bind(self, table, name, val):
        table.setdefault(name, []).append(val)

    def _collect_block(self, mod, body, table, cls=None, outer=None):
        for st in body:
            self._collect_stmt(mod, st, table, cls, outer)

    def _collect_stmt(self, mod, st, table, cls, outer):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = self._add_func(mod, st, cls, None)
            self._bind(table, st.name, f)
        elif isinstance(st, ast.ClassDef):
            c = ClassInfo(mod, st, outer)
            mod.classes.append(c)
            st._classinfo = c
            self._bind(table, st.name, c)
            self._collect_block(mod, st.body, c.attrs, c, c.qual)
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    self._bind(table, a.asname, ("import", a.name))
                else:
                    self._bind(table, a.name.split(".")[0],
                               ("import", a.name.split(".")[0]))
                    # importing a submodule makes it an attribute of packages
        elif isinstance(st, ast.ImportFrom):
            base = self._import_base(mod, st)
            for a in st.names:
                if a.name == "*":
                    if cls is None:
                        mod.stars.append(base)
                else:
                    self._bind(table, a.asname or a.name, ("from", base, a.name))
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                self._bind_target(mod, t, st.value, st, table, cls)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self._bind_target(mod, st.target, st.value, st, table, cls)
        elif isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name):
                self._bind(table, st.target.id,
                           ValueBinding(mod, st.value, st, "aug", cls))
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            self._bind_target(mod, st.target, None, st, table, cls)
            self._collect_block(mod, st.body + st.orelse, table, cls, outer)
        elif isinstance(st, ast.While):
            self._collect_block(mod, st.body + st.orelse, table, cls, outer)
        elif isinstance(st, ast.If):
            self._collect_block(mod, st.body + st.orelse, table, cls, outer)
        elif isinstance(st, ast.With):
            for it in st.items:
                if it.optional_vars is not None:
                    self._bind_target(mod, it.optional_vars, None, st, table, cls)
            self._collect_block(mod, st.body, table, cls, outer)
        elif isinstance(st, ast.Try):
            self._collect_block(mod, st.body, table, cls, outer)
            for h in st.handlers:
                if h.name:
                    self._bind(table, h.name, ValueBinding(mod, None, h, "except", cls))
                self._collect_block(mod, h.body, table, cls, outer)
            self._collect_block(mod, st.orelse + st.finalbody, table, cls, outer)
        # lambdas and nested functions inside expressions of this statement
        for n in self._stmt_lambdas(st):
            self._add_func(mod, n, cls, None)
        # walrus at module level
        if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            for n in ast.walk(st):
                if isinstance(n, ast.NamedExpr) and isinstance(n.target, ast.Name):
                    self._bind(table, n.target.id, ValueBinding(mod, n.value, st, "assign", cls))

    def _stmt_lambdas(self, st):
        """Outermost lambdas in a module/class level statement (not inside
        functions or nested statements, which are visited separately)."""
        out = []

        def visit(n):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.stmt, ast.excepthandler)):
                    continue
                if isinstance(ch, ast.Lambda):
                    out.append(ch)
                    continue
                visit(ch)
        if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            visit(st)
        return out

    def _bind_target(self, mod, t, value, st, table, cls):
        if isinstance(t, ast.Name):
            self._bind(table, t.id, ValueBinding(mod, value, st, "assign" if value is not None else "opaque", cls))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = None
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) \
                    and not any(isinstance(x, ast.Starred) for x in t.elts + value.elts):
                vals = value.elts
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    x = x.value
                self._bind_target(mod, x, vals[i] if vals else None, st, table, cls)

    def _add_func(self, mod, node, cls, parent):
        f = FuncInfo(mod, node, cls, parent)
        mod.functions.append(f)
        node._funcinfo = f
        selfname = None
        if cls is not None and parent is None and not f.is_static and f.params:
            selfname = f.params[0]
        for n in body_nodes(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                f.is_generator = True
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                self._add_func(mod, n, cls, f)
            elif isinstance(n, ast.ClassDef):
                c = ClassInfo(mod, n, f.qual + ".<locals>")
                mod.classes.append(c)
                n._classinfo = c
                c.enclosing = f
                self._collect_block(mod, n.body, c.attrs, c, c.qual)
        if selfname or (cls is not None and parent is not None):
            # instance attributes: nested functions see the method's self
            top = f
            while top.parent is not None:
                top = top.parent
            sn = top.params[0] if top.params and not top.is_static else None
            if sn:
                for n in body_nodes(node):
                    for tgt, val in assigned_pairs(n):
                        if isinstance(tgt, ast.Attribute) and \
                                isinstance(tgt.value, ast.Name) and tgt.value.id == sn:
                            cls.inst_attrs.setdefault(tgt.attr, []).append((f, val))
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                            and n.func.attr == "__setattr__" and len(n.args) == 3 \
                            and isinstance(n.args[0], ast.Name) and n.args[0].id == sn \
                            and isinstance(n.args[1], ast.Constant):
                        cls.inst_attrs.setdefault(n.args[1].value, []).append((f, n.args[2]))
        return f

    def _import_base(self, mod, st):
        if not st.level:
            return st.module
        parts = mod.name.split(".")
        if not mod.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[:len(parts) - (st.level - 1)]
        if st.module:
            parts.append(st.module)
        return ".".join(parts)

    # -- resolution ------------------------------------------------------
    def _entity(self, rec, seen):
        if isinstance(rec, tuple):
            if rec[0] == "import":
                name = rec[1]
                if name in self.modules:
                    return self.modules[name]
                return External(name)
            _, base, attr = rec
            sub = "%s.%s" % (base, attr)
            if base in self.modules:
                r = self.lookup(self.modules[base], attr, seen)
                if r is not None:
                    return r
                if sub in self.modules:
                    return self.modules[sub]
                return None
            if sub in self.modules:
                return self.modules[sub]
            return External(sub)
        return rec

    def lookup_all(self, mod, name, seen=None):
        """All entities a module-level name may denote, [] if unbound."""
        seen = set() if seen is None else seen
        key = (mod.name, name)
        if key in seen:
            return []
        seen = seen | {key}
        out = []
        if name in mod.bindings:
            for rec in mod.bindings[name]:
                e = self._entity(rec, seen)
                if e is not None and e not in out:
                    out.append(e)
            return out
        for base in mod.stars:
            if base in self.modules:
                if name.startswith("_"):
                    continue
                r = self.lookup_all(self.modules[base], name, seen)
                if r:
                    return r
            else:
                out.append(External(base + "." + name))
        if not out:
            sub = mod.name + "." + name
            if mod.is_pkg and sub in self.modules:
                return [self.modules[sub]]
        return out

    def lookup(self, mod, name, seen=None):
        r = self.lookup_all(mod, name, seen)
        return r[-1] if r else None

    def has_external_star(self, mod):
        return any(b not in self.modules for b in mod.stars)

    def resolve_expr(self, mod, e):
        """Resolve a Name/Attribute chain at module level."""
        if isinstance(e, ast.Name):
            r = self.lookup(mod, e.id)
            if r is None and hasattr(builtins, e.id):
                return External("builtins." + e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value)
            if isinstance(b, Module):
                return self.lookup(b, e.attr)
            if isinstance(b, External):
                return External(b.dotted + "." + e.attr)
            if isinstance(b, ClassInfo):
                r = self.find_attr(b, e.attr)
                return r
        return None

    # -- classes ---------------------------------------------------------
    def mro(self, c):
        if c._mro is None:
            c._mro = [c]     # cycle guard
            seqs = []
            for b in c.bases:
                if isinstance(b, ClassInfo):
                    seqs.append(list(self.mro(b)))
                elif b is not None:
                    seqs.append([b])
                else:
                    seqs.append([External("?")])
            seqs.append([b if b is not None else External("?") for b in c.bases])
            out = [c]
            while any(seqs):
                for s in seqs:
                    if not s:
                        continue
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = next(s[0] for s in seqs if s)
                out.append(h)
                for s in seqs:
                    if s and s[0] == h:
                        del s[0]
            c._mro = out
        return c._mro

    def find_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ClassInfo) and name in k.attrs:
                return k.attrs[name][-1]
        return None

    def find_attr_owner(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ClassInfo) and name in k.attrs:
                return k, k.attrs[name][-1]
        return None, None

    def find_attr_after(self, c, owner, name):
        """super(owner, self).name for an instance of c."""
        m = self.mro(c)
        i = m.index(owner) if owner in m else -1
        for k in m[i + 1:]:
            if isinstance(k, ClassInfo) and name in k.attrs:
                return k, k.attrs[name][-1]
        return None, None

    def external_bases(self, c):
        out = []
        for k in self.mro(c):
            if isinstance(k, External) and k.dotted not in ("builtins.object",):
                out.append(k)
        return out

    def is_subclass(self, c, other):
        return other in self.mro(c)

    def descendants(self, c):
        out = self.desc_memo.get(c)
        if out is None:
            out, seen, todo = [], set(), list(c.subclasses)
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    out.append(x)
                    todo.extend(x.subclasses)
            self.desc_memo[c] = out
        return out

    def cls(self, fullname):
        """Find class by dotted module.Class, else by unique class name."""
        mod, _, name = fullname.rpartition(".")
        if mod in self.modules:
            r = self.lookup(self.modules[mod], name)
            if isinstance(r, ClassInfo):
                return r
        raise AnalysisBroken("class %s not found" % fullname)

    def func(self, fullname):
        mod, _, name = fullname.rpartition(".")
        if mod in self.modules:
            r = self.lookup(self.modules[mod], name)
            if isinstance(r, FuncInfo):
                return r
        else:
            try:
                c = self.cls(mod)
            except AnalysisBroken:
                c = None
            if c is not None:
                r = self.find_attr(c, name)
                if isinstance(r, FuncInfo):
                    return r
        raise AnalysisBroken("function %s not found" % fullname)


def assigned_pairs(n):
    """(target expr, value expr or None) pairs bound by a node."""
    out = []

    def add(t, v):
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = None
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) \
                    and not any(isinstance(x, ast.Starred) for x in list(t.elts) + list(v.elts)):
                vals = v.elts
            for i, x in enumerate(t.elts):
                add(x, vals[i] if vals else None)
        elif isinstance(t, ast.Starred):
            add(t.value, None)
        else:
            out.append((t, v))
    if isinstance(n, ast.Assign):
        for t in n.targets:
            add(t, n.value)
    elif isinstance(n, ast.AnnAssign):
        if n.value is not None:
            add(n.target, n.value)
    elif isinstance(n, ast.AugAssign):
        add(n.target, None)
    elif isinstance(n, (ast.For, ast.AsyncFor)):
        add(n.target, None)
    elif isinstance(n, ast.With):
        for it in n.items:
            if it.optional_vars is not None:
                add(it.optional_vars, None)
    elif isinstance(n, ast.NamedExpr):
        add(n.target, n.value)
    elif isinstance(n, ast.comprehension):
        add(n.target, None)
    elif isinstance(n, ast.Delete):
        pass
    return out
