"""Flow-sensitive abstract interpreter computing, for every expression of every
function, a finite set of abstract values (or TOP when unknown).

Domain: constants, builtin types, instances of program classes (with the
construction site), classes, functions/bound methods, tuples, lists, dicts,
generators (with the values they yield) and string patterns with wildcards.
Calls to resolved program functions are evaluated per abstract argument vector
up to a depth bound; beyond it the result is TOP.  Everything unknown is TOP:
clients only report what holds for *every* abstract value.
"""
import ast
import builtins
from .project import (Project, Module, External, ValueBinding, FuncInfo,
                      ClassInfo, iter_own, body_nodes, nid, Entity)

TOP = None
BOT = frozenset()
LIMIT = 24
BIGLIMIT = 400


def K(v):
    return ('k', v, type(v).__name__)


def kval(v):
    return frozenset([K(v)])


def T(name):
    return frozenset([('t', name)])


INT, STR, BYTES, FLOAT, BOOL = T('int'), T('str'), T('bytes'), T('float'), T('bool')
NONE = kval(None)
NONE_ATOM = K(None)


def typename(a):
    if a[0] == 'k':
        return a[2]
    if a[0] == 't':
        return a[1]
    if a[0] == 'pat':
        return 'str'
    if a[0] == 'tup':
        return 'tuple'
    if a[0] == 'list' and len(a) > 2:
        return 'tuple'
    if a[0] in ('list', 'dict', 'set'):
        return a[0]
    return None


def collapse(v):
    out = set()
    for a in v:
        if a[0] == 'k' and a[2] in ('int', 'str', 'bytes', 'float'):
            out.add(('t', a[2]))
        elif a[0] == 'pat':
            out.add(('t', 'str'))
        elif a[0] == 'tup':
            out.add(('t', 'tuple'))
        elif a[0] == 'list':
            out.add(('t', 'list'))
        else:
            out.add(a)
    return out


def norm(v):
    if v is TOP:
        return TOP
    if len(v) > LIMIT:
        n = sum(1 for a in v if a[0] in ('k', 'pat', 'tup', 'list'))
        if n > LIMIT and n > 250:
            v = frozenset(collapse(v))
        if len(v) > BIGLIMIT:
            return TOP
    return v


def join(a, b):
    if a is TOP or b is TOP:
        return TOP
    if a is b:
        return a
    r = a | b
    if r == a:
        return a
    return norm(r)


def joinall(vals):
    r = BOT
    for v in vals:
        r = join(r, v)
        if r is TOP:
            return TOP
    return r


def widen(old, new):
    """At loop heads: if constants keep growing, collapse them."""
    r = join(old, new)
    if r is TOP or r == old:
        return r
    ki = [a for a in r if a[0] == 'k' and a[2] == 'int']
    if len(ki) > 4:
        r = frozenset(a for a in r if a not in ki) | INT
    ks = [a for a in r if a[0] in ('k', 'pat') and typename(a) == 'str']
    if len(ks) > 12:
        r = frozenset(a for a in r if a not in ks) | STR
    if any(a[0] == 'tup' for a in r) and len(r) > 8:
        r = frozenset(collapse(r))
    return r


def depth_of(v, d=0):
    if v is TOP or d > 6:
        return d
    m = d
    for a in v:
        if a[0] == 'tup':
            for x in a[1]:
                m = max(m, depth_of(x, d + 1))
        elif a[0] in ('list', 'gen', 'set') and len(a) > 1:
            m = max(m, depth_of(a[1], d + 1))
    return m


def limit_depth(v):
    if v is not TOP and depth_of(v) > 4:
        return frozenset(collapse(v)) if all(a[0] in ('k', 't', 'tup', 'list', 'pat') for a in v) else TOP
    return v


# string patterns ------------------------------------------------------------

def str_parts(a):
    """atom -> tuple of parts (str or None wildcard) or None."""
    if a[0] == 'k' and a[2] == 'str':
        return (a[1],)
    if a[0] == 'pat':
        return a[1]
    if a[0] == 't' and a[1] == 'str':
        return (None,)
    return None


def mk_parts(parts):
    out = []
    for p in parts:
        if p == "":
            continue
        if p is None:
            if out and out[-1] is None:
                continue
            out.append(None)
        elif out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    if not out:
        return K("")
    if len(out) == 1:
        return K(out[0]) if isinstance(out[0], str) else ('t', 'str')
    return ('pat', tuple(out))


def parts_of_val_as_str(v):
    """How str(v)/%s renders the value; list of part tuples or None."""
    if v is TOP:
        return [(None,)]
    out = []
    for a in v:
        if a[0] == 'k' and a[2] in ('str', 'int', 'bool', 'NoneType', 'float'):
            out.append((str(a[1]),))
        elif a[0] == 'pat':
            out.append(a[1])
        else:
            out.append((None,))
    return out or [(None,)]


class Env(dict):
    """variable -> value; missing = unbound on every path."""

    def copy(self):
        return Env(self)


def join_env(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = Env()
    for k in a.keys() | b.keys():
        if k in a and k in b:
            out[k] = join(a[k], b[k])
        else:
            out[k] = a.get(k, b.get(k)) if (k in a) != (k in b) else None
            # bound on some path only: keep the bound value
    return out


class ClosureEnv(Entity):
    """Joined final bindings of one function activation context."""

    def __init__(self, key, func, outer):
        self.vars = {}
        self.key = key
        self.func = func
        self.outer = outer


BUILTIN_NAMES = set(dir(builtins))

STR_METHODS_STR = {"strip", "lstrip", "rstrip", "lower", "upper", "replace",
                   "title", "capitalize", "ljust", "rjust", "center", "zfill",
                   "expandtabs", "swapcase", "translate", "casefold",
                   "removeprefix", "removesuffix"}
STR_METHODS_INT = {"find", "rfind", "index", "rindex", "count"}
STR_METHODS_BOOL = {"startswith", "endswith", "isdigit", "isalpha", "isalnum",
                    "isspace", "isupper", "islower", "isprintable",
                    "isnumeric", "isdecimal", "isidentifier", "isascii"}


class Ctx:
    """One activation: function, abstract self class, closure."""

    def __init__(self, func, module, cls, closure, root, depth, stack):
        self.func = func
        self.module = module
        self.cls = cls
        self.closure = closure
        self.root = root
        self.depth = depth
        self.stack = stack
        self.ret = BOT
        self.yields = BOT
        self.env = Env()
        self.loops = []
        self.handlers = []
        self.globals_ = set()


class Types:
    MAXDEPTH = 4

    def __init__(self, project, observe=True):
        self.p = project
        self.val_memo = {}
        self.memo = {}
        self.inprog = set()
        self.nctx = {}
        self.retparam = {}
        self.facts = {}          # id(node) -> value (root evaluations, joined)
        self.nodes = {}          # id(node) -> (node, FuncInfo)
        self.sites = {}          # site -> {'cls','args','kw','func','node'}
        self.param_obs = {}      # func -> {param: val}
        self.param_escape = set()
        self.closures = {}
        self.dicts = {}          # dict id -> list of (keyval, valval)
        self.spec_classes = {}
        self.inst_attr_vals = {}
        self.ext_attr_stores = set()
        self.setattr_dynamic = False
        self.model = None        # field model, set by fieldmodel
        self.value_types = None
        self.field_root = None
        self.listeners = []
        self.cur_pass = 0
        self.special = {}
        self._stored = None
        self.call_facts = {}     # id(call node) -> list of callee atoms
        self.iter_obs = {}
        self.mut_memo = {}
        self.prev_obs = {}
        self.prev_inst = {}
        self.prev_ext = set()
        self.prev_escape = set()
        self.ext_cls = {}
        self.prev_ext_cls = {}
        self.taken_memo = {}
        self.locals_memo = {}

    # -- lookup of names ---------------------------------------------------
    def eval_binding(self, b, name=None):
        p = self.p
        if isinstance(b, ClassInfo):
            return frozenset([('C', b)])
        if isinstance(b, FuncInfo):
            if b.cls is not None and b.parent is None and not b.is_static:
                return frozenset([('f', b, None, None)])
            return frozenset([('f', b, None, None)])
        if isinstance(b, Module):
            return frozenset([('m', b)])
        if isinstance(b, External):
            return frozenset([('x', b.dotted)])
        if isinstance(b, ValueBinding):
            if b.kind != "assign" or b.expr is None:
                return TOP
            key = nid(b.expr)
            if key in self.val_memo:
                return self.val_memo[key]
            self.val_memo[key] = TOP     # cycle
            ctx = Ctx(None, b.module, b.cls, None, False, 0, ())
            v = self.ev(b.expr, ctx)
            v = self.apply_mutations(v, name or self.binding_name(b), b, ctx)
            self.val_memo[key] = v
            return v
        return TOP

    def binding_name(self, b):
        st = b.stmt
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            return st.targets[0].id
        return None

    def mutations(self, owner_body, key):
        """name -> statements of a module/class body that mutate the object
        bound to the name (including inside loops and conditionals)"""
        if key in self.mut_memo:
            return self.mut_memo[key]
        out = {}

        def visit(body):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    continue
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                            out.setdefault(t.value.id, []).append(("set", t.slice, st.value))
                elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                        isinstance(st.value.func, ast.Attribute) and isinstance(st.value.func.value, ast.Name):
                    out.setdefault(st.value.func.value.id, []).append(("call", st.value.func.attr, st.value))
                elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                    out.setdefault(st.target.id, []).append(("aug", None, None))
                for f in ("body", "orelse", "finalbody"):
                    sub = getattr(st, f, None)
                    if isinstance(sub, list):
                        visit(sub)
                for h in getattr(st, "handlers", []):
                    visit(h.body)
        visit(owner_body)
        self.mut_memo[key] = out
        return out

    def apply_mutations(self, v, name, b, ctx):
        if v is TOP or name is None:
            return v
        if b.cls is not None:
            muts = self.mutations(b.cls.node.body, nid(b.cls.node)).get(name)
        else:
            muts = self.mutations(b.module.tree.body, nid(b.module.tree)).get(name)
        if not muts:
            return v
        out = set()
        for a in v:
            if a[0] == 'list' or typename(a) in ('list', 'set'):
                return TOP
            if a[0] == 'dict':
                items = list(self.dicts.get(a[1], [(TOP, TOP)]))
                for kind, k, val in muts:
                    if kind == "set":
                        items.append((self.ev(k, ctx), self.ev(val, ctx)))
                    elif kind == "call" and k == "update" and len(val.args) == 1 and not val.keywords:
                        u = self.ev(val.args[0], ctx)
                        if u is not TOP and all(x[0] == 'dict' for x in u):
                            for x in u:
                                items.extend(self.dicts.get(x[1], [(TOP, TOP)]))
                        else:
                            items.append((TOP, TOP))
                    elif kind == "call" and k in ("get", "items", "keys", "values", "pop"):
                        pass
                    else:
                        items.append((TOP, TOP))
                mid = ("mut", nid(b.expr))
                self.dicts[mid] = items
                out.add(('dict', mid))
            else:
                out.add(a)
        return frozenset(out)

    def module_name(self, mod, name):
        ents = self.p.lookup_all(mod, name)
        if not ents:
            if self.p.has_external_star(mod):
                return TOP
            if name in BUILTIN_NAMES:
                return frozenset([('x', 'builtins.' + name)])
            return TOP
        if any(isinstance(e, ValueBinding) and e.kind in ("aug", "opaque", "except")
               for e in ents):
            return TOP
        return joinall(self.eval_binding(e) for e in ents)

    def name(self, name, ctx):
        if name in ctx.env and name not in ctx.globals_:
            return ctx.env[name]
        cl = ctx.closure
        while cl is not None:
            if name in cl.vars:
                return cl.vars[name]
            cl = cl.outer
        if self.outer_local(ctx, name):
            return TOP
        if ctx.func is None and ctx.cls is not None and name in ctx.cls.attrs:
            return joinall(self.eval_binding(e) for e in
                           [self.p._entity(r, set()) for r in ctx.cls.attrs[name]])
        return self.module_name(ctx.module, name)

    def outer_local(self, ctx, name):
        """is the name a local of a function around the current one, whose
        activation is not known here?"""
        f = ctx.func
        if f is None:
            f = ctx.cls.enclosing if ctx.cls is not None else None
        else:
            f = f.parent or (f.cls.enclosing if f.cls is not None else None)
        while f is not None:
            loc = self.locals_memo.get(f)
            if loc is None:
                loc = set(f.all_params)
                for n in body_nodes(f.node):
                    loc.update(assigned_names(n))
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        loc.add(n.name)
                self.locals_memo[f] = loc
            if name in loc:
                return True
            f = f.parent or (f.cls.enclosing if f.cls is not None else None)
        return False

    # -- class attributes ----------------------------------------------------
    def class_attr(self, cls, name):
        """value of cls.name looked up through the MRO; None if absent."""
        for k in self.p.mro(cls):
            if isinstance(k, ClassInfo):
                recs = k.attrs.get(name)
                if recs:
                    vals = []
                    for r in recs[-1:]:
                        e = self.p._entity(r, set()) if isinstance(r, tuple) else r
                        vals.append((e, k))
                    return vals[0]
        return None

    def has_unknown_base(self, cls):
        for k in self.p.mro(cls):
            if isinstance(k, External) and k.dotted != "builtins.object":
                return True
        return False

    def prop_kind(self, expr):
        """'property' call -> its args, else None"""
        if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) \
                and expr.func.id in ("property", "staticmethod", "classmethod"):
            return expr.func.id, expr.args
        return None

    def attr_of_class_entity(self, ent, owner, inst, cls, ctx):
        """Evaluate a class attribute entity accessed on inst (or on the class
        when inst is None)."""
        if isinstance(ent, FuncInfo):
            if ent.is_property and inst is not None:
                return self.call_func(ent, inst, [frozenset([inst])], {}, ctx, None)
            if any(d.endswith(".setter") or d.endswith(".getter") for d in ent.decorators):
                return TOP
            if ent.is_static:
                return frozenset([('f', ent, None, None)])
            if ent.is_classmethod:
                return frozenset([('f', ent, ('C', cls), None)])
            if ent.decorators:
                if all(d.split(".")[-1] in ("fault_tolerant", "lru_cache", "deprecated") for d in ent.decorators):
                    return frozenset([('f', ent, inst, None)])
                return TOP
            cl = getattr(owner, "closure", None)
            if inst is None:
                return frozenset([('f', ent, None, cl)])
            return frozenset([('f', ent, inst, cl)])
        if isinstance(ent, ValueBinding):
            if ent.kind != "assign" or ent.expr is None:
                return TOP
            pk = self.prop_kind(ent.expr)
            if pk and pk[0] == "property" and inst is not None:
                if not pk[1]:
                    return TOP
                g = self.ev(pk[1][0], Ctx(None, ent.module, owner, getattr(owner, "closure", None), False, 0, ()))
                if g is TOP:
                    return TOP
                out = BOT
                for a in g:
                    if a[0] == 'f':
                        out = join(out, self.call_func(a[1], inst, [frozenset([inst])], {}, ctx, None, a[3]))
                    else:
                        return TOP
                return out
            if pk and pk[0] == "staticmethod":
                return self.ev(pk[1][0], Ctx(None, ent.module, owner, getattr(owner, "closure", None), False, 0, ()))
            if pk:
                return TOP
            key = (nid(ent.expr), nid(getattr(owner, "closure", None)))
            if key not in self.val_memo:
                self.val_memo[key] = TOP
                cctx = Ctx(None, ent.module, owner, getattr(owner, "closure", None), False, 0, ())
                self.val_memo[key] = self.apply_mutations(
                    self.ev(ent.expr, cctx), self.binding_name(ent), ent, cctx)
            v = self.val_memo[key]
            if inst is not None and v is not TOP:
                out = set()
                for a in v:
                    if a[0] == 'f' and a[2] is None and a[1].cls is not None:
                        # plain function stored as class attribute: bound
                        out.add(('f', a[1], inst, a[3]))
                    else:
                        out.add(a)
                v = frozenset(out)
            return v
        if isinstance(ent, ClassInfo):
            return frozenset([('C', ent)])
        return TOP

    def read_inst(self, k, name):
        if self.cur_pass == 0:
            return TOP
        return self.prev_inst.get((k, name), TOP)

    def address_taken(self, m):
        """functions of a module used as values (not only called)"""
        if m not in self.taken_memo:
            names = set()
            for nd in ast.walk(m.tree):
                par = getattr(nd, "_parent", None)
                if isinstance(par, ast.Call) and par.func is nd:
                    continue
                if isinstance(nd, ast.Name) and isinstance(nd.ctx, ast.Load):
                    names.add(nd.id)
                elif isinstance(nd, ast.Attribute) and isinstance(nd.ctx, ast.Load):
                    names.add(nd.attr)
                elif isinstance(nd, ast.Constant) and isinstance(nd.value, str) and nd.value.isidentifier():
                    names.add(nd.value)
            self.taken_memo[m] = [f for f in self.p.functions
                                  if f.module is m and f.name in names and f.name != "__init__"]
        return self.taken_memo[m]

    def stored_attrs(self):
        """attribute names that can hold a function placed there by a store or
        a class-level value (rather than by a def)"""
        if self._stored is None:
            out = set()
            for m in self.p.modules.values():
                for nd in ast.walk(m.tree):
                    if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, ast.Store):
                        out.add(nd.attr)
                    elif isinstance(nd, ast.Call) and isinstance(nd.func, ast.Name) and nd.func.id == "setattr" \
                            and len(nd.args) > 1 and isinstance(nd.args[1], ast.Constant):
                        out.add(nd.args[1].value)
                    elif isinstance(nd, ast.ClassDef):
                        for st in nd.body:
                            if isinstance(st, ast.Assign):
                                out |= {t.id for t in st.targets if isinstance(t, ast.Name)}
            self._stored = out
        return self._stored

    def unknown_call(self, args, kw, star, ctx):
        """a call of an unknown callee may call any address-taken function"""
        for f in self.address_taken(ctx.module):
            full = list(args)
            if f.cls is not None and f.parent is None and not f.is_static and not (
                    full and full[0] is not TOP and any(a[0] == 'i' and self.p.is_subclass(a[1], f.cls) for a in full[0])):
                full.insert(0, frozenset([('i', f.cls, 'open')]))
            if len(full) > len(f.params) and not f.node.args.vararg:
                continue
            self.observe(f, self.bind_args(f, full, kw))
            if star:
                self.observe_star(f, full, kw)

    def inst_attr(self, cls, name):
        """(assigned, joined values) of self.<name> over the MRO."""
        found = False
        out = BOT
        for k in self.p.mro(cls):
            if isinstance(k, ClassInfo) and name in k.inst_attrs:
                found = True
                out = join(out, self.read_inst(k, name))
        return found, out

    def attr_on_instance(self, a, name, ctx, cls=None):
        """(found, value) of attribute name on an instance atom."""
        cls = a[1]
        sp = self.special_attr(a, name, ctx)
        if sp is not NotImplemented:
            return True, sp
        ca = self.class_attr(cls, name)
        found, val = self.inst_attr(cls, name)
        if ca is not None:
            found = True
            val = join(val, self.attr_of_class_entity(ca[0], ca[1], a, cls, ctx))
        # open world: subclasses may override/define
        if len(a) > 2 and a[2] == 'open':
            for d in self.p.descendants(cls):
                if name in d.attrs:
                    found = True
                    e = d.attrs[name][-1]
                    if isinstance(e, tuple):
                        e = self.p._entity(e, set())
                    val = join(val, self.attr_of_class_entity(e, d, a, d, ctx))
                if name in d.inst_attrs:
                    found = True
                    val = join(val, self.read_inst(d, name))
        if self.cur_pass == 0 or name in self.prev_ext:
            return True, TOP
        fam = [k for k in self.p.mro(cls) if isinstance(k, ClassInfo)]
        if len(a) > 2 and a[2] == 'open':
            fam = fam + self.p.descendants(cls)
        for k in fam:
            k = getattr(k, "spec_of", k)
            if (k, name) in self.prev_ext_cls:
                found = True
                val = join(val, self.prev_ext_cls[(k, name)])
        if not found and self.has_unknown_base(cls):
            return True, TOP
        if not found and self.class_attr(cls, "__getattr__"):
            return True, TOP
        return found, val

    def special_attr(self, a, name, ctx):
        h = self.special.get('attr')
        return h(self, a, name, ctx) if h else NotImplemented

    # -- expression evaluation ---------------------------------------------
    def ev(self, e, ctx):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    self.ev(ch, ctx)
            v = TOP
        else:
            v = m(e, ctx)
        if ctx.root:
            k = nid(e)
            if k in self.facts:
                self.facts[k] = join(self.facts[k], v)
            else:
                self.facts[k] = v
        return v

    def ev_Constant(self, e, ctx):
        if isinstance(e.value, (int, str, bytes, float, type(None), bool)):
            return kval(e.value)
        return TOP

    def ev_Name(self, e, ctx):
        return self.name(e.id, ctx)

    def ev_NamedExpr(self, e, ctx):
        v = self.ev(e.value, ctx)
        if isinstance(e.target, ast.Name):
            ctx.env[e.target.id] = v
        return v

    def ev_Starred(self, e, ctx):
        self.ev(e.value, ctx)
        return TOP

    def ev_Tuple(self, e, ctx):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            for x in e.elts:
                self.ev(x, ctx)
            return T('tuple')
        vals = tuple(self.ev(x, ctx) for x in e.elts)
        if len(vals) > 12:
            return frozenset([('list', limit_depth(joinall(vals)))])
        r = frozenset([('tup', vals)])
        return limit_depth(r)

    def ev_List(self, e, ctx):
        vals = [self.ev(x, ctx) for x in e.elts]
        return frozenset([('list', limit_depth(joinall(vals)))])

    def ev_Set(self, e, ctx):
        vals = [self.ev(x, ctx) for x in e.elts]
        return frozenset([('set', limit_depth(joinall(vals)))])

    def ev_Dict(self, e, ctx):
        items = []
        for k, v in zip(e.keys, e.values):
            kv = self.ev(k, ctx) if k is not None else TOP
            vv = self.ev(v, ctx)
            if k is None:
                if vv is not TOP and all(x[0] == 'dict' for x in vv):
                    for x in vv:
                        items.extend(self.dicts.get(x[1], [(TOP, TOP)]))
                else:
                    items.append((TOP, TOP))
            else:
                items.append((kv, vv))
        did = nid(e)
        if did in self.dicts and ctx.func is not None:
            old = self.dicts[did]
            if len(old) == len(items):
                items = [(join(a, c), join(b, d)) for (a, b), (c, d) in zip(old, items)]
        self.dicts[did] = items
        return frozenset([('dict', did)])

    def comp(self, e, ctx):
        saved = ctx.env.copy()
        for g in e.generators:
            it = self.ev(g.iter, ctx)
            self.assign(g.target, self.iter_elem(it, ctx), ctx)
            for c in g.ifs:
                self.ev(c, ctx)
        if isinstance(e, ast.DictComp):
            k = self.ev(e.key, ctx)
            v = self.ev(e.value, ctx)
            res = (k, v)
        else:
            res = self.ev(e.elt, ctx)
        ctx.env = saved
        return res

    def ev_ListComp(self, e, ctx):
        return frozenset([('list', limit_depth(self.comp(e, ctx)))])

    def ev_SetComp(self, e, ctx):
        return frozenset([('set', limit_depth(self.comp(e, ctx)))])

    def ev_GeneratorExp(self, e, ctx):
        return frozenset([('gen', limit_depth(self.comp(e, ctx)))])

    def ev_DictComp(self, e, ctx):
        k, v = self.comp(e, ctx)
        self.dicts[nid(e)] = [(k, v)]
        return frozenset([('dict', nid(e))])

    def ev_Lambda(self, e, ctx):
        f = e._funcinfo if hasattr(e, "_funcinfo") else None
        if f is None:
            return TOP
        return frozenset([('f', f, None, self.closure_for(ctx))])

    def ev_IfExp(self, e, ctx):
        self.ev(e.test, ctx)
        return join(self.ev(e.body, ctx), self.ev(e.orelse, ctx))

    def ev_BoolOp(self, e, ctx):
        vals = [self.ev(x, ctx) for x in e.values]
        return joinall(vals)

    def ev_UnaryOp(self, e, ctx):
        v = self.ev(e.operand, ctx)
        if isinstance(e.op, ast.Not):
            return BOOL
        if v is TOP:
            return TOP
        out = set()
        for a in v:
            if a[0] == 'k' and a[2] in ('int', 'float', 'bool'):
                try:
                    x = -a[1] if isinstance(e.op, ast.USub) else (
                        +a[1] if isinstance(e.op, ast.UAdd) else ~a[1])
                    out.add(K(x))
                except TypeError:
                    return TOP
            elif a[0] == 't' and a[1] in ('int', 'float', 'bool'):
                out.add(('t', 'int' if a[1] == 'bool' else a[1]))
            else:
                return TOP
        return frozenset(out)

    def ev_Compare(self, e, ctx):
        self.ev(e.left, ctx)
        for c in e.comparators:
            self.ev(c, ctx)
        return BOOL

    def ev_JoinedStr(self, e, ctx):
        alts = [()]
        for v in e.values:
            if isinstance(v, ast.Constant):
                ps = [(v.value,)]
            else:
                x = self.ev(v.value, ctx)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    ps = [(None,)]
                else:
                    ps = parts_of_val_as_str(x)
            if len(alts) * len(ps) > 64:
                ps = [(None,)]
            alts = [a + p for a in alts for p in ps]
        return frozenset(mk_parts(a) for a in alts)

    def binop(self, op, l, r):
        if isinstance(op, ast.Mod) and l is not TOP and l and \
                all(str_parts(a) is not None for a in l):
            return self.fmt_percent(l, r)
        if l is TOP or r is TOP:
            # str + unknown = str pattern (definite since bytes/str mixing fails)
            if isinstance(op, ast.Add):
                for x, left in ((l, True), (r, False)):
                    if x is not TOP and x and all(str_parts(a) is not None for a in x):
                        out = set()
                        for a in x:
                            p = str_parts(a)
                            out.add(mk_parts(p + (None,) if left else (None,) + p))
                        return frozenset(out)
                    if x is not TOP and x and all(typename(a) == 'bytes' for a in x):
                        return BYTES
            return TOP
        out = set()
        if len(l) * len(r) > 100:
            l, r = frozenset(collapse(l)), frozenset(collapse(r))
        for a in l:
            for b in r:
                v = self.binop1(op, a, b)
                if v is TOP:
                    return TOP
                out |= v
        return norm(frozenset(out))

    def binop1(self, op, a, b):
        ta, tb = typename(a), typename(b)
        if a[0] == 'k' and b[0] == 'k' and ta in ('int', 'float', 'str', 'bytes', 'bool') \
                and tb in ('int', 'float', 'str', 'bytes', 'bool'):
            try:
                x, y = a[1], b[1]
                if isinstance(op, ast.Add):
                    v = x + y
                elif isinstance(op, ast.Sub):
                    v = x - y
                elif isinstance(op, ast.Mult):
                    if isinstance(x, (str, bytes)) or isinstance(y, (str, bytes)):
                        if len(x if isinstance(x, (str, bytes)) else y) * abs(int(y if isinstance(x, (str, bytes)) else x)) > 4096:
                            return frozenset([('t', ta if ta in ('str', 'bytes') else tb)])
                    v = x * y
                elif isinstance(op, ast.FloorDiv):
                    v = x // y
                elif isinstance(op, ast.Div):
                    v = x / y
                elif isinstance(op, ast.Mod):
                    v = x % y
                elif isinstance(op, ast.Pow):
                    if abs(y) > 128:
                        return INT
                    v = x ** y
                elif isinstance(op, ast.LShift):
                    if y > 4096:
                        return INT
                    v = x << y
                elif isinstance(op, ast.RShift):
                    v = x >> y
                elif isinstance(op, ast.BitOr):
                    v = x | y
                elif isinstance(op, ast.BitAnd):
                    v = x & y
                elif isinstance(op, ast.BitXor):
                    v = x ^ y
                else:
                    return TOP
                if isinstance(v, (int, float, str, bytes, bool)):
                    return kval(v)
                return TOP
            except Exception:
                return TOP
        num = ('int', 'float', 'bool')
        if ta in num and tb in num:
            if isinstance(op, ast.Div):
                return FLOAT
            if 'float' in (ta, tb):
                return FLOAT
            if isinstance(op, ast.Pow):
                return TOP
            return INT
        if isinstance(op, ast.Add):
            pa, pb = str_parts(a), str_parts(b)
            if pa is not None and pb is not None:
                return frozenset([mk_parts(pa + pb)])
            if ta == 'bytes' and tb == 'bytes':
                return BYTES
            if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) + len(b[1]) <= 12:
                return frozenset([('tup', a[1] + b[1])])
            if a[0] in ('list', 'tup') and b[0] in ('list', 'tup'):
                return frozenset([('list', limit_depth(join(
                    joinall(a[1]) if a[0] == 'tup' else a[1],
                    joinall(b[1]) if b[0] == 'tup' else b[1])))])
            if ta == tb == 'list':
                return frozenset([a if a[0] == 'list' else b])
            if ta == tb == 'tuple':
                return T('tuple')
        if isinstance(op, ast.Mult):
            if ta in ('str', 'bytes') and tb in ('int', 'bool'):
                return T(ta)
            if tb in ('str', 'bytes') and ta in ('int', 'bool'):
                return T(tb)
            if a[0] in ('list',) and tb == 'int':
                return frozenset([a])
            if a[0] == 'tup' and tb == 'int':
                return frozenset([('list', joinall(a[1]))])
        if isinstance(op, ast.Mod) and ta == 'bytes':
            return BYTES
        return TOP

    def fmt_percent(self, l, r):
        """str % args with patterns."""
        out = set()
        for a in l:
            parts = str_parts(a)
            args = None
            if r is not TOP and len(r) == 1:
                b = next(iter(r))
                if b[0] == 'tup':
                    args = list(b[1])
                elif b[0] in ('dict',):
                    args = None
                elif typename(b) in ('tuple',):
                    args = None
                else:
                    args = [r]
            elif r is not TOP and r and not any(x[0] in ('tup', 'dict', 'list') or typename(x) in ('tuple', 'dict') for x in r):
                args = [r]
            alts = [()]
            ai = 0
            for p in parts:
                if p is None:
                    alts = [x + (None,) for x in alts]
                    args = None
                    continue
                for kind, text in split_percent(p):
                    if kind == 'lit':
                        alts = [x + (text,) for x in alts]
                    else:
                        if args is not None and ai < len(args) and text in ("s", "u", "d", "i"):
                            ps = parts_of_val_as_str(args[ai])
                        else:
                            ps = [(None,)]
                        ai += 1
                        if len(alts) * len(ps) > 64:
                            ps = [(None,)]
                        alts = [x + q for x in alts for q in ps]
            for x in alts:
                out.add(mk_parts(x))
        return norm(frozenset(out))

    def ev_BinOp(self, e, ctx):
        return limit_depth(self.binop(e.op, self.ev(e.left, ctx), self.ev(e.right, ctx)))

    def ev_Await(self, e, ctx):
        self.ev(e.value, ctx)
        return TOP

    def ev_Yield(self, e, ctx):
        v = self.ev(e.value, ctx) if e.value is not None else NONE
        ctx.yields = join(ctx.yields, v)
        return TOP

    def ev_YieldFrom(self, e, ctx):
        v = self.ev(e.value, ctx)
        ctx.yields = join(ctx.yields, self.iter_elem(v, ctx))
        return TOP

    def ev_Attribute(self, e, ctx):
        b = self.ev(e.value, ctx)
        return self.attr(b, e.attr, ctx, e)

    def attr(self, b, name, ctx, node=None):
        if b is TOP:
            h = self.special.get('anyattr')
            return h(name) if h else TOP
        out = BOT
        for a in b:
            v = self.attr1(a, name, ctx, node)
            if v is None:
                return TOP
            out = join(out, v)
            if out is TOP:
                return TOP
        return out

    def attr1(self, a, name, ctx, node=None):
        k = a[0]
        if k == 'i':
            if name == '__class__':
                out = {('C', a[1])}
                if len(a) > 2 and a[2] == 'open':
                    out |= {('C', d) for d in self.p.descendants(a[1])}
                return norm(frozenset(out))
            found, v = self.attr_on_instance(a, name, ctx)
            return v if found else TOP
        if k == 'C':
            if name == '__name__':
                return STR
            if name in self.prev_ext or (self.cur_pass == 0 and name in self.ext_attr_stores):
                return TOP
            if self.cur_pass == 0 and any(n == name for _, n in self.ext_cls):
                return TOP
            ca = self.class_attr(a[1], name)
            if ca is None:
                return TOP
            v = self.attr_of_class_entity(ca[0], ca[1], None, a[1], ctx)
            for q in self.p.mro(a[1]):
                if isinstance(q, ClassInfo):
                    q = getattr(q, "spec_of", q)
                    if (q, name) in self.prev_ext_cls:
                        v = join(v, self.prev_ext_cls[(q, name)])
            return v
        if k == 'm':
            v = self.p.lookup_all(a[1], name)
            if not v:
                return TOP
            if any(isinstance(x, ValueBinding) and x.kind != "assign" for x in v):
                return TOP
            return joinall(self.eval_binding(x) for x in v)
        if k == 'x':
            return frozenset([('x', a[1] + "." + name)])
        if k == 'super':
            owner, ent = self.p.find_attr_after(a[2][1], a[1], name)
            if owner is None:
                return TOP
            if isinstance(ent, tuple):
                ent = self.p._entity(ent, set())
            return self.attr_of_class_entity(ent, owner, a[2], a[2][1], ctx)
        return frozenset([('bm', a, name)])

    def ev_Subscript(self, e, ctx):
        b = self.ev(e.value, ctx)
        if isinstance(e.slice, ast.Slice):
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None:
                    self.ev(x, ctx)
            if b is TOP:
                return TOP
            out = set()
            for a in b:
                t = typename(a)
                if t in ('str', 'bytes'):
                    out.add(('t', t))
                elif a[0] in ('list',):
                    out.add(a)
                elif a[0] == 'tup':
                    out.add(('list', joinall(a[1])))
                elif t in ('list', 'tuple'):
                    out.add(('t', t))
                else:
                    return TOP
            return frozenset(out)
        i = self.ev(e.slice, ctx)
        return self.subscript(b, i, ctx, e)

    def subscript(self, b, i, ctx, node=None):
        if b is TOP:
            return TOP
        out = BOT
        for a in b:
            if a == NONE_ATOM and len(b) > 1:
                continue    # raises
            v = self.subscript1(a, i, ctx, node)
            out = join(out, v)
            if out is TOP:
                return TOP
        return out

    def subscript1(self, a, i, ctx, node=None):
        k = a[0]
        if k == 'i':
            h = self.special.get('item')
            if h:
                r = h(self, a, i, ctx, node)
                if r is not NotImplemented:
                    return r
            ca = self.class_attr(a[1], "__getitem__")
            if ca and isinstance(ca[0], FuncInfo):
                return self.call_func(ca[0], a, [frozenset([a]), i], {}, ctx, node)
            return TOP
        if k == 'tup':
            if i is not TOP and all(x[0] == 'k' and x[2] in ('int', 'bool') for x in i):
                out = BOT
                for x in i:
                    n = x[1]
                    if -len(a[1]) <= n < len(a[1]):
                        out = join(out, a[1][n])
                return out
            return joinall(a[1])
        if k == 'list':
            return a[1]
        if k == 'dict':
            items = self.dicts.get(a[1])
            if items is None:
                return TOP
            if i is not TOP and all(x[0] == 'k' for x in i):
                out = BOT
                for kv, vv in items:
                    if kv is TOP or not all(x[0] == 'k' for x in kv) or kv & i:
                        out = join(out, vv)
                if out == BOT:
                    return BOT
                return out
            return joinall(v for _, v in items)
        t = typename(a)
        if t == 'str':
            return STR
        if t == 'bytes':
            return INT
        return TOP

    # -- iteration -----------------------------------------------------------
    def iter_elem(self, v, ctx):
        if v is TOP:
            return TOP
        out = BOT
        for a in v:
            out = join(out, self.iter1(a, ctx))
            if out is TOP:
                return TOP
        return out

    def iter1(self, a, ctx):
        k = a[0]
        if k in ('list', 'gen', 'set'):
            return a[1]
        if k == 'tup':
            return joinall(a[1])
        if k == 'dict':
            items = self.dicts.get(a[1])
            return joinall(x for x, _ in items) if items is not None else TOP
        if k == 'i':
            h = self.special.get('iter')
            if h:
                r = h(self, a, ctx)
                if r is not NotImplemented:
                    return r
            ca = self.class_attr(a[1], "__iter__")
            if ca and isinstance(ca[0], FuncInfo):
                r = self.call_func(ca[0], a, [frozenset([a])], {}, ctx, None)
                return self.iter_elem(r, ctx) if r is not TOP and all(x[0] in ('gen', 'list') for x in r) else TOP
            return TOP
        t = typename(a)
        if t == 'str':
            return STR
        if t == 'bytes':
            return INT
        return TOP

    # -- calls -----------------------------------------------------------------
    def ev_Call(self, e, ctx):
        fv = None
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in ctx.env:
            v = self.eval_super(e, ctx)
            return v
        fv = self.ev(e.func, ctx)
        args = []
        star = False
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, ctx)
                one = next(iter(v)) if v is not TOP and len(v) == 1 else None
                if one is not None and one[0] == 'tup':
                    args.extend(one[1])
                else:
                    star = True
            else:
                args.append(self.ev(x, ctx))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, ctx)
            if k.arg is None:
                star = True
            else:
                kw[k.arg] = v
        if ctx.root:
            self.call_facts[nid(e)] = (e, ctx.func, join(self.call_facts[nid(e)][2], fv) if nid(e) in self.call_facts else fv, star)
        self.escape_lists(e, fv, ctx)
        if fv is TOP:
            self.escape_args(args, kw, ctx)
            if not (isinstance(e.func, ast.Attribute) and e.func.attr not in self.stored_attrs()):
                self.unknown_call(args, kw, star, ctx)
            h = self.special.get('unkcall')
            if h:
                h(self, args, kw, ctx, e)
            return TOP
        out = BOT
        for a in fv:
            r = self.call1(a, args, kw, star, ctx, e)
            out = join(out, r)
            if out is TOP:
                pass
        return limit_depth(out)

    def eval_super(self, e, ctx):
        selfv = None
        owner = ctx.cls
        if e.args:
            o = self.ev(e.args[0], ctx)
            s = self.ev(e.args[1], ctx) if len(e.args) > 1 else TOP
            if o is not TOP and len(o) == 1 and next(iter(o))[0] == 'C':
                owner = next(iter(o))[1]
            selfv = s
        else:
            f = ctx.func
            while f is not None and f.parent is not None:
                f = f.parent
            if f is not None and f.params:
                selfv = ctx.env.get(f.params[0], TOP)
                owner = f.cls
        if selfv is TOP or selfv is None or owner is None:
            return TOP
        out = set()
        for a in selfv:
            if a[0] != 'i':
                return TOP
            out.add(('super', owner, a))
        return frozenset(out)

    def escape_lists(self, e, fv, ctx):
        """A list variable handed to a program function or unknown code may be
        extended there: forget its elements."""
        if fv is not TOP and all(a[0] == 'x' or a[0] == 'bm' or a[0] == 'C' for a in fv):
            return
        for x in list(e.args) + [k.value for k in e.keywords]:
            if isinstance(x, ast.Name):
                v = ctx.env.get(x.id)
                if v and any(a[0] == 'list' for a in v):
                    ctx.env[x.id] = frozenset(a for a in v if a[0] != 'list') | T('list')

    def escape_args(self, args, kw, ctx):
        """Functions passed to unknown code: their parameters are unknown."""
        for v in list(args) + list(kw.values()):
            if v is TOP:
                continue
            for a in v:
                if a[0] == 'f':
                    self.param_escape.add(a[1])

    def call1(self, a, args, kw, star, ctx, node):
        k = a[0]
        if k == 'C':
            return self.construct(a[1], args, kw, star, ctx, node)
        if k == 'f':
            f, recv, closure = a[1], a[2], a[3]
            full = list(args)
            if recv is not None:
                full.insert(0, frozenset([recv]))
            h = self.special.get('func')
            if h:
                r = h(self, f, recv, full, kw, star, ctx, node)
                if r is not NotImplemented:
                    return r
            if star:
                self.observe_star(f, full, kw)
                return self.call_func(f, recv, full, kw, ctx, node, closure, star=True)
            return self.call_func(f, recv, full, kw, ctx, node, closure)
        if k == 'x':
            return self.call_external(a[1], args, kw, ctx, node)
        if k == 'bm':
            return self.call_builtin_method(a[1], a[2], args, kw, ctx, node)
        if k == 'i':
            ca = self.class_attr(a[1], "__call__")
            if ca and isinstance(ca[0], FuncInfo):
                return self.call_func(ca[0], a, [frozenset([a])] + list(args), kw, ctx, node)
            return TOP
        return TOP

    def observe(self, f, vals):
        d = self.param_obs.setdefault(f, {})
        for n, v in vals.items():
            d[n] = join(d[n], v) if n in d else v

    def observe_star(self, f, full, kw):
        d = self.param_obs.setdefault(f, {})
        for n in f.params[len(full):]:
            d[n] = TOP
        for n in f.node.args.kwonlyargs:
            d[n.arg] = TOP

    def bind_args(self, f, args, kw, closure=None):
        """param -> value, or None if the call cannot bind."""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                vals[names[i]] = v
            else:
                rest.append(v)
        kwrest = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                vals[k] = v
            else:
                kwrest[k] = v
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                if n in defaults:
                    dctx = Ctx(None, f.module, f.cls if f.parent is None else None, closure, False, 0, ())
                    vals[n] = self.ev(defaults[n], dctx)
                else:
                    vals[n] = TOP
        if a.vararg:
            vals[a.vararg.arg] = T('tuple') if not rest else frozenset([('tup', tuple(rest))]) if len(rest) < 8 else T('tuple')
        if a.kwarg:
            vals[a.kwarg.arg] = T('dict')
        return vals

    def call_func(self, f, recv, args, kw, ctx, node, closure=None, star=False):
        """Abstract call; args include the receiver."""
        vals = self.bind_args(f, args, kw, closure)
        if star:
            for n in f.params[len(args):]:
                vals[n] = TOP
            for n in f.node.args.kwonlyargs:
                vals[n.arg] = TOP
        if node is not None and f.parent is None or node is not None:
            self.observe(f, vals)
        depth = ctx.depth if ctx is not None else 0
        key = (f, closure, tuple(sorted(vals.items(), key=lambda x: x[0])) if False else tuple(vals[n] for n in sorted(vals)))
        if key in self.memo:
            ret, yv = self.memo[key]
        elif key in self.inprog:
            ret, yv = TOP, TOP
        else:
            n = self.nctx.get(f, 0)
            if depth >= self.MAXDEPTH or n > 80 or self.opaque(f):
                ret, yv = TOP, TOP
                if not self.opaque(f):
                    prm = self.returned_param(f)
                    if prm is not None:
                        ret = vals.get(prm, TOP)
            else:
                self.nctx[f] = n + 1
                self.inprog.add(key)
                c2 = Ctx(f, f.module, f.cls, closure, False, depth + 1, ctx.stack + ((node,) if node is not None else ()) if ctx else ())
                ret, yv = self.run_body(f, vals, c2)
                self.inprog.discard(key)
                self.memo[key] = (ret, yv)
        if f.is_generator:
            return frozenset([('gen', limit_depth(yv))])
        return ret

    def returned_param(self, f):
        """the parameter a function answers unchanged on every path, if any"""
        if f not in self.retparam:
            self.retparam[f] = None
            if not f.is_generator and not isinstance(f.node, ast.Lambda) and f.node.body and \
                    isinstance(f.node.body[-1], ast.Return):
                rets = {x.value.id if isinstance(x.value, ast.Name) else None
                        for x in body_nodes(f.node) if isinstance(x, ast.Return)}
                stored = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
                if len(rets) == 1:
                    n, = rets
                    if n in f.params and n not in stored:
                        self.retparam[f] = n
        return self.retparam[f]

    def opaque(self, f):
        h = self.special.get('opaque')
        return h(f) if h else False

    def closure_for(self, ctx):
        if ctx.func is None:
            return ctx.closure
        return ctx.myclosure

    def run_body(self, f, vals, ctx):
        ctx.env = Env(vals)
        ckey = (f, ctx.closure, ctx.root)
        cl = self.closures.get(ckey)
        if cl is None:
            cl = ClosureEnv(ckey, f, ctx.closure)
            self.closures[ckey] = cl
        # closures are joined over contexts: keep context-sensitivity for class factories
        if not ctx.root and (any(isinstance(n, ast.ClassDef) for n in f.node.body) if not isinstance(f.node, ast.Lambda) else False):
            ck2 = (f, ctx.closure, tuple(vals[n] for n in sorted(vals)))
            cl = self.closures.get(ck2)
            if cl is None:
                cl = ClosureEnv(ck2, f, ctx.closure)
                self.closures[ck2] = cl
        ctx.myclosure = cl
        for n, v in vals.items():
            cl.vars[n] = join(cl.vars[n], v) if n in cl.vars else v
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, ctx), BOT
        end = self.block(f.node.body, ctx)
        ret = ctx.ret
        if end:
            ret = join(ret, NONE)
        for n, v in ctx.env.items():
            cl.vars[n] = join(cl.vars[n], v) if n in cl.vars else v
        return ret, ctx.yields

    def construct(self, cls, args, kw, star, ctx, node):
        h = self.special.get('construct')
        if h:
            r = h(self, cls, args, kw, star, ctx, node)
            if r is not NotImplemented:
                return r
        site = self.mksite(cls, args, kw, star, ctx, node)
        init = self.p.find_attr(cls, "__init__")
        inst = ('i', cls, site)
        if isinstance(init, FuncInfo):
            vals = self.bind_args(init, [frozenset([('i', cls, 'open')])] + list(args), kw)
            if star:
                for n in init.params[1 + len(args):]:
                    vals[n] = TOP
            self.observe(init, vals)
        return frozenset([inst])

    def mksite(self, cls, args, kw, star, ctx, node):
        if node is None:
            return None
        site = tuple(nid(n) for n in ctx.stack[-3:]) + (nid(node),)
        rec = self.sites.get((site, cls))
        if rec is None:
            self.sites[(site, cls)] = {"cls": cls, "args": list(args), "kw": dict(kw),
                                       "star": star, "node": node, "func": ctx.func,
                                       "stack": ctx.stack}
        else:
            n = max(len(rec["args"]), len(args))
            rec["args"] = [join(rec["args"][i] if i < len(rec["args"]) else TOP,
                                args[i] if i < len(args) else TOP) for i in range(n)]
            for k in set(rec["kw"]) | set(kw):
                rec["kw"][k] = join(rec["kw"].get(k, TOP), kw.get(k, TOP))
            rec["star"] = rec["star"] or star
        return site

    def call_external(self, dotted, args, kw, ctx, node):
        n = dotted[9:] if dotted.startswith("builtins.") else None
        a0 = args[0] if args else TOP
        if n in ("len", "ord", "hash", "id"):
            return INT
        if n == "int":
            if a0 is not TOP and all(a[0] == 'k' and a[2] in ('int', 'float', 'bool') for a in a0) and len(args) == 1:
                return frozenset(K(int(a[1])) for a in a0)
            return INT
        if n == "float":
            return FLOAT
        if n == "str":
            if len(args) == 1:
                return frozenset(mk_parts(p) for p in parts_of_val_as_str(a0))
            return STR
        if n in ("repr", "hex", "bin", "oct", "chr", "format", "ascii", "input"):
            return STR
        if n in ("bytes",):
            return BYTES
        if n == "bytearray":
            return T('bytearray')
        if n in ("bool", "isinstance", "issubclass", "callable", "hasattr", "all", "any"):
            return BOOL
        if n in ("range",):
            return frozenset([('gen', INT)])
        if n in ("min", "max"):
            if len(args) > 1:
                r = joinall(args)
                return r
            return self.iter_elem(a0, ctx) if len(args) == 1 else TOP
        if n == "abs":
            if a0 is not TOP and all(typename(a) in ('int', 'bool') for a in a0):
                return INT
            return TOP
        if n == "sum":
            el = self.iter_elem(a0, ctx)
            if el is not TOP and all(typename(a) in ('int', 'bool') for a in el):
                return INT
            return TOP
        if n == "divmod":
            if all(v is not TOP and all(typename(a) in ('int', 'bool') for a in v) for v in args) and len(args) == 2:
                return frozenset([('tup', (INT, INT))])
            return TOP
        if n in ("sorted", "list"):
            return frozenset([('list', limit_depth(self.iter_elem(a0, ctx)))]) if args else T('list')
        if n in ("reversed", "iter", "filter"):
            if n == "filter":
                a0 = args[1] if len(args) > 1 else TOP
            return frozenset([('gen', self.iter_elem(a0, ctx))])
        if n == "tuple":
            return frozenset([('list', self.iter_elem(a0, ctx), 'tuple')]) if args else T('tuple')
        if n in ("set", "frozenset"):
            return frozenset([('set', limit_depth(self.iter_elem(a0, ctx)))]) if args else T('set')
        if n == "dict":
            if a0 is not TOP and args and len(a0) == 1 and next(iter(a0))[0] == 'dict' and not kw:
                return a0
            if not args and kw and node is not None:
                self.dicts[nid(node)] = [(kval(k), v) for k, v in kw.items()]
                return frozenset([('dict', nid(node))])
            return T('dict')
        if n == "enumerate":
            return frozenset([('gen', limit_depth(frozenset([('tup', (INT, self.iter_elem(a0, ctx)))])))])
        if n == "zip":
            return frozenset([('gen', limit_depth(frozenset([('tup', tuple(self.iter_elem(a, ctx) for a in args))])))])
        if n == "next":
            r = self.iter_elem(a0, ctx)
            if len(args) > 1:
                r = join(r, args[1])
            return r
        if n == "getattr":
            if len(args) >= 2 and args[1] is not TOP and len(args[1]) == 1:
                nm = next(iter(args[1]))
                if nm[0] == 'k' and nm[2] == 'str':
                    v = self.attr(args[0], nm[1], ctx)
                    return join(v, args[2]) if len(args) > 2 else v
            return TOP
        if n == "setattr":
            if len(args) >= 2 and args[1] is not TOP:
                for nm in args[1]:
                    if nm[0] == 'k':
                        self.ext_attr_stores.add(nm[1])
            return NONE
        if n == "map":
            self.escape_args(args, kw, ctx)
            f = args[0] if args else TOP
            el = self.iter_elem(args[1], ctx) if len(args) > 1 else TOP
            out = BOT
            if f is TOP:
                return TOP
            for a in f:
                out = join(out, self.call1(a, [el] + [TOP] * (len(args) - 2), {}, False, ctx, node))
            return frozenset([('gen', limit_depth(out))])
        if n == "print":
            return NONE
        if n == "round":
            return TOP
        self.escape_args(args, kw, ctx)
        if dotted == "copy.copy" and args:
            return TOP
        return TOP

    def call_builtin_method(self, a, name, args, kw, ctx, node):
        t = typename(a)
        a0 = args[0] if args else TOP
        if t == 'str':
            if name in STR_METHODS_STR:
                if a[0] == 'k' and all(v is not TOP and len(v) == 1 and next(iter(v))[0] == 'k' for v in args) and not kw:
                    try:
                        r = getattr(a[1], name)(*[next(iter(v))[1] for v in args])
                        if isinstance(r, str):
                            return kval(r)
                    except Exception:
                        pass
                return STR
            if name in STR_METHODS_INT:
                return INT
            if name in STR_METHODS_BOOL:
                return BOOL
            if name == "join":
                return STR
            if name == "encode":
                return BYTES
            if name in ("split", "rsplit", "splitlines"):
                return frozenset([('list', STR)])
            if name in ("partition", "rpartition"):
                return frozenset([('tup', (STR, STR, STR))])
            if name == "format":
                if a[0] == 'k':
                    return self.fmt_format(a[1], args, kw)
                return STR
            return TOP
        if t == 'bytes':
            if name in STR_METHODS_STR:
                return BYTES
            if name in STR_METHODS_INT:
                return INT
            if name in STR_METHODS_BOOL:
                return BOOL
            if name == "join":
                return BYTES
            if name in ("decode", "hex"):
                return STR
            if name in ("split", "rsplit", "splitlines"):
                return frozenset([('list', BYTES)])
            return TOP
        if a[0] == 'dict':
            items = self.dicts.get(a[1])
            if items is None:
                return TOP
            if name == "items":
                return frozenset([('list', limit_depth(frozenset(('tup', kv) for kv in items[:200]) if len(items) <= 200 else TOP))])
            if name in ("keys",):
                return frozenset([('list', joinall(k for k, _ in items))])
            if name in ("values",):
                return frozenset([('list', joinall(v for _, v in items))])
            if name in ("get", "setdefault", "pop"):
                v = self.subscript1(a, a0, ctx)
                d = args[1] if len(args) > 1 else NONE
                if name == "pop" and len(args) < 2:
                    return v
                return join(v, d)
            if name == "copy":
                if node is not None:
                    self.dicts[("copy", nid(node))] = list(items)
                    return frozenset([('dict', ("copy", nid(node)))])
                return frozenset([a])
            if name == "update":
                u = a0
                if u is not TOP and len(args) == 1 and all(x[0] == 'dict' for x in u):
                    for x in u:
                        for it in self.dicts.get(x[1], [(TOP, TOP)]):
                            if it not in items and len(items) < 400:
                                items.append(it)
                elif (TOP, TOP) not in items:
                    items.append((TOP, TOP))
                return NONE
            return TOP
        if a[0] in ('list',) or t == 'list':
            if name in ("append", "extend", "insert", "sort", "reverse", "remove", "clear"):
                self.mutate_list(a, name, args, ctx, node)
                return NONE
            if name == "pop":
                return a[1] if a[0] == 'list' else TOP
            if name in ("index", "count"):
                return INT
            if name == "copy":
                return frozenset([a])
            return TOP
        if t == 'int' and name in ("bit_length", "bit_count"):
            return INT
        if t == 'int' and name == "to_bytes":
            return BYTES
        self.escape_args(args, kw, ctx)
        return TOP

    def mutate_list(self, a, name, args, ctx, node):
        """list mutation through a variable: rebind variables/attrs holding it
        (aliases through other containers degrade to TOP elsewhere)."""
        if node is None or not isinstance(node.func, ast.Attribute):
            return
        tgt = node.func.value
        if name in ("append", "extend", "insert"):
            el = args[-1] if args else TOP
            if name == "extend":
                el = self.iter_elem(el, ctx)
        else:
            return
        old = a[1] if a[0] == 'list' else BOT
        new = frozenset([('list', limit_depth(join(old, el)))])
        if isinstance(tgt, ast.Name):
            if tgt.id in ctx.env:
                cur = ctx.env[tgt.id]
                ctx.env[tgt.id] = frozenset(x for x in cur if x != a) | new if cur is not TOP else TOP
        elif isinstance(tgt, ast.Attribute):
            self.record_attr_store(tgt, new, ctx)

    def fmt_format(self, s, args, kw):
        import string
        alts = [()]
        auto = 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(s):
                if lit:
                    alts = [a + (lit,) for a in alts]
                if fld is None:
                    continue
                v = TOP
                if fld == "":
                    v = args[auto] if auto < len(args) else TOP
                    auto += 1
                elif fld.isdigit():
                    v = args[int(fld)] if int(fld) < len(args) else TOP
                elif fld in kw:
                    v = kw[fld]
                ps = [(None,)] if spec or conv else parts_of_val_as_str(v)
                if len(alts) * len(ps) > 64:
                    ps = [(None,)]
                alts = [a + p for a in alts for p in ps]
        except ValueError:
            return STR
        return frozenset(mk_parts(a) for a in alts)

    # -- statements ------------------------------------------------------------
    def assign(self, t, v, ctx):
        if isinstance(t, ast.Name):
            if t.id in ctx.globals_:
                return
            ctx.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            has_star = any(isinstance(x, ast.Starred) for x in t.elts)
            parts = [BOT] * n
            if v is TOP or has_star:
                parts = [TOP] * n
            else:
                for a in v:
                    if a[0] == 'tup' and len(a[1]) == n:
                        parts = [join(p, q) for p, q in zip(parts, a[1])]
                    elif a[0] == 'tup':
                        pass
                    else:
                        el = self.iter1(a, ctx)
                        parts = [join(p, el) for p in parts]
            for x, pv in zip(t.elts, parts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, TOP, ctx)
                else:
                    self.assign(x, pv, ctx)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, ctx)
            self.record_attr_store(t, v, ctx, b)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, ctx)
            i = self.ev(t.slice, ctx) if not isinstance(t.slice, ast.Slice) else TOP
            if b is not TOP:
                for a in b:
                    if a[0] == 'dict' and a[1] in self.dicts:
                        items = self.dicts[a[1]]
                        if len(items) < 400 and (i, v) not in items:
                            items.append((i, v))
                    elif a[0] == 'list' or typename(a) == 'list':
                        self._list_store(t.value, a, v, ctx)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, TOP, ctx)

    def _list_store(self, tgt, a, v, ctx):
        old = a[1] if a[0] == 'list' else BOT
        new = frozenset([('list', limit_depth(join(old, v)))])
        if isinstance(tgt, ast.Name) and tgt.id in ctx.env:
            ctx.env[tgt.id] = new
        elif isinstance(tgt, ast.Attribute):
            self.record_attr_store(tgt, new, ctx)

    def record_attr_store(self, t, v, ctx, b=None):
        if b is None:
            b = self.ev(t.value, ctx)
        if b is TOP:
            f = ctx.func
            while f is not None and f.parent is not None:
                f = f.parent
            if f is not None and f.params and isinstance(t.value, ast.Name) and \
                    t.value.id == f.params[0] and f.cls is not None:
                b = frozenset([('i', f.cls, 'open')])
            else:
                if ctx.root:
                    self.ext_attr_stores.add(t.attr)
                return
        for a in b:
            if a[0] == 'i':
                owner = a[1]
                self_store = self.is_self(t.value, ctx)
                if self_store:
                    # attribute belongs to the lexical class of the method
                    f = ctx.func
                    while f.parent is not None:
                        f = f.parent
                    owner = f.cls
                    key = (owner, t.attr)
                    if key in self.inst_attr_vals:
                        self.inst_attr_vals[key] = join(self.inst_attr_vals[key], v)
                    else:
                        self.inst_attr_vals[key] = v
                elif ctx.root:
                    key = (getattr(owner, "spec_of", owner), t.attr)
                    self.ext_cls[key] = join(self.ext_cls.get(key, BOT), v)
            elif ctx.root and a[0] == 'C':
                key = (getattr(a[1], "spec_of", a[1]), t.attr)
                self.ext_cls[key] = join(self.ext_cls.get(key, BOT), v)
            elif ctx.root and a[0] == 'super':
                self.ext_attr_stores.add(t.attr)

    def is_self(self, e, ctx):
        f = ctx.func
        while f is not None and f.parent is not None:
            f = f.parent
        return (isinstance(e, ast.Name) and f is not None and f.cls is not None
                and f.params and f.params[0] == e.id and not f.is_static)

    def block(self, body, ctx):
        """Evaluate statements; returns False when the end is unreachable."""
        for st in body:
            if not self.stmt(st, ctx):
                return False
        return True

    def stmt(self, st, ctx):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            return True
        return m(st, ctx)

    def st_Expr(self, st, ctx):
        self.ev(st.value, ctx)
        return True

    def st_Assign(self, st, ctx):
        v = self.ev(st.value, ctx)
        for t in st.targets:
            self.assign(t, v, ctx)
        return True

    def st_AnnAssign(self, st, ctx):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, ctx), ctx)
        return True

    def st_AugAssign(self, st, ctx):
        if isinstance(st.target, ast.Name):
            old = self.name(st.target.id, ctx)
        elif isinstance(st.target, ast.Attribute):
            old = self.attr(self.ev(st.target.value, ctx), st.target.attr, ctx)
        else:
            old = TOP
            self.ev(st.target.value, ctx)
        v = self.ev(st.value, ctx)
        self.assign(st.target, self.binop(st.op, old, v), ctx)
        return True

    def st_Return(self, st, ctx):
        v = self.ev(st.value, ctx) if st.value is not None else NONE
        ctx.ret = join(ctx.ret, v)
        return False

    def st_Raise(self, st, ctx):
        if st.exc is not None:
            self.ev(st.exc, ctx)
        if st.cause is not None:
            self.ev(st.cause, ctx)
        return False

    def st_Assert(self, st, ctx):
        self.ev(st.test, ctx)
        if st.msg is not None:
            self.ev(st.msg, ctx)
        self.refine(st.test, True, ctx)
        return True

    def st_Delete(self, st, ctx):
        for t in st.targets:
            if isinstance(t, ast.Name):
                ctx.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.ev(t.value, ctx)
                if not isinstance(t.slice, ast.Slice):
                    self.ev(t.slice, ctx)
            elif isinstance(t, ast.Attribute):
                self.ev(t.value, ctx)
        return True

    def st_Global(self, st, ctx):
        ctx.globals_.update(st.names)
        return True

    st_Nonlocal = st_Global

    def st_Import(self, st, ctx):
        for a in st.names:
            nm = a.name if a.asname else a.name.split(".")[0]
            tgt = a.asname or nm
            if nm in self.p.modules:
                ctx.env[tgt] = frozenset([('m', self.p.modules[nm])])
            else:
                ctx.env[tgt] = frozenset([('x', nm)])
        return True

    def st_ImportFrom(self, st, ctx):
        base = self.p._import_base(ctx.module, st)
        for a in st.names:
            e = self.p._entity(("from", base, a.name), set())
            ctx.env[a.asname or a.name] = self.eval_binding(e) if e is not None else TOP
        return True

    def st_FunctionDef(self, st, ctx):
        for d in st.decorator_list:
            self.ev(d, ctx)
        f = getattr(st, "_funcinfo", None)
        if f is None or st.decorator_list:
            ctx.env[st.name] = TOP
        else:
            ctx.env[st.name] = frozenset([('f', f, None, ctx.myclosure)])
        return True

    def st_ClassDef(self, st, ctx):
        c = getattr(st, "_classinfo", None)
        if c is None:
            ctx.env[st.name] = TOP
            return True
        if c.outer is None or ctx.func is None:
            ctx.env[st.name] = frozenset([('C', c)])
            return True
        key = (nid(st), nid(ctx.myclosure))
        spec = self.spec_classes.get(key)
        if spec is None:
            spec = ClassInfo.__new__(ClassInfo)
            spec.__dict__.update(c.__dict__)
            spec._mro = None
            spec._nid = None
            spec.bases = []
            spec.subclasses = []
            spec.closure = ctx.myclosure
            for b in st.bases:
                v = self.ev(b, ctx)
                if v is not TOP and len(v) == 1 and next(iter(v))[0] == 'C':
                    spec.bases.append(next(iter(v))[1])
                else:
                    spec.bases.append(External("?"))
            nm = [a for k_, a in (("name", ctx.env.get("name")), ("cls_name", ctx.env.get("cls_name"))) if a]
            if nm and nm[0] is not TOP and len(nm[0]) == 1 and next(iter(nm[0]))[0] == 'k':
                spec.name = next(iter(nm[0]))[1]
            spec.spec_of = c
            self.spec_classes[key] = spec
        ctx.env[st.name] = frozenset([('C', spec)])
        return True

    def st_If(self, st, ctx):
        self.ev(st.test, ctx)
        base = ctx.env
        t = self.truth(st.test, ctx)
        env1 = base.copy()
        ctx.env = env1
        r1 = True
        self.refine(st.test, True, ctx)
        r1 = self.block(st.body, ctx)
        e1 = ctx.env
        ctx.env = base.copy()
        self.refine(st.test, False, ctx)
        r2 = self.block(st.orelse, ctx)
        e2 = ctx.env
        if r1 and r2:
            ctx.env = join_env(e1, e2)
            return True
        if r1:
            ctx.env = e1
            return True
        ctx.env = e2
        return r2

    def truth(self, test, ctx):
        return None

    def refine(self, test, branch, ctx):
        """Narrow variables on simple tests."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            self.refine(test.operand, not branch, ctx)
        elif isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and branch or isinstance(test.op, ast.Or) and not branch:
                for x in test.values:
                    self.refine(x, branch, ctx)
        elif isinstance(test, ast.Name):
            v = ctx.env.get(test.id)
            if v:
                if branch:
                    nv = frozenset(a for a in v if not (a[0] == 'k' and not a[1]))
                else:
                    nv = frozenset(a for a in v if not (a[0] in ('C', 'f', 'm')) and not (a[0] == 'k' and a[1]))
                if nv:
                    ctx.env[test.id] = nv
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name):
            op, c = test.ops[0], test.comparators[0]
            v = ctx.env.get(test.left.id)
            if v and isinstance(c, ast.Constant) and c.value is None and isinstance(op, (ast.Is, ast.IsNot)):
                isnone = isinstance(op, ast.Is) == branch
                if isnone:
                    nv = frozenset(a for a in v if a == K(None))
                else:
                    nv = frozenset(a for a in v if a != K(None))
                if nv:
                    ctx.env[test.left.id] = nv
            elif v and isinstance(c, ast.Constant) and isinstance(op, (ast.Eq, ast.NotEq)):
                iseq = isinstance(op, ast.Eq) == branch
                if iseq:
                    nv = frozenset(a for a in v if a == K(c.value) or a[0] != 'k')
                    if nv:
                        ctx.env[test.left.id] = nv
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" \
                and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            v = ctx.env.get(test.args[0].id)
            names = []
            c = test.args[1]
            for x in (c.elts if isinstance(c, ast.Tuple) else [c]):
                names.append(x.id if isinstance(x, ast.Name) else None)
            if all(n in ("str", "bytes", "int", "float", "tuple", "list", "dict", "bool") for n in names):
                if v is TOP and branch:
                    ctx.env[test.args[0].id] = frozenset(('t', n) for n in names)
                elif v:
                    ok = set()
                    for a in v:
                        t = typename(a)
                        if t is None:
                            if not branch:
                                ok.add(a)
                        elif (t in names or (t == 'bool' and 'int' in names)) == branch:
                            ok.add(a)
                    if ok:
                        ctx.env[test.args[0].id] = frozenset(ok)
                    elif branch:
                        ctx.env[test.args[0].id] = frozenset(('t', n) for n in names)
            elif v is not None and branch:
                ctx.env[test.args[0].id] = TOP

    def loop(self, body, orelse, ctx, head, test=None):
        brk = []
        for it in range(6):
            start = ctx.env.copy()
            head()
            if test is not None:
                self.refine(test, True, ctx)
            ctx.loops.append({"brk": [], "cont": []})
            r = self.block(body, ctx)
            lp = ctx.loops.pop()
            end = ctx.env if r else None
            for c in lp["cont"]:
                end = join_env(end, c)
            brk = lp["brk"]
            if end is None:
                ctx.env = start
                break
            new = Env()
            for k in start.keys() | end.keys():
                if k in start and k in end:
                    new[k] = widen(start[k], end[k]) if it < 4 else (
                        start[k] if join(start[k], end[k]) == start[k] else TOP)
                else:
                    new[k] = start.get(k, end.get(k)) if (k in start) != (k in end) else None
            same = all(k in start and start[k] == new[k] for k in new)
            ctx.env = new
            if same:
                break
        head_env = ctx.env
        return brk

    def st_While(self, st, ctx):
        def head():
            self.ev(st.test, ctx)
        brk = self.loop(st.body, st.orelse, ctx, head, st.test)
        infinite = isinstance(st.test, ast.Constant) and bool(st.test.value)
        env = ctx.env
        r = not infinite
        if r:
            self.ev(st.test, ctx)
            self.refine(st.test, False, ctx)
            r = self.block(st.orelse, ctx)
            env = ctx.env
        out = env if r else None
        for b in brk:
            out = join_env(out, b)
        if out is None:
            return False
        ctx.env = out
        return True

    def st_For(self, st, ctx):
        itv = self.ev(st.iter, ctx)
        el = self.iter_elem(itv, ctx)

        def head():
            self.assign(st.target, el, ctx)
        brk = self.loop(st.body, st.orelse, ctx, head)
        r = self.block(st.orelse, ctx)
        out = ctx.env if r else None
        for b in brk:
            out = join_env(out, b)
        if out is None:
            return False
        ctx.env = out
        return True

    def st_Break(self, st, ctx):
        if ctx.loops:
            ctx.loops[-1]["brk"].append(ctx.env.copy())
        return False

    def st_Continue(self, st, ctx):
        if ctx.loops:
            ctx.loops[-1]["cont"].append(ctx.env.copy())
        return False

    def st_Try(self, st, ctx):
        start = ctx.env.copy()
        r = self.block(st.body, ctx)
        body_end = ctx.env
        mid = join_env(start, body_end)
        # any prefix of the body may have run
        acc = start.copy()
        for k in body_end:
            if k not in start:
                acc[k] = body_end[k]
            else:
                acc[k] = join(start[k], body_end[k])
        for n in iter_own(list(st.body)):
            for nm in assigned_names(n):
                if nm in acc and nm in ctx.env:
                    pass
                elif nm not in acc:
                    acc[nm] = TOP
        out = None
        if r:
            ctx.env = body_end
            if self.block(st.orelse, ctx):
                out = ctx.env
        for h in st.handlers:
            ctx.env = acc.copy()
            if h.type is not None:
                self.ev(h.type, ctx)
            if h.name:
                ctx.env[h.name] = TOP
            if self.block(h.body, ctx):
                out = join_env(out, ctx.env)
        if st.finalbody:
            fin = out if out is not None else acc
            ctx.env = join_env(fin.copy(), None)
            if not self.block(st.finalbody, ctx):
                return False
            if out is None:
                return False
            return True
        if out is None:
            return False
        ctx.env = out
        return True

    def st_With(self, st, ctx):
        for it in st.items:
            v = self.ev(it.context_expr, ctx)
            if it.optional_vars is not None:
                r = BOT
                if v is TOP:
                    r = TOP
                else:
                    for a in v:
                        if a[0] == 'i':
                            ca = self.class_attr(a[1], "__enter__")
                            if ca and isinstance(ca[0], FuncInfo):
                                r = join(r, self.call_func(ca[0], a, [frozenset([a])], {}, ctx, it.context_expr))
                            else:
                                r = TOP
                        else:
                            r = TOP
                self.assign(it.optional_vars, r, ctx)
        return self.block(st.body, ctx)

    # -- driver --------------------------------------------------------------
    def root_params(self, f, cls=None):
        vals = {}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]
        obs = self.prev_obs.get(f) if self.cur_pass > 0 and f not in self.prev_escape else None
        for i, n in enumerate(names):
            if obs and n in obs:
                vals[n] = obs[n]
            else:
                vals[n] = TOP
        if f.cls is not None and f.parent is None and names and not f.is_static:
            if f.is_classmethod:
                vals[names[0]] = frozenset([('C', f.cls)])
            else:
                vals[names[0]] = frozenset([('i', cls or f.cls, 'open')])
        if a.vararg:
            vals[a.vararg.arg] = TOP
        if a.kwarg:
            vals[a.kwarg.arg] = TOP
        h = self.special.get('rootparams')
        if h:
            h(f, vals)
        return vals

    def run_all(self, passes=2, funcs=None):
        for n in range(passes):
            self.cur_pass = n
            self.facts = {}
            self.call_facts = {}
            self.memo = {}
            self.nctx = {}
            self.sites = {}
            self.val_memo = {}
            self.prev_obs, self.param_obs = self.param_obs, {}
            self.prev_inst, self.inst_attr_vals = self.inst_attr_vals, {}
            self.prev_ext, self.ext_attr_stores = self.ext_attr_stores, set()
            self.prev_ext_cls, self.ext_cls = self.ext_cls, {}
            self.prev_escape, self.param_escape = self.param_escape, set()
            for k, cl in self.closures.items():
                if not isinstance(k[-1], tuple):
                    cl.vars = {}
            for m in self.p.modules.values():
                self.run_module(m)
            for f in (funcs or self.p.functions):
                if f.parent is not None or (f.cls is not None and f.cls.enclosing is not None):
                    continue
                self.run_root(f)
            h = self.special.get('endpass')
            if h:
                h(self, n)

    def run_module(self, m):
        """module- and class-level expressions"""
        def visit(body, cls):
            ctx = Ctx(None, m, cls, None, True, 0, ())
            for st in body:
                if isinstance(st, ast.ClassDef):
                    c = getattr(st, "_classinfo", None)
                    visit(st.body, c or cls)
                    continue
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                for fld, val in ast.iter_fields(st):
                    for x in (val if isinstance(val, list) else [val]):
                        if isinstance(x, ast.expr) and not isinstance(getattr(x, "ctx", None), ast.Store):
                            self.ev(x, ctx)
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Attribute):
                            self.record_attr_store(t, self.ev(st.value, ctx), ctx)
                for fld in ("body", "orelse", "finalbody"):
                    sub = getattr(st, fld, None)
                    if isinstance(sub, list):
                        visit(sub, cls)
                for h in getattr(st, "handlers", []):
                    visit(h.body, cls)
        visit(m.tree.body, None)

    def run_root(self, f, cls=None):
        ctx = Ctx(f, f.module, f.cls, None, True, 0, ())
        vals = self.root_params(f, cls)
        a = f.node.args
        dctx = Ctx(None, f.module, f.cls, None, True, 0, ())
        for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None]:
            self.ev(d, dctx)
        self.run_body(f, vals, ctx)
        cl = ctx.myclosure
        # nested functions: evaluated as roots with the closure
        todo = [(g, cl) for g in self.p.functions_by_parent.get(f, [])]
        while todo:
            g, c = todo.pop(0)
            c2 = Ctx(g, g.module, g.cls, c, True, 0, ())
            v2 = self.root_params(g)
            self.run_body(g, v2, c2)
            todo += [(h, c2.myclosure) for h in self.p.functions_by_parent.get(g, [])]

    def fact(self, node):
        return self.facts.get(nid(node), TOP)


def assigned_names(n):
    out = []
    from .project import assigned_pairs
    for t, _ in assigned_pairs(n):
        if isinstance(t, ast.Name):
            out.append(t.id)
    return out


def split_percent(s):
    """Split a %-format string: yields ('lit', text) and ('arg', convchar).
    '*' widths count as additional 'arg' with conv '*'."""
    out = []
    i = 0
    lit = ""
    n = len(s)
    while i < n:
        c = s[i]
        if c != '%':
            lit += c
            i += 1
            continue
        j = i + 1
        if j < n and s[j] == '%':
            lit += '%'
            i = j + 1
            continue
        if lit:
            out.append(('lit', lit))
            lit = ""
        simple = True
        if j < n and s[j] == '(':
            k = s.find(')', j)
            if k < 0:
                k = n - 1
            out_key = s[j + 1:k]
            j = k + 1
            simple = False
        while j < n and s[j] in "#0- +":
            j += 1
            simple = False
        if j < n and s[j] == '*':
            out.append(('arg', '*'))
            j += 1
        while j < n and s[j].isdigit():
            j += 1
            simple = False
        if j < n and s[j] == '.':
            j += 1
            simple = False
            if j < n and s[j] == '*':
                out.append(('arg', '*'))
                j += 1
            while j < n and s[j].isdigit():
                j += 1
        while j < n and s[j] in "hlL":
            j += 1
        conv = s[j] if j < n else '?'
        out.append(('arg', conv if simple else conv + '!'))
        i = j + 1
    if lit:
        out.append(('lit', lit))
    return out
