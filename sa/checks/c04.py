"""Analysing one file leaves nothing behind which changes the analysis of another."""
import ast
from ..project import FuncInfo, ClassInfo, ValueBinding, Module, assigned_pairs, body_nodes
from ..effects import units, MUTATORS
from .c03 import is_library

MUT_CALLS = {"dict", "list", "set", "bytearray", "Dict", "OrderedDict", "defaultdict", "deque", "Counter"}


def is_mutable(e):
    if isinstance(e, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        n = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else None
        return n in MUT_CALLS
    return False


def root(e):
    """the container expression under subscripts"""
    while isinstance(e, ast.Subscript):
        e = e.value
    return e


def run(ctx, rep):
    p = ctx.project
    rep.rule("global", "no global variable is rebound while a file is analysed", 150)
    rep.rule("table", "no container of a module or class is changed while a file is analysed", 300)
    rep.rule("class", "no attribute of a class, function or module is set while a file is analysed", 300)
    rep.rule("default", "no mutable default argument is changed", 912)
    rep.rule("given", "streams and parser selection do not change the lists their caller gave", 29)

    callers(p, rep)
    used = import_time(p)
    getters = {}
    for k in p.classes if hasattr(p, "classes") else [c for m in p.modules.values() for c in m.classes]:
        for name, vals in k.attrs.items():
            for v in vals:
                if isinstance(v, FuncInfo):
                    b = [s for s in v.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                    ok = len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Attribute) \
                        and isinstance(b[0].value.value, ast.Name) and b[0].value.value.id in ("cls", "self") \
                        and any(shared_attr(p, d, b[0].value.attr) for d in [k] + list(p.descendants(k)))
                    getters.setdefault(name, []).append(bool(ok))
    getters = {n for n, oks in getters.items() if all(oks)}

    scopes = {}
    for m in p.modules.values():
        for label, f, nodes, sc in units(p, m):
            if f is not None:
                scopes[f] = sc
    changed = mutated_params(p, scopes)

    def kept(e, f, depth):
        """self.x is the shared object some method stored there, and nothing else"""
        fam = [k for k in p.mro(f.cls) if isinstance(k, ClassInfo)] + list(p.descendants(f.cls))
        vals = [v for k in fam for v in k.inst_attrs.get(e.attr, ())]
        if len(vals) != 1 or vals[0][1] is None or depth > 2:
            return None
        g, v = vals[0]
        while isinstance(v, ast.BoolOp) and isinstance(v.op, ast.Or):
            v = v.values[-1]
        if isinstance(v, ast.Name) and v.id in default_params(g):
            return "the default argument %s of %s" % (v.id, g.qual)
        if g in scopes and isinstance(v, (ast.Name, ast.Attribute)) and not same_attr(v, e):
            return shared(v, scopes[g], g, depth + 1)
        return None

    def nested(e, sc, f):
        """the table holds containers which can be changed"""
        if isinstance(e, ast.Name):
            r = [sc.resolve(e)]
        else:
            r = class_values(p, f.cls, e.attr) if f.cls is not None and isinstance(e.value, ast.Name) and f.params \
                and e.value.id == f.params[0] else [sc.resolve(e)]
        ex = [getattr(v, "expr", None) for v in r]
        return any(is_mutable(v) for x in ex if isinstance(x, (ast.Dict, ast.List, ast.Tuple))
                   for v in (x.values if isinstance(x, ast.Dict) else x.elts) if v is not None)

    def shared(e, sc, f, depth=0):
        """description of the shared object the expression names for sure, or None"""
        inner = isinstance(e, ast.Subscript)
        e = root(e)
        if inner and not depth and isinstance(e, ast.Name) and sc.is_local(e.id):
            vals = sc.locals.get(e.id)
            if vals and len(vals) == 1 and isinstance(vals[0], ast.Call):
                c = vals[0]
                src = c.func.value if isinstance(c.func, ast.Attribute) and c.func.attr == "copy" and not c.args else \
                    c.args[0] if len(c.args) == 1 and ast.unparse(c.func) in ("dict", "list", "copy.copy", "copy", "tuple") else None
                if isinstance(src, (ast.Name, ast.Attribute)) and nested(src, sc, f):
                    d = shared(src, sc, f, 1)
                    if d:
                        return "an element of %s" % d
        if depth and isinstance(e, (ast.BoolOp, ast.IfExp)):
            for v in e.values if isinstance(e, ast.BoolOp) else (e.body, e.orelse):
                d = shared(v, sc, f, depth + 1)
                if d:
                    return d
            return None
        if isinstance(e, ast.Name):
            if sc.is_local(e.id):
                vals = sc.locals.get(e.id)
                if vals and len(vals) > 1 and sc.func is not None and sc.func.node is f.node and not depth:
                    vals = reaching(f.node, e)
                    for v in vals or ():
                        d = shared(v, sc, f, depth + 1) if v is not None else None
                        if d:
                            return d
                    return None
                if vals and len(vals) == 1 and vals[0] is not None and depth < 3:
                    return shared(vals[0], sc, f, depth + 1)
                return None
            r = sc.resolve(e)
            if isinstance(r, ValueBinding) and r.cls is None and (r.expr is None or is_mutable(r.expr)):
                return "the module variable %s" % e.id
            return None
        if isinstance(e, ast.Attribute):
            v = e.value
            if isinstance(v, ast.Name) and f.params and v.id == f.params[0] and f.cls is not None and not f.is_static:
                if f.is_classmethod:
                    return "the class attribute %s" % e.attr if depth or not is_new(p, f.cls, e.attr) else None
                if shared_attr(p, f.cls, e.attr):
                    return "the class attribute %s.%s" % (f.cls.name, e.attr)
                return kept(e, f, depth)
            if isinstance(v, ast.Attribute) and v.attr == "__class__":
                return "the class attribute %s" % e.attr
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "type":
                return "the class attribute %s" % e.attr
            r = sc.resolve(v)
            if isinstance(r, ClassInfo):
                return "%s.%s" % (r.name, e.attr)
            if isinstance(r, FuncInfo):
                return "%s.%s" % (r.name, e.attr)
            if isinstance(r, Module):
                return "%s.%s" % (r.name, e.attr)
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get" and e.args and depth < 4:
            return shared(e.func.value, sc, f, depth + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in getters:
            return "what %s() answers (a class attribute)" % e.func.attr
        return None

    for m in sorted(p.modules.values(), key=lambda m: m.name):
        if not is_library(m.name):
            continue
        for label, f, nodes, sc in units(p, m):
            if f is None or is_import_time(p, f, used):
                continue
            key = "%s:%s" % (m.name, label)
            bad = []
            # mutable defaults
            a = f.args
            ps = a.posonlyargs + a.args
            defaults = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
            defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            if not defaults:
                rep.passed("default")
            mutdef = {x for x, d in defaults.items() if is_mutable(d)}
            for x in sorted(mutdef):
                rebound = any(isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Store) for n in nodes)
                hits = [n for n in nodes if not rebound and mutates(n, lambda e: isinstance(root(e), ast.Name)
                                                                    and root(e).id == x)]
                if hits or x in changed.get(f, ()):
                    rep.violation("default", "%s:%s" % (key, x), "%s:%d" % (m.path, hits[0].lineno if hits else f.node.lineno),
                                  "%s changes its default argument %s: the change stays for the next call" % (label, x))
                else:
                    rep.passed("default", sample="%s %s" % (f.where, x))
            for n in nodes:
                if isinstance(n, ast.Global):
                    bad.append(("global", ",".join(n.names), n, "rebinds the global %s" % ", ".join(n.names)))
                for t, v in assigned_pairs(n):
                    if isinstance(t, ast.Attribute):
                        d = attr_target(t, sc, f)
                        if d:
                            bad.append(("class", ast.unparse(t), n, "sets %s" % d))
                    elif isinstance(t, ast.Subscript):
                        d = shared(t.value, sc, f)
                        if not d and isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Name):
                            g = t.value.func.id
                            if g == "globals" or g == "vars" and t.value.args and is_type(t.value.args[0], sc):
                                d = ast.unparse(t.value)
                        if d:
                            bad.append(("table", ast.unparse(t.value), n, "stores into %s" % d))
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.op, (ast.Add, ast.BitOr)):
                    d = shared(n.target, sc, f)
                    if d and "class attribute" in d and is_table(p, f, n.target):
                        bad.append(("table", ast.unparse(n.target), n, "extends %s in place" % d))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    d = shared(n.func.value, sc, f)
                    if d:
                        bad.append(("table", ast.unparse(n.func), n, "changes %s by %s()" % (d, n.func.attr)))
                if isinstance(n, ast.Call):
                    for x, g, par in passed_on(p, n, sc, f, changed):
                        d = shared(x, sc, f)
                        if d and not isinstance(x, ast.Subscript):
                            bad.append(("table", "%s(%s)" % (g.name, ast.unparse(x)), n, "gives %s to %s, which changes it" % (d, g.qual)))
                if isinstance(n, ast.Delete):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript):
                            d = shared(t.value, sc, f)
                            if d:
                                bad.append(("table", ast.unparse(t.value), n, "deletes from %s" % d))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and n.args:
                    x = n.args[0]
                    if is_type(x, sc):
                        bad.append(("class", ast.unparse(x), n, "sets an attribute of %s" % ast.unparse(x)))
            for rule in ("global", "table", "class"):
                mine = [b for b in bad if b[0] == rule]
                if not mine:
                    rep.passed(rule)
                for _, what, n, msg in mine:
                    if allowed(m, f, what):
                        rep.passed(rule, sample="allowed: %s %s" % (f.where, what))
                        continue
                    rep.violation(rule, "%s:%s" % (key, what), "%s:%d" % (m.path, n.lineno),
                                  "%s %s, which outlives the analysis of the file: the next file is analysed differently" % (
                                      label, msg))


def callers(p, rep):
    """the entry points do not change the lists (tags) they are given: the next call would get them changed"""
    for m in sorted(p.modules.values(), key=lambda m: m.name):
        if not (m.name.startswith("hachoir.stream") or m.name in ("hachoir.parser.guess", "hachoir.parser.parser")):
            continue
        for label, f, nodes, sc in units(p, m):
            if f is None or isinstance(f.node, ast.Lambda):
                continue
            kwarg = f.args.kwarg.arg if f.args.kwarg else None
            params = set(f.params[1:] if f.cls is not None and not f.is_static else f.params)
            fresh = {t.id for st in f.node.body if isinstance(st, ast.Assign) for t in st.targets if isinstance(t, ast.Name)}
            given = {x for x in params if x in ("tags", "args", "kw", "kwargs", "packets", "fragments")} - fresh

            def value(e):
                """e is a value the caller gave"""
                if isinstance(e, ast.Name):
                    if e.id in given:
                        return e.id
                    vals = sc.locals.get(e.id)
                    n = sum(1 for x in nodes if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == e.id)
                    if vals and n and vals.count(None) == n:
                        vals = [v for v in vals if v is not None]
                    if vals and len(vals) == 1 and vals[0] is not None and e.id not in params and not isinstance(vals[0], ast.Name):
                        return value(vals[0])
                    return None
                if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == kwarg:
                    return ast.unparse(e)
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "setdefault", "pop") \
                        and isinstance(e.func.value, ast.Name) and e.func.value.id == kwarg:
                    return ast.unparse(e)
                return None
            hit = None
            for n in nodes:
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    v = value(n.func.value)
                    if v:
                        hit = (n, v)
                elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and value(n.target):
                    hit = (n, value(n.target))
                elif isinstance(n, (ast.Assign, ast.Delete)):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript) and value(t.value):
                            hit = (n, value(t.value))
            if hit:
                rep.violation("given", "%s:%s:%s" % (m.name, label, hit[1]), "%s:%d" % (m.path, hit[0].lineno),
                              "%s changes the list %s of its caller: the next call with it is another one" % (label, hit[1]))
            else:
                rep.passed("given")


def is_type(x, sc):
    """the expression is a class, function or module for sure"""
    return isinstance(sc.resolve(x), (ClassInfo, FuncInfo, Module)) or isinstance(x, ast.Attribute) and x.attr == "__class__" \
        or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "type" and len(x.args) == 1


def reaching(fn, use):
    """value expressions (None: unknown) of the name which may reach its use, by the structure of the function"""
    name = use.id
    found = []

    def contains(n):
        return any(x is use for x in ast.walk(n))

    def simple(n, st):
        if not found and contains(n):
            found.append(set(st))
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)):
                val = None
                for t, v in assigned_pairs(n):
                    if isinstance(t, ast.Name) and t.id == name:
                        val = v
                return {val}
        return st

    def block(body, st):
        """state after; None when the end is not reached"""
        for n in body:
            if st is None:
                return None
            st = stmt(n, st)
        return st

    def join(*sts):
        sts = [s for s in sts if s is not None]
        return set().union(*sts) if sts else None

    def stmt(n, st):
        if isinstance(n, ast.If):
            simple(n.test, st)
            return join(block(n.body, st), block(n.orelse, st))
        if isinstance(n, (ast.For, ast.While)):
            simple(n.iter if isinstance(n, ast.For) else n.test, st)
            for _ in range(2):
                b = simple(n.target, st) if isinstance(n, ast.For) else st
                quiet = list(found)
                after = block(n.body, b)
                if _ == 0 and not quiet:
                    del found[:]
                st = join(st, after)
            return join(st, block(n.orelse, st)) if n.orelse else st
        if isinstance(n, ast.Try):
            a = block(n.body, st)
            mid = join(st, a)
            outs = [block(n.orelse, a) if a is not None else None] + [block(h.body, mid) for h in n.handlers]
            return block(n.finalbody, join(*outs) or mid) if join(*outs) is not None or n.finalbody else None
        if isinstance(n, ast.With):
            for i in n.items:
                st = simple(i, st)
            return block(n.body, st)
        if isinstance(n, (ast.Return, ast.Raise)):
            simple(n, st)
            return None
        if isinstance(n, (ast.Break, ast.Continue)):
            return st
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            return st
        return simple(n, st)
    block(fn.body, {None})
    return found[0] if found else None


def same_attr(a, b):
    return isinstance(a, ast.Attribute) and a.attr == b.attr


def default_params(f):
    """parameters of the function with a mutable default, never rebound"""
    a = f.args
    ps = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return {x for x, v in d.items() if is_mutable(v) and not any(
        isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Store) for n in body_nodes(f.node))}


def callee(p, n, sc, f):
    """the function a call runs, and how many of its parameters are bound already"""
    fn = n.func
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and f.cls is not None and f.params \
            and fn.value.id == f.params[0] and not f.is_static:
        vals = class_values(p, f.cls, fn.attr)
        if len(vals) == 1 and isinstance(vals[0], FuncInfo):
            return vals[0], 0 if vals[0].is_static else 1
        return None, 0
    r = sc.resolve(fn)
    if isinstance(r, FuncInfo):
        return r, 1 if r.is_classmethod else 0
    if isinstance(r, ClassInfo):
        vals = class_values(p, r, "__init__")
        if len(vals) == 1 and isinstance(vals[0], FuncInfo):
            return vals[0], 1
    return None, 0


def passed_on(p, n, sc, f, muts):
    """(argument, function, parameter) of the arguments which the called function changes"""
    g, bound = callee(p, n, sc, f)
    if g is None or not muts.get(g):
        return
    pos = g.params[bound:]
    for i, x in enumerate(n.args):
        if isinstance(x, ast.Starred):
            break
        if i < len(pos) and pos[i] in muts[g]:
            yield x, g, pos[i]
    for k in n.keywords:
        if k.arg in muts[g]:
            yield k.value, g, k.arg


def mutated_params(p, scopes):
    """function -> parameters whose containers it changes, itself or through the functions it calls"""
    muts = {}
    for f, sc in scopes.items():
        if isinstance(f.node, ast.Lambda):
            continue
        nodes = body_nodes(f.node)
        stored = {n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        mine = set(f.params) - stored
        if f.cls is not None and not f.is_static and f.params:
            mine.discard(f.params[0])
        muts[f] = {x for x in mine if any(mutates(n, lambda e: isinstance(root(e), ast.Name) and root(e).id == x) for n in nodes)}
        f._own_params = mine
    todo = True
    while todo:
        todo = False
        for f, sc in scopes.items():
            if f not in muts:
                continue
            for n in body_nodes(f.node):
                if isinstance(n, ast.Call):
                    for x, g, par in passed_on(p, n, sc, f, muts):
                        if isinstance(x, ast.Name) and x.id in f._own_params and x.id not in muts[f]:
                            muts[f].add(x.id)
                            todo = True
    return muts


def is_table(p, f, t):
    vals = class_values(p, f.cls, t.attr) if f.cls is not None else []
    return any(isinstance(v, ValueBinding) and is_mutable(v.expr) for v in vals)


def class_values(p, cls, name):
    for k in p.mro(cls):
        if isinstance(k, ClassInfo) and name in k.attrs:
            return k.attrs[name]
    return []


def is_new(p, cls, name):
    return not class_values(p, cls, name)


def shared_attr(p, cls, name):
    """self.name is a mutable of the class, never an attribute of the instance"""
    vals = class_values(p, cls, name)
    if not vals or not all(isinstance(v, ValueBinding) and is_mutable(v.expr) for v in vals):
        return False
    fam = [k for k in p.mro(cls) if isinstance(k, ClassInfo)] + list(p.descendants(cls))
    return not any(name in k.inst_attrs for k in fam)


def attr_target(t, sc, f):
    v = t.value
    if isinstance(v, ast.Attribute) and v.attr == "__class__" or isinstance(v, ast.Call) and isinstance(
            v.func, ast.Name) and v.func.id == "type" and len(v.args) == 1:
        return "the class attribute %s" % t.attr
    if isinstance(v, ast.Name) and f.is_classmethod and f.params and v.id == f.params[0]:
        return "the class attribute %s" % t.attr
    r = sc.resolve(v)
    if isinstance(r, (ClassInfo, FuncInfo, Module)):
        return "%s.%s" % (getattr(r, "name", "?"), t.attr)
    if isinstance(r, ValueBinding) and r.cls is None and isinstance(r.expr, ast.Call):
        return "%s of the shared object %s" % (t.attr, ast.unparse(v))
    return None


def mutates(n, isit):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
        return isit(n.func.value)
    for t, v in assigned_pairs(n):
        if isinstance(t, ast.Subscript) and isit(t):
            return True
    if isinstance(n, ast.Delete):
        return any(isinstance(t, ast.Subscript) and isit(t) for t in n.targets)
    return False


# registries filled by imports, and memos whose values do not depend on any file
KEPT = {"hachoir.metadata.metadata": {"extractors"}, "hachoir.parser.network.common": {"cache", "resolve"},
        "hachoir.parser.parser_list": {"_instance"}, "hachoir.parser.program.nds": {"_table"},
        "hachoir.core.i18n": {"value", "is_done"}}


def import_time(p):
    """functions used only by the top level of modules and class bodies: they run once, when the module is imported"""
    top, inside = set(), set()
    for m in p.modules.values():
        for label, f, nodes, sc in units(p, m):
            called = {n.func for n in nodes if isinstance(n, ast.Call)}
            for n in nodes:
                name = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                if name is not None and isinstance(n.ctx, ast.Load):
                    (top if f is None and n in called else inside).add((m.name if isinstance(n, ast.Name) else None, name))
                elif isinstance(n, ast.ImportFrom):
                    inside.update((n.module or "", a.name) for a in n.names)
    return top, inside


def is_import_time(p, f, used):
    top, inside = used
    if f.name == "<lambda>":
        return True
    if f.cls is not None:
        return False
    k = (f.module.name, f.name)
    return k in top and k not in inside and (None, f.name) not in inside


def allowed(m, f, what):
    """what: the container expression, or the attribute set"""
    names = KEPT.get(m.name, ())
    parts = what.replace("(", ".").split(".")
    return bool(set(parts) & set(names))
