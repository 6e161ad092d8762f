"""Every name, attribute, call and format on every code path exists."""
import ast
import sys
import inspect
from .. import names
from ..project import ClassInfo, External, FuncInfo, Module, ValueBinding, body_nodes
from ..types import TOP, typename, str_parts

SELF_EXAMPLE = "def f(x):\n    return undefined_name_of_self_test + x\n"


def show(v):
    out = []
    for a in v:
        if a[0] in ('i', 'C'):
            out.append(a[1].name)
        else:
            out.append(typename(a) or a[0])
    return "/".join(sorted(set(out)))[:80]


def run(ctx, rep):
    p = ctx.project
    ty = ctx.types
    rep.rule("global-name", "every name a scope reads from its module's globals is bound there or a builtin", 3041)
    rep.rule("import", "every name imported from a program module is bound in it", 920)
    rep.rule("std-module", "every module imported from outside the program is in the standard library or optional", 100)
    rep.rule("module-attr", "every attribute read on a module exists in it", 100)
    rep.rule("class-attr", "every attribute read on a value of known program class exists in that class, "
             "one of its bases or subclasses", 3041)
    rep.rule("builtin-attr", "every attribute read on a value of known builtin type exists on that type", 153)
    rep.rule("call-arity", "every call of a resolved program function, method or class binds its parameters", 3434)
    rep.rule("ext-arity", "every call of a resolved standard library function binds its parameters", 50)
    rep.rule("format", "every %-format with a literal format has as many values as directives", 366)
    rep.rule("exc-class", "every class named in an except clause or raised exists and is an exception", 173)
    rep.rule("operator", "operators and subscripts are applied to operand types that support them", 1021)
    rep.rule("exception-object", "an exception object bound by an except clause is not indexed", 15)
    rep.rule("hook-arity", "every function installed as a field hook (createValue, createDisplay, validate...) can be "
             "called the way the core calls it: without argument", 481)
    check_hooks(p, ty, rep)
    check_operators(p, ty, rep)
    check_names(p, rep)
    check_imports(p, rep)
    check_attrs(p, ty, rep)
    check_calls(p, ty, rep)
    check_formats(p, ty, rep)
    check_exc(p, ty, rep)


def check_names(p, rep):
    for m in p.modules.values():
        uses, declared = names.global_uses(m)
        for name, scope, path in uses:
            if name in names.BUILTINS or name in declared:
                rep.passed("global-name")
                continue
            r = names.module_has(p, m, name)
            if r:
                rep.passed("global-name")
            elif r is None:
                rep.undecided("global-name")
            else:
                line = first_use(m.tree, name, scope)
                if guarded_name_error(m.tree, name):
                    rep.passed("global-name")
                    continue
                rep.violation("global-name", "%s:%s:%s" % (m.name, ".".join(path), name),
                              "%s:%s" % (m.path, line),
                              "name %r is read in %s but bound nowhere" % (name, ".".join(path) or "the module"))


def guarded_name_error(tree, name):
    for nd in ast.walk(tree):
        if isinstance(nd, ast.Try):
            for h in nd.handlers:
                if h.type is not None and "NameError" in ast.unparse(h.type):
                    for st in nd.body:
                        if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(st)):
                            return True
    return False


def first_use(tree, name, scope):
    best = None
    for nd in ast.walk(tree):
        if isinstance(nd, ast.Name) and nd.id == name and isinstance(nd.ctx, ast.Load) \
                and nd.lineno >= scope.get_lineno():
            if best is None or nd.lineno < best:
                best = nd.lineno
    return best or scope.get_lineno()


def in_import_guard(nd):
    x = nd
    while x is not None:
        par = getattr(x, "_parent", None)
        if isinstance(par, ast.Try) and x in par.body:
            for h in par.handlers:
                if h.type is None or any(s in ast.unparse(h.type) for s in (
                        "ImportError", "ModuleNotFound", "Exception")):
                    return True
        x = par
    return False


# not in the standard library: the graphical interfaces and two optional decoders
OPTIONAL = {"wx", "urwid", "PyQt4", "PyQt5", "gi", "pygtk", "gtk", "pylzma", "Crypto", "hachoir", "psyco"}


def check_imports(p, rep):
    for m in p.modules.values():
        for nd in ast.walk(m.tree):
            tops = []
            if isinstance(nd, ast.Import):
                tops = [a.name.split(".")[0] for a in nd.names]
            elif isinstance(nd, ast.ImportFrom) and not nd.level and nd.module:
                tops = [nd.module.split(".")[0]]
            for t in tops:
                if t in sys.stdlib_module_names or t in OPTIONAL or in_import_guard(nd):
                    rep.passed("std-module")
                else:
                    rep.violation("std-module", "%s:%s" % (m.name, t), "%s:%d" % (m.path, nd.lineno),
                                  "the module %s does not exist" % t)
            if isinstance(nd, ast.ImportFrom):
                base = p._import_base(m, nd)
                if base is None:
                    continue
                top = base.split(".")[0]
                for a in nd.names:
                    if a.name == "*":
                        continue
                    if base in p.modules:
                        r = names.module_has(p, p.modules[base], a.name)
                        if r is False and base + "." + a.name in p.modules:
                            r = True
                    elif top == "hachoir":
                        r = False
                        if base.startswith("hachoir.") and generated(base):
                            r = None
                    else:
                        mod = names.ext_module(base)
                        if mod is None:
                            r = None
                        else:
                            r = hasattr(mod, a.name) or names.ext_module(base + "." + a.name) is not None
                    where = "%s:%d" % (m.path, nd.lineno)
                    if r:
                        rep.passed("import")
                    elif r is None or in_import_guard(nd):
                        rep.undecided("import")
                    else:
                        rep.violation("import", "%s:%s.%s" % (m.name, base, a.name), where,
                                      "%s imports %s from %s, which does not define it" % (m.name, a.name, base))
            elif isinstance(nd, ast.Import):
                for a in nd.names:
                    if a.name.split(".")[0] == "hachoir":
                        if a.name in p.modules:
                            rep.passed("import")
                        else:
                            rep.violation("import", "%s:%s" % (m.name, a.name), "%s:%d" % (m.path, nd.lineno),
                                          "%s imports module %s, which does not exist" % (m.name, a.name))


def generated(base):
    return base.endswith("_rc") or base.endswith("ui_wxpython") or "ui" in base.split(".")[-1]


def guarded_attr(nd):
    """inside try/except AttributeError, or after hasattr on the same name"""
    x = nd
    while x is not None:
        par = getattr(x, "_parent", None)
        if isinstance(par, ast.Try) and x in par.body:
            for h in par.handlers:
                if h.type is None or any(s in ast.unparse(h.type) for s in ("AttributeError", "Exception")):
                    return True
        if isinstance(par, (ast.If, ast.IfExp, ast.While)) and x is not par.test:
            for c in ast.walk(par.test):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("hasattr", "isinstance", "issubclass"):
                    return True
        if isinstance(par, ast.BoolOp):
            for c in ast.walk(par):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("hasattr", "isinstance"):
                    return True
        if isinstance(par, (ast.FunctionDef, ast.Lambda)):
            # an early exit on hasattr/isinstance anywhere in the function
            for c in ast.walk(par):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "hasattr":
                    if len(c.args) == 2 and isinstance(c.args[1], ast.Constant) and c.args[1].value == getattr(nd, "attr", None):
                        return True
        x = par
    return False


def ext_stored(p):
    """attribute names stored on something other than self anywhere"""
    out = set()
    for m in p.modules.values():
        for nd in ast.walk(m.tree):
            if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, (ast.Store, ast.Del)):
                if not (isinstance(nd.value, ast.Name) and nd.value.id in ("self", "cls")):
                    out.add(nd.attr)
            elif isinstance(nd, ast.Call) and isinstance(nd.func, ast.Name) and nd.func.id == "setattr" \
                    and len(nd.args) == 3 and isinstance(nd.args[1], ast.Constant):
                out.add(nd.args[1].value)
    return out


def ctx_root(p, c):
    base = p.cls("hachoir.parser.parser.HachoirParser")
    return p.is_subclass(c, base)


def arg_keys(p):
    """string keys of dictionaries: the ("args", {...}) stream tag stores each
    of them as an attribute of the parser it creates"""
    out = set()
    for m in p.modules.values():
        for nd in ast.walk(m.tree):
            if isinstance(nd, ast.Dict):
                out |= {k.value for k in nd.keys if isinstance(k, ast.Constant) and isinstance(k.value, str)}
            elif isinstance(nd, ast.Subscript) and isinstance(nd.ctx, ast.Store) and isinstance(nd.slice, ast.Constant) \
                    and isinstance(nd.slice.value, str):
                out.add(nd.slice.value)
    return out


def check_attrs(p, ty, rep):
    stored = ext_stored(p)
    keys = arg_keys(p)
    for f in p.functions:
        for nd in body_nodes(f.node):
            if not (isinstance(nd, ast.Attribute) and isinstance(nd.ctx, ast.Load)):
                continue
            b = ty.fact(nd.value)
            if b is TOP or not b:
                continue
            name = nd.attr
            verdicts = []
            rule = None
            for a in b:
                if a[0] == 'i':
                    rule = rule or "class-attr"
                    r = names.class_has(p, ty, a[1], name, len(a) > 2)
                    verdicts.append(r)
                elif a[0] == 'C':
                    rule = rule or "class-attr"
                    if hasattr(type, name):
                        verdicts.append(True)
                    else:
                        verdicts.append(names.class_has(p, ty, a[1], name, True))
                elif a[0] == 'm':
                    rule = rule or "module-attr"
                    r = names.module_has(p, a[1], name)
                    if r is False and (a[1].name + "." + name) in p.modules:
                        r = True
                    if name.startswith("__"):
                        r = True
                    verdicts.append(r)
                elif a[0] == 'x':
                    rule = rule or "module-attr"
                    known, o, at, miss = names.ext_resolve(a[1] + "." + name)
                    k2, o2, _, _ = names.ext_resolve(a[1])
                    if not known or not k2:
                        verdicts.append(None)
                    elif o is not None or hasattr(o2, name):
                        verdicts.append(True)
                    elif inspect.ismodule(o2):
                        verdicts.append(False)
                    else:
                        verdicts.append(None)
                elif a[0] in ('k', 't', 'pat', 'tup', 'list', 'dict', 'set'):
                    rule = rule or "builtin-attr"
                    t = names.TYPES.get(typename(a))
                    if t is type(None):
                        t = None    # a default not yet replaced: not decided here
                    verdicts.append(None if t is None else hasattr(t, name))
                else:
                    verdicts.append(None)
            if rule is None:
                continue
            if any(v is True for v in verdicts):
                rep.passed(rule)
            elif any(v is None for v in verdicts):
                rep.undecided(rule)
            elif name in stored or name in keys and any(
                    a[0] == 'i' and ctx_root(p, a[1]) for a in b) or guarded_attr(nd):
                rep.undecided(rule)
            else:
                rep.violation(rule, "%s:%s:%s" % (f.module.name, f.cls.qual if f.cls is not None else f.qual, ast.unparse(nd)),
                              "%s:%d" % (f.module.path, nd.lineno),
                              "%s reads attribute %r of %s, which does not have it" % (f.qual, name, show(b)))


def binds(f, npos, kws, star, kwstar):
    """Can a call with npos positionals and keyword names bind f's parameters?"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    kwo = [x.arg for x in a.kwonlyargs]
    if npos > len(pos) and not a.vararg:
        return "takes %d positional arguments, %d given" % (len(pos), npos)
    bound = set(pos[:npos])
    for k in kws:
        if k in bound:
            return "got two values for argument %r" % k
        if k not in pos + kwo and not a.kwarg:
            return "has no parameter %r" % k
        bound.add(k)
    if star or kwstar:
        return None
    need = pos[:len(pos) - len(a.defaults)]
    miss = [x for x in need if x not in bound]
    miss += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in bound]
    if miss:
        return "misses argument%s %s" % ("s" if len(miss) > 1 else "", ", ".join(map(repr, miss)))
    return None


def init_of(p, c):
    """(found, FuncInfo|None|'?')"""
    for k in p.mro(c):
        if isinstance(k, ClassInfo):
            for nm in ("__init__", "__new__"):
                if nm in k.attrs:
                    e = k.attrs[nm][-1]
                    return e if isinstance(e, FuncInfo) and len(k.attrs[nm]) == 1 else '?'
            if k.node.keywords:
                return '?'
        elif isinstance(k, External) and k.dotted != "builtins.object":
            return '?'
        elif k is None:
            return '?'
    return None


def check_calls(p, ty, rep):
    for e, func, fv, _ in list(ty.call_facts.values()):
        if fv is TOP or not fv or func is None:
            continue
        npos = sum(1 for x in e.args if not isinstance(x, ast.Starred))
        star = any(isinstance(x, ast.Starred) for x in e.args)
        if star:
            # unpacked tuple of unknown length: positionals are only a minimum
            pass
        kws = [k.arg for k in e.keywords if k.arg]
        kwstar = any(k.arg is None for k in e.keywords)
        probs, ok, unk, rule = [], False, False, "call-arity"
        for a in fv:
            if a[0] == 'f':
                f = a[1]
                if f.decorators and not f.is_static and not f.is_classmethod and not f.is_property:
                    if not all(d.split(".")[-1] in ("fault_tolerant",) for d in f.decorators):
                        unk = True
                        continue
                n = npos + (1 if a[2] is not None else 0)
                r = binds(f, n, kws, star, kwstar)
                if r:
                    probs.append("%s %s" % (f.qual, r))
                else:
                    ok = True
            elif a[0] == 'C':
                i = init_of(p, a[1])
                if i == '?':
                    unk = True
                elif i is None:
                    if npos or kws:
                        probs.append("%s() takes no arguments" % a[1].name)
                    else:
                        ok = True
                else:
                    r = binds(i, npos + 1, kws, star, kwstar)
                    if r:
                        probs.append("%s.%s %s" % (a[1].name, i.name, r))
                    else:
                        ok = True
            elif a[0] == 'x':
                rule = "ext-arity"
                known, o, _, _ = names.ext_resolve(a[1])
                if not known or o is None or star or kwstar:
                    unk = True
                    continue
                try:
                    sig = inspect.signature(o)
                except (ValueError, TypeError):
                    unk = True
                    continue
                try:
                    sig.bind(*([None] * npos), **{k: None for k in kws})
                    ok = True
                except TypeError as err:
                    probs.append("%s: %s" % (a[1], err))
            elif a[0] == 'bm':
                t = names.TYPES.get(typename(a[1]))
                m = getattr(t, a[2], None) if t else None
                if m is None or star or kwstar:
                    unk = True
                    continue
                rule = "ext-arity"
                try:
                    sig = inspect.signature(m)
                    sig.bind(*([None] * (npos + 1)), **{k: None for k in kws})
                    ok = True
                except ValueError:
                    unk = True
                except TypeError as err:
                    probs.append("%s.%s: %s" % (typename(a[1]), a[2], err))
            elif a[0] in ('k', 't', 'pat', 'tup', 'list', 'dict'):
                if typename(a) in names.TYPES and typename(a) != "NoneType" and not tested_callable(e, func):
                    probs.append("a %s is not callable" % typename(a))
                else:
                    unk = True
            else:
                unk = True
        if ok:
            rep.passed(rule)
        elif unk or not probs:
            rep.undecided(rule)
        else:
            rep.violation(rule, "%s:%s:%s" % (func.module.name, func.qual, ast.unparse(e)[:120]),
                          "%s:%d" % (func.module.path, e.lineno),
                          "%s calls %s: %s" % (func.qual, ast.unparse(e.func)[:60], "; ".join(sorted(set(probs)))[:200]))


def tested_callable(e, func):
    """the callee is tested by callable() (or its type) somewhere in the
    enclosing top-level function"""
    while func.parent is not None:
        func = func.parent
    want = ast.unparse(e.func)
    for c in ast.walk(func.node):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("callable", "isinstance", "hasattr") \
                and c.args and ast.unparse(c.args[0]) == want:
            return True
    return False


def directives(s):
    """Number of values a %-format consumes, or None (mapping, error)."""
    n = i = 0
    while i < len(s):
        if s[i] != '%':
            i += 1
            continue
        i += 1
        if i < len(s) and s[i] == '(':
            return None
        while i < len(s) and s[i] in '#0- +':
            i += 1
        for _ in range(2):
            if i < len(s) and s[i] == '*':
                n += 1
                i += 1
            while i < len(s) and s[i].isdigit():
                i += 1
            if i < len(s) and s[i] == '.':
                i += 1
            else:
                break
        while i < len(s) and s[i] in 'hlL':
            i += 1
        if i >= len(s):
            return -1
        if s[i] == '%':
            i += 1
            continue
        if s[i] not in 'diouxXeEfFgGcrsa':
            return -1
        n += 1
        i += 1
    return n


def check_formats(p, ty, rep):
    for f in p.functions:
        for nd in body_nodes(f.node):
            if not (isinstance(nd, ast.BinOp) and isinstance(nd.op, ast.Mod)):
                continue
            l = ty.fact(nd.left)
            if isinstance(nd.left, ast.Constant) and isinstance(nd.left.value, (str, bytes)):
                fmts = [nd.left.value]
            elif l is not TOP and l and all(a[0] == 'k' and a[2] == 'str' for a in l):
                fmts = [a[1] for a in l]
            else:
                continue
            fmts = [x.decode("latin1") if isinstance(x, bytes) else x for x in fmts]
            if isinstance(nd.right, ast.Tuple):
                if any(isinstance(x, ast.Starred) for x in nd.right.elts):
                    rep.undecided("format")
                    continue
                have = len(nd.right.elts)
            else:
                r = ty.fact(nd.right)
                if r is TOP or not r:
                    # a single opaque value: a tuple of any length or a scalar
                    if all(directives(x) not in (None, 0, -1) for x in fmts):
                        rep.passed("format")
                    else:
                        rep.undecided("format")
                    continue
                lens = set()
                for a in r:
                    if a[0] == 'tup':
                        lens.add(len(a[1]))
                    elif typename(a) == 'tuple' or a[0] in ('dict',) or typename(a) is None and a[0] != 'i':
                        lens.add(None)
                    else:
                        lens.add(1)
                if None in lens or len(lens) != 1:
                    rep.undecided("format")
                    continue
                have = lens.pop()
            bad = [x for x in fmts if directives(x) is not None and directives(x) != have]
            if bad and len(bad) == len(fmts):
                rep.violation("format", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(nd)[:120]),
                              "%s:%d" % (f.module.path, nd.lineno),
                              "%s formats %r with %d value(s)" % (f.qual, bad[0][:60], have))
                continue
            # numeric directives need numbers
            elts = nd.right.elts if isinstance(nd.right, ast.Tuple) else [nd.right]
            wrong = numeric_mismatch(fmts[0], elts, ty) if len(fmts) == 1 else None
            if wrong:
                rep.violation("format", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(nd)[:120]),
                              "%s:%d" % (f.module.path, nd.lineno),
                              "%s formats %r: %s" % (f.qual, fmts[0][:60], wrong))
            else:
                rep.passed("format")


def numeric_mismatch(fmt, elts, ty):
    codes = []
    import re
    if "*" in fmt or "%(" in fmt:
        return None
    for mt in re.finditer(r"%[#0\- +]*\d*(?:\.\d+)?[hlL]?([diouxXeEfFgGcrsa%])", fmt):
        if mt.group(1) != '%':
            codes.append(mt.group(1))
    if len(codes) != len(elts):
        return None
    for c, e in zip(codes, elts):
        if c in "diouxXeEfFgG":
            v = ty.fact(e)
            if v is TOP or not v:
                continue
            if all(typename(a) in ("str", "bytes", "list", "dict", "tuple") or
                   a[0] in ('i', 'C', 'f') and not has_num(a) for a in v):
                return "%%%s applied to %s (%s)" % (c, ast.unparse(e)[:40], show(v))
    return None


def has_num(a):
    if a[0] != 'i':
        return False
    return any(n in a[1].attrs for n in ("__int__", "__index__", "__float__"))


def check_exc(p, ty, rep):
    for f in p.functions:
        for nd in body_nodes(f.node):
            exprs = []
            if isinstance(nd, ast.ExceptHandler) and nd.type is not None:
                exprs = list(nd.type.elts) if isinstance(nd.type, ast.Tuple) else [nd.type]
            elif isinstance(nd, ast.Raise) and nd.exc is not None:
                exprs = [nd.exc]
            for e in exprs:
                v = ty.fact(e)
                if not isinstance(nd, ast.Raise) and (v is TOP or not v):
                    r = p.resolve_expr(f.module, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
                    if isinstance(r, ClassInfo):
                        v = frozenset([('C', r)])
                    elif isinstance(r, External):
                        v = frozenset([('x', r.dotted)])
                if v is TOP or not v:
                    rep.undecided("exc-class")
                    continue
                good = unk = False
                for a in v:
                    if a[0] in ('C', 'i'):
                        k = exc_class(p, a[1])
                        good |= k is True
                        unk |= k is None
                    elif a[0] == 'x':
                        known, o, _, _ = names.ext_resolve(a[1])
                        if not known or o is None or not isinstance(o, type):
                            unk = True
                        else:
                            good |= issubclass(o, BaseException)
                    elif a[0] in ('k', 't', 'pat', 'tup', 'list', 'dict') and typename(a) in names.TYPES \
                            and typename(a) not in ("tuple",):
                        pass
                    else:
                        unk = True
                if good:
                    rep.passed("exc-class")
                elif unk:
                    rep.undecided("exc-class")
                else:
                    rep.violation("exc-class", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(e)[:100]),
                                  "%s:%d" % (f.module.path, e.lineno),
                                  "%s %s %s, which is not an exception" % (
                                      f.qual, "raises" if isinstance(nd, ast.Raise) else "catches", ast.unparse(e)[:60]))


def exc_class(p, c):
    unk = False
    for k in p.mro(c):
        if isinstance(k, External):
            known, o, _, _ = names.ext_resolve(k.dotted)
            if known and isinstance(o, type):
                if issubclass(o, BaseException):
                    return True
            else:
                unk = True
        elif k is None:
            unk = True
    return None if unk else False


NUM = {"int", "bool", "float"}
SEQ = {"str", "bytes", "list", "tuple"}


def bad_binop(op, l, r):
    """definite TypeError of two builtin operand types"""
    if l not in names.TYPES or r not in names.TYPES or "NoneType" in (l, r):
        return False
    if isinstance(op, ast.Add):
        if l in NUM and r in NUM:
            return False
        if l == r and l in SEQ:
            return False
        return (l in NUM or l in SEQ) and (r in NUM or r in SEQ)
    if isinstance(op, (ast.Sub, ast.Div, ast.FloorDiv, ast.Pow)):
        return (l in NUM and r in SEQ) or (l in SEQ and r in NUM | SEQ)
    if isinstance(op, ast.Mult):
        return l in SEQ and r in SEQ | {"float"} or r in SEQ and l == "float"
    if isinstance(op, (ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr, ast.BitXor)):
        return (l in SEQ or l == "float") and (r in NUM or r in SEQ) or (l in NUM and (r in SEQ or r == "float"))
    if isinstance(op, ast.Mod):
        return l in NUM and r in SEQ or l in ("list", "tuple") and (r in NUM or r in SEQ)
    return False


def atypes(v):
    if v is TOP or not v:
        return None
    out = set()
    for a in v:
        t = typename(a)
        if t is None or t == "NoneType":
            return None
        out.add(t)
    return out


def check_operators(p, ty, rep):
    for f in p.functions:
        for nd in body_nodes(f.node):
            if isinstance(nd, (ast.BinOp, ast.AugAssign)):
                lv, rv = (nd.left, nd.right) if isinstance(nd, ast.BinOp) else (nd.target, nd.value)
                l = atypes(ty.fact(lv)) if isinstance(nd, ast.BinOp) else None
                r = atypes(ty.fact(rv))
                if l is None or r is None:
                    continue
                if all(bad_binop(nd.op, a, b) for a in l for b in r):
                    rep.violation("operator", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(nd)[:120]),
                                  "%s:%d" % (f.module.path, nd.lineno),
                                  "%s computes %s, but the operands are %s and %s" % (
                                      f.qual, ast.unparse(nd)[:80], "/".join(sorted(l)), "/".join(sorted(r))))
                else:
                    rep.passed("operator")
            elif isinstance(nd, ast.Subscript) and not isinstance(nd.slice, ast.Slice) and isinstance(nd.ctx, ast.Load):
                l, r = atypes(ty.fact(nd.value)), atypes(ty.fact(nd.slice))
                if l is None or r is None:
                    continue
                if l <= SEQ and r and not (r & {"int", "bool"}) and r <= (NUM | SEQ) or l <= NUM:
                    rep.violation("operator", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(nd)[:120]),
                                  "%s:%d" % (f.module.path, nd.lineno),
                                  "%s indexes a %s with a %s" % (f.qual, "/".join(sorted(l)), "/".join(sorted(r))))
                else:
                    rep.passed("operator")
            elif isinstance(nd, ast.ExceptHandler) and nd.name and nd.type is not None:
                bad = None
                if not any(isinstance(x, ast.Name) and x.id == nd.name and isinstance(x.ctx, ast.Store)
                           for st in nd.body for x in ast.walk(st)) and not getitem_exc(p, f, nd.type):
                    for st in nd.body:
                        for x in ast.walk(st):
                            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == nd.name:
                                bad = x
                if bad is not None:
                    rep.violation("exception-object", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(bad)),
                                  "%s:%d" % (f.module.path, bad.lineno),
                                  "%s indexes the exception object %s, which has no items" % (f.qual, nd.name))
                else:
                    rep.passed("exception-object")


def getitem_exc(p, f, typ):
    for e in (typ.elts if isinstance(typ, ast.Tuple) else [typ]):
        r = p.resolve_expr(f.module, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if isinstance(r, ClassInfo) and any(isinstance(k, ClassInfo) and "__getitem__" in k.attrs for k in p.mro(r)):
            return True
    return False


HOOKS = {"createValue", "createDisplay", "createRawDisplay", "createDescription", "createFields", "validate",
         "createMimeType", "createContentSize", "createFilenameSuffix", "getFieldType",
         "_getValue"}


def required(f, bound):
    """parameters of f without default, after the receiver when bound"""
    a = f.node.args
    names_ = [x.arg for x in a.posonlyargs + a.args]
    n = len(names_) - len(a.defaults)
    kw = sum(1 for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None)
    return max(0, n - (1 if bound else 0)) + kw


def check_hooks(p, ty, rep):
    field = p.cls("hachoir.field.field.Field")
    for f in p.functions:
        if f.cls is not None and f.parent is None and f.name in HOOKS and p.is_subclass(f.cls, field) and not f.is_static:
            key = "%s:%s" % (f.module.name, f.qual)
            if required(f, True) or not (f.params or f.node.args.vararg):
                if f.name == "createInputStream":
                    continue
                rep.violation("hook-arity", key, f.where, "%s needs arguments, but the core calls %s() without any"
                              % (f.qual, f.name))
            else:
                rep.passed("hook-arity")
        for nd in body_nodes(f.node):
            if not isinstance(nd, ast.Assign):
                continue
            for t in nd.targets:
                if not (isinstance(t, ast.Attribute) and t.attr in HOOKS):
                    continue
                v = ty.fact(nd.value)
                if isinstance(nd.value, ast.Lambda):
                    a = nd.value.args
                    n = len(a.posonlyargs + a.args) - len(a.defaults)
                    funcs = [(None, n)]
                elif v is not TOP and v and all(x[0] == 'f' for x in v):
                    funcs = [(x[1], required(x[1], x[2] is not None)) for x in v]
                else:
                    rep.undecided("hook-arity")
                    continue
                bad = [x for x in funcs if x[1] > 0]
                if bad and len(bad) == len(funcs) and t.attr != "createInputStream":
                    rep.violation("hook-arity", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(nd)[:100]),
                                  "%s:%d" % (f.module.path, nd.lineno),
                                  "%s installs a %s which needs an argument; the core calls it without any"
                                  % (f.qual, t.attr))
                else:
                    rep.passed("hook-arity")
