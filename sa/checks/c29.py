"""Fields of one parent have names of their own; names, sizes and descriptions have the type they should."""
import ast
from ..order import Creations, again, assigned, rest
from ..project import FuncInfo
from ..types import TOP, str_parts, typename


def run(ctx, rep):
    rep.rule("twice", "a field of a fixed name (not ending with []) is not created where a field of that name has been "
             "created before in every run", 2139)
    rep.rule("loop", "a field created in every turn of a loop has a name which ends with [] or changes", 166)
    rep.rule("name", "the name of a field is text, not empty, without the separator of paths", 2197)
    rep.rule("description", "the description of a field is text", 1903)
    rep.rule("size", "the size of a field is a whole number which is not negative", 151)
    cr = Creations(ctx)
    for f in ctx.project.functions:
        names(rep, cr, f)
    arguments(ctx, rep)


def where(f, nd):
    return "%s:%d" % (f.module.path, nd.lineno)


def names(rep, cr, f):
    cs = cr.of(f)
    for i, b in enumerate(cs):
        if b.name.endswith("[]"):
            if b.func is f and b.loops:
                rep.passed("loop")
            continue
        first = next((a for a in cs[:i] if a.name == b.name and a.guards <= b.guards), None)
        if first is not None:
            rep.violation("twice", "%s:%s:%s" % (b.func.module.name, b.func.qual, ast.unparse(b.call)[:80]),
                          where(b.func, b.call),
                          "%s creates a field \"%s\" where %s has always created one (line %d)" % (
                              b.func.qual, b.name, first.func.qual, first.call.lineno))
            continue
        rep.passed("twice")
        if b.loops and b.func is f:
            st, inner = b.loops[-1]
            if each_turn(cr, b, inner) and again(st) and not rest(st, b.call):
                rep.violation("loop", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(b.call)[:80]), where(f, b.call),
                              "%s creates a field \"%s\" in every turn of a loop" % (f.qual, b.name))
            else:
                rep.passed("loop")


def each_turn(cr, b, inner):
    """the creation happens in every turn of the loop, if it happens in one"""
    st = b.loops[-1][0]
    more = b.here - inner
    if any(g[0] != "fact" for g in more):
        return False
    gone = assigned([st])
    return not any((n if isinstance(n, str) else n[1]) in gone for g in more for n in g[3])


def arguments(ctx, rep):
    """a call is judged when every class it may create agrees"""
    ty, fm = ctx.types, ctx.fields
    calls = {}
    for (site, cls), rec in ty.sites.items():
        if fm.is_field(cls):
            calls.setdefault(id(rec["node"]), []).append((cls, rec))
    for group in calls.values():
        rec = group[0][1]
        node, func = rec["node"], rec["func"]
        if func is None or not isinstance(node, ast.Call):
            continue
        for rule, par, bad in (("name", "name", bad_name), ("description", "description", bad_text),
                               ("size", "size", bad_size)):
            vs = []
            for cls, r in group:
                init = ctx.project.find_attr(cls, "__init__")
                if not isinstance(init, FuncInfo) or par not in init.params:
                    vs = None
                    break
                vs.append(fm.ctor_param(cls, r, par))
            if not vs:
                continue
            why = [bad(v) for v in vs]
            if any(w is None for w in why):
                rep.undecided(rule)
            elif all(why):
                rep.violation(rule, "%s:%s:%s" % (func.module.name, func.qual, ast.unparse(node)[:100]),
                              where(func, node), "%s: the %s of a field %s: %s" % (
                                  func.qual, par, why[0], ast.unparse(node)[:100]))
            else:
                rep.passed(rule)


def bad_name(v):
    if v is TOP or not v:
        return None
    for a in v:
        ps = str_parts(a)
        if ps == ("",) or ps and any(x and "/" in x for x in ps):
            return "is %s" % show(a)
    if all(str_parts(a) is None and typename(a) not in ("str", None) for a in v):
        return "is %s" % ", ".join(sorted({show(a) for a in v}))
    return None if any(typename(a) is None for a in v) else ""


def bad_text(v):
    if v is TOP or not v:
        return None
    ts = {typename(a) for a in v}
    if None in ts:
        return None
    if ts & {"str", "NoneType"}:
        return ""
    return "is %s" % ", ".join(sorted(show(a) for a in v))


def bad_size(v):
    if v is TOP or not v:
        return None
    ts = {typename(a) for a in v}
    if None in ts:
        return None
    if not ts & {"int", "NoneType", "bool", "function"}:
        return "is %s" % ", ".join(sorted(show(a) for a in v))
    if all(a[0] == "k" and isinstance(a[1], int) and a[1] < 0 for a in v):
        return "is negative"
    return ""


def show(a):
    if a[0] == "k":
        return repr(a[1])
    return str(typename(a))
