"""Every metadata value is stored under a registered key, with a type the key accepts."""
import ast
from ..const import Const, Unknown, Ref
from ..project import AnalysisBroken, ClassInfo, FuncInfo, External, body_nodes, assigned_pairs
from ..types import TOP, typename

META = "hachoir.metadata.metadata.Metadata"
READERS = {"get": 0, "getItems": 0, "getItem": 0, "has": 0, "getValues": 0, "getText": 0}
CONV = {"setDatetime": {"str", "date", "datetime"}, "setTrackNumber": {"str", "int", "bool"},
        "setLanguage": {"str"}}
DATES = {"datetime.timedelta": "timedelta", "datetime.datetime": "datetime", "datetime.date": "date"}


def run(ctx, rep):
    rep.rule("key", "a metadata value is stored under a registered key", 140)
    rep.rule("read-key", "metadata are asked for a registered key", 14)
    rep.rule("type", "a stored value can have a type its key accepts (any other value is dropped for every file)", 60)
    rep.rule("register", "each key is registered once, with a text description, a priority in the allowed range and type "
             "and filter which agree", 35)
    rep.rule("extractor", "each extractor is registered for one listed parser class, derives from RootMetadata and has "
             "extract(parser)", 12)
    rep.rule("loaded", "every module which registers extractors is imported with the package", 3)
    rep.rule("tables", "a table from field or tag names to metadata keys names registered keys", 40)
    p, ty = ctx.project, ctx.types
    c = Const(p)
    meta = p.cls(META)

    # -- registered keys
    reg = p.func("hachoir.metadata.register.registerAllItems")
    init = p.func("hachoir.metadata.metadata_item.Data.__init__")
    dparams = [x for x in init.params if x != "self"]
    keys = {}
    try:
        lo = c.module_name(init.module, "MIN_PRIORITY")
        hi = c.module_name(init.module, "MAX_PRIORITY")
    except Unknown as e:
        raise AnalysisBroken("priorities: %s" % e)
    regs = []
    for f in p.functions:
        for n in body_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) \
                    and p.resolve_expr(f.module, n.func) is p.cls("hachoir.metadata.metadata_item.Data"):
                regs.append((f, n))
    if not any(f is reg for f, n in regs) and not regs:
        raise AnalysisBroken("no registration found")
    opaque = False
    for f, n in regs:
        a = dict(zip(dparams, n.args))
        a.update({k.arg: k.value for k in n.keywords})
        where = "%s:%d" % (f.module.path, n.lineno)
        try:
            key = c.value(f.module, a["key"])
        except (Unknown, KeyError):
            opaque = True
            continue
        try:
            prio = c.value(f.module, a["priority"])
            desc = c.value(f.module, a["description"])
        except (Unknown, KeyError):
            prio = desc = None
        if key in keys:
            rep.violation("register", "%s:duplicate" % key, where, "metadata key %r is registered twice: every "
                          "extraction fails" % key)
        elif prio is not None and not (isinstance(prio, int) and lo <= prio <= hi):
            rep.violation("register", "%s:priority" % key, where, "priority %r of %r is outside %s..%s: every extraction "
                          "fails" % (prio, key, lo, hi))
        elif desc is not None and not isinstance(desc, str):
            rep.violation("register", "%s:description" % key, where, "description of %r is not a text" % key)
        else:
            rep.passed("register", sample="%s" % key)
        types = None
        if "type" in a:
            types = set()
            for t in (a["type"].elts if isinstance(a["type"], (ast.Tuple, ast.List)) else [a["type"]]):
                r = p.resolve_expr(f.module, t)
                nm = r.dotted if isinstance(r, External) else r.name if isinstance(r, ClassInfo) else None
                if nm is None:
                    types = None
                    break
                types.add(nm.rsplit(".", 1)[-1])
        conv = None
        if "conversion" in a:
            r = p.resolve_expr(f.module, a["conversion"])
            conv = r.name if isinstance(r, FuncInfo) else "?"
        keys[key] = (types, conv, a)
        # filter and type agree
        fl = a.get("filter")
        if isinstance(fl, ast.Call):
            r = p.resolve_expr(f.module, fl.func)
            if isinstance(r, ClassInfo) and r.name == "NumberFilter":
                try:
                    mn, mx = ([c.value(f.module, x) for x in fl.args] + [None, None])[:2]
                except Unknown:
                    mn = mx = None
                if types and not types & {"int", "float"}:
                    rep.violation("register", "%s:filter" % key, where, "%r has a number filter but no number type" % key)
                elif mn is not None and mx is not None and not mn <= mx:
                    rep.violation("register", "%s:filter" % key, where, "the filter of %r accepts no value (%r..%r)" % (
                        key, mn, mx))
                else:
                    rep.passed("register")
    if opaque:
        rep.notes.append("a registration with a computed key: unknown keys are undecided")

    def is_meta(e, f):
        """the expression is a metadata object, for sure"""
        v = ty.fact(e)
        if v is TOP or not v:
            return False
        return all(len(a) > 1 and isinstance(a[1], ClassInfo) and a[0] not in ("cls", "class") and p.is_subclass(a[1], meta)
                   for a in v)

    def kinds(e, f, depth=0):
        v = ty.fact(e)
        out = None
        if v is not TOP and v:
            out = set()
            for a in v:
                t = typename(a)
                if t is None:
                    out = None
                    break
                out.add(t)
            if out is not None:
                return out
        if isinstance(e, ast.Call):
            r = p.resolve_expr(f.module, e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if isinstance(r, External):
                if r.dotted in DATES:
                    return {DATES[r.dotted]}
                if r.dotted in ("builtins.float", "builtins.int", "builtins.str", "builtins.len"):
                    return {{"len": "int"}.get(r.dotted[9:], r.dotted[9:])}
                if r.dotted == "builtins.round" and len(e.args) == 2:
                    return {"float"}
            if isinstance(r, FuncInfo) and r.module.name == "hachoir.metadata.safe" and r.name == "getDisplay":
                return {"str", "NoneType"}
        if isinstance(e, ast.Attribute) and e.attr == "display":
            return {"str"}
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
            a, b = kinds(e.left, f), kinds(e.right, f)
            num = {"int", "float", "bool"}
            if a and a <= num or b and b <= num:
                return {"float"}
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(
                e.left.value, str):
            return {"str"}
        if isinstance(e, ast.JoinedStr):
            return {"str"}
        if isinstance(e, ast.IfExp):
            a, b = kinds(e.body, f), kinds(e.orelse, f)
            return a | b if a and b else None
        if isinstance(e, ast.Name) and depth < 2:
            vals = []
            for n in body_nodes(f.node):
                for t, v in assigned_pairs(n):
                    if isinstance(t, ast.Name) and t.id == e.id:
                        vals.append(v)
            if e.id in f.all_params or not vals or any(v is None for v in vals):
                return None
            out = set()
            for v in vals:
                k = kinds(v, f, depth + 1)
                if k is None:
                    return None
                out |= k
            return out
        return None

    for f in p.functions:
        if f.cls is meta:
            continue
        for n in body_nodes(f.node):
            for t, v in assigned_pairs(n):
                if not isinstance(t, ast.Attribute) or not is_meta(t.value, f):
                    continue
                where = "%s:%d" % (f.module.path, n.lineno)
                ident = "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(t))
                if t.attr not in keys:
                    if opaque:
                        rep.undecided("key")
                    else:
                        rep.violation("key", ident, where, "%s stores metadata under %r, which is not registered: "
                                      "the store raises KeyError for every file" % (f.qual, t.attr))
                    continue
                rep.passed("key", sample="%s: %s" % (f.where, ast.unparse(t)))
                if v is None:
                    continue
                types, conv, _ = keys[t.attr]
                if isinstance(v, ast.Tuple):
                    if len(v.elts) != 2:
                        rep.violation("type", ident + ":tuple", where, "%s stores %d values under %r: only (value, text) is "
                                      "accepted" % (f.qual, len(v.elts), t.attr))
                        continue
                    v = v.elts[0]
                acc = types
                if conv is not None:
                    acc = CONV.get(conv)
                k = kinds(v, f)
                if k is None or acc is None or "tuple" in k or "list" in k and conv:
                    rep.undecided("type")
                    continue
                k = {x for x in k if x != "NoneType"}
                if conv is None:
                    k = {"str" if x == "bytes" else x for x in k}
                if not k or any(x in acc or x == "bool" and "int" in acc or x == "datetime" and "date" in acc for x in k):
                    rep.passed("type", sample="%s: %s = %s" % (f.where, ast.unparse(t), ast.unparse(v)[:40]))
                else:
                    rep.violation("type", ident + "=" + ast.unparse(v)[:60], where,
                                  "%s stores %s under %r, which accepts only %s: the value is always dropped" % (
                                      f.qual, "/".join(sorted(k)), t.attr, "/".join(sorted(acc))))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in READERS and n.args \
                    and is_meta(n.func.value, f):
                a = n.args[0]
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    if a.value in keys or opaque:
                        rep.passed("read-key", sample="%s: %s" % (f.where, ast.unparse(n)))
                    else:
                        rep.violation("read-key", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(n)),
                                      "%s:%d" % (f.module.path, n.lineno), "%s asks metadata for %r, which is not "
                                      "registered: always fails" % (f.qual, a.value))
            # setattr(meta, KEY, value) through a table
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 \
                    and is_meta(n.args[0], f):
                v = ty.fact(n.args[1])
                if v is TOP or not v or any(a[0] != 'k' for a in v):
                    rep.undecided("key")
                    continue
                for a in v:
                    if a[1] in keys or opaque:
                        rep.passed("key")
                    else:
                        rep.violation("key", "%s:%s:setattr:%s" % (f.module.name, f.qual, a[1]),
                                      "%s:%d" % (f.module.path, n.lineno), "%s stores metadata under %r, which is not "
                                      "registered" % (f.qual, a[1]))

    # -- tables of keys
    for k in p.descendants(meta):
        for name, vals in sorted(k.attrs.items()):
            if not name.isupper() or not any(u in name for u in ("KEY", "ATTR", "META")):
                continue
            try:
                d = c.own_value(k, name)
            except Unknown:
                continue
            if not isinstance(d, dict) or not d:
                continue
            for a, v in d.items():
                v = v[0] if isinstance(v, tuple) and v else v
                if not isinstance(v, str):
                    continue
                hits = sum(1 for x in d.values() if (x[0] if isinstance(x, tuple) and x else x) in keys)
                if hits * 2 < len(d):
                    continue
                if v in keys or opaque:
                    rep.passed("tables", sample="%s.%s: %r" % (k.name, name, v))
                else:
                    rep.violation("tables", "%s.%s:%r" % (k.fullname, name, a), "%s:%d" % (
                        k.module.path, vals[-1].stmt.lineno), "%s.%s maps %r to %r, which is not a registered metadata "
                        "key" % (k.name, name, a, v))

    # -- extractors
    rf = p.func("hachoir.metadata.metadata.registerExtractor")
    root = p.cls("hachoir.metadata.metadata.RootMetadata")
    hp = p.cls("hachoir.parser.parser.HachoirParser")
    pkg = p.modules["hachoir.metadata"]
    from .c14 import imported
    done = set()
    imported(p, pkg, done)
    seen = {}
    for m in sorted(p.modules.values(), key=lambda m: m.name):
        calls = [n for st in m.tree.body if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) for n in ast.walk(st)
                 if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute))
                 and p.resolve_expr(m, n.func) is rf]
        if not calls:
            continue
        if m in done:
            rep.passed("loaded", sample=m.name)
        else:
            rep.violation("loaded", m.name, m.path + ":1", "%s registers extractors but importing hachoir.metadata does not "
                          "load it" % m.name)
        for n in calls:
            where = "%s:%d" % (m.path, n.lineno)
            if len(n.args) != 2:
                rep.undecided("extractor")
                continue
            a, b = (p.resolve_expr(m, x) for x in n.args)
            if not isinstance(a, ClassInfo) or not isinstance(b, ClassInfo):
                rep.undecided("extractor")
                continue
            key = "%s:%s" % (a.fullname, b.fullname)
            ex = p.find_attr(b, "extract")
            if a in seen:
                rep.violation("extractor", key + ":twice", where, "two extractors are registered for %s: importing the "
                              "package fails" % a.name)
            elif not p.is_subclass(a, hp):
                rep.violation("extractor", key + ":parser", where, "%s is not a parser class" % a.name)
            elif not p.is_subclass(b, root):
                rep.violation("extractor", key + ":root", where, "%s does not derive from RootMetadata: importing the "
                              "package fails" % b.name)
            elif not isinstance(ex, FuncInfo) or len(ex.params) - len(ex.args.defaults) > 2 or (
                    len(ex.params) < 2 and ex.args.vararg is None):
                rep.violation("extractor", key + ":extract", where, "%s has no extract(parser) method" % b.name)
            else:
                rep.passed("extractor", sample="%s: %s" % (a.name, b.name))
            seen[a] = b
    # an extractor nobody registers
    for k in p.descendants(root):
        if "extract" in k.attrs and not any(k is b or p.is_subclass(b, k) for b in seen.values()):
            used = any(isinstance(n, ast.Name) and n.id == k.name and isinstance(n.ctx, ast.Load)
                       for m in p.modules.values() for n in ast.walk(m.tree) if not isinstance(n, ast.ClassDef))
            if not used:
                rep.violation("extractor", k.fullname + ":unused", k.where.split(" ")[0], "%s.extract() is never "
                              "registered: its parser's metadata are never extracted" % k.name)
