"""Field path references resolve to declared fields."""
import ast
from ..project import body_nodes
from ..types import TOP, str_parts


def show(parts):
    return "".join("*" if p is None else p for p in parts)


def referenced_names(project):
    out = set()
    for m in project.modules.values():
        for nd in ast.walk(m.tree):
            if isinstance(nd, ast.Name):
                out.add(nd.id)
            elif isinstance(nd, ast.Attribute):
                out.add(nd.attr)
            elif isinstance(nd, ast.alias):
                out.add(nd.name)
            elif isinstance(nd, ast.ClassDef) and any(
                    k == "PARSER_TAGS" for st in nd.body if isinstance(st, ast.Assign)
                    for k in [getattr(st.targets[0], "id", None)]):
                out.add(nd.name)
    return out


def run(ctx, rep):
    fm = ctx.fields
    ty = fm.ty
    rep.rule("index-path", "field_set[\"path\"] on every field-set value: the path denotes a field some "
             "construction site can create under that class", 1200)
    rep.rule("member-path", "\"path\" in field_set tests a name that can exist", 60)
    rep.rule("array-name", "field_set.array(\"name\") names an existing array of fields", 30)
    rep.rule("class-instances", "field set classes with a child model", 283)
    rep.passed("class-instances", len([c for c in fm.model if fm.is_fieldset(c)]))

    def decide(rule, f, node, base, idx, suffix=()):
        if idx is TOP or not idx or not all(str_parts(x) for x in idx):
            return
        if base is TOP or not base:
            rep.undecided(rule)
            return
        if not all(a[0] == 'i' and fm.is_field(a[1]) for a in base):
            return
        top = ok = False
        for a in base:
            for k in idx:
                r = fm.resolve(a, str_parts(k) + suffix)
                if r is TOP:
                    top = True
                elif r:
                    ok = True
        if ok:
            rep.passed(rule, sample="%s: %s" % (f.where, ast.unparse(node)))
        elif top:
            rep.undecided(rule)
        else:
            rep.violation(rule, "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(node)),
                          "%s:%d" % (f.module.path, node.lineno),
                          "%s refers to field %s, which no code path of %s declares" % (
                              f.qual, " / ".join(sorted(show(str_parts(k)) for k in idx))[:120],
                              ", ".join(sorted({a[1].name for a in base}))[:120]))

    used = referenced_names(ctx.project)
    for f in ctx.project.functions:
        if f.cls is not None and f.cls.name not in used:
            continue    # a class nothing refers to is in no parse tree
        for nd in body_nodes(f.node):
            if isinstance(nd, ast.Subscript) and not isinstance(nd.slice, ast.Slice) \
                    and isinstance(nd.ctx, ast.Load):
                decide("index-path", f, nd, ty.fact(nd.value), ty.fact(nd.slice))
            elif isinstance(nd, ast.Compare) and len(nd.ops) == 1 and \
                    isinstance(nd.ops[0], (ast.In, ast.NotIn)):
                decide("member-path", f, nd, ty.fact(nd.comparators[0]), ty.fact(nd.left))
            elif isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.args:
                if nd.func.attr == "array":
                    decide("array-name", f, nd, ty.fact(nd.func.value), ty.fact(nd.args[0]),
                           ("[", None, "]"))
                elif nd.func.attr == "getField":
                    decide("index-path", f, nd, ty.fact(nd.func.value), ty.fact(nd.args[0]))
