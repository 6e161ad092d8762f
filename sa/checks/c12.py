"""Text and bytes never meet: comparisons, membership, concatenation, search."""
import ast
from ..project import body_nodes
from ..types import TOP, typename

TEXT = {"str"}
RAW = {"bytes", "bytearray"}


def kinds(v):
    """set of 'str'/'bytes'/other type names, or None when unknown"""
    if v is TOP or not v:
        return None
    out = set()
    for a in v:
        t = typename(a)
        out.add({"bytearray": "bytes"}.get(t, t) if t else "?")
    return out


def elem_kinds(ty, v):
    """kinds of the elements of a container value, or None"""
    if v is TOP or not v:
        return None
    out = set()
    for a in v:
        if a[0] == 'tup':
            for x in a[1]:
                k = kinds(x)
                if k is None:
                    return None
                out |= k
        elif a[0] in ('list', 'set') and len(a) > 1:
            k = kinds(a[1])
            if k is None:
                return None
            out |= k
        elif a[0] == 'dict':
            d = ty.dicts.get(a[1]) if len(a) > 1 else None
            if not d:
                return None
            for kv in d:
                k = kinds(kv[0])
                if k is None:
                    return None
                out |= k
        else:
            return None
    return out


def clash(a, b):
    if not a or not b:
        return False
    return (a <= {"str"} and b <= {"bytes"}) or (a <= {"bytes"} and b <= {"str"})


METHODS_SAME = {"startswith", "endswith", "find", "rfind", "index", "rindex", "count", "split", "rsplit",
                "strip", "lstrip", "rstrip", "replace", "partition", "rpartition", "join", "removeprefix",
                "removesuffix"}


def run(ctx, rep):
    p, ty = ctx.project, ctx.types
    rep.rule("compare", "an equality or order test with a text or bytes operand never compares text with bytes", 150)
    rep.rule("member", "a membership test never looks for text among bytes or bytes among text", 30)
    rep.rule("lookup-key", "a table keyed by text is never indexed with bytes, nor the reverse", 12)
    rep.rule("combine", "text and bytes are never concatenated or joined", 49)
    rep.rule("method", "str methods get text arguments and bytes methods get bytes arguments", 46)
    rep.rule("bytes-arg", "raw-data parameters (search patterns, magic) receive bytes", 13)
    rep.rule("self-example", "the rules recognise a known clash", 1)
    if clash({"str"}, {"bytes"}) and not clash({"str"}, {"str"}) and not clash({"int"}, {"bytes"}):
        rep.passed("self-example")

    for f in p.functions:
        where = lambda nd: "%s:%d" % (f.module.path, nd.lineno)
        key = lambda nd: "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(nd)[:120])
        for nd in body_nodes(f.node):
            if isinstance(nd, ast.Compare):
                left = nd.left
                for op, right in zip(nd.ops, nd.comparators):
                    lk, rk = kinds(ty.fact(left)), kinds(ty.fact(right))
                    if isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                        tb = TEXT | {"bytes"}
                        if lk and rk and lk <= tb and rk <= tb:
                            if clash(lk, rk):
                                rep.violation("compare", key(nd), where(nd), "%s compares %s with %s: %s" % (
                                    f.qual, "/".join(lk), "/".join(rk), ast.unparse(nd)[:80]))
                            else:
                                rep.passed("compare", sample="%s: %s" % (f.where, ast.unparse(nd)[:80]))
                        elif (lk and lk <= tb) or (rk and rk <= tb):
                            rep.undecided("compare")
                    elif isinstance(op, (ast.In, ast.NotIn)):
                        if lk and rk and (clash(lk, rk)):
                            rep.violation("member", key(nd), where(nd), "%s looks for %s in %s" % (
                                f.qual, "/".join(lk), "/".join(rk)))
                        elif lk and lk <= {"str", "bytes"}:
                            ek = elem_kinds(ty, ty.fact(right))
                            if ek is None:
                                if rk and rk <= {"str", "bytes"}:
                                    rep.passed("member")
                                else:
                                    rep.undecided("member")
                            elif ek and not (lk & ek) and ek <= {"str", "bytes"}:
                                rep.violation("member", key(nd), where(nd),
                                              "%s looks for %s among %s values" % (
                                                  f.qual, "/".join(lk), "/".join(ek)))
                            else:
                                rep.passed("member")
                    left = right
            elif isinstance(nd, ast.BinOp) and isinstance(nd.op, ast.Add):
                lk, rk = kinds(ty.fact(nd.left)), kinds(ty.fact(nd.right))
                if clash(lk, rk):
                    rep.violation("combine", key(nd), where(nd), "%s concatenates %s and %s" % (
                        f.qual, "/".join(lk), "/".join(rk)))
                elif lk and rk and (lk | rk) <= {"str", "bytes"}:
                    rep.passed("combine")
            elif isinstance(nd, ast.Subscript) and not isinstance(nd.slice, ast.Slice):
                b = ty.fact(nd.value)
                ik = kinds(ty.fact(nd.slice))
                if b is not TOP and b and all(a[0] == 'dict' for a in b) and ik and ik <= {"str", "bytes"} \
                        and isinstance(nd.ctx, ast.Load):
                    ek = elem_kinds(ty, b)
                    if ek and not (ik & ek) and ek <= {"str", "bytes"}:
                        rep.violation("lookup-key", key(nd), where(nd), "%s indexes a table keyed by %s with %s" % (
                            f.qual, "/".join(ek), "/".join(ik)))
                    elif ek:
                        rep.passed("lookup-key")
                    else:
                        rep.undecided("lookup-key")
            elif isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute):
                b = kinds(ty.fact(nd.func.value))
                m = nd.func.attr
                if b and b <= {"str", "bytes"} and m in METHODS_SAME:
                    bad = None
                    for x in nd.args[:2]:
                        v = ty.fact(x)
                        k = kinds(v)
                        if m == "join" or (m in ("startswith", "endswith") and k and "tuple" in k):
                            k = elem_kinds(ty, v)
                        if clash(b, k):
                            bad = (x, k)
                    if bad:
                        rep.violation("method", key(nd), where(nd), "%s calls %s method %s with %s" % (
                            f.qual, "/".join(b), m, "/".join(bad[1])))
                    else:
                        rep.passed("method")
                elif m == "get" and nd.args:
                    v = ty.fact(nd.func.value)
                    ik = kinds(ty.fact(nd.args[0]))
                    if v is not TOP and v and all(a[0] == 'dict' for a in v) and ik and ik <= {"str", "bytes"}:
                        ek = elem_kinds(ty, v)
                        if ek and not (ik & ek) and ek <= {"str", "bytes"}:
                            rep.violation("lookup-key", key(nd), where(nd),
                                          "%s indexes a table keyed by %s with %s" % (
                                              f.qual, "/".join(ek), "/".join(ik)))
                        elif ek:
                            rep.passed("lookup-key")
    raw_args(ctx, rep)


RAW_PARAMS = [
    ("hachoir.stream.input.InputStream", "searchBytes", "needle"),
    ("hachoir.stream.input.InputStream", "searchBytesLength", "needle"),
    ("hachoir.stream.output.OutputStream", "writeBytes", "bytes"),
    ("hachoir.stream.input.StringInputStream", "__init__", "data"),
    ("hachoir.core.bits", "str2long", "data"),
    ("hachoir.core.bits", "str2bin", "value"),
]


def raw_args(ctx, rep):
    """every value that reaches a raw-data parameter"""
    p, ty = ctx.project, ctx.types
    for owner, name, param in RAW_PARAMS:
        try:
            f = p.func(owner + "." + name)
        except Exception:
            continue
        if param not in f.params:
            continue
        idx = f.params.index(param)
        for e, func, fv, star in list(ty.call_facts.values()):
            if fv is TOP or not fv or func is None:
                continue
            for a in fv:
                if a[0] == 'f' and a[1] is f:
                    i = idx - (1 if a[2] is not None else 0)
                elif a[0] == 'C' and name == "__init__" and p.find_attr(a[1], "__init__") is f:
                    i = idx - 1
                else:
                    continue
                x = e.args[i] if 0 <= i < len(e.args) else next((k.value for k in e.keywords if k.arg == param), None)
                if x is None or isinstance(x, ast.Starred):
                    continue
                k = kinds(ty.fact(x))
                if k is None or "?" in k:
                    rep.undecided("bytes-arg")
                elif not (k & {"bytes"}):
                    rep.violation("bytes-arg", "%s:%s:%s" % (func.module.name, func.qual, ast.unparse(e)[:100]),
                                  "%s:%d" % (func.module.path, e.lineno),
                                  "%s passes %s to %s, which handles bytes" % (func.qual, "/".join(sorted(k)), name))
                else:
                    rep.passed("bytes-arg")
                break
