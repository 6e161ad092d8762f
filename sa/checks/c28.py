"""Tests and tables on values name values the field can have, each once."""
import ast
from ..const import Const, Unknown
from ..cases import Cases, pure, subject_key
from ..domains import Domains, interval, may
from ..project import AnalysisBroken, FuncInfo, body_nodes, nid
from ..types import TOP, typename


def run(ctx, rep):
    rep.rule("constant", "a constant an expression is compared with (==, !=, in a tuple or list) is a value the "
             "expression can have: in the range of the size and sign of the field, of the length of its bytes "
             "or text, inside the mask, of the same kind", 436)
    rep.rule("dead-test", "a test is not false for every value its branch is reached with: no case is taken by "
             "earlier cases, no condition contradicts itself", 900)
    rep.rule("true-test", "a test with equalities is not true for every value: it distinguishes something", 500)
    rep.rule("table-key", "a key of a table of values is a value some field (or expression) looked up in the table "
             "can have", 170)
    rep.rule("duplicate-key", "a key is written once in a table (the last one would hide the others)", 170)
    rep.rule("field-object", "what is compared, calculated with or looked up is the value of a field, not the "
             "Field object", 1000)
    rep.rule("prefix", "the argument of startswith()/endswith() fits into the text or bytes tested", 8)
    p, ty = ctx.project, ctx.types
    doms = Domains(ctx)
    cases = Cases(ctx, doms)
    for f in p.functions:
        scan(ctx, rep, doms, cases, f)
    tables(ctx, rep, doms)
    duplicates(ctx, rep)


def where(f, nd):
    return "%s:%d" % (f.module.path, nd.lineno)


def key(f, nd):
    return "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(nd)[:120])


def describe(doms):
    out = []
    for d in doms or ():
        s = {"int": "integers", "str": "text", "bytes": "bytes", "float": "numbers"}[d.kind]
        if d.kind == 'int':
            if d.mask is not None:
                s += " made of the bits of %#x" % d.mask
            elif d.lo is not None or d.hi is not None:
                s += " from %s to %s" % (d.lo, d.hi)
        elif d.lo is not None and d.lo == d.hi:
            s += " of length %d" % d.lo
        elif d.hi is not None:
            s += " of at most %d" % d.hi
        if d.strip:
            s += ", stripped"
        if d.forbid:
            s += ", cut at %r" % (d.forbid[0],)
        if d.case:
            s += ", in %s case" % d.case
        if s not in out:
            out.append(s)
    return " or ".join(out)


def is_field(ctx, v):
    return v is not TOP and bool(v) and all(a[0] == 'i' and ctx.fields.is_field(a[1]) for a in v)


def plain(v):
    return v is not TOP and bool(v) and all(typename(a) in ("int", "str", "bytes", "float", "bool") for a in v)


ARITH = (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv, ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr, ast.BitXor)


def elements(ctx, e):
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return [ctx.types.fact(x) for x in e.elts]
    v = ctx.types.fact(e)
    if v is TOP or len(v) != 1:
        return None
    a, = v
    if a[0] == 'tup':
        return list(a[1])
    if a[0] in ('list', 'set') and len(a) > 1:
        return [a[1]]
    if a[0] == 'dict' and len(a) > 1 and ctx.types.dicts.get(a[1]):
        return [kv[0] for kv in ctx.types.dicts[a[1]]]
    return None


def scan(ctx, rep, doms, cases, f):
    p, ty = ctx.project, ctx.types
    elifs = set()
    nodes = list(body_nodes(f.node))
    for nd in nodes:
        if isinstance(nd, ast.Compare):
            compare(ctx, rep, doms, cases, f, nd)
        elif isinstance(nd, ast.BinOp) and isinstance(nd.op, ARITH):
            l, r = ty.fact(nd.left), ty.fact(nd.right)
            for a, b in ((l, r), (r, l)):
                if is_field(ctx, a) and not any(overloads(p, x[1]) for x in a) and (plain(b) or is_field(ctx, b)):
                    rep.violation("field-object", key(f, nd), where(f, nd),
                                  "%s calculates with the Field object, not with its value: %s" % (
                                      f.qual, ast.unparse(nd)[:100]))
                    break
            else:
                if l is not TOP and r is not TOP:
                    rep.passed("field-object")
        elif isinstance(nd, ast.Subscript) and isinstance(nd.ctx, ast.Load) and not isinstance(nd.slice, ast.Slice):
            i = ty.fact(nd.slice)
            b = ty.fact(nd.value)
            if is_field(ctx, i) and b is not TOP and b and all(a[0] in ('dict', 'tup', 'list') for a in b) \
                    and not keyed_by_fields(ctx, b):
                rep.violation("field-object", key(f, nd), where(f, nd),
                              "%s looks the Field object up, not its value: %s" % (f.qual, ast.unparse(nd)[:100]))
        elif isinstance(nd, ast.Call) and isinstance(nd.func, ast.Name) and nd.args and \
                nd.func.id in ("range", "ord", "chr", "int", "abs", "float", "hex"):
            if any(is_field(ctx, ty.fact(x)) and not any(overloads(p, y[1]) for y in ty.fact(x)) for x in nd.args):
                rep.violation("field-object", key(f, nd), where(f, nd),
                              "%s converts the Field object, not its value: %s" % (f.qual, ast.unparse(nd)[:100]))
            else:
                rep.passed("field-object")
        elif isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and \
                nd.func.attr in ("startswith", "endswith") and len(nd.args) == 1:
            prefix(ctx, rep, doms, cases, f, nd)
        tests = None
        if isinstance(nd, ast.If):
            truth(ctx, rep, f, nd.test)
            if nid(nd) in elifs:
                continue
            tests = [nd]
            n = nd
            while len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                n = n.orelse[0]
                elifs.add(nid(n))
                tests.append(n)
            judge(rep, cases, f, [x.test for x in tests], "branch")
        elif isinstance(nd, ast.IfExp):
            truth(ctx, rep, f, nd.test)
            judge(rep, cases, f, [nd.test], "condition")
        elif isinstance(nd, ast.While):
            truth(ctx, rep, f, nd.test)
        elif isinstance(nd, ast.BoolOp):
            if isinstance(nd.op, ast.Or):
                judge(rep, cases, f, nd.values, "alternative", only_later=True)
            else:
                conj(rep, cases, f, nd)
    for body in blocks(f.node):
        sequence(rep, cases, f, body)
    if isinstance(f.node.body, list):
        nested(rep, cases, f, f.node.body, [])


def overloads(p, c):
    """the class defines arithmetic of its own"""
    for k in p.mro(c):
        for n in ("__add__", "__int__", "__index__", "__eq__", "__lt__", "__mul__", "__sub__", "__hash__", "__mod__"):
            if n in getattr(k, "attrs", {}):
                return True
    return False


def keyed_by_fields(ctx, b):
    for a in b:
        if a[0] == 'dict':
            d = ctx.types.dicts.get(a[1]) if len(a) > 1 else None
            if not d or any(kv[0] is TOP or not plain(kv[0]) for kv in d):
                return True
    return False


def truth(ctx, rep, f, t):
    """if field: is true for every field"""
    for x in operands(t):
        v = ctx.types.fact(x)
        if not isinstance(x, ast.Subscript) or v is TOP or not v:
            continue
        if is_field(ctx, v):
            p = ctx.project
            if all(not ctx.fields.is_fieldset(a[1]) and
                   getattr(p.find_attr_owner(a[1], "__bool__")[0], "name", None) == "Field" for a in v):
                rep.violation("field-object", key(f, x), where(f, x),
                              "%s tests the Field object, which is always true, not its value: %s" % (
                                  f.qual, ast.unparse(x)[:100]))


def operands(t):
    if isinstance(t, ast.BoolOp):
        return [y for x in t.values for y in operands(x)]
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return operands(t.operand)
    return [t]


def compare(ctx, rep, doms, cases, f, nd):
    p, ty = ctx.project, ctx.types
    ops = [nd.left] + nd.comparators
    for op, l, r in zip(nd.ops, ops, ops[1:]):
        lf, rf = ty.fact(l), ty.fact(r)
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            for a, b in ((lf, rf), (rf, lf)):
                if is_field(ctx, a) and plain(b) and not any(overloads(p, x[1]) for x in a):
                    rep.violation("field-object", key(f, nd), where(f, nd),
                                  "%s compares the Field object, not its value: %s" % (f.qual, ast.unparse(nd)[:100]))
                    break
            else:
                if lf is not TOP and rf is not TOP:
                    rep.passed("field-object")
        elif isinstance(op, (ast.In, ast.NotIn)) and is_field(ctx, lf):
            es = elements(ctx, r)
            if es and all(plain(x) for x in es) and not any(overloads(p, x[1]) for x in lf):
                rep.violation("field-object", key(f, nd), where(f, nd),
                              "%s looks for the Field object, not for its value: %s" % (
                                  f.qual, ast.unparse(nd)[:100]))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            for x, y in ((l, r), (r, l)):
                ok, c = cases.const(y)
                if not ok or cases.const(x)[0]:
                    continue
                one(rep, doms, f, nd, x, c)
        elif isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, (ast.Tuple, ast.List, ast.Set)):
            for y in r.elts:
                ok, c = cases.const(y)
                if ok and not cases.const(l)[0]:
                    one(rep, doms, f, nd, l, c)


def one(rep, doms, f, nd, x, c):
    ds = doms.of(f, x)
    if ds is None:
        rep.undecided("constant")
    elif may(ds, c):
        rep.passed("constant", sample="%s: %s" % (f.where, ast.unparse(nd)[:90]))
    else:
        rep.violation("constant", key(f, nd), where(f, nd), "%s compares %s with %r, but it is always %s" % (
            f.qual, ast.unparse(x)[:80], c, describe(ds)))


def prefix(ctx, rep, doms, cases, f, nd):
    ds = doms.of(f, nd.func.value)
    a = nd.args[0]
    ok, c = cases.const(a)
    cs = [c] if ok else (cases.members(a) or (None, 0))[0] if isinstance(a, ast.Tuple) else None
    if ds is None or not cs or any(not isinstance(x, (str, bytes)) for x in cs):
        rep.undecided("prefix")
        return
    for c in cs:
        if not any(d.starts(c) for d in ds):
            rep.violation("prefix", key(f, nd), where(f, nd), "%s: %r cannot begin or end %s" % (f.qual, c, describe(ds)))
        else:
            rep.passed("prefix")


def judge(rep, cases, f, tests, what, only_later=False):
    dead, decided = cases.chain(f, tests)
    bad = set()
    for i, t, e, ds, alive_alone in dead:
        if only_later and (i == 0 or any(x[2] for x in cases.atoms(t, []))):
            continue    # a redundant order test next to others is harmless
        if not alive_alone and not isinstance(t, ast.BoolOp) and ds is not None:
            continue    # the constant alone is impossible: reported by the rule "constant"
        bad.add(i)
        if alive_alone:
            msg = "%s: the %s is never taken, earlier ones take every value of %s it is for: %s" % (
                f.qual, what, ast.unparse(e)[:60], ast.unparse(t)[:80])
        else:
            msg = "%s: the %s is false for every value of %s: %s" % (
                f.qual, what, ast.unparse(e)[:60], ast.unparse(t)[:80])
        rep.violation("dead-test", key(f, t) + (" #%d" % i if alive_alone else ""), where(f, t), msg)
    rep.passed("dead-test", len({i for i, _, _ in decided} - bad))
    if only_later:
        return
    for t in tests:
        always(rep, cases, f, t)


def always(rep, cases, f, t):
    ats = cases.atoms(t, [])
    subs = {}
    for e, cs, o in ats:
        k = subject_key(e)
        if k is not None:
            s = subs.setdefault(k, [e, [], False])
            s[1] += cs
            s[2] = s[2] or o
    for k, (e, cs, o) in subs.items():
        if not cs:
            continue
        ds = cases.doms.of(f, e)
        regs = cases.regions(cs, ds, o, not o)
        if regs and all(cases.eval(t, k, r) is True for r in regs):
            if isinstance(t, ast.Compare) and ds is not None:
                continue    # rule "constant"
            rep.violation("true-test", key(f, t), where(f, t), "%s: the test is true for every value of %s: %s" % (
                f.qual, ast.unparse(e)[:60], ast.unparse(t)[:80]))
        else:
            rep.passed("true-test")


def conj(rep, cases, f, nd):
    """an operand of `and` is not false whenever the previous ones are true"""
    for i, t in enumerate(nd.values):
        if i == 0:
            continue
        for e, cs, o in cases.atoms(t, []):
            k = subject_key(e)
            if k is None or not cs:
                continue
            allcs, order = list(cs), o
            for q in nd.values[:i]:
                for e2, c2, o2 in cases.atoms(q, []):
                    if subject_key(e2) == k:
                        allcs += c2
                        order = order or o2
            ds = cases.doms.of(f, e)
            regs = cases.regions(allcs, ds, order, not order)
            left = [r for r in regs if not any(cases.eval(q, k, r) is False for q in nd.values[:i])]
            if regs and len(left) < len(regs) and all(cases.eval(t, k, r) is False for r in left):
                rep.violation("dead-test", key(f, nd), where(f, nd), "%s: the condition contradicts itself: %s" % (
                    f.qual, ast.unparse(nd)[:100]))
            else:
                rep.passed("dead-test")


def blocks(node):
    """statement lists of a function"""
    st = [node.body] if isinstance(node.body, list) else []
    while st:
        b = st.pop()
        yield b
        for s in b:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            for n in ("body", "orelse", "finalbody"):
                x = getattr(s, n, None)
                if isinstance(x, list) and x:
                    st.append(x)
            for h in getattr(s, "handlers", ()):
                st.append(h.body)
            for c in getattr(s, "cases", ()):
                st.append(c.body)


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def sequence(rep, cases, f, body):
    """consecutive `if x == 1: return ...` statements form a chain"""
    i = 0
    while i < len(body):
        run_ = []
        j = i
        while j < len(body) and isinstance(body[j], ast.If) and not body[j].orelse:
            run_.append(body[j].test)
            j += 1
            if not leaves(body[j - 1].body):
                break
        if len(run_) > 1 and all(pure_test(t) for t in run_):
            dead, decided = cases.chain(f, run_)
            for k, t, e, ds, alive_alone in dead:
                if alive_alone and k:
                    rep.violation("dead-test", key(f, t) + " #%d" % k, where(f, t),
                                  "%s: never true, the tests before it leave the function for every such value of "
                                  "%s: %s" % (f.qual, ast.unparse(e)[:60], ast.unparse(t)[:80]))
            rep.passed("dead-test", len(decided) and 1)
        i = max(j, i + 1)


def pure_test(t):
    return all(not isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(t))


# -- nested tests ------------------------------------------------------------------
def stable(e):
    """an expression which keeps its value while its names are not assigned"""
    if isinstance(e, ast.Name):
        return True
    return isinstance(e, ast.Attribute) and e.attr in ("value", "display") and isinstance(e.value, ast.Subscript) and \
        isinstance(e.value.slice, ast.Constant) and isinstance(e.value.value, ast.Name)


def stored(stmts):
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
    return out


def nested(rep, cases, f, body, known):
    """known: (test, polarity) which hold when the statements start"""
    for i, st in enumerate(body):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        gone = stored([st])
        inside = [k for k in known if not (names(k[0]) & gone)]
        if isinstance(st, ast.If):
            given(rep, cases, f, st.test, known)
            nested(rep, cases, f, st.body, known + [(st.test, True)])
            nested(rep, cases, f, st.orelse, known + [(st.test, False)])
        else:
            for n in ("body", "orelse", "finalbody"):
                b = getattr(st, n, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    nested(rep, cases, f, b, inside)
            for h in getattr(st, "handlers", ()):
                nested(rep, cases, f, h.body, inside)
            for c in getattr(st, "cases", ()):
                nested(rep, cases, f, c.body, inside)
        known = inside
        if isinstance(st, ast.If) and not st.orelse and leaves(st.body) and pure_test(st.test):
            known = known + [(st.test, False)]


def names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def given(rep, cases, f, t, known):
    """the test can be true although the tests around it have their results"""
    if not known or not pure_test(t):
        return
    for e, cs, o in cases.atoms(t, []):
        k = subject_key(e)
        if k is None or not cs or not stable(e):
            continue
        allcs, order, rel = list(cs), o, []
        for q, pol in known:
            hit = False
            for e2, c2, o2 in cases.atoms(q, []):
                if subject_key(e2) == k:
                    allcs += c2
                    order = order or o2
                    hit = True
            if hit and pure_test(q):
                rel.append((q, pol))
        if not rel:
            continue
        ds = cases.doms.of(f, e)
        regs = cases.regions(allcs, ds, order, not order)
        left = [r for r in regs if all(cases.eval(q, k, r) is not (not pol) for q, pol in rel)]
        alive = any(cases.eval(t, k, r) is not False for r in regs)
        if alive and left and all(cases.eval(t, k, r) is False for r in left):
            rep.violation("dead-test", key(f, t) + " nested", where(f, t),
                          "%s: never true here, where %s: %s" % (
                              f.qual, " and ".join(("" if pol else "not ") + ast.unparse(q)[:60] for q, pol in rel[-2:]),
                              ast.unparse(t)[:80]))
            return
    rep.passed("dead-test")


# -- tables ---------------------------------------------------------------------
def tables(ctx, rep, doms):
    p, ty, fm = ctx.project, ctx.types, ctx.fields
    enum = p.func("hachoir.field.enum.Enum")
    uses = {}
    blind = set()
    seen_nodes = set()

    const = Const(p)
    keys = {}

    def folded(f, tab, member):
        """a table which is a name of the module or an attribute of the class"""
        try:
            if isinstance(tab, ast.Name):
                if tab.id in doms.local_defs(f):
                    return
                t, v = ("name", f.module.name, tab.id), const.module_name(f.module, tab.id)
            elif isinstance(tab, ast.Attribute) and isinstance(tab.value, ast.Name) and f.cls is not None and \
                    f.params and tab.value.id == f.params[0]:
                if any(tab.attr in d.attrs for d in p.descendants(f.cls) if d is not f.cls) or \
                        tab.attr in f.cls.inst_attrs:
                    return
                owner = p.find_attr_owner(f.cls, tab.attr)[0]
                t, v = ("attr", owner, tab.attr), const.class_value(f.cls, tab.attr)
            else:
                return
        except (Unknown, AnalysisBroken, TypeError):
            return
        if isinstance(v, dict):
            keys[t] = list(v)
        elif isinstance(v, (list, tuple)) and not member:
            keys[t] = list(range(len(v)))
        else:
            return
        return t

    def use(f, tab, ds, node, member=False):
        v = ty.fact(tab)
        if v is TOP or not v or not all(a[0] == 'dict' for a in v):
            t = folded(f, tab, member)
            if t:
                uses.setdefault(t, []).append((ds, f, node))
                if ds is None:
                    blind.add(t)
                seen_nodes.add(nid(tab))
                return
        if v is TOP or not v:
            return
        for a in v:
            if a[0] == 'dict' and len(a) > 1:
                uses.setdefault(a[1], []).append((ds, f, node))
                if ds is None:
                    blind.add(a[1])
        seen_nodes.add(nid(tab))

    def field_doms(e):
        v = ty.fact(e)
        if v is TOP or not v:
            return None
        out = []
        for a in v:
            x = doms.field(a)
            if x is None:
                return None
            out += x
        return out

    for f in p.functions:
        for nd in body_nodes(f.node):
            if isinstance(nd, ast.Call):
                fv = ty.fact(nd.func)
                if fv is not TOP and fv and all(a[0] == 'f' and a[1] is enum for a in fv):
                    args = list(nd.args) + [None, None]
                    kws = {k.arg: k.value for k in nd.keywords}
                    fe, te = args[0] or kws.get("field"), args[1] or kws.get("enum")
                    kf = (args[2] if len(nd.args) > 2 else None) or kws.get("key_func")
                    if fe is not None and te is not None:
                        use(f, te, field_doms(fe) if kf is None else None, nd)
                elif isinstance(nd.func, ast.Attribute) and nd.func.attr == 'get' and nd.args:
                    fixed = isinstance(nd.args[0], ast.Constant)
                    use(f, nd.func.value, None if fixed else doms.of(f, nd.args[0]), nd)
            elif isinstance(nd, ast.Subscript):
                fixed = isinstance(nd.slice, ast.Constant) or not isinstance(nd.ctx, ast.Load)
                use(f, nd.value, None if fixed else doms.of(f, nd.slice), nd)
            elif isinstance(nd, ast.Compare):
                ops = [nd.left] + nd.comparators
                for op, l, r in zip(nd.ops, ops, ops[1:]):
                    if isinstance(op, (ast.In, ast.NotIn)):
                        use(f, r, None if isinstance(l, ast.Constant) else doms.of(f, l), nd, True)
    by_name = {}
    for t in keys:
        by_name.setdefault(t[2], []).append(t)
    # a table read in a way which is not one of these is not judged
    for f in p.functions:
        for nd in body_nodes(f.node):
            if isinstance(nd, (ast.Name, ast.Attribute)) and isinstance(nd.ctx, ast.Load) and nid(nd) not in seen_nodes:
                v = ty.fact(nd)
                if v is not TOP and v:
                    for a in v:
                        if a[0] == 'dict' and len(a) > 1:
                            blind.add(a[1])
                n = nd.id if isinstance(nd, ast.Name) else nd.attr
                for t in by_name.get(n, ()):
                    blind.add(t)
    for t, us in uses.items():
        d = keys.get(t) if t in keys else [a[1] for kv in ty.dicts.get(t) or () for a in kv[0] or () if a[0] == 'k']
        if not d or t in blind:
            rep.undecided("table-key")
            continue
        ds = [x for u in us for x in u[0]]
        bad = [k for k in d if not may(ds, k)]
        if not bad:
            rep.passed("table-key", sample="%s: %s" % (us[0][1].where, ast.unparse(us[0][2])[:90]))
            continue
        f, nd = us[0][1], us[0][2]
        rep.violation("table-key", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(nd)[:100]), where(f, nd),
                      "%s: the table names %s, which what is looked up in it can never be (always %s)" % (
                          f.qual, ", ".join(repr(x) for x in sorted(bad, key=repr)[:6]), describe(ds)))


def duplicates(ctx, rep):
    const = Const(ctx.project)
    for m in ctx.project.modules.values():
        for nd in ast.walk(m.tree):
            if not isinstance(nd, ast.Dict) or len(nd.keys) < 2:
                continue
            seen = {}
            bad = None
            for k, v in zip(nd.keys, nd.values):
                if k is None:
                    continue
                try:
                    c = ast.literal_eval(k)
                    hash(c)
                except Exception:
                    try:
                        c = const.value(m, k, None)
                        hash(c)
                    except (Unknown, TypeError, AnalysisBroken):
                        c = ("expr", ast.dump(k)) if pure(k) else None
                if c is None:
                    continue
                c = (isinstance(c, (str, bytes)), c)
                if c in seen and ast.dump(seen[c]) != ast.dump(v):
                    bad = (k, v)
                seen[c] = v
            if bad:
                rep.violation("duplicate-key", "%s:%s" % (m.name, ast.unparse(bad[0])[:80]),
                              "%s:%d" % (m.path, bad[0].lineno),
                              "the key %s appears twice in a table: only its last value %s is ever found" % (
                                  ast.unparse(bad[0])[:60], ast.unparse(bad[1])[:60]))
            else:
                rep.passed("duplicate-key")
