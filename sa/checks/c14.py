"""Every parser is registered, under valid, unique and searchable tags."""
import ast
import re
from ..const import Const, Unknown, Ref
from ..oblig import Oblig, SELF, A, C, P, cond, returns, raises, same, strip_epoch, has
from ..flow import callee_name, NONE, TRUE, find_terms
from ..project import AnalysisBroken, ClassInfo, FuncInfo, Module, ValueBinding, body_nodes, assigned_pairs

HP = "hachoir.parser.parser.HachoirParser"
PL = "hachoir.parser.parser_list.ParserList"
HPL = "hachoir.parser.parser_list.HachoirParserList"
try:
    from re import _parser as sre
except ImportError:
    import sre_parse as sre


def namespace(p, mod, seen=None):
    """name -> entities of a module namespace (star imports included)"""
    seen = seen or set()
    if mod in seen:
        return {}
    seen.add(mod)
    out = {}
    for b in mod.stars:
        if b in p.modules:
            for n, e in namespace(p, p.modules[b], seen).items():
                if not n.startswith("_"):
                    out[n] = e
    for n in mod.bindings:
        out[n] = p.lookup_all(mod, n)
    return out


def imported(p, mod, done):
    """modules loaded by importing mod"""
    if mod in done:
        return
    done.add(mod)
    parts = mod.name.split(".")
    for i in range(1, len(parts)):
        q = ".".join(parts[:i])
        if q in p.modules:
            imported(p, p.modules[q], done)
    todo, sts = list(mod.tree.body), []
    while todo:
        st = todo.pop()
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            continue
        sts.append(st)
        todo.extend(ast.iter_child_nodes(st))
    for st in sts:
        if isinstance(st, ast.Import):
            names = [a.name for a in st.names]
        elif isinstance(st, ast.ImportFrom):
            base = st.module or ""
            if st.level:
                up = parts if mod.is_pkg else parts[:-1]
                up = up[:len(up) - (st.level - 1)]
                base = ".".join(up + ([base] if base else []))
            names = [base] + [base + "." + a.name for a in st.names]
        else:
            continue
        for n in names:
            if n in p.modules:
                imported(p, p.modules[n], done)


def run(ctx, rep):
    rep.rule("listed", "a parser with an identifier and a category is imported by a category package, so the list of "
             "parsers finds it", 32)
    rep.rule("tags", "the tags have the kinds the registry requires: a listed parser is never refused", 198)
    rep.rule("unique", "no two listed parsers have the same identifier", 33)
    rep.rule("extension", "file extensions can match: lower case, without dot, as file names are looked up", 30)
    rep.rule("magic", "every magic is a pair of non-empty bytes and a position which is a whole number of bytes in bits",
             35)
    rep.rule("regex", "every magic regular expression is a pair, valid, and of bounded length", 2)
    rep.rule("minimum", "the smallest size of a file, in bits, is a whole number of bytes, and a file of that size holds "
             "the signature of the format", 73)
    rep.rule("agree", "the signature validate() reads is as long as the constant it is compared with, and agrees with "
             "the magic of the tags", 40)
    rep.rule("hooks", "a listed parser has its own validate(), createFields() and byte order", 99)
    rep.rule("registry", "the registry adds exactly the valid parsers, once, and indexes them under every tag value", 2)
    rep.rule("merge", "the tags of a parser are its own over those of its base classes", 1)
    p = ctx.project
    c = Const(p)
    ob = Oblig(ctx, rep)
    hp, base = p.cls(HP), p.cls("hachoir.parser.parser.Parser")
    root = p.modules.get("hachoir.parser")
    if root is None:
        raise AnalysisBroken("package hachoir.parser not found")
    try:
        valid_cat = c.class_value(p.cls(PL), "VALID_CATEGORY")
        rx = None
        for v in p.cls(PL).attrs.get("ID_REGEX", []):
            if isinstance(v, ValueBinding) and isinstance(v.expr, ast.Call) and v.expr.args:
                rx = re.compile(c.value(v.module, v.expr.args[0], v.cls))
    except Unknown as e:
        raise AnalysisBroken("VALID_CATEGORY / ID_REGEX: %s" % e)

    # -- what the registry loads
    loaded = set()
    imported(p, root, loaded)
    mods = {}
    for m in loaded:
        if m.name.startswith("hachoir.parser.") and m.name.count(".") == 2:
            mods[m.name] = m
    for n, es in namespace(p, root).items():
        for e in es:
            if isinstance(e, Module):
                mods[e.name] = e
    listed = {}
    for m in mods.values():
        for n, es in namespace(p, m).items():
            for e in es:
                if isinstance(e, ClassInfo) and p.is_subclass(e, hp) and e not in (hp, base):
                    listed.setdefault(e, []).append((m, n))
    rep.notes.append("%d listed parsers in %d modules" % (len(listed), len(mods)))

    tags = {}
    for k in [hp] + list(p.descendants(hp)):
        t = {}
        for b in reversed(p.mro(k)):
            if isinstance(b, ClassInfo) and "PARSER_TAGS" in b.attrs:
                try:
                    d = c.own_value(b, "PARSER_TAGS")
                except Unknown as e:
                    t = None
                    break
                if not isinstance(d, dict):
                    t = None
                    break
                t.update(d)
        tags[k] = t

    def where(k):
        for b in p.mro(k):
            if isinstance(b, ClassInfo) and "PARSER_TAGS" in b.attrs:
                v = b.attrs["PARSER_TAGS"][0]
                return "%s:%d" % (b.module.path, getattr(v, "stmt", b.node).lineno)
        return "%s:%d" % (k.module.path, k.node.lineno)

    def viol(rule, k, what, msg):
        rep.violation(rule, "%s:%s" % (k.fullname, what), where(k), "%s: %s" % (k.name, msg))

    for k, t in tags.items():
        if "PARSER_TAGS" not in k.attrs or k is hp:
            continue
        if t is None:
            rep.undecided("listed")
            continue
        own = c.own_value(k, "PARSER_TAGS")
        o, v = p.find_attr_owner(k, "validate")
        if "id" in own and "category" in t and t["category"] in valid_cat and o is not None and o is not hp \
                and not any("id" in (tags[x] or {}) and "PARSER_TAGS" in x.attrs for x in p.descendants(k)
                            if x in listed):
            if k in listed:
                rep.passed("listed", sample="%s in %s" % (k.fullname, listed[k][0][0].name))
            else:
                viol("listed", k, "listed", "tagged as parser %r of category %r, but no category package imports it: "
                     "it is never found" % (t["id"], t["category"]))

    byid = {}
    for k in listed:
        t = tags[k]
        if t is None:
            rep.undecided("tags")
            continue

        def ok(rule, cnd, what, msg):
            if cnd:
                rep.passed(rule, sample="%s %s" % (k.name, what))
            else:
                viol(rule, k, what, msg)

        def get(n, default=None):
            v = t.get(n, default)
            return v
        unk = [n for n, v in t.items() if isinstance(v, (Unknown, Ref))]
        for n in unk:
            rep.undecided("tags")
        i = get("id")
        if "id" not in unk:
            ok("tags", isinstance(i, str) and (rx is None or rx.match(i)), "id", "invalid identifier %r" % (i,))
            byid.setdefault(i, []).append(k)
        d = get("description")
        if "description" not in unk:
            ok("tags", isinstance(d, str) and d, "description", "invalid description %r" % (d,))
        cat = get("category")
        if cat is not None and "category" not in unk:
            ok("tags", cat in valid_cat, "category", "invalid category %r" % (cat,))
        ms = get("min_size")
        if "min_size" not in unk:
            ok("tags", isinstance(ms, int) and not isinstance(ms, bool) and ms > 0, "min_size",
               "invalid minimum size %r" % (ms,))
            if isinstance(ms, int) and not isinstance(ms, bool):
                ok("minimum", ms % 8 == 0, "min_size", "min_size %d is not a whole number of bytes: it is a size in bits"
                   % ms)
                ends = [m[1] + 8 * len(m[0]) for m in t.get("magic", ()) if isinstance(m, tuple) and len(m) == 2
                        and isinstance(m[0], bytes) and isinstance(m[1], int)] \
                    if isinstance(t.get("magic", ()), (tuple, list)) else []
                if ends:
                    ok("minimum", ms >= min(ends), "min_size:magic", "a file of min_size %d bits cannot hold the magic of "
                       "the format, which ends at bit %d" % (ms, min(ends)))
        fe = get("file_ext", ())
        if "file_ext" not in unk:
            good = isinstance(fe, (tuple, list)) and all(isinstance(x, str) for x in fe)
            ok("tags", good, "file_ext", "extensions %r are not a tuple of texts" % (fe,))
            if good and "file_ext" in t:
                ok("extension", len(fe) > 0 and not any(x != x.lower() or "." in x or x != x.strip() for x in fe),
                   "file_ext", "an extension of %r can never equal the lower case suffix of a file name" % (fe,))
        mi = get("mime", ())
        if "mime" not in unk:
            ok("tags", isinstance(mi, tuple) and all(isinstance(x, str) and re.match(r"^[^/\s]+/[^/\s]+$", x) for x in mi)
               and ("mime" not in t or mi), "mime", "MIME types %r are not a tuple of type/subtype texts" % (mi,))
        for n, rule in (("magic", "magic"), ("magic_regex", "regex")):
            if n not in t or n in unk:
                continue
            v = t[n]
            if not isinstance(v, (tuple, list)):
                viol(rule, k, n, "%s %r is not a sequence of pairs" % (n, v))
                continue
            for x in v:
                if not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], bytes) and x[0]
                        and isinstance(x[1], int) and not isinstance(x[1], bool) and x[1] >= 0):
                    viol(rule, k, n, "%s entry %r is not a (bytes, position) pair: collecting the magics fails "
                         "for every search" % (n, x))
                elif x[1] % 8:
                    viol(rule, k, n, "position %r of %s %r is not a whole number of bytes: never found" % (x[1], n, x[0]))
                elif rule == "regex":
                    try:
                        lo, hi = sre.parse(x[0].decode("latin1")).getwidth()
                        ok(rule, int(hi) < 2 ** 16, n, "%r has no maximum length: collecting it fails" % (x[0],))
                    except re.error as e:
                        viol(rule, k, n, "%r is not a regular expression: %s" % (x[0], e))
                else:
                    rep.passed(rule)
        for m in ("validate", "createFields"):
            o, v = p.find_attr_owner(k, m)
            ok("hooks", o is not None and o is not hp and not o.fullname.startswith("hachoir.field."), m,
               "listed, but has no %s()" % m)
        ok("hooks", p.find_attr(k, "endian") is not None or any("endian" in x.inst_attrs for x in p.mro(k)
                                                                 if isinstance(x, ClassInfo)), "endian", "no byte order")
    for i, ks in byid.items():
        if len(ks) > 1:
            for k in ks[1:]:
                viol("unique", k, "id=%s" % i, "identifier %r is already used by %s: this parser is refused" % (
                    i, ks[0].fullname))
        else:
            rep.passed("unique")

    for k in listed:
        agree(p, c, rep, k, tags[k] or {})
    registry(ob, p, rep)


def fold(p, c, f, k, e):
    """constant value of an expression inside method f of class k"""
    class R(ast.NodeTransformer):
        def visit_Attribute(self, n):
            if isinstance(n.value, ast.Name) and n.value.id in ("self", "cls"):
                v = c.class_value(k, n.attr)
                if isinstance(v, Ref):
                    raise Unknown("method")
                return ast.copy_location(ast.Constant(v), n)
            return self.generic_visit(n)
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and n.id in f.all_params and n.id not in ("self", "cls"):
            raise Unknown("parameter")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and any(
                isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
            raise Unknown("local")
    e = R().visit(ast.parse(ast.unparse(e), mode="eval").body)
    return c.value(f.module, e)


def agree(p, c, rep, k, t):
    o, f = p.find_attr_owner(k, "validate")
    if not isinstance(f, FuncInfo):
        return
    accepted = {}
    local = {}
    for n in body_nodes(f.node):
        for tg, v in assigned_pairs(n) if isinstance(n, (ast.Assign, ast.AugAssign, ast.For)) else ():
            if isinstance(tg, ast.Name):
                local.setdefault(tg.id, []).append(v)

    def read(e):
        if isinstance(e, ast.Name) and len(local.get(e.id, ())) == 1 and local[e.id][0] is not None:
            e = local[e.id][0]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "readBytes" \
                and len(e.args) == 2 and not e.keywords:
            return e
        return None
    for n in body_nodes(f.node):
        if not (isinstance(n, ast.Compare) and len(n.ops) == 1):
            continue
        l, r, op = n.left, n.comparators[0], n.ops[0]
        call = read(l)
        if call is None and isinstance(op, (ast.Eq, ast.NotEq)):
            call, r = read(r), l
        if call is None or not isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
            continue
        try:
            v = fold(p, c, f, k, r)
            size = fold(p, c, f, k, call.args[1])
        except Unknown:
            rep.undecided("agree")
            continue
        vals = [v] if isinstance(v, bytes) else list(v) if isinstance(v, (tuple, list, set, frozenset, dict)) and isinstance(
            op, (ast.In, ast.NotIn)) else []
        if not vals or not all(isinstance(x, bytes) for x in vals) or not isinstance(size, int):
            rep.undecided("agree")
            continue
        bad = [x for x in vals if len(x) != size]
        if bad:
            rep.violation("agree", "%s:length:%s" % (f.module.name + "." + f.qual, ast.unparse(n)[:80]),
                          "%s:%d" % (f.module.path, n.lineno), "%s reads %d bytes and compares them with %r (%d bytes): "
                          "never equal" % (f.qual, size, bad[0], len(bad[0])))
            continue
        rep.passed("agree", sample="%s: %s" % (f.where, ast.unparse(n)[:70]))
        try:
            addr = fold(p, c, f, k, call.args[0])
        except Unknown:
            continue
        if isinstance(addr, int):
            accepted.setdefault(addr, []).extend(vals)
    ms = t.get("min_size")
    if accepted and isinstance(ms, int):
        # every file the parser accepts has one of these: the first which is looked at tells the smallest size
        end = min(a + 8 * min(len(v) for v in vs) for a, vs in accepted.items())
        if ms < end:
            rep.violation("minimum", "%s:min_size:validate" % k.fullname, "%s:%d" % (k.module.path, k.node.lineno),
                          "%s: validate() compares a signature which ends at bit %d, a file of min_size %d bits cannot "
                          "hold it" % (k.name, end, ms))
        else:
            rep.passed("minimum")
    for m in t.get("magic", ()) if isinstance(t.get("magic", ()), (tuple, list)) else ():
        if not (isinstance(m, tuple) and len(m) == 2 and isinstance(m[0], bytes) and isinstance(m[1], int)):
            continue
        for addr, vals in accepted.items():
            def fits(v):
                for i, b in enumerate(v):
                    j = (addr + 8 * i - m[1])
                    if j % 8 == 0 and 0 <= j // 8 < len(m[0]) and m[0][j // 8] != b:
                        return False
                return True
            if not any(fits(v) for v in vals):
                rep.violation("agree", "%s:magic:%r" % (k.fullname, m[0]), "%s:%d" % (k.module.path, k.node.lineno),
                              "%s: validate() accepts only %r at bit %d, which no file with the magic %r at bit %d has"
                              % (k.name, vals, addr, m[0], m[1]))
            else:
                rep.passed("agree")


def registry(ob, p, rep):
    f = p.func(PL + ".add")
    outs = ob.outs(PL + ".add")
    PLIST = A(SELF, "parser_list")

    def appended(o):
        return [e for e in o.events if e[0] == 'call' and callee_name(e[1]) in ('append', 'insert', 'add')
                and len(e[1]) > 1 and same(e[1][1], PLIST)]

    def validp(t):
        return find_terms(t, lambda x: x[0] == 'call' and callee_name(x[1]) == 'validParser')
    rets = returns(outs)
    adding = [o for o in rets if appended(o)]
    ob.all("registry", f, adding, lambda o: len(appended(o)) == 1 and same(appended(o)[0][2][-1], P('parser')),
           "append", "the parser itself is added, once")
    ob.all("registry", f, adding, lambda o: (lambda v: None if v is None else v is False)(
        cond(o, lambda t: t[0] == 'call' and callee_name(t[1]) == 'validParser')), "valid",
        "a parser is added although validParser() gave a reason against it")
    skipping = [o for o in rets if not appended(o)]

    def why(o):
        """a parser is skipped only for a reason given by validParser() or translate()"""
        for t, b in o.conds:
            if b and t[0] == 'call' and callee_name(t[1]) == 'validParser':
                return True
            if find_terms(t, lambda x: x[0] == 'call' and callee_name(x[1]) == 'translate'):
                return True
        return False
    ob.all("registry", f, skipping, why, "skip", "a parser is skipped although nothing was wrong with its tags")
    # every value of every tag is indexed
    idx = [e for o in outs for e in o.events if e[0] == 'call' and callee_name(e[1]) in ('append', 'add')
           and len(e[1]) > 1 and isinstance(e[1][1], tuple) and not same(e[1][1], PLIST)
           and e[2] and same(e[2][-1], P('parser'))]
    ob.check("registry", f, bool(idx), "index", "the parser is not indexed under the values of its tags")
    f = p.func(PL + ".translate")
    outs = returns(ob.outs(PL + ".translate"))

    def isname(t, v):
        return t[0] in ('eq', 'eq0', 'is', 'in') and has(t, P('name')) and has(t, C(v))

    def pair(o):
        return o.value[0] == 'tuple'

    def dup(o):
        if not pair(o) or cond(o, lambda t: isname(t, 'id') and t[0] == 'eq') is not True:
            return None
        for t, b in o.conds:
            if not b and find_terms(t, lambda x: x[0] in ('call', 'item', 'in') and has(x, A(SELF, 'bytag')) and has(
                    x, P('value'))):
                return True
            if b and t[0] == 'is' and has(t, A(SELF, 'bytag')) and has(t, NONE):
                return True
            if b and t[0] == 'not' or not b and t[0] == 'in' and has(t, A(SELF, 'bytag')):
                return True
        return False
    ob.all("registry", f, [o for o in outs if dup(o) is not None], dup, "duplicate",
           "an identifier is accepted without looking whether another parser has it")
    f = p.func("hachoir.parser.guess.QueryParser.translate")
    outs = returns(ob.outs("hachoir.parser.guess.QueryParser.translate"))

    def filename(o):
        if cond(o, lambda t: t[0] == 'eq' and has(t, P('name')) and has(t, C('filename'))) is not True:
            return None
        v = o.value
        if v[0] != 'tuple' or len(v[1]) != 2:
            return None
        if v[1][0] != C('file_ext'):
            return False
        return v[1][1] == C('') or bool(v[1][1][0] == 'call' and callee_name(v[1][1][1]) == 'lower'
                                        or find_terms(v[1][1], lambda x: x[0] == 'call' and callee_name(x[1]) == 'lower'))
    ob.all("registry", f, [o for o in outs if filename(o) is not None], filename, "filename",
           "a file name is not looked up by its lower case extension")
    f = p.func(HPL + "._load")
    lf = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
          and n.func.attr == "add"]
    ob.check("registry", f, bool(lf), "load", "no class found in the packages is added")
    # getParserTags: bases first
    f = p.func(HP + ".getParserTags")
    outs = returns(ob.outs(HP + ".getParserTags"))

    def merged(o):
        upd = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'update']
        return None if not upd else True
    its = [n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.comprehension))]
    rev = None
    for n in its:
        s = ast.unparse(n.iter)
        if "mro" in s:
            rev = ("reversed(" in s or "[::-1]" in s)
    stored = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update"
                 for n in ast.walk(f.node))
    if rev is None:
        rep.undecided("merge")
        rep.passed("merge")
    else:
        ob.check("merge", f, rev if stored else None, "order",
                 "base classes are merged over the class's own tags (own tags must win)")
        if not stored:
            rep.passed("merge")
