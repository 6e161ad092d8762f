"""Metadata extraction never raises and keeps only valid, distinct values."""
import ast
from ..oblig import Oblig, SELF, A, C, P, cond, returns, raises, exc_name, final, same, strip_epoch, has
from ..flow import callee_name, NONE, TRUE, FALSE, find_terms, show, lt
from ..project import AnalysisBroken, FuncInfo, ClassInfo

MD = "hachoir.metadata.metadata."
DATA = "hachoir.metadata.metadata_item.Data"
VALUES = A(SELF, "values")


def origin(exc):
    return exc[2] if exc and exc[0] == 'exc' and exc[1] == '*' else ()


def is_log(t):
    return t[0] == 'call' and callee_name(t[1]) in ('error', 'warning', 'info', 'warn', '_logger', 'str', 'repr', 'format')


def run(ctx, rep):
    rep.rule("contain", "an exception of an extractor, or of reading an optional field, is logged and never leaves", 2)
    rep.rule("extract", "metadata come from the extractor registered for the class of the parser; without one the "
             "answer is None", 2)
    rep.rule("store", "a value is stored under its own key, and only if that key is registered (KeyError otherwise)", 2)
    rep.rule("filter", "a value is kept only if it is not None, not empty, of the key's type, not a duplicate, and accepted "
             "by the key's filter", 3)
    rep.rule("text", "every kept value has a text: the text itself, or the one of the key's text handler", 1)
    rep.rule("read", "reading a missing value answers the default or raises ValueError, never another error", 1)
    rep.rule("group", "an empty group is refused, any other is added once, numbered if its key ends with []", 1)
    rep.rule("export", "the exports list only values up to the asked priority, of the groups too, and the text is None when "
             "there is nothing to list", 3)
    ob = Oblig(ctx, rep)
    p = ctx.project

    # -- containment
    f = p.func(MD + "extractMetadata")
    outs = ob.outs(MD + "extractMetadata", exc="calls")

    def contained(names):
        def pred(o):
            if o.kind != 'raise':
                return None
            for t in origin(o.value):
                if t[0] == 'call' and callee_name(t[1]) in names:
                    return False
            return True
        return pred
    ext = [o for o in outs if any(e[0] == 'call' and callee_name(e[1]) == 'extract' for e in o.events)]
    ob.check("contain", f, bool(ext), "calls extract", "the extractor is never run")
    ob.all("contain", f, outs, contained(('extract',)), "extract", "an exception of the extractor leaves extractMetadata()")
    f = p.func("hachoir.metadata.safe.getFieldAttribute")
    outs = ob.outs("hachoir.metadata.safe.getFieldAttribute", exc="calls", raising_loads=True)
    ob.all("contain", f, outs, contained(('hasValue', 'getattr')), "field", "an exception of reading the field leaves "
           "getFieldAttribute()")
    rets = returns(outs)
    ob.all("contain", f, rets, lambda o: o.value == NONE or bool(find_terms(o.value, lambda t: t == P('attrname'))),
           "answer", "the answer is neither the attribute of the field nor None")
    sf = [x for x in p.functions if x.parent is not None and x.parent.name == "fault_tolerant"
          and x.module.name == "hachoir.metadata.safe"]
    if not sf:
        raise AnalysisBroken("fault_tolerant wrapper not found")
    outs = ob.outs(sf[0], exc="calls")

    def guarded(o):
        if o.kind != 'raise':
            return None
        return not any(t[0] == 'call' and not is_log(t) and t[1] and find_terms(t[1], lambda x: x == ('global', 'func')
                                                                                 or x[0] in ('global', 'free', 'name') and 'func' in x)
                       for t in origin(o.value))
    ob.all("contain", sf[0], outs, guarded, "wrapper", "an exception of a fault tolerant function leaves it")
    ran = [o for o in outs if any(e[0] == 'call' and find_terms(e[1], lambda x: 'func' in x[1:] and x[0] != 'attr')
                                  and not is_log(e[4]) for e in o.events)]
    ob.check("contain", sf[0], True if ran else None, "wrapper runs", "the wrapped function is never run")

    # -- extract
    f = p.func(MD + "extractMetadata")
    outs = returns(ob.outs(MD + "extractMetadata", exc="calls"))

    def made(o):
        if o.value == NONE:
            # only when no extractor is registered
            return not any(e[0] == 'call' and callee_name(e[1]) == 'extract' for e in o.events)
        ex = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'extract']
        return bool(ex) and all(same(e[1][1], o.value) and e[2] and e[2][0] == P('parser') for e in ex if len(e[1]) > 1)
    ob.all("extract", f, outs, made, "same", "the answer is not the metadata object the extractor filled from the parser")

    def byclass(o):
        if o.value == NONE:
            return None
        return bool(find_terms(o.value, lambda t: t[0] in ('item', 'call') and has(t, ('attr', P('parser'), '__class__', 0))
                               or t[0] == 'call' and callee_name(t[1]) == 'type' and P('parser') in t[2]))
    ob.all("extract", f, outs, byclass, "class", "the extractor is not looked up by the "
           "class of the parser")
    # -- store
    f = p.func(MD + "Metadata.__setattr__")
    outs = ob.outs(MD + "Metadata.__setattr__")

    def addcalls(o):
        return [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'add']
    ob.all("store", f, returns(outs), lambda o: len(addcalls(o)) == 1 and addcalls(o)[0][2] == (P('value'),)
           and has(addcalls(o)[0][1], P('key')), "add", "the value is not added to the data of its key")
    ob.all("store", f, [o for o in outs if o.kind == 'raise'], lambda o: exc_name(o) == 'KeyError' and not addcalls(o),
           "unknown", "an unregistered key does not end in KeyError")

    # -- Data.add
    f = p.func(DATA + ".add")
    outs = ob.outs(DATA + ".add", max_states=20000)

    def kept(o):
        """(created item call, value term) of each value kept on the path"""
        out = []
        for e in o.events:
            if e[0] == 'call' and callee_name(e[1]) in ('append', 'insert') and len(e[1]) > 1 and same(e[1][1], VALUES):
                out.append(e[2][-1])
            elif e[0] == 'setitem' and same(e[1], VALUES):
                out.append(e[3])
        return out

    def value_of(item):
        if item[0] == 'call' and callee_name(item[1]) == '_createItem' and item[2]:
            return item[2][0]
        if item[0] in ('new', 'call') and len(item) > 2 and isinstance(item[2], tuple) and item[2]:
            return item[2][0]
        return None
    keeping = [o for o in outs if kept(o)]
    ob.all("filter", f, keeping, lambda o: len(kept(o)) == 1, "once", "a value is kept twice")

    def core(t):
        """terms the kept value was derived from"""
        seen, todo = [], [strip_epoch(t)]
        while todo:
            x = todo.pop()
            if not isinstance(x, tuple) or x in seen:
                continue
            seen.append(x)
            todo.extend(y for y in x if isinstance(y, tuple))
        return seen

    def about(o, t):
        v = value_of(kept(o)[0])
        return v is not None and any(strip_epoch(t) == x for x in core(v))

    def kcond(o, pred):
        return [b for t, b in o.conds if pred(t)]

    def isinst(t, what):
        return t[0] == 'call' and callee_name(t[1]) == 'isinstance' and len(t[2]) == 2 and same(t[2][1], what)

    TYPE, FILTER, CONV = A(SELF, "type"), A(SELF, "filter"), A(SELF, "conversion")

    def typed(o):
        ty = kcond(o, lambda t: same(t, TYPE) or t[0] == 'isnone' and has(t, TYPE))
        inst = kcond(o, lambda t: isinst(t, TYPE))
        if inst:
            return all(inst)
        return bool(ty) and not any(b for b in kcond(o, lambda t: same(t, TYPE))) if ty else False
    ob.all("filter", f, keeping, typed, "type", "a value is kept without being an instance of the key's type")

    def filtered(o):
        called = kcond(o, lambda t: t[0] == 'call' and same(t[1], FILTER) or t[0] == 'call' and callee_name(t[1]) == 'filter')
        if called:
            return all(called)
        return any(not b for b in kcond(o, lambda t: same(t, FILTER))) or any(kcond(
            o, lambda t: t[0] == 'isnone' and has(t, FILTER)))
    ob.all("filter", f, keeping, filtered, "filter", "a value refused by (or never shown to) the filter is kept")

    def distinct(o):
        d = kcond(o, lambda t: t[0] == 'in' and same(t[2], SELF) or t[0] == 'call' and callee_name(t[1]) == '__contains__')
        if d:
            return not any(d)
        it = [e for e in o.events if e[0] == 'iterate' and has(e[1], VALUES)]
        return None if len(it) > 1 else False
    ob.all("filter", f, keeping, distinct, "duplicate", "a value which is already there is kept again")

    def notnone(o):
        # the raw value (param, or first of the tuple) was compared with None
        n = kcond(o, lambda t: t[0] == 'isnone' and not has(t, CONV) and not find_terms(
            t, lambda x: x[0] == 'call') and has(t, P('value')))
        return bool(n) and not any(n)
    ob.all("filter", f, keeping, notnone, "none", "None is kept as a value")

    def converted(o):
        v = value_of(kept(o)[0])
        cv = kcond(o, lambda t: same(t, CONV))
        if not cv or not cv[0] or v is None:
            return None
        calls = find_terms(v, lambda t: t[0] == 'call' and (same(t[1], CONV) or callee_name(t[1]) == 'conversion'))
        return bool(calls)
    ob.all("filter", f, keeping, converted, "conversion", "the unconverted value is kept although the key has a conversion")

    def chain(v):
        """the texts the kept text was made from by shortening or normalising it"""
        out = []
        while isinstance(v, tuple) and v not in out:
            out.append(v)
            nxt = None
            if v[0] == 'call' and callee_name(v[1]) in ('normalizeNewline', 'normalizeString', 'str', 'strip') and v[2]:
                nxt = v[2][0]
            elif v[0] == 'call' and v[1][0] == 'attr':
                nxt = v[1][1]
            elif v[0] == 'item':
                nxt = v[1]
            elif v[0] == 'bin':
                nxt = next((x for x in v[1:] if isinstance(x, tuple) and x[0] != 'const'), None)
            if nxt is None:
                break
            v = nxt
        return out

    def is_text(o, upto):
        return any(b for t, b in o.conds[:upto] if t[0] == 'call' and callee_name(t[1]) == 'isinstance' and len(t[2]) == 2
                   and t[2][1] == ('ext', 'builtins.str'))

    def nonempty(o):
        v = value_of(kept(o)[0])
        if v is None:
            return None
        ch = [strip_epoch(x) for x in chain(v)]
        s = [b for t, b in o.conds if t[0] == 'call' and callee_name(t[1]) == 'isinstance' and len(t[2]) == 2
             and t[2][1] == ('ext', 'builtins.str') and strip_epoch(t[2][0]) in ch]
        if not s or not all(s):
            return None
        return any(b for t, b in o.conds if strip_epoch(t) in ch) or any(
            (t[0] in ('lt0', 'eq0') and t[1] in (0, -1) and len(t[2]) == 1 or t[0] == 'eq' and C('') in t[1:]) and any(
                has(t, y) for y in ch) for t, b in o.conds)
    ob.all("filter", f, keeping, nonempty, "empty", "an empty text is kept")

    def prefixed(o):
        sw = [(t, b) for t, b in o.conds if t[0] == 'call' and callee_name(t[1]) == 'startswith' and b]
        if not sw:
            return None
        grown = [e for e in o.events if e[0] == 'setitem' and same(e[1], VALUES)]
        return bool(grown) and len(sw) == 1
    ob.all("filter", f, [o for o in keeping if prefixed(o) is not None], prefixed, "prefix", "a text is kept besides the longer "
           "text it is the beginning of")

    def dropped(o):
        """a value which is not kept was refused for a reason"""
        if o.kind != 'return' or kept(o) or not o.conds:
            return None
        i = len(o.conds) - 1
        t, b = o.conds[i]
        if t[0] in ('call', 'in', 'isnone', 'lt0', 'eq0', 'loop'):
            if t[0] == 'call' and not b and (same(t[1], CONV) or callee_name(t[1]) == 'conversion') and not is_text(o, i):
                return False
            return True if t[0] != 'isnone' else b
        if not b and not is_text(o, i):
            return False
        return True
    ob.all("filter", f, outs, dropped, "dropped", "a value which is only false (0, False, an "
           "empty duration) is dropped like a missing one")
    xouts = ob.outs(DATA + ".add", exc="calls", max_states=20000)

    def handled(o):
        if o.kind != 'raise':
            return None
        return not any(t[0] == 'call' and (same(t[1], CONV) or callee_name(t[1]) == 'conversion') for t in origin(o.value))
    ob.all("contain", f, xouts, handled, "conversion", "an exception of a conversion leaves Data.add()")

    # -- text of a value
    f = p.func(DATA + "._createItem")
    outs = returns(ob.outs(DATA + "._createItem"))

    def texted(o):
        v = o.value
        args = [x for x in v if isinstance(x, tuple)] if v[0] in ('new', 'call') else []
        a = None
        for x in v[1:]:
            if isinstance(x, tuple) and len(x) == 2 and x[0] == P('value'):
                a = x
        if a is None:
            return None
        t = a[1]
        if t == P('text'):
            n = kcond(o, lambda c: c == ('isnone', P('text')))
            return not any(n) if n else None
        if t == P('value'):
            return any(kcond(o, lambda c: c[0] == 'call' and callee_name(c[1]) == 'isinstance' and c[2][0] == P('value')
                             and c[2][1] == ('ext', 'builtins.str')))
        return t[0] in ('call', 'bin', 'const')
    ob.all("text", f, outs, texted, "text", "the text of the item is not a text")

    # -- read
    f = p.func(MD + "Metadata.getItem")
    outs = ob.outs(MD + "Metadata.getItem", exc="try", raising_loads=True)
    caught = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.ExceptHandler):
            for t in ([n.type] if not isinstance(n.type, ast.Tuple) else n.type.elts):
                caught.add(ast.unparse(t).rsplit(".", 1)[-1] if t is not None else "Exception")
    wide = {"LookupError", "Exception", "BaseException"}
    trys = [n for n in ast.walk(f.node) if isinstance(n, ast.Try)]
    ob.check("read", f, None if not trys else bool(caught & wide or {"IndexError"} <= caught) and bool(
        caught & {"ValueError", "Exception", "BaseException"}), "missing",
        "asking for a missing value raises instead of answering None")
    if not trys:
        rep.passed("read")
    f = p.func(MD + "Metadata.get")
    outs = ob.outs(MD + "Metadata.get")

    def kdef(o):
        return any(t == P('default') for t, b in o.conds)

    def got(o):
        if o.kind == 'raise':
            nodef = [b for t, b in o.conds if t == ('isnone', P('default')) or t[0] == 'is' and P('default') in t[1:]]
            return exc_name(o) == 'ValueError' and (all(nodef) if nodef else None if not kdef(o) else False)
        if o.value == P('default'):
            return any(b for t, b in o.conds if t[0] == 'isnone' and has(t, P('key')))
        return o.value[0] == 'attr' and o.value[2] == 'value'
    ob.all("read", f, outs, got, "get", "get() answers neither the value, nor the default of a missing value")
    f = p.func(MD + "Metadata.getText")

    def gott(o):
        if o.kind == 'raise':
            return None
        if o.value == P('default'):
            return any(b for t, b in o.conds if t[0] == 'isnone' and has(t, P('key')))
        return o.value[0] == 'attr' and o.value[2] == 'text' and not any(
            b for t, b in o.conds if t[0] == 'isnone' and has(t, P('key')))
    ob.all("read", f, ob.outs(MD + "Metadata.getText"), gott, "getText", "getText() answers neither the text, nor the default "
           "of a missing value")

    # -- groups
    f = p.func(MD + "MultipleMetadata.addGroup")
    outs = returns(ob.outs(MD + "MultipleMetadata.addGroup"))
    GR = [e for o in outs for e in o.events]

    def groups(o):
        return [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'append' and len(e[1]) > 1
                and e[1][1] != SELF]
    ob.all("group", f, [o for o in outs if o.value == FALSE], lambda o: not groups(o) and cond(
        o, lambda t: t == P('metadata')) is not True, "refused", "False is answered for a group which is not empty")
    ob.all("group", f, [o for o in outs if o.value == TRUE], lambda o: len(groups(o)) == 1 and groups(o)[0][2][-1] == P(
        'metadata') and cond(o, lambda t: t == P('metadata')) is not False, "added", "True is answered but the group is not "
        "added exactly once")

    ob.all("group", f, [o for o in outs if groups(o)], lambda o: True if cond(o, lambda t: t == P('metadata')) else None if any(
        has(t, P('metadata')) and t[0] not in ('isnone', 'is') for t, b in o.conds) else False, "empty", "an empty group is added")

    def numbered(o):
        arr = cond(o, lambda t: t[0] == 'call' and callee_name(t[1]) == 'endswith' and t[2] == (C('[]'),))
        if arr is None or not groups(o):
            return None
        k = groups(o)[0][2][0]
        if not arr:
            return k == P('key')
        cnt = [e for e in o.events if e[0] == 'setitem' and find_terms(
            e[1], lambda t: t[0] == 'attr' and 'key_counter' in t[2])]
        if not find_terms(('x',) + tuple(x for g in outs for e in g.events for x in e[1:3] if isinstance(x, tuple)),
                          lambda t: t[0] == 'attr' and 'key_counter' in t[2]):
            return None
        return k != P('key') and bool(cnt)
    ob.all("group", f, outs, numbered, "numbered", "a group whose key ends with [] is "
           "added without its number")

    # -- export
    def isprio(x):
        return x[0] == 'attr' and x[2] == 'priority'
    top = ctx.project.modules["hachoir.metadata.metadata_item"]
    MAXP = next((n.value.value for n in top.tree.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)
                 and n.targets[0].id == "MAX_PRIORITY" and isinstance(n.value, ast.Constant)), None)
    for name in ("exportPlaintext", "exportDictionary"):
        f = p.func(MD + "Metadata." + name)
        outs = ob.outs(MD + "Metadata." + name, max_states=20000)

        def lines(o):
            """values listed on this path"""
            return [e for e in o.events if (e[0] == 'call' and callee_name(e[1]) in ('append', 'extend', 'update')
                                            or e[0] == 'setitem')
                    and find_terms(('x',) + tuple(x for x in e[1:] if isinstance(x, tuple)),
                                   lambda x: x[0] == 'attr' and x[2] in ('text', 'value') and x[1][0] == 'elem'
                                   or x[0] == 'attr' and x[2] in ('text', 'value'))]

        def above(o):
            """(known, data is above the asked priority) on this path"""
            for t, b in o.conds:
                if t[0] not in ('lt0',) or not find_terms(t, isprio):
                    continue
                d = dict(t[2])
                mine = [(k, c) for k, c in d.items() if isprio(k)]
                if len(mine) != 1 or abs(mine[0][1]) != 1:
                    return None
                c = mine[0][1]
                const = t[1] - (c * -1 * MAXP if len(d) == 1 else 0)
                # c == -1: limit + const < priority; c == 1: priority < limit - const
                if c == -1:
                    return b if const == 0 else 'off'
                return (not b) if const == -1 else 'off'
            return None

        def prio(o):
            if not lines(o):
                return None
            a = above(o)
            if a is None:
                return False if not any(find_terms(t, isprio) for t, b in o.conds) else None
            return a is False
        ob.all("export", f, outs, prio, name + " priority", "a value above the asked "
               "priority is listed, or one of exactly that priority is not")

        def stops(o):
            if o.kind != 'return' or not any(e[0] == 'iter' for e in o.events) or above(o) is not True:
                return None
            it = [e for e in o.events if e[0] == 'iterate']
            return bool(find_terms(it[0][1], lambda t: t[0] in ('call', 'ext', 'pure') and 'sorted' in show(t))) if it else None
        ob.all("export", f, outs, stops, name + " order", "the listing stops at the first "
               "value above the priority although values are not sorted by priority")
    f = p.func(MD + "Metadata.exportPlaintext")
    outs = ob.outs(MD + "Metadata.exportPlaintext", max_states=20000)
    rets = returns(outs)

    def none_or_text(o):
        short = [(t, b) for t, b in o.conds if t[0] in ('lt0', 'eq0') and find_terms(
            t, lambda x: x[0] == 'call' and callee_name(x[1]) == 'len')]
        if not short:
            return None
        t, b = short[-1]
        c = list(dict(t[2]).values())[0]
        if t[0] == 'lt0' and c == -1:
            ok, many = t[1] == 1, b
        elif t[0] == 'lt0' and c == 1:
            ok, many = t[1] == -2, not b
        elif t[0] == 'eq0' and abs(c) == 1:
            ok, many = t[1] * c == -1, not b
        else:
            return None
        return ok and (o.value == NONE) != many
    ob.all("export", f, rets, none_or_text, "nothing", "a report with only its title is answered, or a report with values is "
           "dropped")
    for name in ("exportPlaintext", "exportDictionary"):
        f = p.func(MD + "MultipleMetadata." + name)
        outs = ob.outs(MD + "MultipleMetadata." + name, max_states=20000, opaque=(name,))

        def groupcall(o):
            return [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == name and has(e[1], ('x',)) is False
                    and e[1][0] == 'attr' and e[1][1] != SELF and find_terms(e[1], lambda t: t[0] == 'elem')]

        def passed(o):
            g = groupcall(o)
            if not g:
                return None
            return all(P('priority') in e[2] or any(k == 'priority' and v == P('priority') for k, v in e[3]) for e in g)
        ob.all("export", f, outs, passed, name + " group priority", "the groups are exported "
               "with another priority than the asked one")
        plus = any(isinstance(n, (ast.AugAssign, ast.BinOp)) and isinstance(n.op, (ast.Add, ast.BitOr)) for n in ast.walk(f.node))

        def added(o):
            g = groupcall(o)
            if not g or o.kind == 'raise':
                return None
            val = strip_epoch(g[-1][4])
            if not any(b for t, b in o.conds if strip_epoch(t) == val):
                return None
            if any((e[0] == 'call' and callee_name(e[1]) in ('extend', 'append', 'update', 'insert') or e[0] == 'setitem')
                   and any(has(x, val) for x in e[1:] if isinstance(x, tuple)) for e in o.events if e is not g[-1]):
                return True
            return None if plus else False
        ob.all("export", f, outs, added, name + " group lines", "the lines of a group are not "
               "added to the report")
    # str() of empty metadata
    f = p.func(MD + "Metadata.__str__")
    outs = returns(ob.outs(MD + "Metadata.__str__", opaque=("exportPlaintext",)))

    def strs(o):
        j = find_terms(o.value, lambda t: t[0] == 'call' and callee_name(t[1]) == 'join')
        for t in j:
            if t[2] and t[2][0][0] == 'call' and callee_name(t[2][0][1]) == 'exportPlaintext':
                src = t[2][0]
                known = [b for c, b in o.conds if same(c, src)]
                isn = [b for c, b in o.conds if c[0] == 'isnone' and has(c, src)]
                if not (any(known) or (isn and not any(isn))):
                    return False
        return True
    ob.all("export", f, outs, strs, "str", "the missing report (None) of empty metadata is joined: str() raises TypeError")
