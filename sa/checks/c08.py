"""A parse error inside a field set of known size is contained."""
import ast
from ..oblig import Oblig, SELF, A, C, P, cond, returns, raises, exc_name, final, same, strip_epoch, has
from ..flow import callee_name, NONE, FALSE, show, lin
from ..project import AnalysisBroken

GF = "hachoir.field.generic_field_set.GenericFieldSet"
SF = "hachoir.field.seekable_field_set.RootSeekableFieldSet"
GEN = A(SELF, "_field_generator")


def is_next(t):
    return t[0] == 'call' and (t[1] == ('ext', 'builtins.next') and t[2] and same(t[2][0], GEN)
                               or callee_name(t[1]) in ('__next__', 'send') and len(t[1]) > 1 and same(t[1][1], GEN))


def selfcall(t, name):
    return t[0] == 'call' and callee_name(t[1]) == name and len(t[1]) > 1 and t[1][1] == SELF


def is_feed(t):
    """one step of the feeding: next(generator) or _addField()"""
    return is_next(t) or same(t, GEN) or selfcall(t, '_addField')


def origin(exc):
    """the calls an unknown exception may come from"""
    return exc[2] if exc[0] == 'exc' and exc[1] == '*' else ()


def calls(o, name):
    return [e for e in o.events if e[0] == 'call' and selfcall(e[4], name)]


def feeds(loop):
    return any(isinstance(n, ast.Call) and (
        isinstance(n.func, ast.Name) and n.func.id == 'next'
        or isinstance(n.func, ast.Attribute) and n.func.attr in ('_addField', '__next__')) for n in ast.walk(loop))


def run(ctx, rep):
    rep.rule("contain", "every exception of one feeding step is answered: StopIteration by _stopFeeding(), any other "
             "Exception by _fixFeedError(), and escapes only when that answered False", 6)
    rep.rule("step", "every field the generator makes is added (or refused) by _addField() before the next step", 1)
    rep.rule("stop", "_stopFeeding() leaves no generator and a size equal to what was parsed, or raises ParserError", 2)
    rep.rule("fix", "_fixFeedError() refuses exactly when the size is unknown or autofix is off, else repairs", 1)
    rep.rule("repair", "the repair drops what exceeds the size and covers the rest with one raw field", 2)
    rep.rule("drop", "a field whose size cannot be computed is deleted by re-raising, or stopped if it is a field set "
             "with content", 1)
    ob = Oblig(ctx, rep)

    for name in ("_feedUntil", "readMoreFields", "_feedAll", "__iter__"):
        f = ob.func(GF + "." + name)
        outs = ob.outs(GF + "." + name, exc='calls')
        esc = [o for o in raises(outs) if any(is_feed(t) for t in origin(o.value))]

        def refused(o):
            for t, b in o.conds:
                if t[0] == 'is' and any(selfcall(x, '_fixFeedError') for x in t[1:]) and FALSE in t[1:]:
                    return b
                if t[0] == 'eq' and any(selfcall(x, '_fixFeedError') for x in t[1:]) and FALSE in t[1:]:
                    return b
            return False
        ob.all("contain", f, esc, refused, "escape",
               "an error of a parser escapes the feeding although it could be repaired", least=1)

        def answered(o):
            """every caught feeding error is followed by its answer"""
            ev = o.events
            for i, e in enumerate(ev):
                if e[0] != 'caught' or not any(is_feed(t) for t in origin(e[1])):
                    continue
                types = [getattr(t, "name", str(t)).rsplit(".", 1)[-1] for t in e[2]]
                rest = ev[i + 1:]
                stop = any(x[0] == 'call' and selfcall(x[4], '_stopFeeding') for x in rest)
                fix = any(x[0] == 'call' and selfcall(x[4], '_fixFeedError') for x in rest)
                if types == ["StopIteration"]:
                    if not stop or fix:
                        return False
                elif "StopIteration" in types:
                    return False
                elif not fix or stop:
                    return False
            return True
        ob.all("contain", f, returns(outs), answered, "answer",
               "an error of a parser is swallowed without stopping or repairing the field set", least=1)
        ob.all("contain", f, [o for o in outs if o.kind == 'backedge' and feeds(o.node)],
               lambda o: not any(e[0] == 'caught' and any(is_feed(t) for t in origin(e[1])) for e in o.events),
               "continue", "the feeding goes on after an error", least=0)
        ob.check("contain", f, any(e[0] == 'caught' and any(getattr(t, "name", str(t)).endswith("StopIteration")
                                                            for t in e[2])
                                   for o in outs for e in o.events), "end",
                 "the end of the generator is not handled")

        def added(o):
            ev = [e for e in o.events if e[0] == 'call']
            for i, e in enumerate(ev):
                if is_next(e[4]):
                    nxt = [x for x in ev[i + 1:] if selfcall(x[4], '_addField')]
                    if not nxt or nxt[0][2] != (e[4],):
                        return False
            return True
        ob.all("step", f, [o for o in outs if o.kind in ('backedge', 'return') and not any(
            e[0] == 'caught' for e in o.events)], added, "step",
            "a field made by the generator is not added", least=1)
    outs = ob.outs(GF + ".__iter__", exc='calls')

    def yielded(o):
        for i, e in enumerate(o.events):
            if e[0] == 'call' and (selfcall(e[4], '_stopFeeding') or selfcall(e[4], '_fixFeedError')):
                isf = None
                for t, b in o.conds:
                    if t[0] == 'call' and t[1] == ('ext', 'builtins.isinstance') and t[2][0] == e[4]:
                        isf = b
                if isf and not any(y[0] == 'yield' and y[1] == e[4] for y in o.events[i:]):
                    return False
        return True
    ob.all("contain", GF + ".__iter__", returns(outs), yielded, "padding",
           "the raw field added by the repair is not delivered to the reader", least=2)

    for cls in (GF, SF):
        f = ob.func(cls + "._stopFeeding")
        outs = ob.outs(cls + "._stopFeeding", exc='none')

        def stopped(o):
            g = final(o, SELF, '_field_generator')
            return g == NONE or (g is None and bool(calls(o, '_fixLastField')))
        ob.all("stop", f, returns(outs), stopped, "generator", "the generator survives the end of the parser", least=2)

        def sized(o):
            unknown = cond(o, lambda t: t[0] == 'isnone' and same(t[1], A(SELF, '_size')))
            if unknown is None:
                return None
            if unknown:
                par = cond(o, lambda t: same(t, A(SELF, '_parent')) or t[0] == 'isnone' and same(t[1], A(SELF, '_parent')))
                inner = par if cond(o, lambda t: same(t, A(SELF, '_parent'))) is not None else (
                    None if par is None else not par)
                st = final(o, SELF, '_size')
                if inner is False:
                    return True
                return st is not None and same(st, A(SELF, '_current_size')) or bool(calls(o, '_fixLastField'))
            return True
        ob.all("stop", f, returns(outs), sized, "size",
               "a field set of unknown size ends without taking the size of what was parsed", least=2)
        ob.all("stop", f, raises(outs), lambda o: exc_name(o) == "ParserError", "error",
               "an incomplete field set is reported by something else than ParserError", least=0)
    f = ob.func(GF + "._stopFeeding")
    outs = ob.outs(GF + "._stopFeeding", exc='none')
    EQ = ('eq0', 0)

    def mismatch(o):
        return cond(o, lambda t: t[0] == 'eq0' and has(t, A(SELF, '_size')) and has(t, A(SELF, '_current_size')))

    def complete(o):
        unknown = cond(o, lambda t: t[0] == 'isnone' and same(t[1], A(SELF, '_size')))
        if unknown is not False:
            return True
        eq = mismatch(o)
        if eq is True:
            return True
        return bool(calls(o, '_fixLastField'))
    ob.all("stop", f, returns(outs), complete, "incomplete",
           "a field set which does not fill its size is left as it is", least=2)

    # _fixFeedError
    f = ob.func(GF + "._fixFeedError")
    outs = ob.outs(GF + "._fixFeedError", exc='none')

    def decided(o):
        unknown = cond(o, lambda t: t[0] == 'isnone' and same(t[1], A(SELF, '_size')))
        auto = cond(o, lambda t: strip_epoch(t)[0] == 'attr' and strip_epoch(t)[2] == 'autofix')
        if o.value == FALSE:
            return unknown is True or auto is False
        if selfcall(o.value, '_fixLastField'):
            return unknown is False and auto is True
        return False
    ob.all("fix", f, returns(outs), decided, "decide",
           "refuses a repairable error, or repairs without a size / against the user's wish", least=2)
    ob.check("fix", f, any(o.value == FALSE for o in returns(outs)), "refuse", "never refuses")
    ob.check("fix", f, any(selfcall(o.value, '_fixLastField') for o in returns(outs)), "repairs", "never repairs")
    ob.all("fix", f, raises(outs), lambda o: False, "raise", "raises", least=0)

    # _fixLastField
    for cls in (GF, SF):
        f = ob.func(cls + "._fixLastField")
        outs = ob.outs(cls + "._fixLastField", exc='none')
        ob.all("repair", f, returns(outs), lambda o: final(o, SELF, '_field_generator') == NONE, "generator",
               "the generator survives the repair", least=1)
        over = [o for o in outs if o.kind == 'backedge' and calls(o, '_deleteField')]

        def trims(o):
            e = calls(o, '_deleteField')[-1]
            arg = e[2][0] if e[2] else None
            want = lin(-1, {('call', ('ext', 'builtins.len'), (A(SELF, '_fields'),), (), 0): 1})
            return cond(o, lambda t: t[0] == 'lt0') is True and arg is not None and (
                same(arg, want) or arg == C(-1))
        ob.all("repair", f, over, trims, "trim", "the fields beyond the size are not deleted from the end", least=1)
    f = ob.func(GF + "._fixLastField")
    outs = ob.outs(GF + "._fixLastField", exc='none')
    rest = lin(0, {A(SELF, '_size'): 1, A(SELF, '_current_size'): -1})

    def padded(o):
        raw = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'createRawField']
        if not raw:
            # nothing missing
            c = [b for t, b in o.conds if has(t, A(SELF, '_size')) and has(t, A(SELF, '_current_size'))
                 and t[0] in ('lin', 'eq0', 'lt0', 'call')]
            return len(c) >= 2 and o.value == NONE
        e = raw[-1]
        app = [x for x in o.events if x[0] == 'call' and callee_name(x[1]) == 'append' and len(x[1]) > 1
               and same(x[1][1], A(SELF, '_fields'))]
        return len(raw) == 1 and len(e[2]) >= 2 and e[2][0] == SELF and same(e[2][1], rest) and len(app) == 1 \
            and app[0][2][-1] == e[4] and o.value == e[4]
    ob.all("repair", f, returns(outs), padded, "pad",
           "the rest of the field set is not covered by exactly one raw field of the missing size", least=2)
    ob.check("repair", f, any(e[0] == 'call' and callee_name(e[1]) == 'createRawField'
                              for o in returns(outs) for e in o.events), "pads", "never pads")
    cur = A(SELF, '_current_size')

    def counted(o):
        raw = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'createRawField']
        if not raw:
            return True
        st = final(o, SELF, '_current_size')
        return st is not None and (same(st, A(SELF, '_size')) or same(
            st, lin(0, {cur: 1, A(raw[-1][4], 'size'): 1})) or same(st, lin(0, {cur: 1, A(raw[-1][4], '_size'): 1})))
    ob.all("repair", f, returns(outs), counted, "count", "the raw field is not counted in the current size", least=2)

    # getting the size of a new field
    f = ob.func(GF + "._addField")
    outs = ob.outs(GF + "._addField", exc='none', raising_loads=("size",), max_states=20000)
    size_err = [o for o in outs if any(e[0] == 'caught' and any(
        strip_epoch(t) == A(P('field'), 'size') for t in origin(e[1])) for e in o.events)]

    def dropped(o):
        app = [x for x in o.events if x[0] == 'call' and callee_name(x[1]) == 'append' and len(x[1]) > 1
               and same(x[1][1], A(SELF, '_fields'))]
        fs = cond(o, lambda t: strip_epoch(t) == A(P('field'), 'is_field_set'))
        stopped = [x for x in o.events if x[0] == 'call' and callee_name(x[1]) == '_stopFeeding'
                   and x[1][1] == P('field')]
        if app:
            # kept: must be a stopped field set, and the feeding of self ends
            return fs is True and bool(stopped) and o.kind == 'raise' and exc_name(o) == 'StopIteration'
        return o.kind == 'raise'
    if not size_err:
        ob.check("drop", f, False, "size-error", "an error while computing the size of a new field is not handled")
    else:
        ob.all("drop", f, size_err, dropped, "size-error",
               "a field whose size cannot be computed is kept as if it were complete", least=2)
        ob.check("drop", f, any(o.kind == 'raise' and exc_name(o) == 'StopIteration' for o in size_err), "keeps",
                 "a partially parsed field set is never kept")
