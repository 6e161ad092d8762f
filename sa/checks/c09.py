"""Addresses and sizes of the field tree are consistent."""
import ast
from ..oblig import Oblig, SELF, A, C, P, cond, returns, raises, exc_name, final, same, strip_epoch, has, below
from ..flow import callee_name, find_terms, NONE, lin, show, lt, eq, binop
from ..project import AnalysisBroken, FuncInfo

GF = "hachoir.field.generic_field_set.GenericFieldSet"
SF = "hachoir.field.seekable_field_set.RootSeekableFieldSet"
CUR = A(SELF, "_current_size")
SIZE = A(SELF, "_size")
FIELDS = A(SELF, "_fields")


def method(o, name, recv=None):
    return [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == name
            and (recv is None or len(e[1]) > 1 and same(e[1][1], recv))]


def appends(o):
    return method(o, 'append', FIELDS)


def L(const=0, *parts):
    return lin(const, dict(parts))


def backenv(o, name):
    return o.state.env.get(name)


def phi_of(t, name=None):
    return t[0] == 'phi' and (name is None or t[1] == name)


def run(ctx, rep):
    rep.rule("append", "a field is added once, at the current size, after the room for it was checked, and the current "
             "size grows by exactly its size", 1)
    rep.rule("room", "a field which does not fit, or an empty field set, is never added as it is", 1)
    rep.rule("delete", "deleting a field takes its size off the current size", 1)
    rep.rule("truncate", "truncating leaves a field set of exactly the requested size", 1)
    rep.rule("seek", "seeking covers the gap with one field of exactly the missing bits, refuses to go back, and "
             "converts bytes to bits", 2)
    rep.rule("address", "a field starts at the next address of its parent; its absolute address is the sum of the "
             "addresses up to the root", 3)
    rep.rule("limit", "the room left is what the nearest ancestor of known size has left", 1)
    rep.rule("replace", "replacing a field by others keeps the total size and lays them out one after the other", 3)
    rep.rule("locate", "the field at an address is the first one ending after it", 1)
    rep.rule("filler", "raw, padding and null fields have exactly the asked number of bits", 3)
    rep.rule("gaps", "the gaps of a seekable field set are the uncovered ranges", 1)
    ob = Oblig(ctx, rep)
    p = ctx.project

    # -- _addField
    f = ob.func(GF + "._addField")
    F = P('field')
    outs = ob.outs(GF + "._addField", exc='try', max_states=20000,
                   effects=(('_fixFieldSize', ('size', '_size')), ('_stopFeeding', ('size', '_size'))))
    done = [o for o in outs if o.kind == 'return' or o.kind == 'raise' and appends(o)]

    def sized(t, o):
        """t is the size of field, read after anything that may change it"""
        return t[0] == 'attr' and t[1] == F and t[2] in ('size', '_size') and t[3] == o.state.heap.get(
            ('epoch', t[2]), 0)

    def once(o):
        a = appends(o)
        return bool(a) and a[-1][2][-1:] == (F,) and all(x[2][-1:] == (F,) for x in a) and len(a) == (
            2 if any(e[0] == 'caught' for e in o.events) else 1)
    ob.all("append", f, done, once, "once", "a path does not append the field exactly once", least=2)

    def grows(o):
        st = [e for e in o.stores('_current_size') if e[1] == SELF]
        if len(st) != 1:
            return False
        v = st[0][3]
        if v[0] != 'lin' or v[1] != 0 or len(v[2]) != 2:
            return False
        parts = dict(v[2])
        if any(k != 1 for k in parts.values()):
            return False
        rest = [t for t in parts if not same(t, CUR)]
        if len(rest) == 2:      # field._address == current size on this path
            rest = [t for t in rest if strip_epoch(t) != A(F, '_address')]
            if not aligned(o):
                return False
        return len(rest) == 1 and sized(rest[0], o)

    def aligned(o):
        """field._address is the current size on this path"""
        st = [e for e in o.events if e[0] == 'store' and e[2] == '_address' and e[1] == F]
        if st:
            return len(st) == 1 and same(st[0][3], CUR)
        return cond(o, lambda t: t[0] == 'eq0' and strip_epoch(t) == strip_epoch(
            ('eq0', 0, lin(0, {A(F, '_address'): 1, CUR: -1})[2]))) is True
    ob.all("append", f, done, grows, "grow",
           "the current size does not grow by the size of the field (read after the last change of it)", least=2)
    ob.all("append", f, done, aligned, "address", "the field is added at an address which is not the current size",
           least=2)

    def order(o):
        """the current size is not advanced before the room was checked"""
        ev = o.events
        chk = [i for i, e in enumerate(ev) if e[0] == 'call' and callee_name(e[1]) == '_checkSize']
        st = [i for i, e in enumerate(ev) if e[0] == 'store' and e[2] == '_current_size' and e[1] == SELF]
        app = [i for i, e in enumerate(ev) if e[0] == 'call' and callee_name(e[1]) == 'append'
               and len(e[1]) > 1 and same(e[1][1], FIELDS)]
        if not chk or not app or chk[0] > app[0] or st and chk[0] > st[0]:
            return False
        e = ev[chk[0]]
        want = lin(0, {A(F, '_address'): 1, A(F, 'size'): 1})
        want2 = lin(0, {CUR: 1, A(F, 'size'): 1})
        strict = e[2][1] if len(e[2]) > 1 else dict(e[3]).get('strict')
        if not (same(e[2][0], want) or same(e[2][0], want2)) or strict != C(False):
            return False
        adr = [i for i, x in enumerate(ev) if x[0] == 'store' and x[2] == '_address' and x[1] == F]
        return not adr or adr[0] < chk[0]
    ob.all("append", f, done, order, "check", "the room for the field is not checked at its final address", least=2)
    ob.all("append", f, [o for o in outs if o.kind == 'raise' and not appends(o)],
           lambda o: not [e for e in o.stores('_current_size') if e[1] == SELF], "refused",
           "a refused field is counted in the current size", least=1)

    def toolarge(o):
        return cond(o, lambda t: t[0] == 'lt0' and len(t[2]) == 1 and t[1] == 0 and t[2][0][1] == 1
                    and t[2][0][0][0] == 'call' and callee_name(t[2][0][0][1]) == '_checkSize')

    def empty(o):
        fs = cond(o, lambda t: strip_epoch(t) == A(F, 'is_field_set'))
        pos = cond(o, lambda t: strip_epoch(t) == strip_epoch(lt(C(0), A(F, 'size'))))
        return fs is True and pos is False
    bad = [o for o in outs if toolarge(o) is True or empty(o)]

    def handled(o):
        return o.kind == 'raise' and exc_name(o) in ('ParserError', 'StopIteration', 'AssertionError') or bool(
            method(o, '_fixFieldSize', SELF))
    ob.all("room", f, bad, handled, "handled", "a field which does not fit is added", least=2)
    ob.check("room", f, any(toolarge(o) is True for o in outs), "large", "the answer of _checkSize is not tested")
    ob.check("room", f, any(empty(o) for o in outs), "empty", "an empty field set is not refused")
    ob.check("room", f, any(o.kind == 'raise' and exc_name(o) == 'ParserError' for o in bad), "error",
             "a field which does not fit is never reported")

    # -- _fixFieldSize
    f = ob.func(GF + "._fixFieldSize")
    outs = ob.outs(GF + "._fixFieldSize", exc='none')
    ns = P('new_size') if 'new_size' in f.params else P(f.params[-1])

    def kept(o):
        t = method(o, '_truncate', F)
        return len(t) == 1 and t[0][2] == (ns,) and cond(
            o, lambda c: strip_epoch(c) == lt(C(0), ns)) is True and cond(
            o, lambda c: strip_epoch(c) == A(F, 'is_field_set')) is True
    ob.all("room", f, returns(outs), kept, "fix", "a field which does not fit is kept without being truncated", least=1)
    ob.all("room", f, raises(outs), lambda o: exc_name(o) == 'StopIteration', "stop",
           "dropping a field does not stop the feeding", least=1)

    # -- _deleteField
    f = ob.func(GF + "._deleteField")
    outs = ob.outs(GF + "._deleteField", exc='none')

    def deleted(o):
        d = [e for e in o.events if e[0] == 'delitem' and same(e[1], FIELDS)]
        if len(d) != 1:
            return False
        victim = ('item', A(FIELDS, 'values'), d[0][2], 0)
        v = final(o, SELF, '_current_size')
        ok = v is not None and any(same(v, lin(0, {CUR: 1, A(victim, s): -1})) for s in ('size', '_size'))
        return ok and same(o.value, victim)
    ob.all("delete", f, returns(outs), deleted, "delete",
           "the size of the deleted field is not taken off the current size", least=1)
    ob.all("delete", f, returns(outs), lambda o: [e for e in o.events if e[0] == 'delitem'][:1] and
           [e for e in o.events if e[0] == 'delitem'][0][2] == P(f.params[1]), "index", "another field is deleted",
           least=1)

    # -- _truncate
    f = ob.func(GF + "._truncate")
    outs = ob.outs(GF + "._truncate", exc='none')
    sz = P(f.params[1])
    ob.all("truncate", f, returns(outs), lambda o: final(o, SELF, '_size') == sz, "size",
           "the size is not the requested one", least=3)

    def cut(o):
        """when fields were cut, the current size is the size and parsing is over"""
        c = cond(o, lambda t: strip_epoch(t) == strip_epoch(lt(sz, CUR)))
        if c is not True:
            return True
        cur = final(o, SELF, '_current_size')
        return cur is not None and (cur == sz or same(cur, SIZE)) and final(o, SELF, '_field_generator') == NONE
    ob.all("truncate", f, returns(outs), cut, "cut", "fields were cut but the parser goes on behind them", least=3)

    def is_last(t):
        """the field read last: values[-1], or a variable of the loop holding it"""
        t = strip_epoch(t)
        return t == ('item', A(FIELDS, 'values'), C(-1), 0) or t[0] == 'phi' and isinstance(t[3], tuple) and is_last(t[3])

    def lasts(o):
        """the terms for the last field on the path"""
        r = []
        for t, b in o.conds:
            for x in find_terms(t, lambda x: x[0] == 'attr' and x[2] in ('_address', 'address') and is_last(x[1])):
                if strip_epoch(x[1]) not in r:
                    r.append(strip_epoch(x[1]))
        return r
    adrs = lambda o: [A(x, '_address') for x in lasts(o)]
    verdict = lambda r: True if True in r else False if False in r else None
    iscut = lambda o: cond(o, lambda t: strip_epoch(t) == strip_epoch(lt(sz, CUR))) is True

    def keeps(o):
        """the last field kept begins before the new end"""
        return not iscut(o) or verdict([below(o, lin(0, {x: 1, sz: -1})) for x in adrs(o)])
    ob.all("truncate", f, returns(outs), keeps, "kept",
           "a field which begins behind (or at) the new end is kept", least=3)

    def drops(o):
        """a whole field is deleted only if it begins at or behind the new end"""
        if not any(e[0] == 'delitem' and same(e[1], FIELDS) for e in o.events):
            return None
        r = verdict([below(o, lin(-1, {sz: 1, x: -1})) for x in adrs(o)])
        if r is None and len(lasts(o)) == 1 and any(has(t, adrs(o)[0]) and has(t, sz) for t, b in o.conds):
            return False
        return r
    ob.all("truncate", f, [o for o in outs if o.kind == 'backedge'], drops, "dropped",
           "a field which begins before the new end is dropped", least=0)

    def fits(o):
        """a last field which is not cut ends at the new end or before it"""
        if not iscut(o) or method(o, '_truncate') or method(o, 'createRawField'):
            return True
        return verdict([below(o, lin(-1, {A(l, '_address'): 1, A(l, x): 1, sz: -1})) for x in ('_size', 'size')
                        for l in lasts(o)])
    ob.all("truncate", f, returns(outs), fits, "last fits", "the last field is not cut though it goes beyond the new end", least=3)

    def rawrest(o):
        raw = method(o, 'createRawField')
        if not raw:
            return True
        return len(raw) == 1 and any(same(raw[0][2][1], lin(0, {sz: 1, x: -1})) for x in adrs(o)) and any(
            e[0] == 'delitem' and same(e[1], FIELDS) for e in o.events)
    ob.all("truncate", f, returns(outs), rawrest, "raw", "the cut field is not replaced by its remaining bits", least=3)

    # -- seek
    f = ob.func(GF + ".seekBit")
    outs = ob.outs(GF + ".seekBit", exc='none')
    adr = P(f.params[1])
    rel = lin(0, {adr: 1, CUR: -1})
    absl = lin(0, {adr: 1, CUR: -1, A(SELF, 'absolute_address'): -1})

    def gap(o):
        r = cond(o, lambda t: t == P('relative'))
        if r is None:
            return None
        want = rel if r else absl
        neg = cond(o, lambda t: strip_epoch(t) == strip_epoch(lt(want, C(0))))
        pos = cond(o, lambda t: strip_epoch(t) == strip_epoch(lt(C(0), want)))
        zero = cond(o, lambda t: strip_epoch(t) == strip_epoch(eq(want, C(0))))
        return want, neg, pos, zero

    def seeks(o):
        g = gap(o)
        if g is None:
            return False
        want, neg, pos, zero = g
        mk = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) in ('createPaddingField', 'createNullField')]
        if o.kind == 'raise':
            return neg is True and exc_name(o) == 'ParserError'
        if neg is not False and pos is not True and zero is not True:
            return False
        if o.value == NONE:
            return not mk and (pos is False or zero is True)
        return (pos is True or zero is False) and len(mk) == 1 and mk[0][4] == o.value and same(mk[0][2][1], want) \
            and mk[0][2][0] == SELF
    ob.all("seek", f, [o for o in outs if o.kind in ('return', 'raise')], seeks, "seekBit",
           "the field does not cover exactly the gap", least=3)
    ob.check("seek", f, any(o.kind == 'raise' for o in outs), "back", "seeking back is not refused")
    for nm, callee in (('null', 'createNullField'), ('padding', 'createPaddingField')):
        ob.check("seek", f, any(callee_name(o.value[1]) == callee and cond(o, lambda t: t == P('null')) is (nm == 'null')
                                for o in returns(outs) if o.value[0] == 'call'), nm,
                 "the %s filler is not used when asked" % nm)
    for cls in (GF, SF):
        f = ob.func(cls + ".seekByte")
        outs = ob.outs(cls + ".seekByte", exc='none', opaque=('seekBit',))
        a = P(f.params[1])

        def bytes_(o):
            s = method(o, 'seekBit', SELF)
            if len(s) != 1 or s[0][4] != o.value or not same(s[0][2][0], lin(0, {a: 8})):
                return False
            g = p.func(cls + ".seekBit")
            for i, nme in enumerate(f.params[2:], 2):
                if nme not in g.params:
                    return False
                got = s[0][2][g.params.index(nme) - 1] if len(s[0][2]) > g.params.index(nme) - 1 \
                    else dict(s[0][3]).get(nme)
                if got != P(nme):
                    return False
            return True
        ob.all("seek", f, returns(outs), bytes_, "seekByte",
               "does not seek to eight times the address with the caller's options", least=1)
    f = ob.func(SF + ".seekBit")
    outs = ob.outs(SF + ".seekBit", exc='none')
    a = P(f.params[1])

    def jumps(o):
        r = cond(o, lambda t: t == P('relative'))
        want = a if r else lin(0, {a: 1, A(SELF, 'absolute_address'): -1})
        neg = cond(o, lambda t: strip_epoch(t) == strip_epoch(lt(want, C(0))))
        if o.kind == 'raise':
            return neg is True and exc_name(o) == 'ParserError'
        v = final(o, SELF, '_current_size')
        return neg is False and v is not None and same(v, want) and o.value == NONE
    ob.all("seek", f, [o for o in outs if o.kind in ('return', 'raise')], jumps, "seekBit",
           "does not set the current size to the address inside the field set", least=3)

    # -- addresses
    f = ob.func(GF + ".nextFieldAddress")
    ob.all("address", f, returns(ob.outs(GF + ".nextFieldAddress", exc='none')),
           lambda o: same(o.value, CUR), "next", "the next address is not the current size")
    for fn in ("hachoir.field.field.Field.__init__", "hachoir.field.basic_field_set.BasicFieldSet.__init__"):
        f = ob.func(fn)
        outs = returns(ob.outs(fn, exc='none'))

        def placed(o):
            v = final(o, SELF, '_address')
            root = cond(o, lambda t: t == P('parent') or t == ('isnone', P('parent')))
            t = cond(o, lambda t: t == P('parent'))
            noparent = (t is False) or (t is None and root is True)
            if v == C(0):
                return noparent
            return v is not None and v[0] == 'call' and callee_name(v[1]) == 'nextFieldAddress' and v[1][1] == P('parent')
        ob.all("address", f, outs, placed, "place", "the field does not start at the next address of its parent")
        ob.all("address", f, outs, lambda o: final(o, SELF, '_parent') == P('parent'), "parent",
               "the parent is not the one given")

        def size(o):
            v = final(o, SELF, '_size')
            return v is not None and (v == P('size') or strip_epoch(v) == A(SELF, 'static_size') and cond(
                o, lambda t: t == ('isnone', P('size'))) is True)
        ob.all("address", f, outs, size, "size", "the size is not the one given")

        def positive(o):
            v = final(o, SELF, '_size')
            none = cond(o, lambda t: strip_epoch(t) in (('isnone', v), ('isnone', SIZE)))
            for t, b in o.conds:
                t = strip_epoch(t)
                if b is False and t in (strip_epoch(lt(v, C(0))), strip_epoch(lt(v, C(1)))):
                    return True
                if b is True and t == strip_epoch(lt(C(0), v)):
                    return True
            return none is True or v[0] != 'param' and none is not False
        ob.all("address", f, outs, positive, "negative", "a negative size is accepted")
    f = p.func("hachoir.field.field.Field.absolute_address")
    outs = ob.outs("hachoir.field.field.Field.absolute_address", exc='none')

    def summed(o):
        v = o.value
        if phi_of(v):
            # the loop adds each ancestor's address
            bes = [b for b in outs if b.kind == 'backedge']
            if len(bes) != 1:
                return False
            env = bes[0].state.env
            nv = env.get(v[1])
            walk = [n for n, t in env.items() if t[0] == 'attr' and phi_of(t[1]) and t[2] in ('_parent', 'parent')
                    and t[1][1] == n]
            if len(walk) != 1:
                return False
            w = env[walk[0]][1]
            if (strip_epoch(v[3] or NONE), strip_epoch(w[3] or NONE)) not in (
                    (A(SELF, '_address'), A(SELF, '_parent')), (A(SELF, '_address'), A(SELF, 'parent')),
                    (A(SELF, 'address'), A(SELF, '_parent')), (A(SELF, 'address'), A(SELF, 'parent')),
                    (C(0), SELF)):
                return False
            if not any(t == w and not b or t == ('isnone', w) and b for t, b in o.conds):
                return False
            return any(same(nv, lin(0, {v: 1, A(w, n): 1})) for n in ('_address', 'address'))
        # recursive form
        for par in ('_parent', 'parent'):
            for n in ('_address', 'address'):
                if same(v, lin(0, {A(SELF, n): 1, A(SELF, par, 'absolute_address'): 1})):
                    return True
                if same(v, A(SELF, n)):
                    return True
        return False
    ob.all("address", f, returns(outs), summed, "absolute",
           "the absolute address is not the sum of the addresses of the field and its ancestors")

    # -- _checkSize
    f = ob.func(GF + "._checkSize")
    outs = ob.outs(GF + "._checkSize", exc='none')
    want_size = f.params[1]

    def room(o):
        v = o.value
        if v in (NONE, C(0)):
            # only for a stream of unknown size
            return cond(o, lambda t: t[0] == 'isnone' and strip_epoch(t[1])[0] == 'attr'
                        and strip_epoch(t[1])[2] == 'size') is True
        if v[0] != 'lin' or v[1] != 0:
            return False
        parts = dict(v[2])
        own = [t for t, k in parts.items() if k == 1 and t[0] == 'attr' and t[2] == '_size']
        ask = [t for t, k in parts.items() if k == -1 and (phi_of(t, want_size) or t == P(want_size))]
        return len(parts) == 2 and len(own) == 1 and len(ask) == 1
    ob.all("limit", f, returns(outs), room, "room", "the answer is not what the ancestor of known size has left",
           least=2)
    bes = [o for o in outs if o.kind == 'backedge']

    def climbs(o):
        s = backenv(o, want_size)
        up = [(n, t) for n, t in o.state.env.items() if t[0] == 'attr' and t[2] in ('_parent', 'parent')
              and phi_of(t[1], n)]
        if len(up) != 1:
            return False
        w = up[0][1][1]
        return s[0] == 'lin' and len(s[2]) == 2 and s[1] == 0 and all(k == 1 for t, k in s[2]) and any(
            strip_epoch(t) in (strip_epoch(A(w, '_address')), strip_epoch(A(w, 'address'))) for t, k in s[2]) and any(
            phi_of(t, want_size) for t, k in s[2])
    ob.all("limit", f, bes, climbs, "climb", "climbing to the parent does not add the address of the field", least=1)

    # -- replaceField
    f = ob.func(GF + ".replaceField")
    outs = ob.outs(GF + ".replaceField", exc='none', max_states=20000)
    old = ('item', SELF, P('name'), 0)

    def samesize(o):
        for t, b in o.conds:
            if t[0] == 'eq0' and any(x[0] == 'call' and x[1] == ('ext', 'builtins.sum') for x, k in t[2]) \
                    and any(strip_epoch(x) == A(old, 'size') for x, k in t[2]):
                return b
        return None
    ob.all("replace", f, returns(outs), lambda o: samesize(o) is True, "size",
           "a field is replaced by fields of another total size", least=1)
    ob.check("replace", f, any(samesize(o) is False and o.kind == 'raise' and exc_name(o) == 'ParserError'
                               for o in outs), "refuse", "a replacement of another size is not refused")
    new0 = ('item', P('new_fields'), C(0), 0)

    def first(o):
        st = [e for e in o.events if e[0] == 'store' and e[2] == '_address' and same(e[1], new0)]
        return len(st) >= 1 and strip_epoch(st[-1][3]) in (A(old, 'address'), A(old, '_address'))
    ob.all("replace", f, returns(outs), first, "first", "the first new field is not put at the old address", least=1)
    bes = [o for o in outs if o.kind == 'backedge']

    def laid(o):
        el = [e for e in o.events if e[0] == 'store' and e[2] == '_address' and e[1][0] == 'elem']
        if len(el) != 1:
            return False
        a = el[0][3]
        if not phi_of(a):
            return False
        nv = backenv(o, a[1])
        init = a[3]
        okinit = init is not None and any(same(init, lin(0, {A(b0, x): 1, A(new0, y): 1})) or
                                          same(init, lin(0, {A(old, x): 1, A(new0, y): 1}))
                                          for b0 in (new0,) for x in ('address', '_address') for y in ('size', '_size'))
        return okinit and any(same(nv, lin(0, {a: 1, A(el[0][1], y): 1})) for y in ('size', '_size'))
    ob.all("replace", f, bes, laid, "layout", "the new fields are not laid out one after the other", least=1)

    def inserted(o):
        ins = method(o, 'insert', FIELDS)
        if len(ins) != 1 or ins[0][2][2][0] != 'elem':
            return False
        i = ins[0][2][0]
        if not phi_of(i):
            return False
        nv = backenv(o, i[1])
        return same(nv, lin(1, {i: 1}))
    ob.all("replace", f, bes, inserted, "insert", "the new fields are not inserted one after the other", least=1)

    # -- writeFieldsIn
    f = ob.func(GF + ".writeFieldsIn")
    outs = ob.outs(GF + ".writeFieldsIn", exc='none')
    of, ad = P('old_field'), P('address')

    def before(o):
        d = lin(0, {ad: 1, A(of, 'address'): -1})
        pos = cond(o, lambda t: strip_epoch(t) == strip_epoch(lt(C(0), d)))
        mk = [e for e in method(o, 'createPaddingField') if same(e[2][1], d)]
        if pos is True:
            st = [e for e in o.events if e[0] == 'store' and e[2] == '_address' and mk and e[1] == mk[0][4]]
            return len(mk) == 1 and len(st) == 1 and strip_epoch(st[0][3]) == A(of, 'address')
        return pos is False and not mk
    ob.all("replace", f, returns(outs), before, "before", "the bits before the new fields are not covered", least=2)

    def after(o):
        for t, b in o.conds:
            t = strip_epoch(t)
            if t[0] == 'lt0' and any(x[0] == 'phi' and k == 1 for x, k in t[2]) and (A(of, 'size'), -1) in t[2] and \
                    (A(of, 'address'), -1) in t[2]:
                mk = [e for e in method(o, 'createPaddingField') if any(x[0] == 'phi' for x, k in (
                    e[2][1][2] if e[2][1][0] == 'lin' else ()))]
                return (len(mk) == 1) == b
        return False
    ob.all("replace", f, returns(outs), after, "after", "the bits behind the new fields are not covered", least=2)
    bes = [o for o in outs if o.kind == 'backedge']

    def steps(o):
        el = [e for e in o.events if e[0] == 'store' and e[2] == '_address' and e[1][0] == 'elem']
        if len(el) != 1 or not phi_of(el[0][3]):
            return False
        a = el[0][3]
        return any(same(backenv(o, a[1]), lin(0, {a: 1, A(el[0][1], y): 1})) for y in ('size', '_size'))
    ob.all("replace", f, bes, steps, "steps", "the new fields are not laid out one after the other", least=1)

    # -- getFieldByAddress
    f = ob.func(GF + ".getFieldByAddress")
    outs = ob.outs(GF + ".getFieldByAddress", exc='none')

    def found(o):
        if o.value == NONE:
            return True
        v = strip_epoch(o.value)
        return v[0] == 'item' and v[1] == A(FIELDS, 'values') and v[2][0] == 'call' and callee_name(
            v[2][1]) == 'lowerBound'
    if any(method(o, 'lowerBound') for o in outs):
        ob.all("locate", f, returns(outs), found, "found", "the result is not the field the search found", least=2)
        lam = [e[2][1] for o in outs for e in method(o, 'lowerBound') if len(e[2]) > 1][0]
        node = lam[1] if lam[0] == 'func' else None
        if isinstance(node, ast.Lambda):
            x = node.args.args[0].arg
            ok = False
            fi = FuncInfo.__new__(FuncInfo)
            src = ast.dump(node.body)
            ok = _before(node.body, x)
            ob.check("locate", f, ok, "order", "the search does not skip exactly the fields ending at or before the "
                     "address", node)
        lb = ob.func("hachoir.core.tools.lowerBound")
        lo = ob.outs("hachoir.core.tools.lowerBound", exc='none')

        def halves(o):
            """pred true moves the lower bound above the middle, pred false the upper bound to it"""
            pr = [(t, b) for t, b in o.conds if t[0] == 'call' and t[1] == P(lb.params[1])]
            if len(pr) != 1:
                return False
            mid = pr[0][0][2][0]
            if mid[0] != 'item':
                return False
            m = mid[2]
            env = o.state.env
            if pr[0][1]:
                return any(same(v, binop('Add', m, C(1))) for v in env.values())
            # the upper bound is the middle: hi = m, or length = m - lo
            lows = [x for n, x in env.items() if phi_of(x, n)]
            return any(same(v, binop('Sub', m, x)) for v in env.values() for x in lows) or \
                len([1 for v in env.values() if same(v, m)]) >= 2 or any(
                    phi_of(o.state.env.get(n2), None) is False and same(o.state.env[n2], m) and n2 not in mids(lb)
                    for n2 in env)
        ob.all("locate", lb, [o for o in lo if o.kind == 'backedge'], halves, "search",
               "the binary search does not narrow to the first field after the address", least=2)
    else:
        ob.check("locate", f, None, "linear", "")

    # -- fillers
    for fn, b8, b1 in (("createRawField", "RawBytes", "RawBits"), ("createPaddingField", "PaddingBytes", "PaddingBits"),
                       ("createNullField", "NullBytes", "NullBits")):
        full = "hachoir.field.helper." + fn
        f = ob.func(full)
        n = P(f.params[1])
        outs = ob.outs(full, exc='none')

        def filler(o):
            v = o.value
            if v[0] not in ('new', 'call'):
                return False
            cname = v[1].name if v[0] == 'new' else callee_name(v[1])
            args = v[2]
            if len(args) < 3 or args[0] != P(f.params[0]) or args[1] != P('name'):
                return False
            whole = cond(o, lambda t: t[0] == 'eq0' and has(t, ('bin', 'Mod', n, C(8))))
            if whole is None:
                w = cond(o, lambda t: strip_epoch(t) == ('bin', 'Mod', n, C(8)))
                whole = None if w is None else not w
            if cname == b8:
                return whole is True and same(args[2], binop('FloorDiv', n, C(8)))
            return cname == b1 and args[2] == n and whole is False
        ob.all("filler", f, returns(outs), filler, "size",
               "the filler does not have the asked number of bits", least=2)
        ob.all("filler", f, returns(outs), lambda o: cond(
            o, lambda t: t == lt(C(0), n)) is True or cond(o, lambda t: t == lt(n, C(1))) is False, "positive",
            "a filler without bits is built", least=2)
        ob.check("filler", f, any(o.kind == 'raise' for o in outs), "refuse", "a filler without bits is not refused")

    # -- gaps
    f = ob.func("hachoir.field.seekable_field_set.getgaps")
    outs = ob.outs("hachoir.field.seekable_field_set.getgaps", exc='none')
    st, ln = P('start'), P('length')
    its = [e for o in outs for e in o.events if e[0] == 'iterate']
    ob.check("gaps", f, bool(its) and all(e[1][0] == 'call' and callee_name(e[1][1]) == 'sorted' for e in its), "sorted",
             "the blocks are not taken in the order of their address")

    def gaps(o):
        for e in o.yields():
            v = e[1]
            if v[0] != 'tuple' or len(v[1]) != 2:
                return False
            a, n = v[1]
            if not phi_of(a):
                return False
            # the length is positive on this path
            if not any(strip_epoch(t) == strip_epoch(lt(C(0), n)) and b for t, b in o.conds):
                return False
            if o.kind == 'return':
                if not same(n, lin(0, {st: 1, ln: 1, a: -1})):
                    return False
            elif not any(k == 1 and t[0] == 'item' and t[2] == C(0) for t, k in n[2]):
                return False
        return True
    ob.all("gaps", f, [o for o in outs if o.kind in ('return', 'backedge')], gaps, "ranges",
           "a gap is not the positive distance to the next block or to the end", least=3)
    ob.check("gaps", f, any(o.yields() for o in returns(outs)) and any(
        o.yields() for o in outs if o.kind == 'backedge'), "both", "the gaps before the blocks or behind the last are lost")

    def advances(o):
        ph = [v for v in o.state.env.values()]
        cur = o.state.env.get('start')
        if cur is None or o.kind != 'backedge':
            return None
        # behind the block when the block reaches further, never before it
        behind = [(t, b) for t, b in o.conds if t[0] == 'lt0' and any(
            x[0] == 'item' and x[2] == C(1) for x, k in t[2])]
        if not behind:
            return has(cur, C('max')) or cur[0] == 'call' and callee_name(cur[1]) == 'max'
        if behind[-1][1]:
            return cur[0] == 'lin' and any(x[0] == 'item' and x[2] == C(1) and k == 1 for x, k in cur[2]) and any(
                x[0] == 'item' and x[2] == C(0) and k == 1 for x, k in cur[2])
        return True
    ob.all("gaps", f, [o for o in outs if o.kind == 'backedge'], advances, "advance",
           "a covered block is reported as a gap", least=2)


def mids(f):
    """names assigned before the predicate is asked in the loop body"""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name):
            out.add(n.slice.id)
    return out


def _before(body, x):
    """x.address + x.size <= address  (in any arrangement)"""
    if isinstance(body, ast.UnaryOp) and isinstance(body.op, ast.Not):
        inner = body.operand
        return isinstance(inner, ast.Compare) and _cmp(inner, x, True)
    return isinstance(body, ast.Compare) and _cmp(body, x, False)


def _cmp(c, x, neg):
    if len(c.ops) != 1:
        return False
    l, op, r = c.left, type(c.ops[0]), c.comparators[0]

    def end(e):
        names = sorted(n.attr.lstrip("_") for n in ast.walk(e) if isinstance(n, ast.Attribute)
                       and isinstance(n.value, ast.Name) and n.value.id == x)
        return names == ["address", "size"] and isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add)

    if neg:
        op = {ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Lt: ast.GtE, ast.GtE: ast.Lt}.get(op)
    if end(l) and isinstance(r, ast.Name):
        return op is ast.LtE
    if end(r) and isinstance(l, ast.Name):
        return op is ast.GtE
    return False
