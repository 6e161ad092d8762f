"""The editor writes the original bytes of what was not changed, and the new values of what was."""
from ..oblig import Oblig, SELF, A, C, P, cond, returns, raises, exc_name, final, same, strip_epoch, has, calls_named
from ..flow import callee_name, NONE, TRUE, lin, lt, eq, add, lin_parts, find_terms, show
from ..slices import equal, ZERO
from ..project import ClassInfo, FuncInfo

FS = "hachoir.editor.fieldset.EditableFieldSet"
TF = "hachoir.editor.typed_field."
FF = "hachoir.editor.field.FakeField"
INPUT, INS, DEL, FIELDS = A(SELF, "input"), A(SELF, "_inserted"), A(SELF, "_deleted"), A(SELF, "_fields")
ALIAS = {"size": "_size", "value": "_value", "parent": "_parent", "name": "_name", "is_altered": "_is_altered"}


def norm(t):
    """public properties of the editor's fields are their private attributes; 2 ** k is 1 << k"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'attr' and t[1] == SELF and t[2] in ALIAS:
        return ('attr', SELF, ALIAS[t[2]], 0)
    if t[0] == 'bin' and t[1] == 'Pow' and t[2] == ('const', 2):
        return ('bin', 'LShift', ('const', 1), norm(t[3]))
    if t[0] in ('lin', 'lt0', 'eq0'):
        d = {}
        for k, v in t[2]:
            k = norm(k)
            d[k] = d.get(k, 0) + v
        return (t[0], t[1], tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)


def n(t):
    return norm(strip_epoch(t))


SIZE, VALUE = A(SELF, "_size"), A(SELF, "_value")
ENDIAN = A(SELF, "_parent", "endian")


def on_output(o, out=P("output")):
    """[(method, args)] of the calls on the output, in order"""
    r = []
    for e in o.events:
        if e[0] == 'call' and e[1][0] in ('attr', 'bound') and e[1][1] == out:
            r.append((callee_name(e[1]), tuple(n(x) for x in e[2]) + tuple(n(v) for k, v in e[3])))
        elif e[0] == 'call' and out in e[2] and callee_name(e[1]) not in ('writeInto', '_write'):
            return None
    return r


def mod8(t, b):
    """(x, aligned?) for a condition on x % 8"""
    if t[0] == 'eq0' and t[1] == 0 and len(t[2]) == 1:
        x, al = t[2][0][0], b
    elif t[0] == 'lt0' and len(t[2]) == 1 and t[2][0][1] == -1 and t[1] == 0:
        x, al = t[2][0][0], not b
    else:
        x, al = t, not b
    if x[0] == 'bin' and (x[1] == 'Mod' and x[3] == C(8) or x[1] == 'BitAnd' and x[3] == C(7)):
        return n(x[2]), al
    return None


def bytes_of(t, size):
    return n(t) in (('bin', 'FloorDiv', size, C(8)), ('bin', 'RShift', size, C(3)))


def bounds(o, v):
    """lower and upper bounds which the path knows of v, as terms"""
    lows, highs = [], []
    for t, b in o.conds:
        t = n(t)
        if t[0] == 'in' and t[1] == v and b and t[2][0] == 'call' and t[2][1] == ('ext', 'builtins.range'):
            a = t[2][2]
            lows.append(a[0] if len(a) > 1 else ZERO)
            highs.append(add(a[1] if len(a) > 1 else a[0], C(1), -1))
        if t[0] != 'lt0':
            continue
        d = dict(t[2])
        k = d.pop(v, 0)
        if abs(k) != 1:
            continue
        rest = lin(t[1], d)
        neg = lin(-t[1], {x: -c for x, c in d.items()})
        if k == 1 and not b:
            lows.append(neg)                       # v + rest >= 0
        elif k == 1 and b:
            highs.append(add(neg, C(1), -1))       # v + rest <= -1
        elif k == -1 and not b:
            highs.append(rest)                     # rest - v >= 0
        else:
            lows.append(add(rest, C(1)))           # rest - v <= -1
    return lows, highs


def run(ctx, rep):
    rep.rule("copy", "what was not changed is copied bit by bit from its place in the input", 3)
    rep.rule("altered", "what was changed is written field by field, from the new values", 1)
    rep.rule("state", "a field set is altered when a field of it was changed, inserted or deleted, a field when it was set", 2)
    rep.rule("order", "the fields are the original ones in order, with the inserted before the field they were inserted at, "
             "and without the deleted", 2)
    rep.rule("range", "a value which does not fit in the field is refused", 3)
    rep.rule("write", "a new value is written with the size, sign and endian of the field", 2)
    rep.rule("size", "the size of a field is the size of what is written for it", 2)
    rep.rule("new", "a new field holds the value given, checked, and counts as altered", 3)
    rep.rule("address", "the address of a field is the sum of the sizes before it", 1)
    rep.rule("insert", "inserting keeps names unique, the order given, and what was inserted before", 4)
    rep.rule("delete", "only an existing field is deleted, once", 2)
    rep.rule("lookup", "a deleted or unknown field is missing; a field is made editable once", 2)
    rep.rule("class", "each field is edited by a class of its kind", 3)
    ob = Oblig(ctx, rep)
    copy(ob)
    fieldset(ob)
    fields(ob)
    inserts(ob)
    dispatch(ob, ctx.project)


def copy(ob):
    for fname, size, addr, stream, endian in (
            (FF + ".writeInto", SIZE, None, A(SELF, "_parent", "input", "stream"), A(SELF, "_parent", "input", "endian")),
            (FS + ".writeInto", A(INPUT, "size"), A(INPUT, "absolute_address"), A(INPUT, "stream"), A(INPUT, "endian"))):
        f = ob.func(fname)
        for o in returns(ob.outs(fname, exc='none')):
            if fname.startswith(FS):
                alt = cond(o, lambda t: n(t) == A(SELF, "_is_altered"))
                if alt:
                    continue
                ob.check("altered", f, alt is False, "copied only if unaltered", "the original is copied though the field set "
                         "may be altered", o.node)
            outs = on_output(o)
            if outs is None:
                ob.check("copy", f, None, "copied", "")
                continue
            outs = [x for x in outs if x[0] in ('copyBitsFrom', 'copyBytesFrom', 'writeBits', 'writeBytes')]
            if len(outs) != 1:
                ob.check("copy", f, False, "copied once", "the original is copied %d times" % len(outs), o.node)
                continue
            name, a = outs[0]
            if len(a) < 3:
                ob.check("copy", f, None, "copied", "")
                continue
            where = a[1]
            if addr is None:
                ok = where[0] == 'call' and callee_name(where[1]) == '_getFieldInputAddress' and A(SELF, "_name") in where[2] \
                    or where[0] == 'attr' and where[2] == 'absolute_address' and has(where, A(SELF, "_parent", "input"))
            else:
                ok = where == addr
            ob.check("copy", f, ok, "from its place in the input (%s)" % name,
                     "the original is not copied from its absolute address in the input", o.node)
            ob.check("copy", f, a[0] == stream, "from the input (%s)" % name, "the original is not copied from the stream of the input",
                     o.node)
            if name == 'copyBitsFrom':
                ob.check("copy", f, a[2] == size, "all its bits", "the number of bits copied is not the size of the original", o.node)
                ob.check("copy", f, len(a) > 3 and a[3] == endian, "in its endian", "the bits are not copied in the endian of the "
                         "input", o.node)
            elif name == 'copyBytesFrom':
                ob.check("copy", f, bytes_of(a[2], size), "all its bytes", "the number of bytes copied is not the size of the original",
                         o.node)
                al = {m[0] for m in (mod8(t, b) for t, b in o.conds) if m and m[1]}
                ob.check("copy", f, size in al, "whole bytes", "bytes are copied though the size may not be whole bytes: "
                         "the last bits are lost", o.node)
                ob.check("copy", f, where in al, "from a byte", "bytes are copied though the address may be inside a byte", o.node)


def fieldset(ob):
    # altered: every field in turn
    f = ob.func(FS + ".writeInto")
    outs = ob.outs(FS + ".writeInto", exc='none')
    its = [o for o in outs if o.kind == 'backedge']
    ob.check("altered", f, any(calls_named(o, 'writeInto') for o in its), "each field is written", "the fields of an altered field "
             "set are not written one by one")
    for o in its:
        w = calls_named(o, 'writeInto')
        elem = [x for e in w for x in find_terms(e[1], lambda x: x[0] == 'elem' and x[1] == SELF)]
        ob.check("altered", f, len(w) == 1 and bool(elem) and P("output") in w[0][2], "each field once",
                 "a field is written %d times" % len(w), o.node)
        ob.check("altered", f, cond(o, lambda t: n(t) == A(SELF, "_is_altered")) is True, "altered", "the fields are written one by "
                 "one though nothing was altered", o.node)
    # is_altered
    f = ob.func(FS + "._isAltered")
    outs = ob.outs(FS + "._isAltered", exc='none')
    for what, c in (("inserted", INS), ("deleted", DEL)):
        pos = [o for o in returns(outs) if cond(o, lambda t: strip_epoch(t) == c) is True or
               has(o.value, c)]
        ob.check("state", f, bool(pos) and all(o.value == TRUE or has(o.value, c) for o in pos), what,
                 "a field set with %s fields is not altered" % what)
    last = [o for o in returns(outs) if o.value != TRUE]
    ob.all("state", f, last, lambda o: has(o.value, FIELDS) or any(has(e[4], FIELDS) for e in o.events if e[0] == 'call')
           or cond(o, lambda t: has(t, FIELDS)) is not None or any(e[0] == 'iterate' and has(e[1], FIELDS) for e in o.events),
           "changed fields", "a field set whose field was changed is not altered")
    ob.all("state", f, last, lambda o: 'is_altered' in str(o.value) or 'is_altered' in str(o.conds) or o.value == C(False)
           and any(e[0] == 'iterate' and has(e[1], FIELDS) for e in o.events), "by their state",
           "the state of the fields is not asked")
    # iteration
    f = ob.func(FS + ".__iter__")
    outs = ob.outs(FS + ".__iter__", exc='none')
    mine = lambda o: [e for e in o.events if e[0] == 'yield']
    own = lambda e: e[1][0] in ('item',) and e[1][1] == SELF
    ob.check("order", f, any(own(e) for o in outs for e in mine(o)), "original fields", "the original fields are not iterated")
    for o in outs:
        ys = mine(o)
        for i, e in enumerate(o.events):
            if e[0] == 'yield' and own(e):
                name = strip_epoch(e[1][2])
                d = [b for t, b in o.conds if t[0] == 'in' and strip_epoch(t[1]) == name and strip_epoch(t[2]) == DEL]
                ob.check("order", f, d == [False], "deleted fields are left out", "a deleted field is iterated", o.node)
                late = [x for x in o.events[i:] if x[0] == 'iterate' and strip_epoch(x[1]) == ('item', INS, name, 0)]
                ob.check("order", f, not late, "inserted before", "the fields inserted before a field come after it", o.node)
        if o.kind == 'backedge' and any(e[0] == 'iterate' and strip_epoch(e[1]) == INPUT for e in o.events):
            for t, b in o.conds:
                if t[0] == 'in' and strip_epoch(t[2]) == DEL and not b:
                    ob.check("order", f, len([e for e in ys if own(e)]) == 1, "each remaining field once",
                             "a field which was not deleted is iterated %d times" % len([e for e in ys if own(e)]), o.node)
                if t[0] == 'in' and strip_epoch(t[2]) == INS and b and strip_epoch(t[1]) != NONE:
                    k = strip_epoch(t[1])
                    ob.check("order", f, any(e[0] == 'iterate' and strip_epoch(e[1]) == ('item', INS, k, 0) for e in o.events) or
                             any(has(e[1], ('item', INS, k, 0)) for e in ys), "inserted fields", "the fields inserted before a "
                             "field are not iterated", o.node)
    ends = [o for o in returns(outs) if cond(o, lambda t: t[0] == 'in' and t[1] == NONE and strip_epoch(t[2]) == INS)]

    def at_end(o):
        its = [strip_epoch(e[1]) for e in o.events if e[0] in ('iterate', 'yieldfrom')]
        its = [('item', INS, NONE, 0) if has(x, ('item', INS, NONE, 0)) else x for x in its]
        last = ('item', INS, NONE, 0)
        return last in its and INPUT in its and its.index(INPUT) < its.index(last)
    if ends:
        ob.all("order", f, ends, at_end, "fields inserted at the end", "the fields inserted at the end are not iterated last")
    else:
        ob.check("order", f, True if any(has(e[1], INS) and has(e[1], NONE) for o in outs for e in o.events if e[0] == 'iterate')
                 else False, "fields inserted at the end", "the fields inserted at the end are not iterated")
    # size, address
    f = ob.func(FS + "._getSize")
    for o in returns(ob.outs(FS + "._getSize", exc='none')):
        alt = cond(o, lambda t: n(t) == A(SELF, "_is_altered"))
        if alt is False or strip_epoch(o.value) == A(INPUT, "size"):
            ob.check("size", f, strip_epoch(o.value) == A(INPUT, "size") and alt is False, "unaltered: the original size",
                     "the size is the original size though the field set may be altered", o.node)
        elif o.value[0] == 'call' and callee_name(o.value[1]) == 'sum':
            ob.check("size", f, "'size'" in str(o.value) and any(e[0] == 'iterate' and e[1] == SELF for e in o.events),
                     "altered: the sum", "the size of an altered field set is not the sum of the sizes of its fields", o.node)
        else:
            ob.check("size", f, None, "altered: the sum", "")
    f = ob.func(FS + "._getFieldAddress")
    outs = ob.outs(FS + "._getFieldAddress", exc='none')
    ob.check("address", f, any(exc_name(o) == 'MissingField' for o in raises(outs)), "missing", "the address of a missing field is "
             "answered")
    for o in returns(outs):
        phi = o.value if o.value[0] == 'phi' else None
        if phi is None:
            c, parts = lin_parts(o.value)
            sums = [k for k in parts if k[0] == 'phi']
            ob.check("address", f, False if sums and len(parts) > 1 else None, "the sum", "the address holds the size of the field "
                     "itself", o.node)
            continue
        ob.check("address", f, same(phi[3], ZERO), "from 0", "the sum of the sizes does not begin at 0", o.node)
        ob.check("address", f, any(b and t[0] in ('eq0', 'eq') and has(t, P("name")) for t, b in o.conds), "of the field",
                 "the address answered is not that of the field with the name", o.node)
        for q in outs:
            if q.kind == 'backedge':
                v = q.state.env.get(phi[1])
                d = add(v, ('phi',) + tuple(phi[1:]), -1) if v is not None else None
                ok = d is not None and d[0] == 'attr' and d[2] == 'size' and d[1][0] == 'elem' and d[1][1] == SELF
                ob.check("address", f, ok, "the size of each field before", "the address does not grow by the size of each field "
                         "before", q.node)
    # lookup
    f = ob.func(FS + ".__getitem__")
    outs = ob.outs(FS + ".__getitem__", exc='none')
    key = P("key")
    isin = lambda o, c: cond(o, lambda t: t[0] == 'in' and t[1] == key and strip_epoch(t[2]) == c)
    single = [o for o in returns(outs) if isin(o, DEL) is not None or isin(o, INPUT) is not None or has(o.value, FIELDS)]
    ob.all("lookup", f, single, lambda o: isin(o, DEL) is False, "not deleted", "a deleted field is answered")
    ob.all("lookup", f, single, lambda o: isin(o, INPUT) is True, "of the input", "a field which is not in the input is answered")
    made = lambda o: any(e[0] == 'setitem' and strip_epoch(e[1]) == FIELDS for e in o.events) \
        or any(e[0] == 'call' and str(callee_name(e[1])).startswith('createEditable') for e in o.events)
    ob.all("lookup", f, [o for o in single if made(o)], lambda o: isin(o, FIELDS) is False and any(
        e[0] == 'setitem' and strip_epoch(e[1]) == FIELDS and e[2] == key for e in o.events), "made once",
        "an editable field is made again, or not kept: its changes are lost")
    for o in single:
        for e in o.events:
            if e[0] == 'call' and callee_name(e[1]) in ('createEditableFieldSet', 'createEditableField'):
                s = cond(o, lambda t: t[0] == 'attr' and t[2] == 'is_field_set')
                ob.check("lookup", f, None if s is None else s == (callee_name(e[1]) == 'createEditableFieldSet'), "of its kind",
                         "a field set is edited as a field, or a field as a field set", o.node)
    # delete
    f = ob.func(FS + ".__delitem__")
    outs = ob.outs(FS + ".__delitem__", exc='none')
    name = P(f.params[1])
    isin = lambda o, c: cond(o, lambda t: t[0] == 'in' and t[1] == name and strip_epoch(t[2]) == c)
    dels = [o for o in returns(outs) if any(e[0] == 'call' and callee_name(e[1]) == 'add' and has(e[1], DEL) for e in o.events)]
    ob.all("delete", f, dels, lambda o: isin(o, INPUT) is True, "an existing field", "a field which does not exist is deleted")
    ob.all("delete", f, dels, lambda o: isin(o, DEL) is False, "once", "a field is deleted twice")
    ob.all("delete", f, dels, lambda o: all(e[2] == (name,) for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'add'),
           "the field named", "another field is deleted")
    # reset
    f = ob.func(FS + ".reset")
    outs = ob.outs(FS + ".reset", exc='none')
    for o in outs:
        for e in o.events:
            if e[0] == 'delitem' and strip_epoch(e[1]) == FIELDS:
                ok = cond(o, lambda t: t[0] == 'attr' and t[2] == 'is_altered')
                ob.check("state", f, ok is False, "changed fields are kept", "reset() forgets changed fields", o.node)


def fields(ob):
    p = ob.p
    f = ob.func(TF + "EditableField.writeInto")
    for o in returns(ob.outs(TF + "EditableField.writeInto", exc='none', opaque=("_write",))):
        alt = cond(o, lambda t: n(t) == A(SELF, "_is_altered"))
        new = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == '_write']
        ob.check("altered", f, None if alt is None else alt == bool(new), "a changed field is written by its new value",
                 "%s" % ("the new value is not written" if alt else "an unchanged field is not copied"), o.node)
    f = ob.func(TF + "EditableField._propSetValue")
    for o in returns(ob.outs(TF + "EditableField._propSetValue", exc='none', opaque=("_setValue",))):
        ob.check("state", f, final(o, SELF, "_is_altered") == TRUE, "set", "a field whose value was set is not altered", o.node)
        ob.check("state", f, any(callee_name(e[1]) == '_setValue' and P("value") in e[2] for e in o.events if e[0] == 'call'),
                 "the value is set", "the value is not set", o.node)
        st = [i for i, e in enumerate(o.events) if e[0] == 'store' and same(e[1], SELF) and e[2] == '_is_altered' and e[3] == TRUE]
        sv = [i for i, e in enumerate(o.events) if e[0] == 'call' and callee_name(e[1]) == '_setValue']
        if st and sv:
            ob.check("state", f, st[0] > sv[0], "refused first", "a field counts as altered though its new value was refused", o.node)
    f = ob.func(FS.replace("EditableFieldSet", "EditableFloat") + "._setValue")
    for o in returns(ob.outs(f, exc='none')):
        ob.check("state", f, same(final(o, SELF, "_value") or NONE, P(f.params[1])), "float set", "a new value is not kept", o.node)
    f = ob.func(FS.replace("EditableFieldSet", "EditableFloat") + "._write")
    for o in returns(ob.outs(f, exc='none')):
        for e in o.events:
            if e[0] == 'call' and callee_name(e[1]) == 'pack' and e[2]:
                t = strip_epoch(e[2][0])
                ob.check("write", f, has(t, A(INPUT, "struct_format")) or (False if t[0] == 'const' else None), "float format",
                         "the new value is not written in the format of the field", o.node)
    f = ob.func(TF + "EditableField._getSize")
    for o in returns(ob.outs(f, exc='none', opaque=("_computeSize",))):
        new = has_call(o.value, "_computeSize")
        isn = cond(o, lambda t: t[0] == 'isnone' and n(t[1]) == VALUE)
        tru = cond(o, lambda t: n(t) == VALUE)
        ob.check("size", f, False if isn is None and tru is not None else None if isn is None else new == (not isn),
                 "of the new value", "the size of an empty new value is the size of the original", o.node)
    # what the original says
    for cname, attrs in (("EditableString", {"_charset": "charset", "_format": "format", "_prefix_size": "content_offset",
                                             "_suffix_str": "suffix_str"}), ("EditableInteger", {"_signed": "signed"})):
        f = ob.func(TF + cname + ".__init__")
        for o in returns(ob.outs(f, exc='none')):
            if new_value(o) is not False and not (cond(o, lambda t: t == P("args")) is False):
                continue
            for a, src in attrs.items():
                v = final(o, SELF, a)
                if v is None:
                    continue
                v = strip_epoch(v)
                ob.check("size" if a in ("_prefix_size", "_suffix_str") else "write", f, True if v[0] == 'attr' and v[2] == src else
                         False if v[0] == 'const' else None, "%s of the original" % a, "%s is not that of the original field" % a, o.node)
    f = ob.func(TF + "EditableCharacter._write")
    for o in returns(ob.outs(f, exc='none')):
        for e in o.events:
            if e[0] == 'call' and callee_name(e[1]) == 'encode':
                a = e[2][0] if e[2] else C("utf-8")
                if a[0] == 'const' and isinstance(a[1], str):
                    ob.check("write", f, a[1].lower().replace("_", "-") in ("latin-1", "latin1", "iso-8859-1", "iso8859-1", "l1"),
                             "character", "a character is not written as the byte of its code", o.node)
    f = ob.func(FS + ".__len__")
    for o in returns(ob.outs(f, exc='none')):
        c_, parts = lin_parts(strip_epoch(o.value))
        if o.value[0] != 'lin':
            continue
        ln = lambda x: ('call', ('ext', 'builtins.len'), (x,), (), 0)
        ob.check("order", f, parts.get(strip_epoch(ln(INPUT)), 0) == 1 and parts.get(strip_epoch(ln(DEL)), 0) == -1 and c_ == 0 and
                 len(parts) >= 3, "their number", "the number of fields is not that of the original and inserted ones without the "
                 "deleted", o.node)

    # refused values
    def stores(o):
        return [e for e in o.events if e[0] == 'store' and same(e[1], SELF) and e[2] == '_value']
    one = C(1)
    pw = lambda k: ('bin', 'LShift', one, k)
    for cname in ("EditableBits", "EditableInteger", "EditableTimestampMac32"):
        f = ob.func(TF + cname + "._setValue")
        outs = ob.outs(TF + cname + "._setValue", exc='none')
        v = P(f.params[1])
        sts = [o for o in returns(outs) if stores(o)]
        ob.check("range", f, bool(sts), "%s is set" % cname, "the value is never set")
        for o in sts:
            lows, highs = bounds(o, v)
            if cname == "EditableBits":
                L, H = ZERO, lin(-1, {pw(SIZE): 1})
            elif cname == "EditableInteger":
                sg = cond(o, lambda t: n(t) == A(SELF, "_signed"))
                if sg is None:
                    # both bounds must hold for both signs: cannot be
                    ob.check("range", f, None if any(has(x, A(SELF, "_signed")) for x in lows + highs) else False,
                             "%s: by its sign" % cname, "the sign of the field is not looked at", o.node)
                    continue
                if sg:
                    k = pw(lin(-1, {SIZE: 1}))
                    L, H = lin(0, {k: -1}), lin(-1, {k: 1})
                else:
                    L, H = ZERO, lin(-1, {pw(SIZE): 1})
            else:
                L, H = A(SELF, "minval"), A(SELF, "maxval")
            ob.check("range", f, judge(lows, L), "%s: the least value" % cname, "a value below the least one the field can hold is "
                     "accepted, or the least is refused", o.node)
            ob.check("range", f, judge(highs, H), "%s: the greatest value" % cname, "a value above the greatest one the field can "
                     "hold is accepted, or the greatest is refused", o.node)
            ob.check("range", f, stores(o)[-1][3] == v, "%s: the value" % cname, "another value is kept", o.node)
        ob.check("range", f, bool(raises(outs)), "%s refuses" % cname, "no value is refused")
    f = ob.func(TF + "EditableString._setValue")
    outs = ob.outs(TF + "EditableString._setValue", exc='none')
    v = P(f.params[1])
    ln = ('call', ('ext', 'builtins.len'), (v,), (), 0)
    for o in [o for o in returns(outs) if stores(o)]:
        pas = cond(o, lambda t: t[0] == 'in' and n(t[1]) == A(SELF, "_format"))
        if pas is False:
            continue
        lows, highs = bounds(o, ln)
        ob.check("range", f, bool(highs), "EditableString: the length", "a text longer than its length prefix can say is accepted", o.node)
    k = p.cls(TF + "EditableString")
    for v in k.attrs.get("MAX_SIZE", ()):
        d = p.const(v.expr, k.module) if hasattr(p, "const") and getattr(v, "expr", None) is not None else None
        import ast
        if isinstance(v.expr, ast.Dict):
            for a, b in zip(v.expr.keys, v.expr.values):
                try:
                    name = ast.literal_eval(a)
                    val = eval_int(b)
                except (ValueError, TypeError):
                    ob.check("range", f, None, "limits", "")
                    continue
                bits = int("".join(x for x in name if x.isdigit()) or 0)
                ob.check("range", f, val == (1 << bits) - 1, "the limit of %s" % name, "the limit of %s is %s" % (name, val), b)

    # what is written
    def seq(cname, meth="_write", exp=None):
        f = ob.func(TF + cname + "." + meth)
        for o in returns(ob.outs(TF + cname + "." + meth, exc='none')):
            got = on_output(o)
            e = exp(o)
            if e is None or got is None:
                ob.check("write", f, None, cname, "")
                continue
            if any(x[0] == 'writeBytes' and x[1] and x[1][0][0] in ('lin', 'bin', 'call') for x in got) and got != e:
                ob.check("write", f, None, cname, "")
                continue
            ob.check("write", f, got == e, "%s: %s" % (cname, ", ".join(x[0] for x in e)),
                     "what is written is not the value in the size, sign and endian of the field: %s" % "; ".join(
                         "%s(%s)" % (a, ", ".join(show(y) for y in b)) for a, b in got), o.node)
    seq("EditableBits", exp=lambda o: [("writeBits", (SIZE, VALUE, ENDIAN))])
    seq("EditableInteger", exp=lambda o: [("writeInteger", (VALUE, A(SELF, "_signed"), ('bin', 'FloorDiv', SIZE, C(8)), ENDIAN))])
    seq("EditableBytes", exp=lambda o: [("writeBytes", (VALUE,))])
    slen = ('call', ('ext', 'builtins.len'), (VALUE,), (), 0)

    def string(o):
        fmt = A(SELF, "_format")
        suf = cond(o, lambda t: t[0] == 'in' and n(t[1]) == fmt and 'SUFFIX' in str(t[2]))
        pas = cond(o, lambda t: t[0] == 'in' and n(t[1]) == fmt and 'PASCAL' in str(t[2]))
        fix = cond(o, lambda t: t[0] in ('eq', 'eq0') and has(t, fmt) and has(t, C("fixed")))
        if suf:
            return [("writeBytes", (VALUE,)), ("writeBytes", (A(SELF, "_suffix_str"),))]
        if fix:
            return [("writeBytes", (VALUE,))]
        if pas:
            pre = [y for x in o.events if x[0] == 'call' and callee_name(x[1]) == 'writeInteger' for y in x[2][2:3]]
            ok = pre and (n(pre[0]) == A(SELF, "_prefix_size") or 'PASCAL' in str(pre[0]))
            return [("writeInteger", (slen, C(False), n(pre[0]) if ok else C("the size of the prefix"), ENDIAN)),
                    ("writeBytes", (VALUE,))]
        return None
    seq("EditableString", exp=string)
    ts = lambda o: [("writeBits", (SIZE, ('call', ('ext', 'builtins.int'), (('call', ('attr', add(
        VALUE, A(SELF, "minval"), -1), 'total_seconds', 0), (), (), 0),), (), 0), ENDIAN))]
    seq("EditableTimestampMac32", exp=ts)
    # sizes
    f = ob.func(TF + "EditableString._computeSize")
    for o in returns(ob.outs(TF + "EditableString._computeSize", exc='none')):
        exp = lin(0, {A(SELF, "_prefix_size"): 8, slen: 8, ('call', ('ext', 'builtins.len'), (A(SELF, "_suffix_str"),), (), 0): 8})
        ob.check("size", f, equal(n(o.value), exp), "prefix, text and suffix", "the size is not that of the prefix, the text and the "
                 "suffix", o.node)
    f = ob.func(TF + "EditableBytes._computeSize")
    for o in returns(ob.outs(TF + "EditableBytes._computeSize", exc='none')):
        ob.check("size", f, equal(n(o.value), lin(0, {slen: 8})), "8 bits a byte", "the size is not 8 bits a byte", o.node)
    f = ob.func(TF + "EditableField._getSize")
    for o in returns(ob.outs(TF + "EditableField._getSize", exc='none', opaque=("_computeSize",))):
        nv = cond(o, lambda t: t[0] == 'isnone' and n(t[1]) == VALUE)
        comp = has_call(o.value, '_computeSize')
        ob.check("size", f, None if nv is None else comp == (not nv), "of the new value", "the size of a %s is not that of its %s value" % (
            ("field which was not set", "original") if nv else ("field which was set", "new")), o.node)
    # new fields
    for cname in ("EditableBits", "EditableInteger", "EditableString", "EditableBytes", "EditableCharacter", "EditableTimestampMac32"):
        k = p.cls(TF + cname)
        f = p.find_attr(k, "__init__")
        f = f[-1] if isinstance(f, list) else f
        outs = ob.outs(f, cls=k, exc='none', opaque=("_setValue",))
        given = [o for o in returns(outs) if new_value(o)]
        if not isinstance(f, FuncInfo) or f.cls is not k:
            ob.check("new", f, False, "%s: altered" % cname, "a new %s does not count as altered: it is copied from an input it is "
                     "not in" % cname)
            continue
        ob.check("new", f, bool(given), "%s: takes a value" % cname, "a new %s takes no value" % cname)
        for o in given:
            ob.check("new", f, final(o, SELF, "_is_altered") == TRUE, "%s: altered" % cname,
                     "a new %s does not count as altered: it is copied from an input it is not in" % cname, o.node)
            if cname in ("EditableBits", "EditableInteger", "EditableString", "EditableTimestampMac32", "EditableBytes"):
                ob.check("new", f, any(e[0] == 'call' and callee_name(e[1]) == '_setValue' for e in o.events),
                         "%s: checked" % cname, "a new %s takes a value which may not fit" % cname, o.node)
        for o in returns(outs):
            if o not in given:
                ob.check("new", f, final(o, SELF, "_is_altered") is None, "%s: original" % cname,
                         "an unchanged %s counts as altered" % cname, o.node)


def eval_int(e):
    import ast
    if isinstance(e, ast.BinOp):
        a, b = eval_int(e.left), eval_int(e.right)
        return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.LShift: lambda: a << b, ast.Pow: lambda: a ** b,
                ast.Mult: lambda: a * b}[type(e.op)]()
    v = ast.literal_eval(e)
    if not isinstance(v, int):
        raise ValueError
    return v


def has_call(t, name):
    return bool(find_terms(t, lambda x: x[0] == 'call' and callee_name(x[1]) == name))


def new_value(o):
    """the constructor was given a value"""
    for t, b in o.conds:
        if t == P("args"):
            return b
        if t[0] == 'eq0' and has(t, P("args")) and b:
            return t[1] != 0
    return None


def judge(bs, want):
    if not bs:
        return False
    if any(equal(x, want) for x in bs):
        return True
    # comparable: made of constants and powers of the size only
    for x in bs:
        c, parts = lin_parts(add(x, want, -1))
        if all(k[0] == 'bin' and k[1] == 'LShift' or k in (A(SELF, "minval"), A(SELF, "maxval")) for k in parts):
            return False
    return None


def inserts(ob):
    f = ob.func(FS + "._insert")
    outs = ob.outs(FS + "._insert", exc='none')
    new = P(f.params[2])
    nxt = P(f.params[3])
    key = P(f.params[1])
    keyin = lambda o, k: cond(o, lambda t: t[0] == 'in' and strip_epoch(t[1]) == strip_epoch(k) and strip_epoch(t[2]) == INS)

    def effects(o):
        r = []
        for e in o.events:
            if e[0] == 'setitem' and strip_epoch(e[1]) == INS:
                r.append(('set', e[2], e[3]))
            elif e[0] == 'call' and callee_name(e[1]) in ('extend', 'extendleft', 'append', 'appendleft', 'insert') and len(e[1]) > 1 \
                    and isinstance(e[1][1], tuple):
                r.append((callee_name(e[1]), strip_epoch(e[1][1]), e[2]))
        return r
    for o in returns(outs):
        if cond(o, lambda t: t == key) is False and cond(o, lambda t: t[0] == 'isnone' and t[1] == key) is False:
            continue        # an empty name
        ef = effects(o)
        ob.check("insert", f, None if not ef and any(e[0] == 'call' and callee_name(e[1]) in ('insert', 'rotate') for e in o.events) else
                 len(ef) == 1, "inserted once", "the new fields are inserted %d times" % len(ef), o.node)
        for x in ef:
            if x[0] == 'set':
                k = keyin(o, x[1])
                ob.check("insert", f, k is False, "earlier insertions are kept", "what was inserted before at the same place is lost",
                         o.node)
                ob.check("insert", f, has(x[2], new), "the new fields", "the new fields are not kept", o.node)
            elif x[0] == 'extendleft':
                a = x[2][0] if x[2] else NONE
                rev = a[0] == 'call' and callee_name(a[1]) == 'reversed' and a[2] == (new,) or a[0] in ('slice', 'item')
                ob.check("insert", f, rev, "in the order given", "the new fields are inserted in reverse order", o.node)
            elif x[0] == 'extend':
                ob.check("insert", f, x[2] == (new,), "in the order given", "the new fields are not inserted in the order given", o.node)
                if x[1] == ('item', INS, key, 0):
                    isn = cond(o, lambda t: t[0] == 'isnone' and t[1] == key)
                    ok = isn is True or cond(o, lambda t: t == nxt) is False or cond(o, lambda t: t == key) is False
                    ob.check("insert", f, ok, "after a field", "fields to be inserted after a field are inserted before it", o.node)
        rot = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'rotate']
        if rot:
            tot = ZERO
            for e in rot:
                tot = add(tot, e[2][0]) if e[2] else C(1)
            ob.check("insert", f, tot == ZERO, "rotated back", "the inserted fields are rotated and not put back: their order changes",
                     o.node)
            first = rot[0][2][0]
            c, parts = lin_parts(first)
            after = cond(o, lambda t: t == nxt)
            if len(parts) == 1 and list(parts.values()) == [-1]:
                ob.check("insert", f, None if after is None else c == (-1 if after else 0), "at the field (next: %s)" % after,
                         "new fields are not inserted just %s the inserted field" % ("after" if after else "before"), o.node)
            elif list(parts.values()) == [1] and callee_name(list(parts)[0][1] if list(parts)[0][0] == 'call' else NONE) == 'index' \
                    and any(e[0] == 'call' and callee_name(e[1]) == 'extendleft' for e in o.events):
                ob.check("insert", f, False, "at the field (next: %s)" % after,
                         "the inserted fields are rotated away from the field", o.node)
    for o in outs:
        for t in [x for e in o.events if e[0] == 'getitem' and strip_epoch(e[1]) == INPUT for x in [strip_epoch(e[2])]]:
            if find_terms(t, lambda x: x[0] == 'attr' and x[2] == 'index'):
                c_, parts = lin_parts(t)
                ob.check("insert", f, len(parts) == 1 and c_ == 1 and list(parts.values()) == [1], "the field behind",
                         "fields to be inserted after a field are inserted elsewhere", o.node)
    un = [o for o in raises(outs) if exc_name(o) == 'UniqKeyError']
    dup = lambda o: any(t[0] in ('eq0', 'lt0', 'eq') and 'set' in str(t) and has(t, new) for t, b in o.conds)
    inp = lambda o: any(t[0] == 'in' and b and strip_epoch(t[2]) == INPUT for t, b in o.conds)
    ins = lambda o: any(e[0] == 'iterate' and has(e[1], INS) for e in o.events) and not inp(o)
    ob.check("insert", f, any(o for o in un if not inp(o) and not ins(o)), "no duplicates", "two new fields may have the same name")
    ob.check("insert", f, any(inp(o) for o in un), "not in the input", "a new field may have the name of an original one")
    ob.check("insert", f, any(ins(o) for o in un), "not inserted before", "a new field may have the name of an inserted one")
    ob.all("insert", f, [o for o in un if inp(o)], lambda o: any(not b for t, b in o.conds if t[0] == 'in' and strip_epoch(t[2]) == DEL),
           "a deleted name is free", "the name of a deleted field is refused")
    # the entry points
    for name, k, nx in (("insertBefore", P("name"), False), ("insertAfter", P("name"), True), ("insert", NONE, True)):
        g = ob.func(FS + "." + name)
        for o in returns(ob.outs(FS + "." + name, exc='none', opaque=("_insert",))):
            c = calls_named(o, '_insert')
            ok = len(c) == 1 and len(c[0][2]) + len(c[0][3]) == 3
            if ok:
                a = dict(zip(f.params[1:], c[0][2]))
                a.update(dict(c[0][3]))
                ok = a.get(f.params[1]) == k and (a.get(f.params[3]) == C(nx) or name == "insert")
            ob.check("insert", g, ok, name, "%s() does not insert %s" % (name, "at the end" if k == NONE else "after the field" if nx
                                                                         else "before the field"), o.node)


KINDS = {"EditableBytes": {"RawBytes", "Bytes", "PaddingBytes", "NullBytes"},
         "EditableBits": {"RawBits", "Bits", "Bit", "PaddingBits", "NullBits"},
         "EditableCharacter": {"Character"}, "EditableTimestampMac32": {"TimestampMac32"}}


def dispatch(ob, p):
    f = ob.func(TF + "createEditableField")
    for o in returns(ob.outs(TF + "createEditableField", exc='none', opaque=("isInteger", "isString"))):
        v = o.value
        if v[0] != 'new' or not isinstance(v[1], ClassInfo):
            ob.check("class", f, None, "class", "")
            continue
        name = v[1].name
        ob.check("class", f, v[2] == (P("fieldset"), A(P("field"), "name")), "%s: the field" % name,
                 "the editable field is not made for the field and its parent", o.node)
        call = lambda n_: cond(o, lambda t: t[0] == 'call' and callee_name(t[1]) == n_)
        if name in ("EditableInteger", "EditableString"):
            want = "isInteger" if name == "EditableInteger" else "isString"
            inst = cond(o, lambda t: t[0] == 'isinstance' or t[0] == 'call' and callee_name(t[1]) == 'isinstance')
            ob.check("class", f, call(want) is True or (None if inst else False), name, "%s edits fields of another kind" % name, o.node)
        elif name in KINDS:
            ks = set()
            for t, b in o.conds:
                if b:
                    for x in find_terms(t, lambda x: x[0] in ('cls', 'gvar')):
                        ks.add(x[1].name if x[0] == 'cls' else x[2])
            ob.check("class", f, bool(ks) and ks <= KINDS[name] if ks else False, name, "%s edits fields of another kind: %s" % (
                name, ", ".join(sorted(ks - KINDS[name]))), o.node)
