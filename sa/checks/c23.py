"""What is written to an output stream is exactly the bits given, in their order."""
from ..oblig import Oblig, SELF, A, C, P, cond, returns, raises, exc_name, final, same, strip_epoch, has, calls_named
from ..flow import callee_name, NONE, lin, lt, eq, add, lin_parts, find_terms, show
from ..slices import Slices, equal, ZERO, power

S = "hachoir.stream.output.OutputStream"
BIG, LITTLE = 'ABCD', 'DCBA'
BP, BYTE, OUT = A(SELF, "_bit_pos"), A(SELF, "_byte"), A(SELF, "_output")
VALUE, COUNT, END = P("value"), P("count"), P("endian")


def is_big(o, end=END):
    for t, b in o.conds:
        if t[0] == 'eq' and end in t[1:3]:
            x = t[2] if t[1] == end else t[1]
            if x == C(BIG):
                return b
            if x == C(LITTLE):
                return not b
    return None


def the_byte(t):
    """e of bytes((e,)), or None"""
    if t[0] == 'call' and t[1] == ('ext', 'builtins.bytes') and len(t[2]) == 1 and t[2][0][0] in ('tuple', 'list'):
        x = t[2][0][1]
        if len(x) == 1:
            return x[0]
    if t[0] == 'call' and callee_name(t[1]) == 'to_bytes' and t[2] and t[2][0] == C(1):
        return t[1][1]
    if t[0] == 'call' and callee_name(t[1]) == 'pack' and len(t[2]) == 2 and t[2][0] in (C("B"), C("<B"), C(">B")):
        return t[2][1]
    return None


def writes(evs):
    return [e for e in evs if e[0] == 'call' and callee_name(e[1]) == 'write' and len(e[1]) > 1
            and isinstance(e[1][1], tuple) and strip_epoch(e[1][1]) == OUT]


def outside_loop(o):
    """events before the (first) loop, events of the iteration or after the loop"""
    for i, e in enumerate(o.events):
        if e[0] == 'loop':
            return o.events[:i], o.events[i + 1:]
    return o.events, None


def last_store(evs, attr):
    v = None
    for e in evs:
        if e[0] == 'store' and same(e[1], SELF) and e[2] == attr:
            v = e[3]
    return v


def full_guard(o, bp, count):
    """polarity of the path on 'the begun byte is filled': bit_pos + count >= 8"""
    r = None
    for t, b in o.conds:
        if t[0] == 'lt0':
            c, parts = t[1], {strip_epoch(k): v for k, v in t[2]}
            if parts == {bp: 1, count: 1} and c == -8:
                r = not b
            elif parts == {bp: -1, count: -1} and c == 7:      # 7 < bp + count
                r = b
            elif parts == {bp: 1, count: 1} and c == -9:       # bp + count <= 8
                return 'late', b
            elif parts == {bp: -1, count: -1} and c == 8:      # 8 < bp + count
                return 'late', not b
            elif parts.keys() == {bp, count} and abs(parts[bp]) == 1 and parts[bp] == parts[count]:
                return 'other', b
    return r


def nonzero_bp(o):
    """the path assumes that a byte is begun: True / False / None"""
    for t, b in o.conds:
        if t[0] == 'eq0' and t[1] == 0 and [strip_epoch(k) for k, v in t[2]] == [BP]:
            return not b
        if t[0] == 'lt0' and t[1] == 0 and {strip_epoch(k): v for k, v in t[2]} == {BP: -1}:
            return b
        if strip_epoch(t) == BP:
            return b
    return None


def piece(sl, src):
    return [x for x in sl if x[0] == src]


def expect(sl, src, lo, width, shift, zero=()):
    """the slices hold exactly one piece of src, at the given place. None when not of that kind"""
    if sl is None:
        return None
    ps = piece(sl, src)
    if len(ps) != 1:
        return None if len(ps) > 1 else False
    _, l, w, s = ps[0]
    return equal(l, lo, zero) and equal(w, width, zero) and equal(s, shift, zero)


def run(ctx, rep):
    rep.rule("begun", "bits written while a byte is begun go to its free bits, in the order of the endian", 2)
    rep.rule("full", "a begun byte is written when it is full, not before nor later, and a new one begins", 1)
    rep.rule("whole", "whole bytes are written in the order of the endian, each bit once", 1)
    rep.rule("rest", "bits left over begin the next byte, on the side of the endian", 1)
    rep.rule("bit", "one bit goes to the next free bit of the byte", 2)
    rep.rule("number", "a number is written as the bytes of its two's complement, of the asked size and endian", 1)
    rep.rule("bytes", "bytes are written as they are, and only if no byte is begun", 1)
    rep.rule("copy", "copying covers exactly the asked range of the input, in order", 1)
    rep.rule("path", "bits are copied as bytes only if all positions are aligned", 1)
    rep.rule("read", "reading back answers the bytes at the address and restores the position", 1)
    ob = Oblig(ctx, rep)
    bits(ob, rep)
    onebit(ob, rep)
    numbers(ob, rep)
    copies(ob, rep)
    readback(ob, rep)


def bits(ob, rep):
    f = ob.func(S + ".writeBits")
    outs = ob.outs(S + ".writeBits", exc='none')
    seen = set()

    def ck(rule, ok, what, msg, o):
        k = (rule, what, is_big(o), ok is False)
        if k in seen and ok:
            return
        seen.add(k)
        ob.check(rule, f, ok, what, "%s [path: %s]" % (msg, ob.path(o)), o.node)

    for o in outs:
        if o.kind not in ('return', 'backedge'):
            continue
        big = is_big(o)
        pre, post = outside_loop(o)
        sl = Slices({VALUE: COUNT, BYTE: C(8)})
        ws = writes(pre)
        begun = nonzero_bp(o)
        g = full_guard(o, BP, COUNT)
        late = isinstance(g, tuple)
        if late and begun is not False:
            ck("full", False if g[0] == 'late' else None, "the guard of a full byte",
               "a byte is taken as full when bit_pos + count is %s" % ("above 8 instead of 8 or more"), o)
            continue
        if post is None and begun is not False and not ws:
            # the bits fit in the begun byte
            if g is None:
                ck("full", None, "the guard of a full byte", "", o)
                continue
            ck("full", g is False, "a full byte is written", "the byte is full but it is not written", o)
            if g:
                continue
            byte = sl.of(last_store(o.events, "_byte")) if last_store(o.events, "_byte") is not None else []
            if big is None:
                ck("begun", None, "placed in the begun byte", "", o)
                continue
            sh = add(add(C(8), BP, -1), COUNT, -1) if big else BP
            ck("begun", expect(byte, VALUE, ZERO, COUNT, sh), "placed in the begun byte",
               "the bits do not go to the free bits of the begun byte", o)
            ck("begun", None if byte is None else expect(byte, BYTE, ZERO, C(8), ZERO), "the begun bits are kept",
               "the bits written before are lost or moved", o)
            np = last_store(o.events, "_bit_pos")
            ck("begun", np is not None and equal(np, add(BP, COUNT)), "the position moves by count",
               "the position in the byte does not move by the number of bits written", o)
            continue
        if begun is not False and ws:
            if g is not True:
                ck("full", None if g is None else False, "only a full byte is written", "the byte is written before it is full",
                   o)
                continue
            free = add(C(8), BP, -1)
            ck("full", len(ws) == 1, "one byte is written", "the begun byte is written more than once", o)
            e = the_byte(ws[0][2][0]) if ws[0][2] else None
            s = sl.of(e) if e is not None else None
            if big is not None:
                lo = add(COUNT, free, -1) if big else ZERO
                ck("begun", expect(s, VALUE, lo, free, ZERO if big else BP), "the begun byte is filled",
                   "the byte is not filled with the %s bits of the value" % ("first" if big else "last"), o)
                ck("begun", None if s is None else expect(s, BYTE, ZERO, C(8), ZERO), "the begun bits are written",
                   "the bits written before are lost or moved", o)
            after = pre[pre.index(ws[0]):]
            if post is None:
                after = o.events[o.events.index(ws[0]):]
            np, nb = last_store(after, "_bit_pos"), last_store(after, "_byte")
            if np is None:
                np = last_store(o.events, "_bit_pos")
            if o.kind == 'return' and (np is None or nb is None):
                np = np if np is not None else last_store(o.events, "_bit_pos")
                nb = nb if nb is not None else last_store(o.events, "_byte")
                ck("full", np is not None and nb is not None, "a new byte begins", "the state of the written byte is kept", o)
        if post is not None and begun and not ws and g is False:
            ck("begun", False, "written once", "the bits placed in the begun byte are written again", o)
            continue
        if post is None:
            continue
        # the loop over whole bytes
        rem = None
        for t, b in o.conds:
            if t[0] == 'lt0' and len(t[2]) == 1 and t[2][0][0][0] == 'phi':
                x, k = t[2][0]
                if o.kind == 'backedge' and (k == 1 and t[1] == -8 and not b or k == -1 and t[1] == 7 and b):
                    rem = x
                elif o.kind == 'return' and (k == 1 and t[1] == -8 and b or k == -1 and t[1] == 7 and not b):
                    rem = x
                elif abs(t[1]) in (7, 8, 9) and rem is None:
                    rem = ('bad', x)
        if rem is None:
            ck("whole", None, "the loop over whole bytes", "", o)
            continue
        if rem[0] == 'bad':
            ck("whole", False, "the loop over whole bytes", "the loop does not go on while 8 bits or more are left", o)
            continue
        if o.kind == 'backedge':
            w2 = writes(post)
            if len(w2) != 1:
                ck("whole", False, "one byte an iteration", "%d bytes are written in one iteration" % len(w2), o)
                continue
            e = the_byte(w2[0][2][0]) if w2[0][2] else None
            vals = [x for x in find_terms(e, lambda x: x[0] == 'phi' and x != rem)] if e is not None else []
            vals = list(dict.fromkeys(vals))
            if len(vals) != 1 or big is None:
                ck("whole", None, "the byte of an iteration", "", o)
                continue
            v = vals[0]
            sl = Slices({v: rem})
            s = sl.of(e)
            lo = add(rem, C(8), -1) if big else ZERO
            ok = expect(s, v, lo, C(8), ZERO)
            if ok is False and s and not big and expect(s, v, lo, rem, ZERO):
                ok = False
            ck("whole", ok, "the byte of an iteration", "the byte written is not the %s 8 bits left" % (
                "first" if big else "last"), o)
            nv, nr = o.state.env.get(v[1]), o.state.env.get(rem[1])
            if nr is not None:
                ck("whole", equal(nr, add(rem, C(8), -1)), "8 bits less are left", "the count of bits left does not go down by 8", o)
            if nv is not None:
                s = sl.of(nv)
                ok = expect(s, v, ZERO if big else C(8), add(rem, C(8), -1), ZERO)
                if ok is False and big and s and expect(s, v, ZERO, rem, ZERO):
                    ok = False
                ck("whole", ok, "the other bits are left", "the bits left are not the ones which were not written", o)
            # what is left when the loop begins
            iv, ir = v[3] if len(v) > 3 else None, rem[3] if len(rem) > 3 else None
            if iv is not None and ir is not None:
                s = Slices({VALUE: COUNT}).of(iv)
                cnt = add(COUNT, add(C(8), BP, -1), -1) if ws else COUNT
                ck("whole", equal(ir, cnt), "the bits left before the whole bytes",
                   "the count of bits left is not the count given less those which filled the byte", o)
                lo = ZERO if big or not ws else add(C(8), BP, -1)
                ck("whole", expect(s, VALUE, lo, cnt, ZERO), "the value left before the whole bytes",
                   "the bits left are not the ones which did not fill the begun byte", o)
        else:
            if writes(post):
                ck("rest", None, "no byte is written for left over bits", "", o)
                continue
            np, nb = last_store(post, "_bit_pos"), last_store(post, "_byte")
            empty = cond(o, lambda t: t[0] == 'lt0' and t[1] == 0 and [k for k, v in t[2]] == [rem] and t[2][0][1] == -1)
            if empty is not None:
                empty = not empty
            else:
                empty = cond(o, lambda t: t[0] == 'eq0' and t[1] == 0 and [k for k, v in t[2]] == [rem])
                if empty is None:
                    x = cond(o, lambda t: t == rem)
                    empty = None if x is None else not x
            if np is None:
                ck("rest", False if not empty else None, "the position of the next byte", "the position in the byte is not recorded", o)
            else:
                ck("rest", equal(np, rem, [rem] if empty else ()), "the position of the next byte",
                   "the position in the byte is not the number of bits left", o)
            if empty:
                ck("rest", None if nb is None and ws else nb == ZERO or nb is None or nb[0] == 'phi', "an empty byte begins",
                   "the next byte does not begin empty", o)
                continue
            if nb is None:
                ck("rest", False, "the left over bits are kept", "the bits left over are dropped", o)
                continue
            phis = list(dict.fromkeys(x for x in find_terms(nb, lambda x: x[0] == 'phi' and x != rem)))
            if len(phis) != 1 or big is None:
                ck("rest", None, "the left over bits are kept", "", o)
                continue
            v = phis[0]
            s = Slices({v: rem}).of(nb)
            ck("rest", expect(s, v, ZERO, rem, add(C(8), rem, -1) if big else ZERO), "the left over bits are kept",
               "the bits left over are not at the %s of the next byte" % ("top" if big else "bottom"), o)


def onebit(ob, rep):
    f = ob.func(S + ".writeBit")
    outs = ob.outs(S + ".writeBit", exc='none')
    state = P("state")
    for o in returns(outs):
        full = None
        for t, b in o.conds:
            if t[0] == 'eq0' and [strip_epoch(k) for k, v in t[2]] == [BP]:
                full = b if t[1] * t[2][0][1] == -7 else 'odd'
            elif t[0] == 'lt0' and [strip_epoch(k) for k, v in t[2]] == [BP]:
                k = t[2][0][1]
                if k == 1:
                    full = (not b) if t[1] == -7 else 'odd'
                elif k == -1:
                    full = b if t[1] == 6 else 'odd'
        on = cond(o, lambda t: t == state)
        if on is None:
            on = cond(o, lambda t: t[0] == 'eq0' and [k for k, v in t[2]] == [state] and t[1] == 0)
            on = None if on is None else not on
        big = is_big(o)
        ws = writes(o.events)
        if full is None or full == 'odd':
            # the position may be moved before it is tested
            ob.check("bit", f, False if full == 'odd' and ws else None, "the byte is full after 8 bits",
                     "the byte is not taken as full exactly at its eighth bit", o.node)
            continue
        zero = [add(BP, C(7), -1)] if full else []
        ob.check("bit", f, len(ws) == (1 if full else 0), "written when full: %s" % full,
                 "a byte is written before its eighth bit, or not at it", o.node)
        if full and ws:
            t = the_byte(ws[0][2][0]) if ws[0][2] else None
            t = strip_epoch(t) if t is not None else None
            np = last_store(o.events, "_bit_pos")
            ob.check("bit", f, np is not None and equal(np, ZERO, zero), "a new byte begins",
                     "the position does not go back to the first bit", o.node)
            nb = None
            for e in o.events[o.events.index(ws[0]):]:
                if e[0] == 'store' and e[2] == '_byte':
                    nb = e[3]
            ob.check("bit", f, nb == ZERO, "the new byte is empty", "the bits of the byte written are kept for the next", o.node)
        else:
            t = last_store(o.events, "_byte")
            np = last_store(o.events, "_bit_pos")
            ob.check("bit", f, np is not None and equal(np, add(BP, C(1))), "the position moves by one",
                     "the position in the byte does not move by one", o.node)
            if t is None:
                t = BYTE
        s = None if t is None else Slices({BYTE: C(8)}).of(t)
        if s is None or on is None:
            ob.check("bit", f, None, "placed", "")
            continue
        ob.check("bit", f, expect(s, BYTE, ZERO, C(8), ZERO), "the bits before are kept", "the bits written before are lost",
                 o.node)
        ones = piece(s, None)
        if on is False:
            ob.check("bit", f, not ones, "a zero sets nothing", "a zero bit sets a bit of the byte", o.node)
        elif big is None:
            ob.check("bit", f, None, "placed", "")
        else:
            ob.check("bit", f, len(ones) == 1 and equal(ones[0][3], add(C(7), BP, -1) if big else BP, zero),
                     "placed, %s endian" % ("big" if big else "little"), "the bit does not go to the next free bit of the byte", o.node)


def numbers(ob, rep):
    f = ob.func(S + ".writeInteger")
    outs = ob.outs(S + ".writeInteger", exc='none')
    size, val, end, sg = P("size_byte"), P("value"), P("endian"), P("signed")
    for o in returns(outs):
        wb = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) in ('writeBytes', 'write')]
        if len(wb) != 1:
            ob.check("number", f, False, "written once", "the number is written %d times" % len(wb), o.node)
            continue
        raw = strip_epoch(wb[0][2][0])
        n = callee_name(raw[1]) if raw[0] == 'call' else None
        if n == 'long2raw':
            args = dict(zip(("value", "endian", "size"), raw[2]))
            args.update(dict(raw[3]))
            ob.check("number", f, args.get("endian") == end, "the endian", "the number is not written in the endian asked", o.node)
            ob.check("number", f, args.get("size") == size, "the size", "the number is not written with the size asked", o.node)
            v = args.get("value")
            d = add(v, val, -1)
            c, parts = lin_parts(d)
            neg = cond(o, lambda t: t == lt(val, ZERO))
            nonneg = cond(o, lambda t: t[0] == 'lt0' and [k for k, x in t[2]] == [val] and t[2][0][1] == -1)
            sgn = cond(o, lambda t: t == sg)
            if not parts and c == 0:
                if sgn and neg:
                    ob.check("number", f, False, "a negative number", "a negative number is not written as its two's complement",
                             o.node)
                elif sgn is None and neg is None and nonneg is None:
                    ob.check("number", f, False, "a negative number", "the sign is not looked at", o.node)
                else:
                    ob.check("number", f, True, "a number which is not negative", "")
            elif c == 0 and len(parts) == 1:
                (t, k), = parts.items()
                e = power(t)
                ok = None
                if e is not None and k == 1:
                    ok = bool(equal(e, lin(0, {size: 8})))
                ob.check("number", f, ok, "two's complement", "what is added to a negative number is not 2 ** (8 * size)", o.node)
                if ok and neg is False:
                    ob.check("number", f, False, "a number which is not negative", "2 ** (8 * size) is added to a number which is "
                             "not negative", o.node)
            else:
                ob.check("number", f, None, "the value", "")
        elif n == 'to_bytes':
            kw = dict(raw[3])
            ob.check("number", f, raw[1][1] == val and raw[2][0] == size, "the size", "the number is not written with the size "
                     "asked", o.node)
            s = kw.get("signed")
            ob.check("number", f, None if s is None else bool(has(s, sg)), "a negative number", "the sign is not looked at", o.node)
        else:
            ob.check("number", f, None, "the raw bytes", "")
    # raw bytes
    f = ob.func(S + ".writeBytes")
    outs = ob.outs(S + ".writeBytes", exc='none')
    par = P(f.params[1])
    for o in returns(outs):
        ws = writes(o.events)
        b = nonzero_bp(o)
        ob.check("bytes", f, b is False if b is not None else False, "refused when a byte is begun",
                 "bytes are written though a byte is begun: its bits come later than they should", o.node)
        ob.check("bytes", f, len(ws) == 1 and ws[0][2] == (par,), "written as they are", "the bytes given are not written once",
                 o.node)
    ob.check("bytes", f, any(nonzero_bp(o) for o in raises(outs)), "refusal", "a begun byte is not refused")


def copies(ob, rep):
    f = ob.func(S + ".copyBytesFrom")
    outs = ob.outs(S + ".copyBytesFrom", exc='none')
    inp, addr, nb = P("input"), P("address"), P("nb_bytes")
    ob.check("path", f, any(exc_name(o) == 'OutputStreamError' for o in raises(outs)), "an unaligned address is refused",
             "bytes are copied from an address inside a byte")
    its = [o for o in outs if o.kind == 'backedge']
    ob.check("copy", f, bool(its) or any(calls_named(o, 'readBytes') for o in returns(outs)), "bytes are copied",
             "nothing is copied")
    for o in its:
        rd, wr = calls_named(o, 'readBytes'), calls_named(o, 'writeBytes')
        if len(rd) != 1 or len(wr) != 1 or len(rd[0][2]) < 2:
            ob.check("copy", f, False if len(rd) == 1 and not wr and not writes(o.events) else None, "each part is written",
                     "what is read is not written", o.node)
            continue
        ob.check("copy", f, wr[0][2] == (rd[0][4],), "what is read is written", "what is written is not what was read", o.node)
        a, n = rd[0][2][:2]
        # address and rest are loop variables
        if a[0] != 'phi':
            c, parts = lin_parts(a)
            ob.check("copy", f, False if a == addr else None, "the address moves", "every part is read at the same address", o.node)
            continue
        na = o.state.env.get(a[1])
        ob.check("copy", f, None if len(a) < 4 else same(a[3], addr), "from the address given", "the copy does not begin at the address", o.node)
        ob.check("copy", f, na is not None and equal(add(na, a, -1), mul8(n)), "the address moves by the bytes read",
                 "the address does not move by 8 bits a byte read", o.node)
        rems = [k for t, b in o.conds if t[0] == 'lt0' for k, v in t[2] if k[0] == 'phi' and k != a and k != n]
        rems = list(dict.fromkeys(r for r in rems if len(r) > 3 and same(r[3], nb))) or ([n] if n[0] == 'phi' and same(n[3], nb) else [])
        if len(rems) != 1:
            ob.check("copy", f, None, "the rest", "")
            continue
        r = rems[0]
        nr = o.state.env.get(r[1])
        ob.check("copy", f, nr is not None and equal(add(r, nr, -1), n), "the rest goes down by the bytes read",
                 "the number of bytes left does not go down by those read", o.node)
        # never more than what is left
        okn = None
        if n == r:
            okn = True
        elif n[0] == 'call' and callee_name(n[1]) == 'min' and r in n[2]:
            okn = True
        elif n[0] in ('phi', 'const'):
            for t, b in o.conds:
                if t == lt(r, n):
                    okn = not b
                elif t == lt(n, r):
                    okn = True if b else None
            if okn is None:
                okn = False if n[0] == 'const' else None
        ob.check("copy", f, okn, "not more than what is left", "more bytes are read than are left", o.node)
    ends = [o for o in returns(outs)]
    for o in ends:
        rs = [(t, b) for t, b in o.conds if t[0] == 'lt0' and len(t[2]) == 1 and t[2][0][0][0] == 'phi' and
              len(t[2][0][0]) > 3 and same(t[2][0][0][3], nb)]
        ok = None
        for t, b in rs:
            k = t[2][0][1]
            if k == -1:
                ok = (t[1] == 0) if not b else None
            elif k == 1:
                ok = (t[1] == -1) if b else None
        ob.check("copy", f, ok, "to the end", "the copy ends while bytes are left", o.node)

    f = ob.func(S + ".copyBitsFrom")
    outs = ob.outs(S + ".copyBitsFrom", exc='none', opaque=("copyBytesFrom", "writeBits", "readBits"))
    nbits = P("nb_bits")
    for o in returns(outs):
        cb, wb = calls_named(o, 'copyBytesFrom'), calls_named(o, 'writeBits')
        rb = calls_named(o, 'readBits')
        ob.check("copy", f, len(cb) + len(wb) == 1, "bits are copied once", "the bits are copied %d times" % (len(cb) + len(wb)), o.node)
        if cb:
            al = {aligned(t, b) for t, b in o.conds}
            for x, name in ((nbits, "size"), (addr, "address"), (BP, "position in the byte")):
                ok = x in al
                if not ok and x == BP:
                    ok = nonzero_bp(o) is False
                ob.check("path", f, ok, "the %s is aligned" % name, "bits are copied as bytes though the %s may be unaligned" % name, o.node)
            a = cb[0][2]
            ob.check("copy", f, len(a) == 3 and a[0] == inp and a[1] == addr and a[2] == ('bin', 'FloorDiv', nbits, C(8))
                     or (None if len(a) != 3 or a[2][0] == 'bin' and a[2][1] == 'RShift' else False), "bytes: the same range",
                     "the bytes copied are not the bits asked for", o.node)
        elif wb:
            ok = len(rb) == 1 and rb[0][2][:2] == (addr, nbits) and (END in rb[0][2] or ("endian", END) in rb[0][3])
            ob.check("copy", f, ok, "bits: the same range", "the bits read are not those at the address, in the endian asked", o.node)
            a = dict(zip(("count", "value", "endian"), wb[0][2]))
            a.update(dict(wb[0][3]))
            if rb:
                ob.check("copy", f, a.get("count") == nbits and a.get("value") == rb[0][4] and a.get("endian") == END,
                         "bits: written as read", "the bits are not written with the size and endian they were read with", o.node)


def aligned(t, b):
    """x when the condition says x % 8 == 0"""
    if t[0] == 'eq0' and t[1] == 0 and len(t[2]) == 1 and b:
        x = t[2][0][0]
    elif not b:
        x = t
    else:
        return None
    if x[0] == 'bin' and (x[1] == 'Mod' and x[3] == C(8) or x[1] == 'BitAnd' and x[3] == C(7)):
        return strip_epoch(x[2])
    return None


def mul8(n):
    c, parts = lin_parts(n)
    return lin(8 * c, {k: 8 * v for k, v in parts.items()})


def readback(ob, rep):
    f = ob.func(S + ".readBytes")
    outs = ob.outs(S + ".readBytes", exc='calls')
    addr, n = P("address"), P(f.params[2])

    def pos(o):
        """(reads, seeks) in order"""
        return [e for e in o.events if e[0] == 'call' and callee_name(e[1]) in ('seek', 'read', 'tell', 'flush')]
    for o in outs:
        if o.kind not in ('return', 'raise'):
            continue
        ev = pos(o)
        names = [callee_name(e[1]) for e in ev]
        if o.kind == 'return':
            ok = 'seek' in names and 'read' in names and names.index('seek') < names.index('read')
            ob.check("read", f, ok, "read at the address", "the bytes are not read at the address", o.node)
            if ok:
                s = ev[names.index('seek')][2]
                ob.check("read", f, bool(s) and strip_epoch(s[0]) in (('bin', 'FloorDiv', addr, C(8)), ('bin', 'RShift', addr, C(3))),
                         "the address in bytes", "the bytes are not read at the byte of the address", o.node)
                ob.check("read", f, ev[names.index('read')][2] == (n,), "the number of bytes", "another number of bytes is read", o.node)
                ob.check("read", f, o.value == ev[names.index('read')][4], "the bytes are answered", "the answer is not what was read", o.node)
        if 'read' in names:
            i = names.index('read')
            tells = [e for e in ev if callee_name(e[1]) == 'tell']
            back = [e for e in ev[i:] if callee_name(e[1]) == 'seek']
            ok = bool(tells) and bool(back) and back[-1][2] and back[-1][2][0] == tells[0][4]
            ob.check("read", f, bool(ok), "the position is restored (%s)" % o.kind, "the position where the next bytes are written is "
                     "not restored after reading", o.node)
