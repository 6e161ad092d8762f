"""A read delivers exactly the bits that were asked for, or fails."""
import ast
from ..oblig import Oblig, SELF, A, C, P, cond, returns, raises, exc_name, final, same, strip_epoch, has, below
from ..flow import (callee_name, add, lin_parts, NONE, TRUE, FALSE, lin, lt, eq, binop, show, find_terms, Flow, TooComplex, mk_not)
from ..project import AnalysisBroken, FuncInfo, body_nodes

M = "hachoir.stream.input."


def is_read(t):
    return t[0] == 'call' and callee_name(t[1]) == 'read' and len(t[2]) >= 2


def third(call):
    return ('item', call, C(2), 0)


def ceil8(shift, size):
    """number of bytes covering size bits after shift bits"""
    return binop('FloorDiv', lin(7, {shift: 1, size: 1}), C(8))


def run(ctx, rep):
    rep.rule("missing", "whoever reads from a stream looks at what is missing (or passes it on) before the data "
             "is used", 2)
    rep.rule("exact", "a stream delivers the bytes covering the asked bits, the bit shift of the first one, and "
             "says (or raises) when there are fewer", 1)
    rep.rule("window", "a sub stream reads at its offset and never outside its own size", 1)
    rep.rule("decode", "bits, bytes and integers are taken from the data at the asked bit position; signed integers "
             "are two's complement", 2)
    rep.rule("size", "sizeGe() answers by the known size, else by trying to read; empty streams are refused", 2)
    rep.rule("compose", "a concatenated or fragmented stream reads each part at its own address and never accepts a "
             "short part", 1)
    rep.rule("search", "searchBytes() answers the position of the needle, keeps the overlap between blocks, and stops at "
             "the end address", 2)
    rep.rule("file", "the file view of a stream advances by what it read and stops at the size", 2)
    rep.rule("pipe", "a pipe keeps every block at its place, in the order of use, and joins the blocks which hold "
             "what is asked", 2)
    ob = Oblig(ctx, rep)
    p = ctx.project

    # -- every reader
    readers = []
    for f in p.functions:
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'read'
               and len(n.args) + len(n.keywords) >= 2 for n in body_nodes(f.node)):
            readers.append(f)
    for f in sorted(readers, key=lambda f: f.where):
        # file-like reads may be short: read(size) / read() of a file object
        top = f
        while top.parent is not None if hasattr(top, "parent") else False:
            top = top.parent
        if f.name == 'read' and _filelike(p, f):
            continue
        try:
            outs = ob.outs(f, exc='none')
        except AnalysisBroken:
            rep.undecided("missing")
            continue

        def looked(o):
            for e in o.events:
                if e[0] != 'call' or not is_read(e[4]) or not _streamread(p, e[4], f):
                    continue
                m = third(e[4])
                if o.kind == 'raise':
                    continue
                ok = any(strip_epoch(t) == strip_epoch(m) and b is False for t, b in o.conds)
                used = o.value is not None and o.kind == 'return' and (
                    same(o.value, e[4]) or has(o.value, m))
                if not ok and not used and o.kind in ('return', 'backedge'):
                    return False
            return True
        if any(is_read(e[4]) and _streamread(p, e[4], f) for o in outs for e in o.events if e[0] == 'call'):
            ob.all("missing", f, outs, looked, "missing", "uses the data of a read without looking at what is missing")

    # -- leaf streams
    f = ob.func(M + "StringInputStream.read")
    outs = ob.outs(M + "StringInputStream.read", exc='none')
    a, s = P(f.params[1]), P(f.params[2])
    sh, at = binop('Mod', a, C(8)), binop('FloorDiv', a, C(8))
    n = ceil8(sh, s)

    def string(o):
        v = o.value
        if v[0] != 'tuple' or len(v[1]) != 3:
            return False
        d = v[1][1]
        want = ('slice', at, lin(0, {at: 1, n: 1}), NONE)
        if not (d[0] == 'item' and strip_epoch(d[1]) == A(SELF, 'data') and strip_epoch(d[2]) == strip_epoch(want)):
            return False
        full = strip_epoch(eq(('call', ('ext', 'builtins.len'), (d,), (), 0), n))
        return same(v[1][0], sh) and v[1][2] == FALSE and any(strip_epoch(t) == full and b for t, b in o.conds)
    ob.all("exact", f, returns(outs), string, "string", "delivers other bytes than asked, or too few of them")
    ob.all("exact", f, raises(outs), lambda o: exc_name(o) == "ReadStreamError", "string-error",
           "a short read is not reported as ReadStreamError", least=1)

    f = ob.func(M + "InputIOStream.read")
    outs = ob.outs(M + "InputIOStream.read", exc='none')
    a, s = P(f.params[1]), P(f.params[2])
    sh, at = binop('Mod', a, C(8)), binop('FloorDiv', a, C(8))
    n = ceil8(sh, s)

    def io(o):
        v = o.value
        if v[0] != 'tuple' or len(v[1]) != 3:
            return False
        d = v[1][1]
        if d[0] == 'const':
            return cond(o, lambda t: t == s) is False or any(strip_epoch(t) == eq(s, C(0)) and b for t, b in o.conds)
        ev = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) in ('seek', 'read')]
        if [callee_name(e[1]) for e in ev] != ['seek', 'read'] or not same(ev[0][2][0], at) or len(ev[0][2]) > 1 and \
                ev[0][2][1] != C(0) or not same(ev[1][2][0], n) or not same(d, ev[1][4]):
            return False
        full = eq(('call', ('ext', 'builtins.len'), (d,), (), 0), n)
        known = [b for t, b in o.conds if strip_epoch(t) == strip_epoch(full)]
        m = v[1][2]
        okm = same(m, mk_not(full)) or known and (m == FALSE and known[0] or m == TRUE and not known[0])
        return same(v[1][0], sh) and okm
    ob.all("exact", f, returns(outs), io, "file", "delivers other bytes than asked, or hides that some are missing",
           least=2)
    ob.all("exact", f, raises(outs), lambda o: exc_name(o) in ("ReadStreamError", "AssertionError"), "file-error",
           "a short read is not reported as ReadStreamError", least=1)

    def fixed_size(o):
        """missing bytes are only tolerated when the size became known by this read"""
        return exc_name(o) != "ReadStreamError" or True
    ob.check("exact", f, any(exc_name(o) == "ReadStreamError" for o in raises(outs)), "file-short",
             "a short read of a stream of known size is never reported")

    # -- window
    f = ob.func(M + "InputSubStream.read")
    outs = ob.outs(M + "InputSubStream.read", exc='none')
    a, s = P(f.params[1]), P(f.params[2])

    def shifted(o):
        rd = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'read']
        if len(rd) != 1 or not same(rd[0][1][1], A(SELF, 'stream')):
            return False
        return same(rd[0][2][0], lin(0, {A(SELF, '_offset'): 1, a: 1})) and same(rd[0][2][1], s) and (
            same(o.value, rd[0][4]) or o.value[0] == 'tuple')
    ob.all("window", f, returns(outs), shifted, "offset", "does not read the asked bits at the offset of the window")

    def inside(o):
        if any(t == ('isnone', A(SELF, '_size')) and b for t, b in [(strip_epoch(t), b) for t, b in o.conds]):
            return True
        over = strip_epoch(lt(A(SELF, '_size'), lin(0, {a: 1, s: 1})))
        return any(strip_epoch(t) == over and b is False for t, b in o.conds) or cond(
            o, lambda t: strip_epoch(t) == A(SELF, '_size')) is False
    ob.all("window", f, returns(outs), inside, "inside", "reads outside the window")
    f = ob.func(M + "InputSubStream.__init__")
    outs = ob.outs(M + "InputSubStream.__init__", exc='none')

    def wsize(o):
        z = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == '__init__']
        if len(z) != 1:
            return False
        sz = dict(z[0][3]).get('size')
        off = final(o, SELF, '_offset')
        if sz is None or off is None or not (off == P('offset') or off == C(0) and cond(
                o, lambda t: t == ('isnone', P('offset'))) is True):
            return False
        if sz == P('size') or sz == NONE:
            return True
        return same(sz, binop('Sub', A(P('stream'), 'size'), off)) and cond(
            o, lambda t: t == ('isnone', P('size'))) is True
    ob.all("window", f, returns(outs), wsize, "init", "the window is not the one asked for", least=2)

    # -- decoding
    f = ob.func(M + "InputStream.readBytes")
    outs = ob.outs(M + "InputStream.readBytes", exc='none', opaque=('read',))
    a, nb = P(f.params[1]), P(f.params[2])

    def rbytes(o):
        rd = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'read']
        if len(rd) != 1:
            return False
        t = rd[0][4]
        return same(t[2][0], a) and same(t[2][1], lin(0, {nb: 8})) and same(o.value, ('item', t, C(1), 0)) and all(
            any(strip_epoch(c) == strip_epoch(('item', t, C(i), 0)) and b is False for c, b in o.conds) for i in (0, 2))
    ob.all("decode", f, returns(outs), rbytes, "bytes",
           "does not deliver exactly the asked bytes of a complete, byte aligned read")
    f = ob.func(M + "InputStream.readBits")
    outs = ob.outs(M + "InputStream.readBits", exc='none', opaque=('read',))
    a, nb, en = (P(x) for x in f.params[1:4])
    ONE = C(1)

    def mask(v):
        if v[0] != 'bin' or v[1] != 'BitAnd':
            return None
        m = strip_epoch(binop('Sub', binop('LShift', ONE, nb), ONE))
        for x, y in ((v[2], v[3]), (v[3], v[2])):
            if strip_epoch(y) == m:
                return x
        return None

    def rbits(o):
        rd = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'read']
        if len(rd) != 1:
            return False
        t = rd[0][4]
        mid = [b for c, b in o.conds if c[0] in ('eq', 'is') and C('BADC') in c[1:]]
        data, shift = ('item', t, C(1), 0), ('item', t, C(0), 0)
        if mid and mid[0]:
            if not same(t[2][0], lin(0, {binop('FloorDiv', a, C(16)): 16})):
                return False
            shift = binop('Mod', a, C(16))
            span = t[2][1]
            if not (span[0] == 'call' and callee_name(span[1]) == 'alignValue' and same(
                    span[2][0], lin(0, {shift: 1, nb: 1})) and span[2][1] == C(16)):
                plain = span[0] != 'call' or callee_name(span[1]) == 'alignValue' and len(span[2]) == 2 and \
                    span[2][0][0] in ('lin', 'param', 'const') and span[2][1][0] == 'const'
                # the words which are read do not reach the last bit
                return False if plain and not find_terms(span, lambda t: t[0] == 'bin' and t not in (
                    shift, strip_epoch(shift))) else None
        elif not (same(t[2][0], a) and same(t[2][1], nb)):
            return False
        if not any(strip_epoch(c) == strip_epoch(third(t)) and b is False for c, b in o.conds):
            return False
        x = mask(o.value)
        if x is None or x[0] != 'bin' or x[1] not in ('RShift', 'FloorDiv'):
            return False
        num, by = x[2], x[3]
        if not (num[0] == 'call' and callee_name(num[1]) == 'str2long' and same(num[2][0], data) and num[2][1] == en):
            return False
        big = [(c, b) for c, b in o.conds if c[0] == 'in' and c[1] == en and c[2][0] in ('tuple', 'const', 'list')]
        need = lin(0, {('call', ('ext', 'builtins.len'), (data,), (), 0): 8, shift: -1, nb: -1})
        if same(by, need):
            isbig = True
        elif same(by, shift):
            isbig = False
        else:
            return False
        # the order under which this shift is used
        for c, b in o.conds:
            if c[0] == 'in' and c[1] == en and C('ABCD') in _elts(c[2]) and C('DCBA') not in _elts(c[2]):
                return b is isbig
            if c[0] in ('eq', 'is') and en in c[1:] and C('DCBA') in c[1:]:
                return b is not isbig
            if c[0] in ('eq', 'is') and en in c[1:] and C('ABCD') in c[1:] and b:
                return isbig
        return None
    ob.all("decode", f, returns(outs), rbits, "bits",
           "does not extract exactly the asked bits in the asked order", least=2)
    f = ob.func(M + "InputStream.readInteger")
    outs = ob.outs(M + "InputStream.readInteger", exc='none', opaque=('readBits',))

    def rint(o):
        rd = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'readBits']
        names = f.params
        if len(rd) != 1 or rd[0][2] != (P(names[1]), P(names[3]), P(names[4])):
            return False
        v = rd[0][4]
        nb = P(names[3])
        sg = cond(o, lambda t: t == P(names[2]))
        half = binop('LShift', ONE, binop('Sub', nb, ONE))
        neg = [b for t, b in o.conds if strip_epoch(t) == strip_epoch(lt(v, half))]
        top = not neg[0] if neg else None
        if sg is True and top is True:
            return same(o.value, binop('Sub', v, binop('LShift', ONE, nb)))
        return same(o.value, v) and (sg is False or top is False)
    ob.all("decode", f, returns(outs), rint, "integer", "the integer is not the two's complement of the bits", least=2)
    ob.check("decode", f, any(not o.value[0] == 'call' for o in returns(outs)), "signed", "signed integers are never negative")

    # -- size
    f = ob.func(M + "InputStream.sizeGe")
    outs = ob.outs(M + "InputStream.sizeGe", exc='none', opaque=('_feed',))
    s = P(f.params[1])

    def ge(o):
        enough = cond(o, lambda t: strip_epoch(t) == strip_epoch(lt(A(SELF, '_current_size'), s)))
        v = o.value
        if v[0] == 'not' and v[1] == P('const'):
            v = FALSE if cond(o, lambda t: t == P('const')) else v
        if v == TRUE:
            fed = [b for t, b in o.conds if t[0] == 'call' and callee_name(t[1]) == '_feed']
            return enough is False or fed == [False]
        if v == FALSE:
            known = cond(o, lambda t: strip_epoch(t) == strip_epoch(lt(A(SELF, '_size'), s)))
            fed = [b for t, b in o.conds if t[0] == 'call' and callee_name(t[1]) == '_feed']
            return enough is True and (known is True or cond(o, lambda t: t == P('const')) is True or fed == [True])
        fd = find_terms(v, lambda t: t[0] == 'call' and callee_name(t[1]) == '_feed')
        return enough is True and v[0] == 'not' and len(fd) == 1 and fd[0][2] == (s,)
    ob.all("size", f, returns(outs), ge, "sizeGe", "answers against what is known of the size", least=3)
    f = ob.func(M + "InputStream._feed")
    outs = ob.outs(M + "InputStream._feed", exc='none', opaque=('read',))

    def feed(o):
        v = strip_epoch(o.value)
        return v[0] == 'item' and v[2] == C(2) and v[1][0] == 'call' and callee_name(v[1][1]) == 'read' and same(
            v[1][2][0], lin(-1, {P(f.params[1]): 1})) and v[1][2][1] == C(1)
    ob.all("size", f, returns(outs), feed, "feed", "does not look at the last of the asked bits")
    f = ob.func(M + "InputStream.__init__")
    outs = ob.outs(M + "InputStream.__init__", exc='none')
    ob.check("size", f, any(exc_name(o) == "NullStreamError" and any(
        strip_epoch(t) == strip_epoch(eq(P('size'), C(0))) and b for t, b in o.conds) for o in raises(outs)), "null",
        "an empty stream is not refused")
    ob.all("size", f, returns(outs), lambda o: same(final(o, SELF, '_size') or NONE, P('size')) or
           final(o, SELF, '_size') == P('size'), "init", "the size is not the one given")

    def most(o, n, top, floor=None):
        """n is at most top: True, False (it may be above) or None"""
        if same(n, top) or floor is not None and same(n, floor):
            return True
        if n[0] == 'call' and n[1] in (('ext', 'builtins.min'), ('ext', 'builtins.max')) and len(n[2]) >= 2:
            r = [most(o, x, top, floor) for x in n[2]]
            if n[1][1] == 'builtins.min':
                return True if True in r else None if None in r else False
            return True if set(r) == {True} else False if False in r else None
        b = below(o, lin(-1, {n: 1, top: -1}) if n[0] != 'lin' and top[0] != 'lin' else add(add(n, top, -1), C(-1)))
        if b is None:
            return False if n[0] in ('param', 'attr', 'lin', 'phi') else None
        return b

    f = ob.func(M + "InputSubStream.__current_size")
    outs = ob.outs(M + "InputSubStream.__current_size", exc='none')

    def current(o):
        """bits which can be read now: not more than the window, nor than the stream has behind the offset"""
        have = binop('Sub', A(SELF, 'stream', '_current_size'), A(SELF, '_offset'))
        r = [most(o, strip_epoch(o.value), have, C(0))]
        if cond(o, lambda t: t == ('isnone', A(SELF, '_size'))) is not True and cond(
                o, lambda t: t == A(SELF, '_size')) is not False:
            r.append(most(o, strip_epoch(o.value), A(SELF, '_size'), C(0)))
        return False if False in r else None if None in r else True
    ob.all("size", f, returns(outs), current, "current", "more bits are announced than can be read", least=1)
    f = ob.func(M + "InputIOStream.__current_size")
    outs = ob.outs(M + "InputIOStream.__current_size", exc='none')

    def known(o):
        v = strip_epoch(o.value)
        size, isize = A(SELF, '_size'), A(SELF, '_input', 'size')
        for t in (size, isize):
            c = [b for x, b in o.conds if strip_epoch(x) in (t, ('isnone', t))]
            yes = [b for x, b in o.conds if strip_epoch(x) == t] + [
                not b for x, b in o.conds if strip_epoch(x) == ('isnone', t)]
            if yes and yes[0]:
                return same(v, t if t == size else lin(0, {t: 8}))
            if not yes:
                return None
        return same(v, lin(0, {A(SELF, '_input', 'current_size'): 8}))
    ob.all("size", f, returns(outs), known, "io-current", "more or fewer bits are announced than can be read", least=2)
    f = ob.func("hachoir.stream.input_helper.FileInputStream")
    outs = ob.outs("hachoir.stream.input_helper.FileInputStream", exc='none')

    def part(o):
        z = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'InputSubStream']
        if not z:
            return None
        args = list(z[-1][2])
        kw = dict(z[-1][3])
        at, n = (args + [None] * 3)[1:3]
        at, n = at or kw.get('offset'), n or kw.get('size')
        if at is None or n is None:
            return None
        at, n = strip_epoch(at), strip_epoch(n)

        def times(t):
            """8 * something not multiplied: True"""
            if t == NONE or t == C(0):
                return True
            if t[0] == 'lin':
                return t[1] == 0 and len(t[2]) == 1 and t[2][0][1] == 8
            return False
        szs = [b for t, b in o.conds if strip_epoch(t) == n]
        return times(at) and (times(n) or szs[:1] == [False])
    ob.all("window", f, returns(outs), part, "file-part", "offset and size in bytes are not given in bits", least=1)

    # -- composed streams
    f = ob.func(M + "ConcatStream.read")
    outs = ob.outs(M + "ConcatStream.read", exc='none')
    a, s = P(f.params[1]), P(f.params[2])
    zero = None

    def concat(o):
        rd = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'read']
        for e in rd:
            r = strip_epoch(e[1][1])
            if r[0] != 'item':
                return None
            first = r[2] == C(0)
            if first:
                if not same(e[2][0], a) or most(o, e[2][1], s) is False:
                    return False
                if not any(strip_epoch(t) == strip_epoch(third(e[4])) and not b for t, b in o.conds):
                    return False
            else:
                fst = [x for x in rd if strip_epoch(x[1][1])[2] == C(0)]
                if fst:
                    if e[2][0] != C(0) or not same(e[2][1], binop('Sub', s, fst[0][2][1])):
                        return False
                elif not (e[2][0][0] == 'lin' and dict(e[2][0][2]).get(a) == 1 and len(e[2][0][2]) == 2
                          and e[2][0][1] == 0 and same(e[2][1], s)):
                    return False
                m = third(e[4])
                if not has(o.value, m) and not any(strip_epoch(t) == strip_epoch(m) and not b for t, b in o.conds):
                    return False
        return True
    ob.all("compose", f, returns(outs), concat, "concat", "a part is read at a wrong address or size, or may be short",
           least=2)
    f = ob.func(M + "FragmentedStream.read")
    outs = ob.outs(M + "FragmentedStream.read", exc='none', opaque=('_feed',))

    def frag(o):
        rd = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'read']
        fd = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == '_feed']
        if len(fd) != 1 or not same(fd[0][2][0], lin(0, {P(f.params[1]): 1, P(f.params[2]): 1})):
            return False
        v = o.value
        if o.kind == 'return':
            if v[0] != 'tuple' or len(v[1]) != 3:
                return False
            m = v[1][2]
            fed = [b for t, b in o.conds if same(t, fd[0][4])]
            if not (same(m, fd[0][4]) or fed and m == C(fed[0])):
                return False
        return all(any(strip_epoch(t) == strip_epoch(third(e[4])) and not b for t, b in o.conds) for e in rd)
    ob.all("compose", f, [o for o in outs if o.kind in ('return', 'backedge')], frag, "fragments",
           "a short fragment is accepted, or what is missing at the end is not reported", least=2)

    def advance(o):
        """one fragment further: the rest shrinks by what was read"""
        rd = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'read']
        if len(rd) != 1:
            return None
        env = o.state.env
        n = rd[0][2][1]
        sz = [(k, v) for k, v in env.items() if v[0] == 'lin' and any(x[0] == 'phi' and x[1] == k for x, q in v[2])]
        return any(same(v, binop('Sub', [x for x, q in v[2] if x[0] == 'phi' and x[1] == k][0], n)) for k, v in sz)
    ob.all("compose", f, [o for o in outs if o.kind == 'backedge'], advance, "progress",
           "the rest does not shrink by what was read", least=1)

    FR = A(SELF, "fragments")

    def first(t):
        """the value of a term in the first round of the loop"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'phi':
            return first(t[3]) if len(t) > 3 and isinstance(t[3], tuple) else t
        if t[0] == 'lin':
            r = C(t[1])
            for k, q in t[2]:
                c, d = lin_parts(first(k))
                r = add(r, lin(c * q, {x: v * q for x, v in d.items()}))
            return r
        return tuple(first(x) if isinstance(x, tuple) else x for x in t)

    def later(t, o):
        """the value of a term in the next round"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'phi':
            return o.state.env.get(t[1], t)
        if t[0] == 'lin':
            r = C(t[1])
            for k, q in t[2]:
                c, d = lin_parts(later(k, o))
                r = add(r, lin(c * q, {x: v * q for x, v in d.items()}))
            return r
        return tuple(later(x, o) if isinstance(x, tuple) else x for x in t)

    def window(o):
        """what is read of a fragment lies in it, at the address asked"""
        rd = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'read']
        if len(rd) != 1 or len(rd[0][2]) != 2:
            return None
        at, n = rd[0][2]
        if n[0] in ('param', 'phi'):
            # nothing keeps it inside the fragment
            return None if any(t[0] == 'lt0' and len(t[2]) > 1 and has(t, n) for t, b in o.conds) else False
        if n[0] != 'call' or n[1] != ('ext', 'builtins.min') or len(n[2]) != 2:
            return None
        res = None
        for left in n[2]:
            a0, l0 = strip_epoch(first(at)), strip_epoch(first(left))
            its = [k for k in lin_parts(a0)[1] if k[0] == 'item' and k[1][0] == 'item' and k[1][1] == FR]
            if not its or any(not any(k[1] == x[1] for x in its) for k in lin_parts(l0)[1] if k[0] == 'item'):
                continue
            x = its[0][1]
            comp = lambda j: ('item', x, C(j), 0)
            if not any(k == comp(2) for k in lin_parts(l0)[1]):
                continue
            ok = a0 == strip_epoch(lin(0, {comp(1): 1, P(f.params[1]): 1, comp(0): -1})) and strip_epoch(
                add(add(a0, l0), lin(0, {comp(1): 1, comp(2): 1}), -1)) == C(0)
            a1, l1 = strip_epoch(later(at, o)), strip_epoch(later(left, o))
            if a1[0] == 'item' and a1[1][0] == 'item' and a1[1][1] == FR:
                y = a1[1]
                ok = ok and a1 == ('item', y, C(1), 0) and l1 == ('item', y, C(2), 0)
                # the fragment behind, each time
                ok = ok and strip_epoch(add(first(y[2]), x[2], -1)) == C(1)
                step = strip_epoch(add(strip_epoch(later(y[2], o)), y[2], -1))
                if ok and step != C(1):
                    ok = False if step[0] == 'const' else None
            res = ok if res is None else res or ok
        return res
    ob.all("compose", f, [o for o in outs if o.kind == 'backedge'], window, "window",
           "what is read of a fragment is not the part of it behind the address asked, up to its end", least=1)
    start = None
    for n in body_nodes(f.node):
        if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] == "lowerBound" and len(n.args) == 2 and \
                isinstance(n.args[1], ast.Lambda) and isinstance(n.args[1].body, ast.Compare) and \
                len(n.args[1].body.ops) == 1 and len(n.args[1].args.args) == 1:
            c = n.args[1].body
            l, r, x = ast.unparse(c.left), ast.unparse(c.comparators[0]), n.args[1].args.args[0].arg
            op = type(c.ops[0]).__name__
            if r == x + "[0]":
                l, r, op = r, l, {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(op, op)
            if l == x + "[0]" and r == f.params[1] and op in ("Lt", "LtE", "Gt", "GtE"):
                start = op == "LtE"
    ob.check("compose", f, start, "start", "a read does not begin in the last fragment which starts at or before its address")

    # -- pipes
    B, LAST, BS = A(SELF, 'buffers'), A(SELF, 'last'), A(SELF, 'buffer_size')
    NB = ('call', ('ext', 'builtins.len'), (B,), (), 0)

    def at(*k):
        t = B
        for x in k:
            t = ('item', t, x, 0)
        return t

    def slots(o, want, attrs):
        """stores into the blocks, and attributes: each has the value it must have; nothing is forgotten"""
        got, calls = {}, False
        for e in o.events:
            if e[0] == 'setitem':
                got[(strip_epoch(e[1]), strip_epoch(e[2]))] = strip_epoch(e[3])
            elif e[0] == 'call' and strip_epoch(e[1])[0] == 'bound':
                calls = True
        for (base, k), v in want.items():
            g = got.pop((strip_epoch(base), strip_epoch(k)), None)
            if g is None:
                if not calls:
                    return False
            elif g != strip_epoch(v):
                return False
        for a, v in attrs.items():
            g = final(o, SELF, a)
            if g is None and not calls or g is not None and not same(g, v):
                return False
        return not got or None

    f = ob.func(M + "InputPipe._get")
    i = P(f.params[1])
    outs = ob.outs(M + "InputPipe._get", exc='none')

    def get(o):
        gone = [b for t, b in o.conds if strip_epoch(t) == ('isnone', at(i))]
        if gone != [False]:
            return o.value[0] == 'const' and gone == [] and any(
                strip_epoch(t) == strip_epoch(lt(i, NB)) and not b for t, b in o.conds) or None
        if not same(o.value, at(i, C(0))):
            return False
        used = [b for t, b in o.conds if strip_epoch(t) == strip_epoch(eq(LAST, i))]
        if used == [True]:
            return True
        if used != [False]:
            return None
        nx, pv, first = at(i, C(1)), at(i, C(2)), at(LAST, C(1))
        return slots(o, {(at(nx), C(2)): pv, (at(pv), C(1)): nx, (at(i), C(1)): first, (at(i), C(2)): LAST,
                         (at(first), C(2)): i, (at(LAST), C(1)): i}, {'last': i})
    ob.all("pipe", f, returns(outs), get, "get", "a block which is read does not become the most recently used", least=2)
    f = ob.func(M + "InputPipe._append")
    outs = ob.outs(M + "InputPipe._append", exc='none')
    data = P(f.params[1])

    def append(o):
        ap = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'append']
        if len(ap) != 1 or strip_epoch(ap[0][2][0])[0] != 'list':
            return None
        blk = strip_epoch(ap[0][2][0])[1]
        one = [b for t, b in o.conds if strip_epoch(t) == ('isnone', LAST)]
        if one == [True]:
            return same(final(o, SELF, 'last') or NONE, C(0)) and blk == (data, C(0), C(0))
        if one != [False]:
            return None
        first = at(LAST, C(1))
        return blk == tuple(strip_epoch(x) for x in (data, first, LAST)) and slots(
            o, {(at(first), C(2)): NB, (at(LAST), C(1)): NB}, {'last': NB})
    ob.all("pipe", f, returns(outs), append, "append", "a new block does not become the most recently used", least=2)
    f = ob.func(M + "InputPipe._flush")
    outs = ob.outs(M + "InputPipe._flush", exc='none')

    def flush(o):
        f0 = [e[2] for e in o.events if e[0] == 'setitem' and strip_epoch(e[1]) == B and e[3] == NONE]
        if len(f0) != 1:
            return None if f0 else False
        f0 = strip_epoch(f0[0])
        old = [b for t, b in o.conds if strip_epoch(t) == strip_epoch(eq(LAST, at(f0, C(2))))]
        if old != [True]:
            return False if old else None
        if below(o, add(lin(0, {f0: 1, A(SELF, 'buffer_nb_min'): 1}), lin(0, {NB: -1}))) is False:
            return False
        return slots(o, {(at(LAST), C(1)): at(f0, C(1)), (at(at(f0, C(1))), C(2)): LAST, (B, f0): NONE}, {})
    ob.all("pipe", f, [o for o in outs if o.kind == 'backedge'], flush, "flush",
           "a block is dropped which is not the least recently used, or is not taken out of the order of use", least=1)
    f = ob.func(M + "InputPipe.read")
    outs = ob.outs(M + "InputPipe.read", exc='none')
    ADR, n = A(SELF, 'address'), P(f.params[1])
    BLK = binop('LShift', C(1), BS)

    def blocks(o):
        v = strip_epoch(o.value)
        rg = [e[1] for e in o.events if e[0] == 'iterate' and strip_epoch(e[1])[0] == 'call' and
              strip_epoch(e[1])[1] == ('ext', 'builtins.range')]
        rg = [strip_epoch(x)[2] for x in rg]
        join = [x for x in rg if len(x) == 2 and x[0] == strip_epoch(binop('FloorDiv', ADR, BLK))
                or len(x) == 2 and x[0] == strip_epoch(binop('RShift', ADR, BS))]
        if len(join) != 1 or v[0] != 'item' or v[2][0] != 'slice':
            return None
        off = strip_epoch(binop('Mod', ADR, BLK))
        lo, hi = v[2][1], v[2][2]
        if lo != off and lo[0] in ('bin', 'const', 'attr') and lo[1:2] != ('BitAnd',):
            return False
        if lo == off and hi != strip_epoch(binop('Add', off, n)):
            return False

        def end(t, least):
            """t is one behind the block of bit end + least"""
            c, d = lin_parts(t)
            if len(d) != 1:
                return None
            k, q = list(d.items())[0]
            if k[0] != 'bin' or k[1] not in ('RShift', 'FloorDiv') or q != 1 or k[3] not in (
                    BS, strip_epoch(BLK)):
                return None
            rest = strip_epoch(add(k[2], lin(0, {ADR: 1, n: 1}), -1))
            if rest[0] != 'const':
                return None
            return c > 1 or c == 1 and rest[1] >= -1
        r = [end(x[1], -1) for x in rg if len(x) == 2]
        return False if False in r else None if None in r else True
    ob.all("pipe", f, returns(outs), blocks, "blocks", "not all the blocks which hold what is asked are joined", least=2)

    def filled(o):
        rd = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'read' and
              strip_epoch(e[1])[1] == A(SELF, '_input')]
        if len(rd) != 1:
            return None
        if not same(rd[0][2][0], BLK):
            return False
        got = ('call', ('ext', 'builtins.len'), (rd[0][4],), (), 0)
        short = [b for t, b in o.conds if strip_epoch(t) == strip_epoch(lt(got, BLK))]
        if short == [False] and any(e[0] == 'store' and e[2] == 'size' for e in o.events):
            return False
        if short == [True]:
            sz = [e[3] for e in o.events if e[0] == 'store' and e[2] == 'size']
            if len(sz) != 1:
                return False if not sz and not any(e[0] == 'call' and strip_epoch(e[1])[0] == 'bound' for e in o.events
                                                   if callee_name(e[1]) not in ('_append', '_get', '_flush')) else None
            return same(sz[0], lin(0, {strip_epoch(binop('LShift', NB, BS)): 1, strip_epoch(got): 1})) or (
                False if strip_epoch(sz[0])[0] in ('lin', 'bin') else None)
        return True if short else None
    ob.all("pipe", f, [o for o in outs if o.kind in ('return', 'backedge')], filled, "fill",
           "the size of the pipe is not what was read when it ended", least=2)

    # -- search
    f = ob.func(M + "InputStream.searchBytes")
    outs = ob.outs(M + "InputStream.searchBytes", exc='none', opaque=('readBytes',), max_states=20000)
    needle = P(f.params[1])
    nlen = ('call', ('ext', 'builtins.len'), (needle,), (), 0)

    def pos(o):
        v = o.value
        if v == NONE:
            return True
        fd = [e[4] for e in o.events if e[0] == 'call' and callee_name(e[1]) in ('find', 'index')]
        if len(fd) != 1 or v[0] != 'lin':
            return False
        buf = fd[0][1][1]
        if fd[0][2] != (needle,):
            return False
        parts = {strip_epoch(k): q for k, q in v[2]}
        if parts.pop(strip_epoch(fd[0]), None) != 8 or parts.pop(
                strip_epoch(('call', ('ext', 'builtins.len'), (buf,), (), 0)), None) != -8 or v[1] != 0:
            return False
        st = [k for k in parts if k[0] == 'phi' and parts[k] == 1]
        if len(st) != 1:
            return False
        parts.pop(st[0])
        # what was read in this round
        rd = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'readBytes']
        if not rd:
            return False
        n = {}
        for t, k in ((strip_epoch(rd[-1][2][1]), 8),):
            if t[0] == 'lin':
                for x, q in t[2]:
                    n[x] = q * k
            else:
                n[t] = k
        if parts == n:
            return True
        # cut to the end address
        return len(parts) == 1 and list(parts.values()) == [8]
    ob.all("search", f, returns(outs), pos, "position", "the answer is not the position of the needle", least=2)

    def found(o):
        if o.value == NONE:
            return True
        fd = [e[4] for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'find']
        return not fd or any(strip_epoch(t) == strip_epoch(lt(fd[0], C(0))) and not b for t, b in o.conds) or any(
            strip_epoch(t) == strip_epoch(eq(fd[0], C(-1))) and not b for t, b in o.conds)
    ob.all("search", f, returns(outs), found, "found", "answers a position although the needle was not found", least=2)

    def overlap(o):
        fd = [e[4] for e in o.events if e[0] == 'call' and callee_name(e[1]) in ('find', 'index')]
        if not fd:
            return None
        sl = find_terms(fd[0][1][1], lambda t: t[0] == 'slice')
        keep = [t for t in sl if t[2] == NONE]
        for t in keep:
            lo = strip_epoch(t[1])
            if lo[0] == 'lin' and any(k == strip_epoch(nlen) and q == -1 for k, q in lo[2]):
                # len(buffer) - len(needle) + 1, or -(len(needle) - 1)
                return lo[1] <= 1
        return None
    ob.all("search", f, [o for o in outs if o.kind in ('return', 'backedge')], overlap, "overlap",
           "a needle across two blocks is lost", least=2)

    def bounded(o):
        if o.kind == 'return' and o.value == NONE:
            return True
        rd = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'readBytes']
        return bool(rd) and all(e[2][0][0] == 'phi' for e in rd)
    ob.all("search", f, [o for o in outs if o.kind in ('return', 'backedge')], bounded, "blocks",
           "a block is not read at the current address", least=2)
    f = ob.func(M + "InputStream.searchBytesLength")
    outs = ob.outs(M + "InputStream.searchBytesLength", exc='none', opaque=('searchBytes',))
    nd = P(f.params[1])
    sb = [e[4] for o in outs for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'searchBytes']

    def length(o):
        e = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'searchBytes']
        if len(e) != 1:
            return False
        e = e[0]
        none = cond(o, lambda t: t[0] == 'isnone' and same(t[1], e[4]))
        if o.value == NONE or same(o.value, e[4]):
            return none is True
        inc = cond(o, lambda t: t == P(f.params[2]))
        base = binop('FloorDiv', binop('Sub', e[4], P(f.params[3])), C(8))
        want = binop('Add', base, ('call', ('ext', 'builtins.len'), (nd,), (), 0)) if inc else base
        return none is False and inc is not None and same(o.value, want)
    ob.all("search", f, returns(outs), length, "length", "the length is not the distance to the needle", least=3)

    # -- file view
    f = ob.func(M + "FileFromInputStream.read")
    outs = ob.outs(M + "FileFromInputStream.read", exc='none', max_states=20000)
    size = P(f.params[1])

    def adv(o):
        rd = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'read' and len(e[2]) == 2]
        if len(rd) != 1 or any(e[0] == 'iter' for e in o.events):
            return None
        v = final(o, SELF, '_offset')
        d = ('item', rd[0][4], C(1), 0)
        if not same(o.value, d):
            return False
        return v is not None and v[0] == 'lin' and any(same(k, ('call', ('ext', 'builtins.len'), (d,), (), 0)) and q == 1
                                                     for k, q in v[2])
    ob.all("file", f, [o for o in returns(outs) if o.value[0] != 'const'], adv, "advance",
           "does not advance by what it read", least=1)

    def units(o):
        for e in o.events:
            if e[0] == 'call' and callee_name(e[1]) == 'read' and len(e[2]) == 2:
                for x in e[2]:
                    if x[0] == 'lin' and (x[1] % 8 or any(q % 8 for k, q in x[2])):
                        return False
                    if x[0] not in ('lin', 'const'):
                        return False
        return True
    ob.all("file", f, outs, units, "units", "bytes are not converted to bits", least=1)

    def clipped(o):
        """when the size is known, never reads past it"""
        known = cond(o, lambda t: strip_epoch(t) == A(SELF, '_size'))
        if known is not True or o.value[0] == 'const':
            return True
        rd = [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == 'read' and len(e[2]) == 2]
        if len(rd) != 1:
            return None
        ps, n = rd[0][2]
        if same(binop('Add', ps, n), lin(0, {A(SELF, '_size'): 8})):
            return True
        end = strip_epoch(binop('Add', ps, n))
        if end[0] != 'lin':
            return False
        e8 = lin(end[1] // 8, {k: q // 8 for k, q in end[2]})
        return any(strip_epoch(t) == strip_epoch(lt(A(SELF, '_size'), e8)) and not b for t, b in
                   [(strip_epoch(t), b) for t, b in o.conds])
    ob.all("file", f, returns(outs), clipped, "clip", "reads past the size of the stream", least=1)
    f = ob.func(M + "FileFromInputStream.seek")
    outs = ob.outs(M + "FileFromInputStream.seek", exc='none')
    ps = P(f.params[1])

    def seek(o):
        w = {}
        for t, b in o.conds:
            t = strip_epoch(t)
            for i in (0, 1, 2):
                if t == strip_epoch(eq(P(f.params[2]), C(i))):
                    w[i] = b
        which = [i for i, b in w.items() if b]
        off, end = final(o, SELF, '_offset'), final(o, SELF, '_from_end')
        if not which:
            return None
        if which[0] == 0:
            return off == ps and end == FALSE
        if which[0] == 1:
            return off is not None and same(off, lin(0, {A(SELF, '_offset'): 1, ps: 1}))
        return off == ps and end == TRUE
    ob.all("file", f, returns(outs), seek, "seek", "the position is not the asked one", least=3)
    f = ob.func(M + "FileFromInputStream._setSize")
    outs = ob.outs(M + "FileFromInputStream._setSize", exc='none')
    ob.all("file", f, returns(outs), lambda o: final(o, SELF, '_size') is not None and (
        final(o, SELF, '_size') in (P('size'), NONE) and cond(o, lambda t: t == ('isnone', P('size'))) is True or same(
            final(o, SELF, '_size'), binop('FloorDiv', P('size'), C(8)))), "size",
        "the size in bytes is not an eighth of the size in bits", least=2)


def _elts(t):
    if t[0] in ('tuple', 'list'):
        return t[1]
    if t[0] == 'const' and isinstance(t[1], tuple):
        return tuple(C(x) for x in t[1])
    return ()


def _filelike(p, f):
    return len(f.params) <= 2 and (f.cls is not None)


def _streamread(p, t, f):
    """X.read(address, size) on a stream, not urwid's Walker.read()"""
    recv = strip_epoch(t[1][1]) if len(t[1]) > 1 and isinstance(t[1][1], tuple) else ()
    txt = show(recv).lower()
    return 'stream' in txt or recv == SELF and f.cls is not None and any(
        getattr(k, "name", "") == "InputStream" for k in p.mro(f.cls))
