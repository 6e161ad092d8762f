"""The ordered dictionary of fields keeps its three containers in step."""
from ..oblig import Oblig, SELF, A, C, P, cond, returns, raises, exc_name, final, same, strip_epoch, has
from ..flow import callee_name, NONE, lin, lt, eq, binop, show
from ..project import AnalysisBroken

D = "hachoir.core.dict.Dict"
IDX, KEYS, VALS = A(SELF, "_index"), A(SELF, "_key_list"), A(SELF, "_value_list")
LEN = ('call', ('ext', 'builtins.len'), (VALS,), (), 0)
LENS = [('call', ('ext', 'builtins.len'), (x,), (), 0) for x in (VALS, KEYS, IDX, SELF)]


def muts(o):
    """mutations of the three containers, in order: (container, kind, args)"""
    out = []
    for e in o.events:
        if e[0] == 'setitem':
            b = strip_epoch(e[1])
            if b in (IDX, KEYS, VALS):
                out.append((b, 'set', e[2], e[3]))
        elif e[0] == 'delitem':
            b = strip_epoch(e[1])
            if b in (IDX, KEYS, VALS):
                out.append((b, 'del', e[2]))
        elif e[0] == 'call' and len(e[1]) > 1 and isinstance(e[1][1], tuple) and strip_epoch(e[1][1]) in (IDX, KEYS, VALS):
            n = callee_name(e[1])
            if n in ('append', 'insert', 'pop', 'remove', 'clear', 'extend', 'update', 'popitem', 'setdefault',
                     'reverse', 'sort'):
                if n == 'pop':
                    out.append((strip_epoch(e[1][1]), 'del', e[2][0] if e[2] else C(-1)))
                else:
                    out.append((strip_epoch(e[1][1]), n) + tuple(e[2]))
        elif e[0] == 'store' and e[1] == SELF and e[2] in ('_index', '_key_list', '_value_list'):
            out.append((A(SELF, e[2]), 'store', e[3]))
    return out


def on(ms, cont):
    return [m for m in ms if m[0] == cont]


def present(o, key):
    return cond(o, lambda t: t[0] == 'in' and t[1] == key and strip_epoch(t[2]) in (IDX, SELF, KEYS))


def islen(t):
    return strip_epoch(t) in LENS


def is_pos(x, it=None):
    """x is the position of the entry a loop over the positions looks at"""
    if x[0] == 'item' and strip_epoch(x[1]) == IDX:
        x = x[2]
    elif x[0] == 'item':
        x = x[1]
    return x[0] == 'elem' and (it is None or same(x[1], it))


def moves(outs):
    return [o for o in outs if o.kind == 'backedge' and any(
        t[0] == 'lt0' and any(is_pos(x) for x, kk in t[2]) for t, b in o.conds)]


def run(ctx, rep):
    rep.rule("append", "append() refuses a known key and otherwise records key, value and position in all three "
             "containers", 1)
    rep.rule("insert", "insert() refuses a known key or a bad position, moves exactly the positions from there on, and "
             "records key, value and position", 1)
    rep.rule("replace", "replace() changes key and value at the position of the old key in all three containers", 1)
    rep.rule("delete", "deleting removes one entry from all three containers and moves exactly the positions behind it", 1)
    rep.rule("lookup", "lookups go through the recorded position", 2)
    rep.rule("guard", "a refused change changes nothing", 1)
    ob = Oblig(ctx, rep)

    def get(name):
        f = ob.func(D + "." + name)
        return f, ob.outs(D + "." + name, exc='none')

    def untouched(o):
        return not [m for m in muts(o)]
    # append
    f, outs = get("append")
    k, v = P(f.params[1]), P(f.params[2])

    def app(o):
        m = muts(o)
        i, kk, vv = on(m, IDX), on(m, KEYS), on(m, VALS)
        if present(o, k) is not False or len(i) != 1 or len(kk) != 1 or len(vv) != 1:
            return False
        if kk[0][1:] != ('append', k) or vv[0][1:] != ('append', v) or i[0][1] != 'set' or i[0][2] != k:
            return False
        pos = strip_epoch(i[0][3])
        before = m.index(i[0]) < m.index(vv[0])
        if islen(pos):
            # length of a container which has not grown yet
            grown = {strip_epoch(x[0]) for x in m[:m.index(i[0])]}
            base = pos[2][0]
            return (VALS if base == SELF else base) not in grown and base != IDX or base == IDX
        return pos[0] == 'lin' and pos[1] == -1 and len(pos[2]) == 1 and islen(pos[2][0][0]) and not before
    ob.all("append", f, returns(outs), app, "append", "key, value and position are not recorded in step")
    ob.check("append", f, any(exc_name(o) == "UniqKeyError" and present(o, k) is True for o in raises(outs)), "unique",
             "a key already known is not refused")
    ob.all("guard", f, raises(outs), untouched, "append", "a refused append changes the containers")
    # insert
    f, outs = get("insert")
    idx, k, v = P(f.params[1]), P(f.params[2]), P(f.params[3])

    def where(o):
        neg = cond(o, lambda t: strip_epoch(t) == lt(idx, C(0)))
        if neg is None:
            return None
        return [strip_epoch(lin(0, {LEN: 1, idx: 1})), strip_epoch(lin(0, {LENS[3]: 1, idx: 1})),
                strip_epoch(lin(0, {LENS[1]: 1, idx: 1}))] if neg else [idx]

    def ins(o):
        w = where(o)
        m = muts(o)
        i, kk, vv = on(m, IDX), on(m, KEYS), on(m, VALS)
        i = [x for x in i if x[1] == 'set' and x[2] == k]
        if w is None or present(o, k) is not False or len(i) != 1 or len(kk) != 1 or len(vv) != 1:
            return False
        return strip_epoch(i[0][3]) in w and kk[0][1] == 'insert' and strip_epoch(kk[0][2]) in w and kk[0][3] == k \
            and vv[0][1] == 'insert' and strip_epoch(vv[0][2]) in w and vv[0][3] == v
    ob.all("insert", f, returns(outs), ins, "insert", "key, value and position are not recorded in step", least=1)

    def shift(strict, sign):
        def pred(o):
            """backedge of the loop over the positions"""
            w = where(o) or [idx]
            it = [e for e in o.events if e[0] == 'iterate']
            last = it[-1][1] if it else None
            if last is None:
                return None
            el = [t for t, b in o.conds if t[0] in ('lt0', 'eq0') and any(is_pos(x, last) for x, kk in t[2])]
            sets = [m for m in on(muts(o), IDX) if m[1] == 'set' and m[2] not in (k,)]
            sets = [m for m in sets if has(m[2], last) or m[2][0] == 'item']
            if not el:
                # positions recomputed another way
                return None
            t = el[-1]
            b = dict((a, c) for a, c in o.conds)[t]
            pos = [x for x, kk in t[2] if is_pos(x, last)][0]
            # the condition under which this position must move
            want = False
            for x in w:
                c = strip_epoch(lt(x, pos)) if strict else strip_epoch(lt(pos, x))
                if strip_epoch(t) == c:
                    want = b if strict else not b
                    break
            else:
                return False
            if not want:
                return not sets
            if len(sets) != 1:
                return False
            val = sets[0][3]
            return any(same(val, lin(sign, {y: 1})) for y in (pos, ('item', IDX, sets[0][2], 0)))
        return pred
    if any(o.kind == 'backedge' for o in outs) and not moves(outs):
        rep.undecided("insert")
    else:
        ob.all("insert", f, moves(outs), shift(False, 1), "move",
               "not exactly the positions from the new one on are moved up", least=2)
    ob.check("insert", f, any(exc_name(o) == "UniqKeyError" and present(o, k) is True for o in raises(outs)), "unique",
             "a key already known is not refused")
    ob.check("insert", f, any(exc_name(o) == "IndexError" for o in raises(outs)), "range",
             "a position outside the list is not refused")
    ob.all("guard", f, raises(outs), untouched, "insert", "a refused insert changes the containers")
    # replace
    f, outs = get("replace")
    ok, nk, nv = P(f.params[1]), P(f.params[2]), P(f.params[3])
    at = ('item', IDX, ok, 0)

    def rp(o):
        m = muts(o)
        eqk = cond(o, lambda t: strip_epoch(t) in (eq(ok, nk), eq(nk, ok)))
        i, kk, vv = on(m, IDX), on(m, KEYS), on(m, VALS)
        if len(vv) != 1 or vv[0][1] != 'set' or not (same(vv[0][2], at)) or vv[0][3] != nv:
            return False
        if eqk is True:
            return True
        return len(kk) == 1 and kk[0][1] == 'set' and same(kk[0][2], at) and kk[0][3] == nk and len(i) == 2 and any(
            x[1] == 'del' and x[2] == ok for x in i) and any(x[1] == 'set' and x[2] == nk and same(x[3], at) for x in i)
    ob.all("replace", f, returns(outs), rp, "replace", "key, value and position are not replaced in step", least=1)

    def delbefore(o):
        m = on(muts(o), IDX)
        d = [n for n, x in enumerate(m) if x[1] == 'del']
        s = [n for n, x in enumerate(m) if x[1] == 'set']
        eqk = cond(o, lambda t: strip_epoch(t) in (eq(ok, nk), eq(nk, ok)))
        return not (d and s and s[0] < d[0] and eqk is not False)
    ob.all("replace", f, returns(outs), delbefore, "same-key", "replacing under the same key forgets it", least=1)
    # __delitem__
    f, outs = get("__delitem__")
    idx = P(f.params[1])

    def dl(o):
        w = where(o)
        m = muts(o)
        kk, vv = on(m, KEYS), on(m, VALS)
        return w is not None and len(kk) == 1 and len(vv) == 1 and kk[0][1] == 'del' and vv[0][1] == 'del' \
            and strip_epoch(kk[0][2]) in w and strip_epoch(vv[0][2]) in w
    ob.all("delete", f, returns(outs), dl, "delete", "key and value are not deleted at the same position", least=2)
    dels = [o for o in outs if any(m[1] == 'del' and m[0] == IDX for m in muts(o))]

    def which(o):
        w = where(o) or [idx]
        d = [m for m in on(muts(o), IDX) if m[1] == 'del'][0]
        if d[2][0] == 'item' and strip_epoch(d[2][1]) == KEYS and strip_epoch(d[2][2]) in w:
            return True         # del _index[_key_list[index]]
        if d[2][0] == 'item' and d[2][1][0] == 'elem':
            pos = ('item', d[2][1], C(1), d[2][3])
            return any(b and t[0] == 'eq0' and strip_epoch(t) in [strip_epoch(eq(pos, x)) for x in w]
                       for t, b in o.conds)
        if d[2][0] == 'call' and callee_name(d[2][1]) == 'pop':
            return True
        return None
    ob.all("delete", f, dels, which, "position", "the position of another key is forgotten", least=1)

    def rest(o):
        """the positions behind are looked at, besides the search for the one deleted"""
        if o.kind != 'return' or any(e[0] == 'call' and strip_epoch(e[1])[0] == 'bound' for e in o.events):
            return None
        d = [m for m in on(muts(o), IDX) if m[1] == 'del'][0]
        searched = d[2][0] == 'item' and d[2][1][0] == 'elem'
        its = [e for e in o.events if e[0] == 'iterate']
        if any(m[1] in ('store', 'update') for m in on(muts(o), IDX)):
            return True
        return len(its) >= (2 if searched else 1)
    ob.all("delete", f, dels, rest, "rest", "the positions behind the deleted one are left as they were", least=1)

    def unsafe(o):
        """deleting from the dictionary being iterated, then going on"""
        if o.kind != 'backedge':
            return True
        ev = o.events
        its = [n for n, e in enumerate(ev) if e[0] == 'iter']
        if not its:
            return True
        it = [e for e in ev[:its[-1]] if e[0] == 'iterate'][-1][1]
        if not (it[0] == 'call' and callee_name(it[1]) in ('items', 'keys', 'values') or same(it, IDX)):
            return True
        return not any(e[0] == 'delitem' and same(e[1], IDX) for e in ev[its[-1]:])
    ob.all("delete", f, outs, unsafe, "iterate", "deletes from the dictionary it goes on iterating", least=1)
    k = ('none',)
    if any(o.kind == 'backedge' for o in outs) and not moves(outs):
        rep.undecided("delete")
    else:
        ob.all("delete", f, moves(outs), shift(True, -1), "move",
               "not exactly the positions behind the deleted one are moved down", least=2)
    ob.check("delete", f, any(exc_name(o) == "IndexError" for o in raises(outs)), "range",
             "a position outside the list is not refused")
    ob.all("guard", f, raises(outs), untouched, "delete", "a refused deletion changes the containers")
    # lookups
    f, outs = get("__getitem__")
    kk = P(f.params[1])
    ob.all("lookup", f, returns(outs), lambda o: same(o.value, ('item', VALS, ('item', IDX, kk, 0), 0)), "getitem",
           "the value is not the one at the position of the key")
    f, outs = get("__setitem__")
    ob.all("lookup", f, returns(outs), lambda o: [strip_epoch(x) for x in muts(o)] == [
        strip_epoch((VALS, 'set', ('item', IDX, P(f.params[1]), 0), P(f.params[2])))], "setitem",
        "the value is not stored at the position of the key")
    f, outs = get("__contains__")
    ob.all("lookup", f, returns(outs), lambda o: strip_epoch(o.value) in (
        ('in', P(f.params[1]), IDX),) or o.value in (C(True), C(False)) and present(o, P(f.params[1])) is (
        o.value == C(True)), "contains", "membership is not decided by the recorded keys")
    f, outs = get("index")

    def index(o):
        v = strip_epoch(o.value)
        q = P(f.params[1])
        if v == ('item', IDX, q, 0):
            return True
        if v == NONE:
            return True
        return v[0] == 'call' and callee_name(v[1]) == 'get' and strip_epoch(v[1][1]) == IDX and v[2][0] == q and (
            len(v[2]) == 1 or v[2][1] == NONE)
    ob.all("lookup", f, returns(outs), index, "index", "the position is not the recorded one (or None)")
    f, outs = get("__len__")
    ob.all("lookup", f, returns(outs), lambda o: islen(o.value), "len", "the length is not the number of entries")
    f, outs = get("__iter__")
    ob.all("lookup", f, returns(outs), lambda o: o.value[0] == 'call' and callee_name(o.value[1]) in (
        'iter', 'itervalues') and (callee_name(o.value[1]) != 'iter' or strip_epoch(o.value[2][0]) == VALS)
        or any(e[0] == 'iterate' and same(e[1], VALS) for e in o.events), "iter",
        "iterating does not deliver the values in order")
    f = ob.func(D + ".__init__")
    ob.all("lookup", f, returns(ob.outs(D + ".__init__", exc='none')), lambda o: all(
        final(o, SELF, n) is not None for n in ("_index", "_key_list", "_value_list")), "init",
        "a container is not created per dictionary")
