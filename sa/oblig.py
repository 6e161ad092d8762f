"""Helpers to state obligations on the outcomes of core functions."""
from .flow import Flow, TooComplex, show, contains, find_terms, callee_name, NONE, TRUE, FALSE, lin_parts, is_num
from .project import AnalysisBroken, ClassInfo, FuncInfo

SELF = ('param', 'self')


def A(base, *names):
    """attribute term base.n1.n2 (epoch 0)"""
    for n in names:
        base = ('attr', base, n, 0)
    return base


def P(name):
    return ('param', name)


def C(v):
    return ('const', v)


def strip_epoch(t):
    """the term with all heap epochs and call counters erased"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'attr' and len(t) == 4:
        return ('attr', strip_epoch(t[1]), t[2], 0)
    if t[0] == 'item' and len(t) == 4:
        return ('item', strip_epoch(t[1]), strip_epoch(t[2]), 0)
    if t[0] == 'call' and len(t) == 5:
        return ('call', strip_epoch(t[1]), strip_epoch(t[2]), strip_epoch(t[3]), 0)
    if t[0] in ('lin', 'lt0', 'eq0'):
        d = {}
        for k, v in t[2]:
            k = strip_epoch(k)
            d[k] = d.get(k, 0) + v
        return (t[0], t[1], tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))
    return tuple(strip_epoch(x) if isinstance(x, tuple) else x for x in t)


def same(a, b):
    return a == b or strip_epoch(a) == strip_epoch(b)


def has(t, sub):
    return contains(strip_epoch(t), strip_epoch(sub))


class Oblig:
    def __init__(self, ctx, rep):
        self.ctx = ctx
        self.p = ctx.project
        self.rep = rep

    def func(self, name):
        return self.p.func(name)

    def outs(self, name, cls=None, **k):
        f = name if isinstance(name, FuncInfo) else self.p.func(name)
        c = self.p.cls(cls) if isinstance(cls, str) else cls
        key = ("flow", f, c, tuple(sorted((a, tuple(sorted(b)) if isinstance(b, (set, list, tuple)) else b)
                                          for a, b in k.items())))
        if key not in self.ctx.cache:
            fl = Flow(self.p, **k)
            try:
                self.ctx.cache[key] = fl.run(f, c)
            except TooComplex as e:
                raise AnalysisBroken("%s: %s" % (f.qual, e))
        return self.ctx.cache[key]

    def check(self, rule, f, ok, what, msg, node=None):
        """one obligation on function f"""
        if isinstance(f, str):
            f = self.p.func(f)
        if ok is None:
            self.rep.undecided(rule)
        elif ok:
            self.rep.passed(rule, sample="%s: %s" % (f.where, what))
        else:
            self.rep.violation(rule, "%s:%s:%s" % (f.module.name, f.qual, what),
                               "%s:%d" % (f.module.path, getattr(node, "lineno", 0) or f.node.lineno),
                               "%s: %s" % (f.qual, msg))

    def all(self, rule, f, outs, pred, what, msg, least=1):
        """pred holds for every outcome of the (non-empty) list"""
        if isinstance(f, str):
            f = self.p.func(f)
        bad = None
        for o in outs:
            r = pred(o)
            if r is not None and not r:
                bad = o
                break
        if len(outs) < least:
            self.check(rule, f, False, what, msg + " (no such path)")
        elif bad is not None:
            self.check(rule, f, False, what, msg + " [path: %s]" % self.path(bad), bad.node)
        else:
            self.check(rule, f, True, what, msg)

    def path(self, o):
        return " and ".join(("" if b else "not ") + "(%s)" % show(t) for t, b in o.conds)[:300] or "always"


def cond(o, pred):
    """polarity of the first condition satisfying pred, else None"""
    for t, b in o.conds:
        if pred(t):
            return b
    return None


def below(o, t):
    """the path knows that the term is < 0 (by one condition); None if no condition is about it"""
    t = strip_epoch(t)
    if t[0] == 'const':
        return t[1] < 0
    c0, parts = lin_parts(t)
    about = None
    for x, b in o.conds:
        x = strip_epoch(x)
        if x[0] not in ('lt0', 'eq0'):
            continue
        d = dict(x[2])
        if d == parts:
            sg = 1
        elif d == {k: -v for k, v in parts.items()}:
            sg = -1
        else:
            continue
        about = about or False
        c = x[1] * sg
        # sg * (c + parts) : the condition, in terms of parts
        if x[0] == 'eq0':
            # parts == -c
            if b and c0 - c < 0:
                return True
        elif (sg == 1) == b:
            # sg 1, true: c + parts <= -1; sg -1, false: -(c + parts) >= 0: c + parts <= 0
            top = -1 - c if b else -c
            if c0 + top < 0:
                return True
    return about


def returns(outs):
    return [o for o in outs if o.kind == 'return']


def raises(outs):
    return [o for o in outs if o.kind == 'raise']


def calls_named(o, name):
    return [e for e in o.events if e[0] == 'call' and callee_name(e[1]) == name]


def exc_name(o):
    c = o.value[1]
    return c.name if isinstance(c, ClassInfo) else str(c).rsplit(".", 1)[-1]


def final(o, base, attr):
    """last value stored in base.attr on the path, None if never stored"""
    v = None
    for e in o.events:
        if e[0] == 'store' and e[2] == attr and same(e[1], base):
            v = e[3]
        elif e[0] == 'delattr' and e[2] == attr and same(e[1], base):
            v = None
    return v
