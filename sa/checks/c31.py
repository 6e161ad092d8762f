"""Structures take the bits they declare, and fields of whole bytes begin at whole bytes."""
from ..project import ClassInfo
from ..layout import ALL, Layout, WHOLE, core


def run(ctx, rep):
    rep.rule("declared", "the size a structure declares is the number of bits its fields take", 42)
    rep.rule("begin", "a field of whole bytes begins at a multiple of 8 bits, whatever bit fields come before it", 1896)
    rep.rule("seek", "a padding up to a fixed position comes after the fields before it", 0)
    lay = Layout(ctx).run()
    p = ctx.project
    for c in p.classes:
        if not ctx.fields.is_fieldset(c) or core(c.module) or \
                lay.static_set in p.mro(c):
            continue
        s = lay.static(c)
        if s is None:
            continue
        lo, hi, m = lay.content(c)
        if lo > s or hi is not None and (hi < s or lo < hi) or m != ALL and m - {s % 8}:
            rep.violation("declared", "%s.%s" % (c.module.name, c.name), "%s:%d" % (c.module.path, c.node.lineno),
                          "%s: static_size is %s, but the fields take %s" % (c.name, bits(s), span(lo, hi)))
        elif hi is None:
            rep.undecided("declared")
        else:
            rep.passed("declared")
    for c in p.classes:
        # fields which pass their size to the constructor
        if not ctx.fields.is_field(c) or ctx.fields.is_fieldset(c) or core(c.module):
            continue
        owner, init = p.find_attr_owner(c, "__init__")
        s, n = lay.static(c), lay.fixed(owner, init)
        if s is None or n is None:
            continue
        if s == n:
            rep.passed("declared")
            continue
        rep.violation("declared", "%s.%s" % (c.module.name, c.name), "%s:%d" % (c.module.path, c.node.lineno),
                      "%s: static_size is %s, but the constructor makes a field of %s" % (c.name, bits(s), bits(n)))
    for (k, n), (f, e, cl, m) in lay.events.items():
        if not all(lay.bytewise(c) for c in cl):
            continue
        if m == WHOLE:
            rep.passed("begin")
        elif m == ALL or k.module.name in lay.words or not m or not (
                k in lay.clean or isinstance(k, ClassInfo)):
            rep.undecided("begin")
        else:
            where = f.module if f is not None else k.module
            what = f.qual if f is not None else "%s.format: %s" % (k.name, n)
            rep.violation("begin", "%s:%s:%s:%s" % (where.name, k and k.name, what, cl[0].name),
                          "%s:%d" % (where.path, e.lineno),
                          "%s creates a %s %s bits after a whole byte: the bit fields before it do not fill "
                          "whole bytes" % (what, cl[0].name, " or ".join(map(str, sorted(m - WHOLE)))))
    for (k, n), (f, e, pos, lo) in lay.seeks.items():
        if lo <= pos:
            rep.passed("seek")
            continue
        rep.violation("seek", "%s:%s:%d" % (f.module.name, f.qual, pos), "%s:%d" % (f.module.path, e.lineno),
                      "%s seeks to %s, but the fields before take at least %s" % (f.qual, bits(pos), bits(lo)))


def bits(n):
    return "%d bits" % n if n % 8 else "%d bytes" % (n // 8)


def span(lo, hi):
    if lo == hi:
        return bits(lo)
    return "at least " + bits(lo) if hi is None else "%s to %s" % (bits(lo), bits(hi))
