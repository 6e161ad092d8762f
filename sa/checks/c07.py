"""Derived properties of a field never raise and are computed once."""
import ast
from ..oblig import Oblig, SELF, A, C, P, cond, returns, raises, exc_name, final, same, strip_epoch
from ..flow import Flow, callee_name, NONE, show
from ..project import AnalysisBroken, FuncInfo, body_nodes, ClassInfo, External

HOOKS = {
    "createValue": (True, "hachoir.field.field.Field", "value"),
    "createDisplay": (True, "hachoir.field.field.Field", "display"),
    "createRawDisplay": (True, "hachoir.field.field.Field", "raw_display"),
    "createDescription": (True, "hachoir.field.field.Field", "description"),
    "createMimeType": (True, "hachoir.parser.parser.HachoirParser", "mime_type"),
    "createContentSize": (True, "hachoir.parser.parser.HachoirParser", "content_size"),
    "createFilenameSuffix": (True, "hachoir.parser.parser.HachoirParser", "filename_suffix"),
}


def selfcall(t, name):
    return t[0] == 'call' and callee_name(t[1]) == name and len(t[1]) > 1 and t[1][1] == SELF


def getter(p, cls, attr):
    """the function behind a property of the class"""
    return Flow(p).prop_func(cls, attr)


def run(ctx, rep):
    rep.rule("contain", "an exception of the hook never leaves the property", 5)
    rep.rule("once", "the hook runs only when nothing is cached, its result is cached, and the cached result is "
             "what the property answers", 10)
    rep.rule("pure", "no class replaces these properties by something which may raise", 5)
    rep.rule("default", "the answer after a failure has the kind the reader expects (None for value and size, text "
             "for display, description and MIME type)", 2)
    ob = Oblig(ctx, rep)
    p = ctx.project
    getters = []
    for hook, (guard, cname, attr) in HOOKS.items():
        g = getter(p, p.cls(cname), attr)
        if g is None:
            raise AnalysisBroken("%s.%s is not a property" % (cname, attr))
        getters.append((g, hook, guard, p.cls(cname), attr))
    g = getter(p, p.cls("hachoir.parser.parser.HachoirParser"), "description")
    if g is not None and g not in [x[0] for x in getters]:
        getters.append((g, "createDescription", True, p.cls("hachoir.parser.parser.HachoirParser"), "description"))
    for g, hook, guard, cls, attr in getters:
        outs = ob.outs(g, cls, exc='calls')

        def from_hook(exc):
            return exc[0] == 'exc' and exc[1] == '*' and any(selfcall(t, hook) for t in exc[2])
        if not any(e[0] == 'call' and selfcall(e[4], hook) for o in outs for e in o.events):
            ob.check("once", g, False, "hook", "the property %s does not ask %s()" % (attr, hook))
            continue
        if guard:
            ob.all("contain", g, raises(outs), lambda o: not from_hook(o.value), attr,
                   "an exception of %s() leaves the property %s" % (hook, attr), least=0)

        def caches(o):
            ev = o.events
            if not any(e[0] == 'call' and selfcall(e[4], hook) for e in ev):
                # a cached answer: an attribute of self
                return o.value[0] == 'attr' and o.value[1] == SELF
            st = [e for e in ev if e[0] == 'store' and e[1] == SELF]
            return bool(st) and st[-1][3] == o.value
        ob.all("once", g, returns(outs), caches, attr + " cached",
               "the answer is not what was cached", least=2)
        ob.check("once", g, any(not any(e[0] == 'call' and selfcall(e[4], hook) for e in o.events)
                                for o in returns(outs)), attr + " reused", "the cached answer is never used")

        def asked_once(o):
            return len([e for e in o.events if e[0] == 'call' and selfcall(e[4], hook)]) <= 1
        ob.all("once", g, outs, asked_once, attr + " once", "%s() runs twice" % hook)

        def same_slot(o):
            """the slot which is read or tested is the slot which is stored"""
            st = {e[2] for e in o.events if e[0] == 'store' and e[1] == SELF}
            tested = set()
            for t, b in o.conds:
                t = strip_epoch(t)
                if t[0] == 'call' and t[1] == ('ext', 'builtins.hasattr') and t[2][0] == SELF and t[2][1][0] == 'const':
                    tested.add(t[2][1][1])
                elif t[0] == 'isnone' and t[1][0] == 'attr' and t[1][1] == SELF:
                    tested.add(t[1][2])
                elif t[0] == 'attr' and t[1] == SELF:
                    tested.add(t[2])
            for e in o.events:
                if e[0] == 'caught' and e[1][0] == 'exc' and e[1][1] == 'builtins.AttributeError':
                    tested |= {t[2] for t in e[1][2] if t[0] == 'attr' and t[1] == SELF}
            return bool(tested & st) if st else True
        ob.all("once", g, returns(outs), same_slot, attr + " slot",
               "the answer is cached in another slot than the one tested", least=2)
        if guard:
            fails = [o for o in returns(outs) if any(e[0] == 'caught' and from_hook(e[1]) for e in o.events)]
            ob.check("contain", g, bool(fails), attr + " answer", "no answer is given when %s() fails" % hook)

            def kind(o):
                if hook in ("createValue", "createContentSize"):
                    return o.value == NONE
                if hook == "createFilenameSuffix" and o.value == NONE:
                    return True
                return not (o.value == NONE or o.value[0] == 'const' and not isinstance(o.value[1], str))
            ob.all("default", g, fails, kind, attr + " default", "the answer after a failure is of another kind", least=1)

    # overrides
    field = p.cls("hachoir.field.field.Field")
    for c in sorted(p.descendants(field), key=lambda c: c.fullname):
        for hook, (guard, cname, attr) in HOOKS.items():
            if attr not in c.attrs or not guard:
                continue
            v = c.attrs[attr][-1]
            rep.passed("pure", sample="%s.%s" % (c.fullname, attr))
            g = getter(p, c, attr)
            if g is None or g in [x[0] for x in getters]:
                continue
            try:
                outs = ob.outs(g, c, exc='calls')
            except AnalysisBroken:
                rep.undecided("pure")
                continue
            for o in raises(outs):
                if o.value[1] == '*' and any(selfcall(t, h) for t in o.value[2] for h in HOOKS):
                    ob.check("pure", g, False, attr, "replaces the property %s by one which lets an exception of the "
                             "hook escape" % attr, o.node)
                    break
    n = 0
    for c in sorted(list(p.descendants(field)) + [field], key=lambda c: c.fullname):
        for hook in HOOKS:
            if hook in c.attrs:
                n += 1
    rep.passed("pure", n)
