"""A parser is accepted only after its own validation said yes."""
import ast
from ..oblig import Oblig, SELF, A, C, P, cond, returns, raises, calls_named, exc_name, has, same, strip_epoch
from ..flow import show, callee_name, find_terms, TooComplex, NONE
from ..project import FuncInfo, AnalysisBroken
from ..flow import Flow

HP = "hachoir.parser.parser.HachoirParser"
QP = "hachoir.parser.guess.QueryParser"


def run(ctx, rep):
    rep.rule("accept", "the parser constructor returns only with validation off, or after sizeGe(min_size) held and "
             "validate() answered exactly True", 1)
    rep.rule("refuse", "every refusal of the constructor is a ValidateError", 1)
    rep.rule("forward", "a parser class with its own constructor forwards the constructor's options (validate) to "
             "the base constructor", 7)
    rep.rule("search", "the parser search asks each candidate with the search's validate flag, survives any "
             "exception of a candidate, and returns only the object it just built (or the forced fallback)", 2)
    rep.rule("validate-off", "validation is turned off only for a parser named by class or by id", 1)
    rep.rule("answer", "validate() of every parser answers True, False or a message on every path", 66)
    rep.rule("close", "createParser closes the stream when no parser is found", 2)
    ob = Oblig(ctx, rep)
    p = ctx.project

    # constructor
    f = p.func(HP + ".__init__")
    outs = ob.outs(HP + ".__init__")

    def val_cond(t):
        return t[0] == 'call' and callee_name(t[1]) in ('pop', 'get') and C('validate') in t[2]

    def accepted(o):
        v = cond(o, val_cond)
        if v is False:
            return True
        size = cond(o, lambda t: t[0] == 'call' and callee_name(t[1]) == 'sizeGe' and len(t[2]) >= 1
                    and t[2][0][0] == 'item' and t[2][0][2] == C('min_size')
                    and t[2][0][1][0] == 'call' and callee_name(t[2][0][1][1]) == 'getParserTags')
        ok = cond(o, lambda t: t[0] == 'is' and C(True) in t[1:] and any(
            x[0] == 'call' and callee_name(x[1]) == 'validate' for x in t[1:]))
        return size is True and ok is True

    ob.all("accept", f, returns(outs), accepted, "accept",
           "a path accepts the stream without sizeGe(min_size) and validate() is True", least=2)
    ob.check("accept", f, any(cond(o, val_cond) is True for o in returns(outs)), "validates",
             "no path of the constructor validates the stream")
    ob.all("refuse", f, raises(outs), lambda o: exc_name(o) == "ValidateError", "refuse",
           "a refusal raises something else than ValidateError", least=2)

    # constructors of parser classes forward validate
    hp = p.cls(HP)
    for c in sorted(p.descendants(hp), key=lambda c: c.fullname):
        g = c.attrs.get("__init__", [None])[-1]
        if not isinstance(g, FuncInfo):
            continue
        a = g.node.args
        sup = []
        for o in returns(Flow(p, exc='none').run(g, c)):
            fw = False
            for e in o.events:
                if e[0] == 'call' and callee_name(e[1]) == '__init__':
                    if any(k == '**' for k, v in e[3]) or any(k == 'validate' for k, v in e[3]):
                        fw = True
            sup.append(fw)
        names = [x.arg for x in a.args]
        if a.kwarg is None and "validate" not in names:
            ob.check("forward", g, not names[1:] or True, "no-options", "")
            continue
        ob.check("forward", g, bool(sup) and all(sup), "forward",
                 "the constructor accepts options but does not forward them: validation is skipped")

    # search
    f = p.func(QP + ".doparse")
    outs = ob.outs(QP + ".doparse")

    def built(t):
        return t[0] == 'call' and t[1][0] == 'elem' and same(t[1][1], A(SELF, 'parsers'))

    def returned(o):
        if o.value == NONE:
            return True
        if built(o.value):
            kw = dict(o.value[3])
            return same(kw.get('validate', C(None)), A(SELF, 'validate'))
        uf = cond(o, lambda t: strip_epoch(t) == A(SELF, 'use_fallback'))
        return uf is True and o.value[0] == 'call'
    ob.all("search", f, returns(outs), returned, "result",
           "the search returns something else than the parser just validated", least=2)
    ob.check("search", f, any(built(o.value) for o in returns(outs)), "first-accepted",
             "no path returns the accepted parser")
    ob.check("search", f, any(o.value == NONE for o in returns(outs)), "none-found",
             "no path reports that no parser was found")
    ob.check("search", f, not any(
        o.kind == 'raise' and o.value[1] == '*' and any(
            x[0] == 'call' and x[1][0] == 'elem' for x in o.value[2]) for o in outs),
        "contained", "an exception of a candidate parser escapes the search")
    its = [e for o in outs for e in o.events if e[0] == 'iterate']
    ob.check("search", f, any(strip_epoch(e[1]) == A(SELF, 'parsers') for e in its), "order",
             "the candidates are not tried in the order of the search result")
    f = p.func(QP + ".parse")
    outs = ob.outs(QP + ".parse", exc='none')
    ob.all("search", f, returns(outs), lambda o: o.value == NONE or (
        o.value[0] == 'call' and (callee_name(o.value[1]) == 'doparse' or cond(
            o, lambda t: t[0] == 'in' and has(t[2], A(SELF, 'parsers'))) is True)),
        "cached", "a parser cached on the stream is returned although the search does not allow its class", least=2)

    # validation off only for explicit class or id
    n = 0
    for name in ("__init__", "_getByTag", "parse", "doparse", "translate"):
        f = p.func(QP + "." + name)
        for o in ob.outs(QP + "." + name, exc='none'):
            for i, e in enumerate(o.events):
                if e[0] == 'store' and e[2] == 'validate' and e[1] == SELF:
                    n += 1
                    if e[3] == C(True):
                        continue
                    why = [t for t, b in o.conds if b and t[0] == 'eq' and (C('class') in t or C('id') in t)]
                    ob.check("validate-off", f, bool(why), "validate-off",
                             "validation is turned off for a search which names neither a class nor an id", e[4])
    if not n:
        raise AnalysisBroken("QueryParser never sets validate")
    for o in ob.outs(QP + ".__init__", exc='none'):
        st = [e for e in o.stores('validate')]
        ob.check("validate-off", p.func(QP + ".__init__"), bool(st) and st[0][3] == C(True), "default",
                 "a search does not validate by default")

    # answers
    seen = set()
    for c in [hp] + sorted(p.descendants(hp), key=lambda c: c.fullname):
        g = c.attrs.get("validate", [None])[-1]
        if not isinstance(g, FuncInfo) or g in seen:
            continue
        seen.add(g)
        try:
            outs = Flow(p, exc='none', max_states=1500).run(g, c)
        except TooComplex:
            rep.undecided("answer")
            continue
        bad = None
        for o in returns(outs):
            v = o.value
            if v == NONE or v[0] == 'const' and not isinstance(v[1], (bool, str)) or v[0] in ('tuple', 'list', 'lin'):
                bad = o
        ob.check("answer", g, bad is None, "answer",
                 "answers %s: the parser search takes it for a refusal without reason" % (
                     show(bad.value) if bad else ""), bad.node if bad else None)
        if c is not hp and len(returns(outs)) > 1:
            pos = [o for o in returns(outs) if o.value == C(True) or o.value[0] != 'const']
            ob.check("answer", g, bool(pos), "can-accept", "no path accepts any stream")

    # createParser
    f = p.func("hachoir.parser.guess.createParser")
    outs = ob.outs("hachoir.parser.guess.createParser", exc='none')

    def closed(o):
        fis = calls_named(o, "FileInputStream")
        if not fis:
            return True
        stream = fis[0][4]
        none = cond(o, lambda t: t[0] == 'isnone' and t[1][0] == 'call' and callee_name(t[1][1]) in (
            'guessParser', 'parse'))
        if none is None and o.value != NONE:
            none = cond(o, lambda t: t[0] == 'call' and callee_name(t[1]) in ('guessParser', 'parse'))
            none = None if none is None else not none
        cl = [e for e in calls_named(o, 'close') if same(e[1][1], stream)]
        if none is True or o.value == NONE:
            return bool(cl)
        if none is False:
            return not cl
        return None if cl else False
    ob.all("close", f, returns(outs), closed, "close", "the stream stays open although no parser was found "
           "(or is closed although a parser uses it)", least=1)
    ob.all("close", f, returns(outs), lambda o: o.value == NONE or o.value[0] == 'call' and callee_name(o.value[1]) in (
        'guessParser', 'parse'), "result", "the result is not the parser which was found", least=1)
