"""A field's value is what its own bits mean: where it is read, how it is converted, what adapters may change."""
import ast
import codecs
import re
from fractions import Fraction

from ..oblig import Oblig, SELF, A, C, P, returns, final, same, strip_epoch, has, calls_named
from ..flow import Flow, TooComplex, callee_name, lin_parts, find_terms, show, contains, binop
from ..project import AnalysisBroken, ClassInfo, External, FuncInfo, ValueBinding
from ..const import Const, Ref, Unknown

F = "hachoir.field."
T = "hachoir.core.tools."
B = "hachoir.core.bits."
STREAM = A(SELF, "_parent", "stream")
ADDR = A(SELF, "absolute_address")
SIZE = A(SELF, "_size")
ENDIAN = A(SELF, "_parent", "endian")
BIG, LITTLE, MIDDLE = 'ABCD', 'DCBA', 'BADC'
SIG = {"readBits": ("address", "nbits", "endian"),
       "readInteger": ("address", "signed", "nbits", "endian"),
       "readBytes": ("address", "nb_bytes"),
       "searchBytesLength": ("needle", "include_needle", "start_address", "end_address"),
       "searchBytes": ("needle", "start_address", "end_address")}
ALIAS = {"parent": "_parent", "size": "_size", "_getAbsoluteAddress": "absolute_address"}


def norm(t):
    """aliases of the same attribute of a field have one spelling; epochs and counters are erased"""
    def go(t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'attr' and len(t) == 4:
            b, n = go(t[1]), t[2]
            if b == SELF:
                n = ALIAS.get(n, n)
                if n == "stream":
                    return STREAM
            return ('attr', b, n, 0)
        if t[0] in ('lin', 'lt0', 'eq0'):
            d = {}
            for k, v in t[2]:
                k = go(k)
                d[k] = d.get(k, 0) + v
            return (t[0], t[1], tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))
        return tuple(go(x) if isinstance(x, tuple) else x for x in t)
    return go(strip_epoch(t))


def call_args(t):
    """{parameter: term} of a call of a stream method, None if it is not one"""
    if not (isinstance(t, tuple) and t and t[0] == 'call'):
        return None
    n = callee_name(t[1])
    if n not in SIG:
        return None
    d = dict(zip(SIG[n], t[2]))
    for k, v in t[3]:
        d[k] = v
    return n, d


def recv(t):
    """the object whose method is called"""
    c = t[1]
    if c[0] in ('attr', 'bound') and len(c) > 1:
        return c[1]
    return None


def reads_of(t):
    return [x for x in find_terms(t, lambda x: call_args(x) is not None)]


def calls_in(o):
    return [norm(e[4]) for e in o.events if e[0] == 'call' and call_args(norm(e[4])) is not None]


def is_read(t, kind, size, signed=None):
    """the term reads the field's own bits. None if it is not a read of the stream of the parent at all"""
    t = norm(t)
    r = call_args(t)
    if r is None:
        return None
    n, d = r
    if n not in kind:
        return None
    if norm(recv(t) or ()) != STREAM:
        return None
    if d.get("address") != ADDR:
        return False
    if "nbits" in d and d["nbits"] not in size:
        return False
    if n == "readBytes" and d.get("nb_bytes") not in size:
        return False
    if "endian" in SIG[n] and d.get("endian") not in (ENDIAN, A(SELF, "endian")):
        return False
    if n == "readInteger" and signed is not None and d.get("signed") not in signed:
        return False
    return True


def run(ctx, rep):
    rep.rule("own", "a value is read at the field's own address, over its size, in the endian of its parent", 6)
    rep.rule("signed", "an integer is signed as it was declared", 1)
    rep.rule("name", "a type of fixed size covers and means what its name says", 20)
    rep.rule("float", "a float is sign, exponent and mantissa of the format, wherever they are", 4)
    rep.rule("time", "a date is its epoch plus the value in the unit of the format", 6)
    rep.rule("long", "bytes become a number in the given order", 1)
    rep.rule("text", "content, prefix and suffix of a string tile it, and only the content is decoded", 3)
    rep.rule("charset", "the tables of charsets agree with the charsets", 20)
    rep.rule("display", "adapters of the display leave the value alone", 3)
    rep.rule("vector", "a vector has the asked number of items of the asked class", 2)
    ob = Oblig(ctx, rep)
    own(ob)
    factories(ob, ctx)
    floats(ob)
    times(ob)
    numbers(ob)
    strings(ob)
    tables(ob)
    display(ob)
    vectors(ob)


# -- own bits --------------------------------------------------------------------

INL = ("createValue",)
BYTES = (binop('FloorDiv', SIZE, C(8)), binop('Mult', SIZE, C(0.125)))
EIGHT = (C(8), SIZE, A(SELF, "static_size"))


def values(ob, name, inline=INL):
    return returns(ob.outs(name, exc='none', inline=inline))


def every(ob, rule, f, outs, pred, what, msg):
    """pred on every outcome; None of one outcome makes the obligation undecided unless another is refuted"""
    bad, unknown = None, not outs
    for o in outs:
        r = pred(o)
        if r is False:
            bad = o
            break
        if r is None:
            unknown = True
    if isinstance(f, str):
        f = ob.func(f)
    if bad is not None:
        ob.check(rule, f, False, what, "%s [value: %s; path: %s]" % (
            msg, show(bad.value)[:120] if bad.value else "", ob.path(bad)), bad.node)
    else:
        ob.check(rule, f, None if unknown else True, what, msg)


def some_read(kind, size, signed=None, wrap=None):
    """the value is that read (through wrap); a value with other reads of the stream is wrong, without is unknown"""
    def pred(o):
        t = norm(o.value)
        u = wrap(t) if wrap else t
        if u is False:
            return False
        if u is not None:
            r = is_read(u, kind, size, signed)
            if r is not None:
                return r
        rs = reads_of(t)
        if rs:
            if any(is_read(x, kind, size, signed) is False for x in rs):
                return False
            return False if u is not None or wrap is None else None
        return None
    return pred


def is_one(t):
    """x of `x == 1`, `bool(x)` or `x != 0`"""
    if t[0] == 'eq0' and t[1] in (-1, 1) and len(t[2]) == 1:
        return t[2][0][0]
    if t[0] == 'not' and t[1][0] == 'eq0' and t[1][1] == 0 and len(t[1][2]) == 1:
        return t[1][2][0][0]
    if t[0] == 'eq0' and t[1] == 0 and len(t[2]) == 1:
        return False
    if t[0] == 'not' and t[1][0] == 'eq0' and t[1][1] in (-1, 1):
        return False
    if t[0] == 'call' and t[1] == ('ext', 'builtins.bool') and len(t[2]) == 1:
        return t[2][0]
    return None


def is_chr(t):
    if t[0] == 'call' and t[1] == ('ext', 'builtins.chr') and len(t[2]) == 1:
        return t[2][0]
    return None


def own(ob):
    n = F + "bit_field.RawBits.createValue"
    every(ob, "own", n, values(ob, n), some_read(("readBits",), (SIZE,)), "bits",
          "the value of a bit field is not read from its own bits")
    n = F + "bit_field.Bit.createValue"
    every(ob, "own", n, values(ob, n), some_read(("readBits",), (SIZE, C(1)), wrap=is_one), "bit",
          "the value of a bit is not that its own bit is set")
    n = F + "integer.GenericInteger.createValue"
    sg = A(SELF, "signed")
    every(ob, "own", n, values(ob, n), some_read(("readInteger",), (SIZE,), (sg,)), "integer",
          "the value of an integer is not read from its own bits, with its own sign")
    n = F + "byte_field.RawBytes.createValue"
    every(ob, "own", n, values(ob, n), some_read(("readBytes",), BYTES), "bytes",
          "the value of bytes is not read from its own bytes")
    n = F + "character.Character.createValue"
    every(ob, "own", n, values(ob, n), some_read(("readBits", "readInteger"), EIGHT, (C(False),), wrap=is_chr), "char",
          "the value of a character is not read from its own byte")

    # the sign and the size are those declared
    n = F + "integer.GenericInteger.__init__"
    f = ob.func(n)
    outs = returns(ob.outs(n, exc='none'))
    every(ob, "signed", f, outs, lambda o: (final(o, SELF, "signed") == P("signed")
                                            if final(o, SELF, "signed") is not None else False), "signed",
          "the sign declared is not the one kept")
    base_size(ob, n, "size", P("size"))
    base_size(ob, F + "byte_field.RawBytes.__init__", "size", ('lin', 0, ((P("length"), 8),)))
    base_size(ob, F + "bit_field.RawBits.__init__", "size", P("size"))
    base_size(ob, F + "padding.PaddingBits.__init__", "size", P("nbits"))
    base_size(ob, F + "padding.NullBits.__init__", "size", P("nbits"))
    for name in ("padding.PaddingBytes", "padding.NullBytes", "string_field.String"):
        base_size(ob, F + name + ".__init__", "size", ('lin', 0, ((P("nbytes"), 8),)))
    base_size(ob, F + "bit_field.Bit.__init__", "size", C(1))
    base_size(ob, F + "float.FloatExponent.__init__", "size", P("size"))
    base_size(ob, F + "timestamp.GenericTimestamp.__init__", "size", P("size"))


def base_init(ob, o):
    """(class, {parameter: term}) of the base constructors called on the path"""
    r = []
    for e in o.events:
        if e[0] != 'call' or callee_name(e[1]) != '__init__':
            continue
        t = e[4]
        f = t[1][2] if t[1][0] == 'bound' else t[1][1] if t[1][0] == 'fn' else None
        if not isinstance(f, FuncInfo):
            continue
        pos = list(t[2])
        if t[1][0] == 'bound':
            pos = [t[1][1]] + pos
        names = list(f.params)
        if f.cls is not None and f.cls.name == "FieldSet":
            names = ["self", "parent", "name", "description", "size"]
        d = dict(zip(names, pos))
        d.update(t[3])
        r.append((f, d))
    return r


def base_size(ob, n, pname, want):
    f = ob.func(n)

    def pred(o):
        fin = final(o, SELF, "_size")
        if fin is not None:
            return norm(fin) == want
        for g, d in base_init(ob, o):
            for k in ("size", "nbits"):
                if k in d:
                    return norm(d[k]) == want
            for k in ("length", "nbytes"):
                if k in d:
                    return norm(binop('Mult', d[k], C(8))) == want
        return None
    every(ob, "own", f, returns(ob.outs(n, exc='none')), pred, "size",
          "the size of the field is not the one asked for")


# -- factories -------------------------------------------------------------------

def evaluate(e, env):
    """a constant expression of the parameters of a factory"""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name) and e.id in env:
        return env[e.id]
    if isinstance(e, ast.BinOp):
        a, b = evaluate(e.left, env), evaluate(e.right, env)
        ops = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b,
               ast.Pow: lambda: a ** b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b}
        if type(e.op) in ops and all(isinstance(x, (int, float)) for x in (a, b)):
            return ops[type(e.op)]()
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return not evaluate(e.operand, env)
    raise Unknown("expr")


def free(t):
    """name of a variable of an enclosing function"""
    if t[0] == 'global':
        return t[1]
    if t[0] == 'ext' and t[1].startswith("builtins."):
        return t[1][9:]
    return None


def ev(t, env):
    """value of a term under the bindings of the factory"""
    try:
        return ev1(t, env)
    except (TypeError, OverflowError, ZeroDivisionError, RecursionError):
        raise Unknown("type")


def ev1(t, env):
    if t[0] == 'const':
        return t[1]
    n = free(t)
    if n is not None and n in env:
        return env[n]
    if t[0] == 'lin':
        return t[1] + sum(ev(k, env) * v for k, v in t[2])
    if t[0] == 'bin' and len(t) == 4:
        a, b = ev(t[2], env), ev(t[3], env)
        ops = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'FloorDiv': lambda: a // b,
               'Pow': lambda: a ** b, 'Mod': lambda: a % b, 'Div': lambda: a / b}
        try:
            return ops[t[1]]()
        except (KeyError, TypeError, ZeroDivisionError):
            raise Unknown("bin")
    if t[0] == 'lt0':
        return t[1] + sum(ev(k, env) * v for k, v in t[2]) < 0
    if t[0] == 'eq0':
        return t[1] + sum(ev(k, env) * v for k, v in t[2]) == 0
    if t[0] == 'not':
        return not ev(t[1], env)
    raise Unknown("term")


def instances(ob, modname):
    """(name, factory, {parameter: value}, node, inner class) of the types made by factories of a module"""
    m = ob.p.modules.get(modname)
    if m is None:
        raise AnalysisBroken("module %s not found" % modname)
    const = Const(ob.p)
    for name, bs in sorted(m.bindings.items()):
        for b in bs if isinstance(bs, (list, tuple)) else [bs]:
            e = getattr(b, "expr", None)
            if not isinstance(e, ast.Call):
                continue
            fac = ob.p.resolve_expr(m, e.func)
            if not isinstance(fac, FuncInfo) or fac.module is not m:
                continue
            env = {}
            ok = True
            pairs = list(zip(fac.params, e.args)) + [(k.arg, k.value) for k in e.keywords]
            for k, v in pairs:
                try:
                    env[k] = const.value(m, v, None)
                    if isinstance(env[k], Ref):
                        env[k] = env[k].ent
                except Unknown:
                    r = ob.p.resolve_expr(m, v)
                    if r is None:
                        ok = False
                    env[k] = r
            if not ok:
                continue
            for st in fac.node.body:
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    try:
                        env[st.targets[0].id] = evaluate(st.value, env)
                    except Unknown:
                        env.pop(st.targets[0].id, None)
            inner = [c for c in m.classes if c.qual.startswith(fac.qual + ".<locals>.")]
            yield name, fac, env, e, inner[0] if len(inner) == 1 else None


def inner_method(ob, c, name):
    f = c.attrs.get(name) if hasattr(c, "attrs") else None
    for g in c.module.functions:
        if g.cls is c and g.name == name:
            f = g
    return f if isinstance(f, FuncInfo) else None


def want_of(name):
    """what the name of a type announces"""
    m = re.match(r"^(U?)Int(\d+)$", name)
    if m:
        return {"size": int(m.group(2)), "signed": not m.group(1)}
    m = re.match(r"^Float(\d+)$", name)
    if m:
        return {"size": int(m.group(1))}
    m = re.match(r"^Time(?:stamp|delta)\D+(\d+)$", name)
    if m:
        return {"size": int(m.group(1))}
    m = re.match(r"^PascalString(\d+)$", name)
    if m:
        return {"format": "Pascal" + m.group(1)}
    if name == "CString":
        return {"format": "C"}
    if name == "UnixLine":
        return {"format": "UnixLine"}
    return None


def factories(ob, ctx):
    for modname in ("integer", "float", "timestamp", "string_field"):
        for name, fac, env, node, c in instances(ob, F + modname):
            want = want_of(name)
            if want is None or c is None:
                ob.rep.undecided("name")
                continue
            # the name shown is the name bound
            shown = [v for v in env.values() if isinstance(v, str) and v in EVERY]
            if shown:
                say(ob, name in shown, fac, node, name, "name", "the type bound to %s calls itself %s" % (
                    name, shown[0]))
            init = inner_method(ob, c, "__init__")
            if init is None:
                ob.rep.undecided("name")
                continue
            try:
                outs = returns(Flow(ob.p, exc='none').run(init, c))
            except TooComplex:
                ob.rep.undecided("name")
                continue
            got = {}
            for o in outs:
                for f, d in base_init(ob, o):
                    for k, p in (("size", "size"), ("signed", "signed"), ("format", "format")):
                        if p in d:
                            try:
                                got.setdefault(k, set()).add(ev(d[p], env))
                            except Unknown:
                                got.setdefault(k, set()).add(None)
            for k, w in sorted(want.items()):
                g = got.get(k)
                if not g or None in g:
                    ob.rep.undecided("name")
                    continue
                say(ob, g == {w} and all(type(x) is type(w) for x in g), fac, node, name, k,
                    "%s is made with %s %s, its name says %s" % (name, k, sorted(map(repr, g))[0], w))
            st = static_size(c, env)
            if st is not None and "size" in want:
                say(ob, st == want["size"], fac, node, name, "static_size",
                    "%s announces the static size %s, its name says %s" % (name, st, want["size"]))
    for name in ("TimedeltaWin64", "TimedeltaMillisWin64"):
        n = F + "timestamp." + name + ".__init__"
        base_size(ob, n, "size", C(64))
    for name, size in (("TimeDateMSDOS32", 32), ("Bit", 1), ("Character", 8)):
        c = ob.p.cls(F + {"Bit": "bit_field.", "Character": "character."}.get(name, "timestamp.") + name)
        st = static_size(c, {})
        if st is None:
            ob.rep.undecided("name")
        else:
            ob.check("name", next(iter(g for g in c.module.functions if g.cls is c)), st == size, name + " static size",
                     "the static size of %s is %s" % (name, st))


EVERY = {"%sInt%d" % (u, n) for u in ("U", "") for n in (8, 16, 24, 32, 64, 128)}
EVERY |= {"Float32", "Float64", "Float80", "Float16", "CString", "UnixLine", "PascalString8", "PascalString16",
          "PascalString32", "TimestampUnix32", "TimestampUnix64", "TimestampMac32", "TimestampUUID60",
          "TimestampWin64"}


def say(ob, ok, fac, node, name, what, msg):
    ob.check("name", fac, ok, "%s %s" % (name, what), msg, node)


def static_size(c, env):
    for st in c.node.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "static_size" for t in st.targets):
            try:
                return evaluate(st.value, env)
            except Unknown:
                return None
    return None


# -- floats ----------------------------------------------------------------------

IEEE = {16: (10, 5, "e"), 32: (23, 8, "f"), 64: (52, 11, "d"), 80: (64, 15, None)}


def floats(ob):
    n = F + "float.FloatMantissa.createValue"
    every(ob, "float", n, values(ob, n), mantissa, "mantissa", "the mantissa is not 1 + bits / 2**size")
    n = F + "float.FloatExponent.createValue"
    every(ob, "float", n, values(ob, n), exponent, "exponent", "the exponent is not its bits minus the bias")
    n = F + "float.FloatExponent.__init__"

    def bias(o):
        v = final(o, SELF, "bias")
        if v is None:
            return None
        try:
            return all(ev_size(v, k) == 2 ** (k - 1) - 1 for k in (5, 8, 11, 15))
        except Unknown:
            return None
    every(ob, "float", n, returns(ob.outs(n, exc='none')), bias, "bias", "the bias is not 2**(size-1) - 1")
    for name, fac, env, node, c in instances(ob, F + "float"):
        w = want_of(name)
        if not w or c is None or w["size"] not in IEEE:
            continue
        man, exp, letter = IEEE[w["size"]]
        init, fields, value = (inner_method(ob, c, k) for k in ("__init__", "createFields", "createValue"))
        if init is None or fields is None or value is None:
            ob.rep.undecided("float")
            continue

        # the layout
        def layout(o):
            lay = []
            for e in o.events:
                if e[0] == 'yield':
                    t = e[1]
                    if t[0] != 'new' or len(t[2]) < 2 or t[2][1][0] != 'const':
                        return None
                    nm = t[2][1][1]
                    if nm in ("negative", "one"):
                        lay.append((nm, 1))
                    elif len(t[2]) > 2:
                        lay.append((nm, ev(t[2][2], env)))
                    else:
                        return None
            want = [("negative", 1), ("exponent", exp)]
            want += [("one", 1), ("mantissa", man - 1)] if man >= 64 else [("mantissa", man)]
            little = None
            for t, b in o.conds:
                t = norm(t)
                if t[0] == 'eq' and len(t) == 3 and (C(BIG) in t[1:] or C(LITTLE) in t[1:]):
                    if any(x in (ENDIAN, A(SELF, "endian")) for x in t[1:]):
                        little = b if C(LITTLE) in t[1:] else not b
                else:
                    try:
                        if bool(ev(t, env)) != b:
                            return True         # not a path of this type
                    except Unknown:
                        pass
            if little:
                want = want[::-1]
            if lay == want:
                return True if little is not None else False
            return False if sorted(lay) != sorted(want) or lay not in (want, want[::-1]) or little is not None else False
        try:
            outs = returns(Flow(ob.p, exc='none').run(fields, c))
            every(ob, "float", fields, outs, layout, name + " layout",
                  "%s is not made of the sign, the exponent (%d bits) and the mantissa (%d bits), from the high bits "
                  "of the number to the low ones in big endian and back in little endian" % (name, exp, man))
        except (TooComplex, Unknown):
            ob.rep.undecided("float")

        # the struct format
        if "format" in env:
            say2(ob, "float", env["format"] == letter or not env["format"], fac, node, name + " format",
                 "%s is unpacked by the struct format %r" % (name, env["format"]))

            def fmt(o):
                for t, b in o.conds:
                    try:
                        if bool(ev(t, env)) != b:
                            return True
                    except Unknown:
                        pass
                v = final(o, SELF, "struct_format")
                if v is None:
                    return None
                if not env["format"]:
                    return True if v == ('const', None) else None
                try:
                    s = ev(v, env)
                except Unknown:
                    return None
                big = None
                for t, b in o.conds:
                    t = norm(t)
                    if t[0] == 'eq' and (C(BIG) in t[1:] or C(LITTLE) in t[1:]):
                        if not any(x in (ENDIAN, A(P("parent"), "endian"), A(SELF, "endian")) for x in t[1:]):
                            if any(x[0] == 'attr' and x[2] == "endian" for x in t[1:]):
                                return False
                            continue
                        if C(BIG) in t[1:]:
                            big = b
                        elif C(LITTLE) in t[1:]:
                            big = not b
                if big is None:
                    return None
                return s == (">" if big else "<") + letter
            try:
                every(ob, "float", init, returns(Flow(ob.p, exc='none').run(init, c)), fmt, name + " struct",
                      "the struct format is not that of %s in the endian of the parent" % name)
            except TooComplex:
                ob.rep.undecided("float")
    for c in [c for c in ob.p.modules[F + "float"].classes if "<locals>" in c.qual]:
        value = inner_method(ob, c, "createValue")
        if value is None:
            continue
        try:
            outs = returns(Flow(ob.p, exc='none').run(value, c))
        except TooComplex:
            continue
        every(ob, "float", value, outs, float_value, "value",
              "the value is not the own bytes unpacked, or the mantissa times 2**exponent with the sign")


def say2(ob, rule, ok, f, node, what, msg):
    ob.check(rule, f, ok, what, msg, node)


def ev_size(t, k):
    def sub(t):
        if t == P("size") or norm(t) == SIZE:
            return ('const', k)
        if t[0] == 'lin':
            return ('lin', t[1], tuple((sub(x), v) for x, v in t[2]))
        if t[0] == 'bin':
            return ('bin', t[1], sub(t[2]), sub(t[3]))
        return t
    return ev(sub(t), {})


def mantissa(o):
    t = norm(o.value)
    rs = [x for x in reads_of(t)]
    if len(rs) != 1:
        return None
    if is_read(rs[0], ("readBits",), (SIZE,)) is not True:
        return False
    r = rs[0]

    def sub(t, k, v):
        if t == r:
            return ('const', v)
        if t[0] == 'call' and t[1] == ('ext', 'builtins.float') and len(t[2]) == 1:
            return sub(t[2][0], k, v)
        if t == SIZE:
            return ('const', k)
        if t[0] == 'lin':
            return ('lin', t[1], tuple((sub(x, k, v), c) for x, c in t[2]))
        if t[0] == 'bin':
            return ('bin', t[1], sub(t[2], k, v), sub(t[3], k, v))
        return t
    try:
        return all(ev(sub(t, k, v), {}) == 1 + v / 2 ** k for k in (23, 52) for v in (0, 1, 5, 2 ** k - 1))
    except Unknown:
        return None


def exponent(o):
    t = norm(o.value)
    c, parts = lin_parts(t)
    rs = reads_of(t)
    if len(rs) != 1:
        return None
    if is_read(rs[0], ("readBits",), (SIZE,)) is not True:
        return False
    b = A(SELF, "bias")
    if b not in parts:
        return None
    return c == 0 and parts == {rs[0]: 1, b: -1}


def sub_value(name):
    return ('attr', ('item', SELF, C(name), 0), "value", 0)


def float_value(o):
    t = norm(o.value)
    rs = reads_of(t)
    if rs:
        if len(rs) != 1 or is_read(rs[0], ("readBytes",), BYTES) is None:
            return None
        if is_read(rs[0], ("readBytes",), BYTES) is False:
            return False
        if t[0] == 'item' and t[2] == C(0) and t[1][0] == 'call' and callee_name(t[1][1]) == 'unpack':
            a = t[1][2]
            return len(a) == 2 and a == (A(SELF, "struct_format"), rs[0])
        return None
    neg = None
    for c, b in o.conds:
        if norm(c) == sub_value("negative"):
            neg = b
    m, e = sub_value("mantissa"), sub_value("exponent")
    if not contains(t, m) or not contains(t, e):
        return None

    def sub(t, vm, vx):
        if t == m:
            return ('const', vm)
        if t == e:
            return ('const', vx)
        if t[0] == 'call' and t[1] == ('ext', 'builtins.float') and len(t[2]) == 1:
            return sub(t[2][0], vm, vx)
        if t[0] == 'call' and callee_name(t[1]) == 'ldexp' and len(t[2]) == 2:
            return ('bin', 'Mult', sub(t[2][0], vm, vx), ('bin', 'Pow', C(2.0), sub(t[2][1], vm, vx)))
        if t[0] == 'lin':
            return ('lin', t[1], tuple((sub(x, vm, vx), c) for x, c in t[2]))
        if t[0] == 'bin':
            return ('bin', t[1], sub(t[2], vm, vx), sub(t[3], vm, vx))
        if t[0] == 'neg':
            return ('lin', 0, ((sub(t[1], vm, vx), -1),))
        return t
    if neg is None:
        return None
    try:
        return all(ev(sub(t, a, b), {}) == (-1 if neg else 1) * a * 2.0 ** b
                   for a in (1.0, 1.25) for b in (-3, 0, 1, 2, 5))
    except Unknown:
        return None


# -- dates -----------------------------------------------------------------------

UNIT = {"days": Fraction(86400), "seconds": Fraction(1), "microseconds": Fraction(1, 10 ** 6),
        "milliseconds": Fraction(1, 1000), "minutes": Fraction(60), "hours": Fraction(3600),
        "weeks": Fraction(7 * 86400)}
EPOCH = {"Unix": ((1970, 1, 1), Fraction(1), (0, 2 ** 31 - 1)),
         "Mac": ((1904, 1, 1), Fraction(1), (0, 2 ** 32 - 1)),
         "Win": ((1601, 1, 1), Fraction(1, 10 ** 7), (0, 127840491566710000)),
         "UUID": ((1582, 10, 15), Fraction(1, 10 ** 7), (0, 130435676263032368))}


def near(a, b):
    return abs(a - b) <= abs(b) / 10 ** 12


def rate(t, leaf):
    """coefficient of leaf in the term (a multiple of it), None if unknown"""
    if t == leaf:
        return Fraction(1)
    if t[0] == 'lin' and t[1] == 0 and len(t[2]) == 1:
        r = rate(t[2][0][0], leaf)
        return None if r is None else r * Fraction(t[2][0][1])
    if t[0] == 'bin' and t[1] in ('Div', 'FloorDiv') and t[3][0] == 'const' and isinstance(t[3][1], (int, float)):
        r = rate(t[2], leaf)
        return None if r is None or not t[3][1] else r / Fraction(t[3][1])
    if t[0] == 'bin' and t[1] == 'Mult':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if b[0] == 'const' and isinstance(b[1], (int, float)):
                r = rate(a, leaf)
                return None if r is None else r * Fraction(b[1])
    if t[0] == 'call' and t[1] in (('ext', 'builtins.float'), ('ext', 'builtins.int')) and len(t[2]) == 1:
        return rate(t[2][0], leaf)
    return None


def delta(t, leaf):
    """seconds per unit of leaf of a timedelta term"""
    if t[0] == 'call' and callee_name(t[1]) == 'timedelta' or t[0] == 'new' and False:
        args = list(zip(("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"), t[2]))
        args += list(t[3])
        tot, lost = None, False
        for k, v in args:
            if v[0] == 'const' and v[1] == 0:
                continue
            r = rate(v, leaf)
            if r is None or k not in UNIT:
                return None
            tot = (tot or 0) + r * UNIT[k]
            # a value rounded to a unit longer than the microsecond
            lost = lost or UNIT[k] > UNIT["microseconds"] and r * UNIT[k] < UNIT[k] and bool(find_terms(
                v, lambda x: x[0] == 'bin' and x[1] == 'FloorDiv' or x == ('ext', 'builtins.int')))
        return Fraction(-1) if lost else tot
    if t[0] == 'bin' and t[1] == 'Mult':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            r = rate(a, leaf)
            if r is not None and b[0] == 'call' and callee_name(b[1]) == 'timedelta':
                one = delta_const(b)
                return None if one is None else r * one
    return None


def delta_const(t):
    args = list(zip(("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"), t[2]))
    args += list(t[3])
    tot = Fraction(0)
    for k, v in args:
        if v[0] != 'const' or k not in UNIT or not isinstance(v[1], (int, float)):
            return None
        tot += Fraction(v[1]) * UNIT[k]
    return tot


def date_const(ob, t):
    """the tuple of a constant datetime"""
    if t[0] == 'gvar':
        m = ob.p.modules.get(t[1])
        b = ob.p.lookup(m, t[2]) if m else None
        e = getattr(b, "expr", None)
        if isinstance(e, ast.Call) and not e.keywords:
            r = ob.p.resolve_expr(b.module, e.func)
            if isinstance(r, External) and r.dotted == "datetime.datetime":
                try:
                    v = [evaluate(a, {}) for a in e.args]
                except Unknown:
                    return None
                return tuple(v[:3]) if not any(v[3:]) else tuple(v)
        return None
    if t[0] == 'call' and callee_name(t[1]) == 'datetime' and not t[3]:
        v = [a[1] if a[0] == 'const' else None for a in t[2]]
        if None in v:
            return None
        return tuple(v[:3]) if not any(v[3:]) else tuple(v)
    return None


DATES = ("timestampUNIX", "timestampMac32", "timestampWin64", "timestampUUID60", "durationWin64",
         "durationMillisWin64")


def admits(o, leaf, v):
    """the conditions of the path hold for the value v; None if one is not about the value alone"""
    for t, b in o.conds:
        t = strip_epoch(t)
        if t[0] == 'call' and t[1] == ('ext', 'builtins.isinstance'):
            if not b:
                return False
            continue
        if t[0] in ('lt0', 'eq0') and all(k == leaf for k, c in t[2]):
            x = t[1] + sum(c * v for k, c in t[2])
            if ((x < 0) if t[0] == 'lt0' else (x == 0)) != b:
                return False
            continue
        return None
    return True


def convert(ob, f, arg=None):
    """(outcomes) of a conversion function with the duration helpers inlined"""
    return ob.outs(f, exc='none', inline=DATES)


def check_date(ob, f, epoch, unit, rng, what):
    leaf = P(f.params[0])
    outs = convert(ob, f)

    def pred(o):
        t = strip_epoch(o.value)
        if epoch is None:
            r = delta(t, leaf)
            return None if r is None else near(r, unit)
        if t[0] == 'lin' and t[1] == 0 and len(t[2]) == 2 and all(c == 1 for k, c in t[2]):
            ds = [(delta(k, leaf), k) for k, c in t[2]]
            es = [date_const(ob, k) for k, c in t[2]]
            d = [x for x, k in ds if x is not None]
            e = [x for x in es if x is not None]
            if len(d) == 1 and len(e) == 1:
                return near(d[0], unit) and e[0] == epoch
        return None
    good = [o for o in returns(outs) if has(o.value, leaf) and not text_result(o.value)]
    every(ob, "time", f, good, pred, what, "the date is not %s plus the value in units of %s s" % (
        "-".join(map(str, epoch)) if epoch else "zero", unit))
    for v in rng:
        rs = [admits(o, leaf, v) for o in good]
        if any(r is None for r in rs):
            ob.rep.undecided("time")
            continue
        ob.check("time", f, any(rs), "%s accepts %d" % (what, v), "the valid value %d has no date" % v)


def text_result(t):
    return t[0] == 'bin' and t[1] == 'Mod' and t[2][0] == 'const' and isinstance(t[2][1], str) or t[0] == 'fmt' or (
        t[0] == 'const' and isinstance(t[1], str))


def times(ob):
    done = set()
    for name, fac, env, node, c in instances(ob, F + "timestamp"):
        m = re.match(r"^Timestamp(Unix|Mac|Win|UUID)\d+$", name)
        if not m:
            continue
        hs = [v for v in env.values() if isinstance(v, FuncInfo)]
        if len(hs) != 1 or c is None:
            ob.rep.undecided("time")
            continue
        epoch, unit, rng = EPOCH[m.group(1)]
        key = (hs[0], m.group(1))
        if key not in done:
            done.add(key)
            check_date(ob, hs[0], epoch, unit, rng, name)
        # the value is the handler on the own bits
        cv = inner_method(ob, c, "createValue")
        if cv is None or ("cv", c) in done:
            continue
        done.add(("cv", c))
        hname = [k for k, v in env.items() if v is hs[0]][0]
        raw = Flow(ob.p, exc='none', inline=INL).run(cv, c)

        def pred(o):
            t = norm(o.value)
            if t[0] == 'call' and free(t[1]) == hname and len(t[2]) == 1:
                r = is_read(t[2][0], ("readBits",), (SIZE,))
                return r if r is not None else False if reads_of(t) else None
            return False if reads_of(t) else None
        every(ob, "time", cv, returns(raw), pred, "own bits", "the date is not converted from the field's own bits")
    for name, func, unit in (("TimedeltaWin64", "durationWin64", Fraction(1, 10 ** 7)),
                             ("TimedeltaMillisWin64", "durationMillisWin64", Fraction(1, 1000))):
        n = F + "timestamp." + name + ".createValue"
        f = ob.func(n)

        def pred2(o):
            t = norm(o.value)
            rs = reads_of(t)
            if len(rs) != 1:
                return None
            if is_read(rs[0], ("readBits",), (SIZE,)) is not True:
                return False
            r = delta(t, rs[0])
            return None if r is None else near(r, unit)
        outs = returns(ob.outs(n, exc='none', inline=INL + DATES))
        every(ob, "time", f, outs, pred2, name, "the duration is not the own bits in units of %s s" % unit)

    # MS-DOS: fields by place, then the date by name
    low = [("second", 5), ("minute", 6), ("hour", 5)]
    high = [("day", 5), ("month", 4), ("year", 7)]
    for name, want in (("TimeDateMSDOS32", low + high), ("DateTimeMSDOS32", high + low)):
        n = F + "timestamp." + name + ".createFields"
        f = ob.func(n)

        def lay(o):
            r = []
            for e in o.events:
                if e[0] == 'yield':
                    t = e[1]
                    if t[0] != 'new' or len(t[2]) < 3 or t[2][1][0] != 'const' or t[2][2][0] != 'const':
                        return None
                    r.append((t[2][1][1], t[2][2][1]))
            return r == want if r else None
        every(ob, "time", f, returns(ob.outs(n, exc='none')), lay, name + " layout",
              "the parts are not %s" % ", ".join("%s:%d" % x for x in want))
    n = F + "timestamp.TimeDateMSDOS32.createValue"
    f = ob.func(n)

    def msdos(o):
        t = norm(o.value)
        if t[0] != 'call' or callee_name(t[1]) != 'datetime':
            return None
        names = ("year", "month", "day", "hour", "minute", "second")
        d = dict(zip(names, t[2]))
        d.update(t[3])
        for k in names:
            x = d.get(k)
            if x is None:
                return False
            base = {"year": (1980, 1), "second": (0, 2)}.get(k, (0, 1))
            if lin_parts(x) == (base[0], {sub_value(k): base[1]}):
                continue
            if k in ("month", "day") and x == C(1):
                # only instead of zero
                if any(norm(c) == sub_value(k) and not b for c, b in o.conds) or any(
                        norm(c)[0] == 'eq0' and norm(c)[1] == 0 and dict(norm(c)[2]).keys() == {sub_value(k)} and b
                        for c, b in o.conds):
                    continue
                return False
            if x[0] in ('call', 'or', 'ite', 'bool'):
                return None
            return False
        return True
    every(ob, "time", f, returns(ob.outs(n, exc='none')), msdos, "MS-DOS", "a part of the date is not the part of the "
          "field (years since 1980, seconds / 2)")


# -- numbers ---------------------------------------------------------------------

def numbers(ob):
    f = ob.func(B + "str2long")
    data, endian = P(f.params[0]), P(f.params[1])
    outs = ob.outs(B + "str2long", exc='none')

    def asked(o):
        e = None
        for t, b in o.conds:
            if t[0] == 'eq' and endian in t[1:] and b:
                e = [x for x in t[1:] if x != endian][0]
        return e

    def pred(o):
        t = strip_epoch(o.value)
        e = asked(o)
        if e is None or t[0] != 'call' or callee_name(t[1]) != 'from_bytes':
            return None
        d = dict(zip(("bytes", "byteorder"), t[2]))
        d.update(t[3])
        if "signed" in d and d["signed"] != C(False):
            return False
        order, src = d.get("byteorder"), d.get("bytes")
        if e == C(LITTLE):
            return order == C("little") and src == data
        if e == C(BIG):
            return order == C("big") and src == data
        if e == C(MIDDLE):
            if src[0] == 'call' and callee_name(src[1]) == 'strswapmid':
                return order == C("big") and src[2] == (data,)
            return False if src == data else None
        return None
    every(ob, "long", f, returns(outs), pred, "order", "the bytes are not read in the order of the endian")
    f = ob.func(B + "strswapmid")

    def swap(o):
        t = strip_epoch(o.value)
        if t[0] == 'call' and t[1] == ('ext', 'builtins.bytes') and len(t[2]) == 1:
            x = t[2][0]
            if x[0] == 'call' and callee_name(x[1]) == 'arrswapmid':
                return x[2] == (P(f.params[0]),)
        return None
    every(ob, "long", f, returns(ob.outs(B + "strswapmid", exc='none')), swap, "middle",
          "the middle endian is not the bytes swapped in pairs")
    f = ob.func(B + "arrswapmid")
    d = P(f.params[0])

    def pairs(o):
        got = {}
        for e in o.events:
            if e[0] != 'setitem':
                continue
            i, v = e[2], strip_epoch(e[3])
            a, b = slice2(i), slice2(v[2]) if v[0] == 'item' and v[1] == d else None
            if a is None or b is None:
                return None
            got[a] = b
        if not got:
            return None
        return got == {(1, 2): (0, 2), (0, 2): (1, 2)}
    every(ob, "long", f, returns(ob.outs(B + "arrswapmid", exc='none')), pairs, "pairs",
          "the bytes are not swapped in pairs")


def slice2(t):
    """(start, step) of a slice without an end"""
    if t[0] == 'slice' and len(t) == 4 and all(x[0] == 'const' for x in t[1:]) and t[2][1] is None:
        return (t[1][1] or 0, t[3][1] or 1)
    return None


# -- strings ---------------------------------------------------------------------

G = F + "string_field.GenericString"


def polarity(o, pred):
    for t, b in o.conds:
        if pred(norm(t)):
            return b
    return None


def strings(ob):
    n = G + ".__init__"
    f = ob.func(n)
    outs = returns(ob.outs(n, exc='none'))
    nb = P("nbytes")
    is_fixed = lambda t: t == ('isnone', nb) or t == ('is', nb, C(None)) or t == ('is', C(None), nb)
    suffix = A(SELF, "suffix_str")
    pascal = lambda t: t[0] == 'item' and t[1] == A(SELF, "PASCAL_FORMATS")
    width = lambda t: t[0] == 'item' and t[2] == C(0) and t[1][0] == 'item' and t[1][1] == A(SELF, "UTF_CHARSET")

    def kind(o):
        for t, b in o.conds:
            t = norm(t)
            s = show(t)
            if nb in t and 'None' in s and t[0] != 'lt0':
                fixed = not b if t[0] in ('isnone', 'is', 'eq') else None
                if fixed is not None and fixed:
                    return 'fixed'
            if contains(t, A(SELF, "SUFFIX_FORMAT")) and t[0] == 'in':
                return 'suffix' if b else 'pascal'
        return None

    def parts(o):
        return tuple(norm(final(o, SELF, k)) if final(o, SELF, k) is not None else None
                     for k in ("_content_offset", "_content_size", "_size"))

    def minus(a, b):
        return norm(binop('Sub', a, b))

    def total(o):
        off, con, size = parts(o)
        k = kind(o)
        if None in (off, con, size) or k is None:
            return None
        want = binop('Add', off, con)
        if k == 'suffix':
            want = binop('Add', want, ('call', ('ext', 'builtins.len'), (suffix,), (), 0))
        return minus(size, binop('Mult', want, C(8))) == C(0)

    def bom_read(o):
        return [t for t in calls_in(o) if call_args(t)[0] == "readBytes"]

    def prefix(o):
        """content offset without a byte order mark"""
        off, con, size = parts(o)
        r = bom_read(o)
        if off is None:
            return None
        if r:
            return minus(off, call_args(r[0])[1].get("nb_bytes", C(0)))
        return off

    def offset(o):
        k = kind(o)
        p = prefix(o)
        if k is None or p is None:
            return None
        if k == 'pascal':
            return pascal(p)
        return p == C(0)

    def content(o):
        k = kind(o)
        off, con, size = parts(o)
        if k is None or con is None:
            return None
        r = bom_read(o)
        if r:
            con = norm(binop('Add', con, call_args(r[0])[1].get("nb_bytes", C(0))))
        if k == 'fixed':
            return con == nb
        if k == 'pascal':
            p = prefix(o)
            a = call_args(con)
            if a is None:
                return None if not reads_of(con) else False
            nme, d = a
            if nme not in ("readBits", "readInteger"):
                return None
            if d.get("address") != ADDR or d.get("endian") != ENDIAN or d.get("signed", C(False)) != C(False):
                return False
            return d.get("nbits") == norm(binop('Mult', p, C(8)))
        return True

    def search(o):
        if kind(o) != 'suffix':
            return True
        ss = [t for t in calls_in(o) if call_args(t)[0].startswith("search")]
        if not ss:
            return None
        for t in ss:
            nme, d = call_args(t)
            if d.get("needle") != suffix:
                return False
            if d.get("include_needle", C(False)) != C(False):
                return False
            a = d.get("start_address")
            if a is None:
                return False
            c, ps = lin_parts(a)
            if ps.get(ADDR) != 1:
                return False
        return True

    def aligned(o):
        if kind(o) != 'suffix':
            return True
        off, con, size = parts(o)
        r = bom_read(o)
        if con is None:
            return None
        if r:
            con = norm(binop('Add', con, call_args(r[0])[1].get("nb_bytes", C(0))))
        ln = ('call', ('ext', 'builtins.len'), (suffix,), (), 0)
        for t, b in o.conds:
            t = norm(t)
            if t[0] == 'eq0' and t[1] == 0 and b and len(t[2]) == 1:
                m = t[2][0][0]
                if m[0] == 'bin' and m[1] == 'Mod' and m[3] == ln and m[2] == con:
                    return True
            if t[0] == 'lt0' and {k: v for k, v in t[2]} == {ln: -1} and t[1] == 1 and not b:
                return True         # len(suffix) <= 1
            if t == ('bin', 'Mod', con, ln) and not b:
                return True
        if con[0] == 'call' and (callee_name(con[1]) == 'alignValue' or call_args(con)):
            return False
        return None

    def bom(o):
        r = bom_read(o)
        if not r:
            return True
        nme, d = call_args(r[0])
        p = prefix(o)
        if p is None:
            return None
        if d.get("address") != norm(binop('Add', ADDR, binop('Mult', p, C(8)))):
            return False
        w = d.get("nb_bytes")
        if not (w[0] == 'bin' and w[1] == 'FloorDiv' and width(w[2]) and w[3] == C(8)):
            return None
        ch = final(o, SELF, "_charset")
        return has(norm(ch), r[0]) if ch is not None else False

    every(ob, "text", f, outs, total, "tile", "prefix, content and suffix do not make up the size of the string")
    every(ob, "text", f, outs, offset, "offset", "the content does not begin after the prefix")
    every(ob, "text", f, outs, content, "content", "the size of the content is not the one given, or read from the prefix")
    every(ob, "text", f, outs, search, "search", "the end of the string is not searched from its own start by its suffix")
    every(ob, "text", f, outs, aligned, "aligned", "the suffix may be found across two characters")
    every(ob, "text", f, outs, bom, "bom", "the byte order mark is not read at the start of the content")

    # decoding
    n = G + ".createValue"
    f = ob.func(n)
    outs = returns(ob.outs(n, exc='none'))
    off, con = A(SELF, "_content_offset"), A(SELF, "_content_size")
    at = norm(binop('Add', ADDR, binop('Mult', off, C(8))))
    human = P("human")

    def window(o):
        h = polarity(o, lambda t: t == human)
        rs = reads_of(norm(o.value))
        if not rs:
            return True if o.value == C("") else None
        for r in rs:
            nme, d = call_args(r)
            if nme != "readBytes":
                return None
            if h is None:
                return None
            w = (at, (con,)) if h else (ADDR, BYTES)
            if d.get("address") != w[0] or d.get("nb_bytes") not in w[1]:
                return False
        return True
    every(ob, "text", f, outs, window, "window", "the text is not decoded from the content of the string")

    def shape(o):
        """strip(truncate(convert(read)))"""
        t = norm(o.value)
        if polarity(o, lambda t: t == human) is not True or not reads_of(t):
            return True
        strip, trunc = A(SELF, "_strip"), A(SELF, "_truncate")
        stripped = cut = False
        while True:
            if t[0] == 'call' and callee_name(t[1]) in ('strip', 'lstrip', 'rstrip') and t[1][0] == 'attr':
                if callee_name(t[1]) != 'strip' or stripped or t[2] not in ((), (strip,), (C(None),)):
                    return False
                stripped = True
                some = polarity(o, lambda t: t[0] == 'call' and t[1] == ('ext', 'builtins.isinstance')
                                and t[2][:1] == (strip,))
                if some is not None and some != (t[2] == (strip,)):
                    return False
                t = t[1][1]
            elif t[0] == 'item' and t[2][0] == 'slice':
                s = t[2]
                if cut or s[1] not in (C(None), C(0)) or s[3] not in (C(None), C(1)):
                    return False
                end = s[2]
                if not (end[0] == 'call' and callee_name(end[1]) in ('find', 'index') and end[2] == (trunc,)
                        and end[1][0] == 'attr' and end[1][1] == t[1]):
                    return False
                cut = True
                t = t[1]
            else:
                break
        ps = polarity(o, lambda t: t == strip)
        pt = polarity(o, lambda t: t == trunc)
        if ps is not None and ps != stripped:
            return False
        if pt is False and cut:
            return False
        if t[0] == 'call' and callee_name(t[1]) == '_convertText':
            return len(t[2]) == 1 and call_args(t[2][0]) is not None
        if t[0] == 'call' and t[1] == ('ext', 'builtins.str') and t[2]:
            return None
        return None
    every(ob, "text", f, outs, shape, "shape", "the value is not the decoded content, cut and stripped as asked")

    def cut_at(o):
        """the cut is made only where the mark was found, and whenever it is"""
        t = norm(o.value)
        if polarity(o, lambda t: t == human) is not True or not reads_of(t):
            return True
        if polarity(o, lambda t: t == A(SELF, "_truncate")) is not True:
            return True
        cut = bool(find_terms(t, lambda x: x[0] == 'item' and x[2][0] == 'slice'))
        for c, b in o.conds:
            c = norm(c)
            if c[0] in ('lt0', 'eq0') and len(c[2]) == 1:
                x, k = c[2][0]
                if x[0] == 'call' and callee_name(x[1]) == 'find':
                    if c[0] == 'lt0':
                        # values -1 and 0 of find
                        v = {i: (c[1] + k * i < 0) == b for i in (-1, 0, 1)}
                    else:
                        v = {i: (c[1] + k * i == 0) == b for i in (-1, 0, 1)}
                    if cut and v[-1] or not cut and (v[0] or v[1]):
                        return False
        return True
    every(ob, "text", f, outs, cut_at, "cut", "the text is cut where its end mark is not, or not where it is")

    n = G + "._convertText"
    f = ob.func(n)
    text = P(f.params[1])

    def conv(o):
        t = norm(o.value)
        if t[0] == 'call' and t[1] == ('ext', 'builtins.str') and len(t[2]) >= 2:
            kept = final(o, SELF, "_charset")
            if kept is not None and kept[0] == 'const':
                return False        # a charset is guessed from the text
            return t[2][0] == text and t[2][1] == (norm(kept) if kept is not None else A(SELF, "_charset"))
        if t[0] == 'call' and callee_name(t[1]) == 'decode' and t[1][0] == 'attr':
            kept = final(o, SELF, "_charset")
            return t[1][1] == text and t[2][:1] == (norm(kept) if kept is not None else A(SELF, "_charset"),)
        return None
    every(ob, "text", f, returns(ob.outs(n, exc='none')), conv, "charset",
          "the text is not decoded by the charset of the string")

    n = G + ".staticSuffixStr"
    f = ob.func(n)
    p = dict(zip(("format", "charset", "endian"), [P(x) for x in f.params]))

    def suf(o):
        t = norm(o.value)
        if t[0] == 'const':
            return True
        if not (t[0] == 'item' and t[1][0] == 'item' and t[1][1][0] == 'item'):
            return None
        tab, wid, end = t[1][1], t[1][2], t[2]
        if tab[2] != p["format"]:
            return False
        utf = None
        own_order = None
        for c, b in o.conds:
            c = norm(c)
            if c[0] == 'in' and c[1] == p["charset"]:
                utf = b
            elif c[0] in ('in', 'eq', 'is') and find_terms(c, lambda x: x[0] == 'item' and x[2] == C(1)):
                own_order = b
        if utf is None:
            return None
        if not utf:
            return wid == C(8) and end == p["endian"]
        if not (wid[0] == 'item' and wid[2] == C(0) and wid[1][0] == 'item' and wid[1][2] == p["charset"]):
            return False
        if own_order:
            return end[0] == 'item' and end[2] == C(1) and end[1] == wid[1]
        if own_order is None:
            return False            # the order of the bytes of the charset is not considered
        return end == p["endian"]
    every(ob, "text", f, returns(ob.outs(n, exc='none')), suf, "suffix",
          "the suffix is not the one of the format, of the width and byte order of the charset")


def class_table(ob, c, name):
    """(AST of the table of a class, module)"""
    for k in ob.p.mro(c):
        for st in getattr(k, "node").body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
                return st.value, k.module
    return None, None


def outer(ob, m, e, depth=0):
    """value of a constant expression which may name constants of codecs and of core.endian"""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Tuple):
        return tuple(outer(ob, m, x) for x in e.elts)
    if isinstance(e, (ast.List, ast.Set)):
        return [outer(ob, m, x) for x in e.elts]
    if isinstance(e, ast.Dict):
        return {outer(ob, m, k): outer(ob, m, v) for k, v in zip(e.keys, e.values)}
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset", "tuple", "list") \
            and len(e.args) == 1:
        return outer(ob, m, e.args[0])
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        return outer(ob, m, e.left) * outer(ob, m, e.right)
    r = ob.p.resolve_expr(m, e)
    if isinstance(r, External) and r.dotted.startswith("codecs.BOM"):
        v = getattr(codecs, r.dotted[7:], None)
        if v is not None:
            return v
    if isinstance(r, ValueBinding) and r.kind == "assign" and r.expr is not None and depth < 4:
        return outer(ob, r.module, r.expr, depth + 1)
    raise Unknown("table")


def tables(ob):
    c = ob.p.cls(G)
    f = ob.func(G + ".__init__")
    tab = {}
    for name in ("CHARSET_8BIT", "UTF_CHARSET", "UTF_BOM", "SUFFIX_FORMAT", "PASCAL_FORMATS"):
        e, m = class_table(ob, c, name)
        try:
            tab[name] = outer(ob, m, e) if e is not None else None
        except Unknown:
            tab[name] = None
        if tab[name] is None:
            ob.rep.undecided("charset")
    order = {BIG: "be", LITTLE: "le"}

    def ck(ok, what, msg):
        ob.check("charset", f, ok, what, msg)

    for cs in tab["CHARSET_8BIT"] or ():
        try:
            info = codecs.lookup(cs)
            raw = bytes(range(256)) + b"".join(bytes((i, j)) for i in range(256) for j in (0x41, 0x81, 0xA1, 0xFE))
            ok = len("A".encode(info.name)) == 1 and len(raw.decode(info.name, "replace")) == len(raw)
        except LookupError:
            ok = False
        ck(ok, cs, "%s is not a charset of one byte per character" % cs)
    for cs, (width, end) in (tab["UTF_CHARSET"] or {}).items():
        try:
            raw = "A".encode(cs)
        except LookupError:
            ck(False, cs, "%s is not a charset" % cs)
            continue
        if end == "BOM":
            ok = len(raw) * 8 == 2 * width
        else:
            ok = len(raw) * 8 == width
            if width > 8:
                ok = ok and raw == b"A".rjust(width // 8, b"\0") if end == BIG else \
                    ok and end == LITTLE and raw == b"A".ljust(width // 8, b"\0")
        ck(ok, cs, "%s is not a charset of %s bits in the order %s" % (cs, width, end))
    for width, d in (tab["UTF_BOM"] or {}).items():
        for mark, cs in d.items():
            try:
                ok = "\ufeff".encode(cs) == mark and len(mark) * 8 == width
            except LookupError:
                ok = False
            ck(ok, "mark %s" % cs, "%r is not the byte order mark of %s" % (mark, cs))
            if tab["UTF_CHARSET"]:
                w = tab["UTF_CHARSET"].get(cs)
                ck(w is not None and w[0] == width and w[1] != "BOM", "known %s" % cs,
                   "the charset %s of a mark of %s bits is not one of that width" % (cs, width))
    char = {"C": "\0", "UnixLine": "\n"}
    for fmt, d in (tab["SUFFIX_FORMAT"] or {}).items():
        if fmt not in char:
            ob.rep.undecided("charset")
            continue
        for width, dd in d.items():
            for end, raw in dd.items():
                enc = {8: "latin-1", 16: "utf-16-", 32: "utf-32-"}.get(width)
                if enc is None or width > 8 and end not in order:
                    ob.rep.undecided("charset")
                    continue
                if width > 8:
                    enc += order[end]
                ck(char[fmt].encode(enc) == raw, "suffix %s %s %s" % (fmt, width, end),
                   "the suffix of %s of %s bits is %r" % (fmt, width, raw))
    for fmt, size in (tab["PASCAL_FORMATS"] or {}).items():
        m = re.match(r"^Pascal(\d+)$", fmt)
        ck(bool(m) and int(m.group(1)) == size * 8, fmt, "the prefix of %s has %s bytes" % (fmt, size))


# -- display ---------------------------------------------------------------------

def display(ob):
    for n, extra in ((F + "enum.Enum", {"getEnum"}), ("hachoir.core.text_handler.textHandler", set()),
                     ("hachoir.core.text_handler.displayHandler", set()),
                     ("hachoir.core.text_handler.filesizeHandler", set())):
        f = ob.func(n)
        field = P(f.params[0])

        def pred(o):
            for e in o.events:
                if e[0] == 'store' and same(e[1], field) and e[2] not in {"createDisplay"} | extra:
                    return False
                if e[0] == 'store' and e[2] in ("_size", "_address", "createValue", "_value"):
                    return False
            if o.value == field:
                if f.name == "filesizeHandler":
                    return None
                return any(e[0] == 'store' and same(e[1], field) and e[2] == "createDisplay" for e in o.events)
            if o.value[0] == 'call' and callee_name(o.value[1]) in ("displayHandler", "textHandler"):
                return o.value[2][:1] == (field,)
            return False
        every(ob, "display", f, returns(ob.outs(n, exc='none')), pred, "adapter",
              "the adapter does not give back the field with only its display changed")
    # the closures
    for modname, owner in ((F + "enum", "Enum"), ("hachoir.core.text_handler", "textHandler"),
                           ("hachoir.core.text_handler", "displayHandler")):
        for g in ob.p.modules[modname].functions:
            if not g.qual.startswith(owner + ".<locals>."):
                continue
            try:
                outs = Flow(ob.p, exc='none').run(g, None)
            except TooComplex:
                continue
            for o in outs:
                bad = any(e[0] == 'store' for e in o.events)
                if bad:
                    break
            ob.check("display", g, not bad, "closure", "showing the field changes something")
            fld, enum, handler, keyf = ('global', 'field'), ('global', 'enum'), ('global', 'handler'), ('global', 'key_func')
            fv = A(fld, "value")
            for o in returns(outs):
                t = strip_epoch(o.value)
                ok = None
                if owner == "Enum" and t[0] == 'item' and t[1] == enum:
                    ok = t[2] == fv or t[2][0] == 'call' and strip_epoch(t[2][1]) == keyf and t[2][2] == (fv,)
                elif owner == "textHandler" and t[0] == 'call' and t[1] == handler:
                    ok = t[2] == (fld,)
                elif owner == "displayHandler" and t[0] == 'call' and t[1] == handler:
                    ok = t[2] == (fv,)
                ob.check("display", g, ok, "shown", "what is shown is not made from the value of the field", o.node)


# -- vectors ---------------------------------------------------------------------

def vectors(ob):
    V = F + "vector.GenericVector"
    n = V + ".__init__"
    f = ob.func(n)

    def size(o):
        for g, d in base_init(ob, o):
            s = d.get("size")
            if s is not None:
                s = strip_epoch(s)
                w = binop('Mult', P("nb_items"), A(P("item_class"), "static_size"))
                return s == strip_epoch(w)
        return None
    every(ob, "vector", f, returns(ob.outs(n, exc='none')), size, "size",
          "the size of the vector is not the number of items times the size of an item")
    n = V + ".createFields"
    f = ob.func(n)
    outs = ob.outs(n, exc='none')

    def items(o):
        for e in o.events:
            if e[0] == 'yield':
                t = strip_epoch(e[1])
                if t[0] == 'call' and strip_epoch(t[1]) == A(SELF, "_item_class"):
                    a = t[2]
                    if not a or a[0] != SELF:
                        return False
                    its = [strip_epoch(x[1]) for x in o.events if x[0] == 'iterate']
                    if len(its) != 1 or not (its[0][0] == 'call' and its[0][1] == ('ext', 'builtins.range')):
                        return None
                    r = its[0][2]
                    n = ('call', ('ext', 'builtins.len'), (SELF,), (), 0)
                    if r and not all(x[0] == 'const' or has(x, n) or has(x, SELF) for x in r):
                        return None
                    if len(r) == 1:
                        return r[0] == n if has(r[0], n) or r[0][0] == 'const' else None
                    if len(r) == 2:
                        return norm(binop('Sub', r[1], r[0])) == n if has(r[1], n) else None
                    return None
                return None
        return True
    every(ob, "vector", f, outs, items, "items", "the items of the vector are not of its class")
