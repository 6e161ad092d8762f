"""Bit quantities and byte quantities are never mixed."""
import ast
import re
from ..project import FuncInfo, nid
from ..types import TOP
from .. import units
from ..grain import Grain
from ..units import const

BIT, BYTE = 0, 1

# The public contracts the unit of everything else follows from.
# (class or function, method, parameter): every override of the method too
METHODS = {
    ("hachoir.field.field.Field", "__init__", "size"): BIT,
    ("hachoir.stream.input.InputStream", "readBits", "address"): BIT,
    ("hachoir.stream.input.InputStream", "readBits", "nbits"): BIT,
    ("hachoir.stream.input.InputStream", "readInteger", "address"): BIT,
    ("hachoir.stream.input.InputStream", "readInteger", "nbits"): BIT,
    ("hachoir.stream.input.InputStream", "readBytes", "address"): BIT,
    ("hachoir.stream.input.InputStream", "readBytes", "nb_bytes"): BYTE,
    ("hachoir.stream.input.InputStream", "read", "address"): BIT,
    ("hachoir.stream.input.InputStream", "read", "size"): BIT,
    ("hachoir.stream.input.InputStream", "sizeGe", "size"): BIT,
    ("hachoir.stream.input.InputStream", "_feed", "size"): BIT,
    ("hachoir.stream.input.InputStream", "_setSize", "size"): BIT,
    ("hachoir.stream.input.InputStream", "searchBytes", "start_address"): BIT,
    ("hachoir.stream.input.InputStream", "searchBytes", "end_address"): BIT,
    ("hachoir.stream.input.InputStream", "searchBytesLength", "start_address"): BIT,
    ("hachoir.stream.input.InputStream", "searchBytesLength", "end_address"): BIT,
    ("hachoir.stream.output.OutputStream", "copyBitsFrom", "address"): BIT,
    ("hachoir.stream.output.OutputStream", "copyBitsFrom", "nb_bits"): BIT,
    ("hachoir.stream.output.OutputStream", "copyBytesFrom", "address"): BIT,
    ("hachoir.stream.output.OutputStream", "copyBytesFrom", "nb_bytes"): BYTE,
    ("hachoir.stream.output.OutputStream", "readBytes", "address"): BIT,
    ("hachoir.stream.output.OutputStream", "readBytes", "nbytes"): BYTE,
    ("hachoir.field.generic_field_set.GenericFieldSet", "__init__", "size"): BIT,
    ("hachoir.field.basic_field_set.BasicFieldSet", "__init__", "size"): BIT,
    ("hachoir.field.generic_field_set.GenericFieldSet", "seekBit", "address"): BIT,
    ("hachoir.field.generic_field_set.GenericFieldSet", "seekByte", "address"): BYTE,
    ("hachoir.field.generic_field_set.GenericFieldSet", "getFieldByAddress", "address"): BIT,
    ("hachoir.field.generic_field_set.GenericFieldSet", "writeFieldsIn", "address"): BIT,
    ("hachoir.field.seekable_field_set.RootSeekableFieldSet", "seekBit", "address"): BIT,
    ("hachoir.field.seekable_field_set.RootSeekableFieldSet", "seekByte", "address"): BYTE,
    ("hachoir.field.byte_field.RawBytes", "__init__", "length"): BYTE,
    ("hachoir.field.sub_file.SubFile", "__init__", "length"): BYTE,
    ("hachoir.field.padding.PaddingBytes", "__init__", "nbytes"): BYTE,
    ("hachoir.field.padding.PaddingBits", "__init__", "nbits"): BIT,
    ("hachoir.field.padding.NullBytes", "__init__", "nbytes"): BYTE,
    ("hachoir.field.padding.NullBits", "__init__", "nbits"): BIT,
    ("hachoir.field.bit_field.RawBits", "__init__", "size"): BIT,
    ("hachoir.field.string_field.String", "__init__", "nbytes"): BYTE,
    ("hachoir.field.helper", "createRawField", "size"): BIT,
    ("hachoir.field.helper", "createPaddingField", "nbits"): BIT,
    ("hachoir.field.helper", "createNullField", "nbits"): BIT,
    ("hachoir.field.helper", "createOrphanField", "address"): BIT,
    ("hachoir.stream.input.InputStream", "__init__", "size"): BIT,
    ("hachoir.stream.input.InputSubStream", "__init__", "offset"): BIT,
    ("hachoir.stream.input.InputSubStream", "__init__", "size"): BIT,
    ("hachoir.stream.input.InputIOStream", "__init__", "size"): BIT,
    ("hachoir.stream.input.ReadStreamError", "__init__", "size"): BIT,
    ("hachoir.stream.input.ReadStreamError", "__init__", "address"): BIT,
    ("hachoir.stream.input.ReadStreamError", "__init__", "got"): BIT,
    ("hachoir.stream.input.FileFromInputStream", "_setSize", "size"): BIT,
    ("hachoir.stream.input.FileFromInputStream", "seek", "pos"): BYTE,
    ("hachoir.stream.input.FileFromInputStream", "read", "size"): BYTE,
    ("hachoir.subfile.search.SearchSubfile", "__init__", "offset"): BYTE,
    ("hachoir.subfile.search.SearchSubfile", "__init__", "size"): BYTE,
    ("hachoir.subfile.search.SearchSubfile", "processParser", "offset"): BIT,
    ("hachoir.subfile.search.SearchSubfile", "findMagic", "offset"): BIT,
    ("hachoir.core.tools", "humanFilesize", "size"): BYTE,
    ("hachoir.core.tools", "humanBitSize", "size"): BIT,
}
RETURNS = {
    ("hachoir.stream.input.InputStream", "searchBytesLength"): BYTE,
    ("hachoir.stream.input.InputStream", "searchBytes"): BIT,
    ("hachoir.parser.parser.HachoirParser", "createContentSize"): BIT,
    ("hachoir.stream.input.InputStream", "askSize"): BIT,
    ("hachoir.editor.typed_field.EditableField", "_computeSize"): BIT,
    ("hachoir.editor.field.FakeField", "_getSize"): BIT,
    ("hachoir.editor.fieldset.EditableFieldSet", "_getSize"): BIT,
    ("hachoir.stream.input.FileFromInputStream", "tell"): BYTE,
    ("hachoir.field.seekable_field_set.RootSeekableFieldSet", "nextFieldAddress"): BIT,
    ("hachoir.field.generic_field_set.GenericFieldSet", "nextFieldAddress"): BIT,
}
FIELD_ATTRS = ("size", "_size", "address", "_address", "absolute_address", "_absolute_address",
               "current_size", "_current_size", "content_size", "eof_address", "static_size")
STREAM_ATTRS = ("size", "_size", "_current_size")
ANY_ATTRS = ("absolute_address", "current_size", "_current_size", "content_size")
ANY_METHODS = {"readBits", "readInteger", "readBytes", "searchBytes", "searchBytesLength", "sizeGe",
               "copyBitsFrom", "copyBytesFrom", "seekBit", "seekByte", "getFieldByAddress"}


def run(ctx, rep):
    p = ctx.project
    fm = ctx.fields
    ty = fm.ty
    rep.rule("bits-bytes", "an addition, comparison, range, store or argument never relates a quantity of "
             "bits with a quantity of bytes", 1000)
    rep.rule("grain", "a size or address in bits is made of sizes and addresses in bits and of multiples of 8; "
             "a value read from the file counts bits only if its name or description says so", 300)
    S = p.cls("hachoir.stream.input.InputStream")
    ED = [p.cls("hachoir.editor.field.FakeField"), p.cls("hachoir.editor.fieldset.EditableFieldSet")]
    META = p.cls("hachoir.metadata.metadata.Metadata")
    methods = {}        # func -> {param: unit}
    generic = {}        # method name -> positional units without self
    returns = {}

    def families(owner, meth):
        try:
            c = p.cls(owner)
        except Exception:
            c = None
        if c is None:
            f = p.func(owner + "." + meth)
            return [f] if f is not None else []
        out = []
        ks = [c]
        if meth != "__init__":
            ks += p.descendants(c)
        for k in ks:
            f = k.attrs.get(meth) if hasattr(k, "attrs") else None
            f = p.find_attr(k, meth)
            if isinstance(f, FuncInfo) and f not in out:
                out.append(f)
        return out

    for (owner, meth, par), unit in METHODS.items():
        fs = families(owner, meth)
        for f in fs:
            base = fs[0].params.index(par) if par in fs[0].params else None
            if par in f.all_params:
                methods.setdefault(f, {})[par] = unit
            elif base is not None and base < len(f.params):
                methods.setdefault(f, {})[f.params[base]] = unit
        if meth in ANY_METHODS:
            i = fs[0].params.index(par) - 1
            g = generic.setdefault(meth, {})
            if g.get(i, unit) != unit:
                raise AssertionError(meth)
            g[i] = unit
            g[par] = unit
    for (owner, meth), unit in RETURNS.items():
        for f in families(owner, meth):
            returns[f] = unit
    RS = {"searchBytes": BIT, "searchBytesLength": BYTE}
    named = re.compile(r"(?:^|_)(?:stream|field|parser|fieldset|field_set)$")

    def attr_unit(an, cls, name):
        if fm.is_field(cls):
            return BIT if name in FIELD_ATTRS else None
        if S in p.mro(cls):
            return BIT if name in STREAM_ATTRS else None
        if META in p.mro(cls):
            return BYTE if name in ("file_size", "compr_size") else None
        if any(e in p.mro(cls) for e in ED):
            return BIT if name in ("size", "_size", "address", "absolute_address") else None
        return None

    def by_name(e):
        """An object of unknown class called a stream or a field."""
        if e.attr in ANY_ATTRS:
            return BIT
        n = e.value.attr if isinstance(e.value, ast.Attribute) else \
            e.value.id if isinstance(e.value, ast.Name) else ""
        if isinstance(e.value, ast.Subscript) and isinstance(e.value.slice, ast.Constant) and \
                isinstance(e.value.slice.value, str) and e.attr in ("size", "address"):
            return BIT          # a field found by its name
        if named.search(n) and e.attr in ("size", "_size", "address", "_current_size"):
            return BIT
        return None

    def described(an, w, e, fv, args, kws):
        """A field whose description says its value is in bytes."""
        if fv is TOP or not fv or not all(a[0] == 'C' and fm.is_field(a[1]) for a in fv):
            return
        d = None
        if "description" in kws:
            d = kws["description"][0]
        elif len(args) >= 3:
            d = args[2][0]
        if isinstance(d, ast.Constant) and isinstance(d.value, str) and \
                re.search(r"\bin bytes\b|\(bytes\)", d.value) and \
                not re.search(r"div|mul|/|\*|per |minus|modulo", d.value):
            an.u.bind(an.u.var(("value", nid(e))), BYTE, (w.f, e, "described in bytes"))

    def call(an, w, e, fv, args, kws):
        described(an, w, e, fv, args, kws)
        """filesizeHandler(field): the value of that field is a number of bytes"""
        name = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
        if name == "filesizeHandler" and e.args:
            v = an.fact(e.args[0])
            if v is not TOP and v and all(a[0] == 'i' and len(a) > 2 and isinstance(a[2], tuple) for a in v):
                for k in {a[2][-1] for a in v}:
                    an.u.bind(an.u.var(("value", k)), BYTE, (w.f, e, "filesizeHandler()"))
            return an.u.fresh()
        if isinstance(e.func, ast.Attribute) and fv is TOP and an.fact(e.func.value) is TOP:
            # an unknown object with the methods of a file
            if name == "seek" and args or name == "read" and len(args) == 1 and not kws:
                w.must(args[0][1], BYTE, e, "argument of %s()" % name)
                return an.u.fresh()
            if name == "read" and len(args) == 2 and not kws:
                for x, t in args:
                    w.must(t, BIT, e, "argument of read(address, size)")
                return an.u.fresh()
            if name == "tell" and not args:
                t = an.u.fresh()
                an.u.bind(t, BYTE, (w.f, e, "tell()"))
                return t
        if (fv is TOP or not fv) and "size" in kws and e.args and isinstance(e.args[0], ast.Name) and \
                w.f.params and e.args[0].id == w.f.params[0] and w.f.cls is not None and fm.is_field(w.f.cls):
            # an unknown class of fields
            w.must(kws["size"][1], BIT, e, "argument size of %s()" % name)
            an.bits.append((w.f, kws["size"][0], None, "size", e))
        if isinstance(e.func, ast.Attribute) and name in ANY_METHODS and (fv is TOP or not fv):
            g = generic[name]
            for i, (x, t) in enumerate(args):
                if isinstance(x, ast.Starred):
                    break
                if i in g:
                    w.must(t, g[i], e, "argument %d of %s()" % (i + 1, name))
                    if g[i] == BIT:
                        an.bits.append((w.f, x, None, "address" if i == 0 else "nbits", e))
            for k, (x, t) in kws.items():
                if k in g:
                    w.must(t, g[k], e, "argument %s of %s()" % (k, name))
                    if g[k] == BIT:
                        an.bits.append((w.f, x, None, k, e))
            if name in RS:
                t = an.u.fresh()
                an.u.bind(t, RS[name], (w.f, e, "result of %s()" % name))
                return t
        return None

    an = units.Analysis(ctx, {"methods": methods, "returns": returns, "attr_unit": attr_unit,
                              "by_name": by_name, "call": call}).run(5)
    n = sum(an.counts.values())
    rep.passed("bits-bytes", n)
    grains(ctx, rep, an)
    for (m, q, src), (f, node, what, a, b) in sorted(an.conflicts.items(), key=lambda x: x[0]):
        rep.violation("bits-bytes", "%s:%s:%s" % (m, q, src), "%s:%d" % (f.module.path, node.lineno),
                      "%s: %s of %s mix %s (%s) and %s (%s)" % (
                          f.qual, what, src[:80], NAMES[a[0]], why(a[1]), NAMES[b[0]], why(b[1])))


# deal in single bits by their purpose
LOW = ("hachoir.core.", "hachoir.field.", "hachoir.stream.", "hachoir.editor.")


def grains(ctx, rep, an):
    """what is used as a number of bits is made of bits, or of multiples of 8"""
    gr = Grain(ctx)
    p = ctx.project
    raw = p.cls("hachoir.field.bit_field.RawBits")
    for f, x, g, pname, e in an.bits:
        if f.module.name.startswith(LOW):
            continue
        if g is not None and (pname == "nbits" or g.cls is not None and raw in p.mro(g.cls)):
            continue
        if isinstance(e, ast.Call) and pname == "address" and len(e.args) > 1:
            n = const(e.args[1])
            if callee(e) == "readBits" and (n is None or n % 8):
                continue
        t = gr.check(f, x)
        if t is None:
            rep.passed("grain")
            continue
        rep.violation("grain", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(x)[:80]),
                      "%s:%d" % (f.module.path, x.lineno),
                      "%s: %s is used as a number of bits (%s), but %s is not one" % (
                          f.qual, ast.unparse(x)[:80], pname, t))
    for f, e, c, t in an.compared:
        n = const(c)
        if an.u.get(t)[0] != 0 or not isinstance(n, int) or n in (0, 1, -1) or f.module.name.startswith(LOW):
            continue
        if n % 8 == 0 or gr.loose(f):
            rep.passed("grain")
            continue
        rep.violation("grain", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(e)[:80]),
                      "%s:%d" % (f.module.path, e.lineno),
                      "%s: %s measures a number of bits with %d" % (f.qual, ast.unparse(e)[:80], n))
    for f, e, t in an.values:
        u, w = an.u.get(t)
        if u is None or u not in (0, -1):
            continue
        if u == 0 and (f.module.name.startswith(LOW) or
                       not gr.lin(f, e, {}, 0)[0][1]):
            rep.passed("grain")
            continue
        rep.violation("grain", "%s:%s:%s" % (f.module.name, f.qual, ast.unparse(e)[:80]),
                      "%s:%d" % (f.module.path, e.lineno),
                      "%s: the value of the field %s is used as a number of %s: %s" % (
                          f.qual, ast.unparse(e)[:80], "bits" if u == 0 else "8th parts of a bit", why(w)))


def callee(e):
    return e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", None)


NAMES = {0: "bits", 1: "bytes"}


def why(w):
    if w is None:
        return "?"
    f, node, what = w
    if f is None:
        return what
    return "%s, %s:%d" % (what, f.module.path.split("hachoir/")[-1], getattr(node, "lineno", 0))
