"""Analysing a file has no effect outside the program."""
import ast
from ..project import FuncInfo, ClassInfo, External, ValueBinding
from ..effects import units, effects, OPEN

TOOLS = ("hachoir.wx", "hachoir.urwid", "hachoir.grep", "hachoir.listtool", "hachoir.strip", "hachoir.subfile", "hachoir.metadata.main",
         "hachoir.metadata.csv", "hachoir.metadata.gtk", "hachoir.metadata.qt", "hachoir.test", "hachoir.core.benchmark",
         "hachoir.core.profiler", "hachoir.core.cmd_line")
# where an effect is the purpose of the module
PURPOSE = {
    "write": ("hachoir.stream.output", "hachoir.core.log", "hachoir.core.profiler", "hachoir.subfile.output",
              "hachoir.metadata.csv", "hachoir.wx", "hachoir.urwid"),
    "net": ("hachoir.parser.network.common",),
    "process": ("hachoir.core.timeout", "hachoir.core.memory", "hachoir.core.i18n", "hachoir.core.benchmark", "hachoir.test",
                "hachoir.metadata.setter", "hachoir.wx", "hachoir.urwid", "hachoir.metadata.gtk", "hachoir.metadata.qt"),
    "stdout": TOOLS,
    "exit": TOOLS,
    "exec": (),
}
# who may use what writes files
WRITERS = ("hachoir.stream.output", "hachoir.stream", "hachoir.strip", "hachoir.subfile", "hachoir.urwid", "hachoir.wx", "hachoir.metadata.csv",
           "hachoir.core.log", "hachoir.core.profiler", "hachoir.metadata.main")
TEXT = {"write": "writes, creates or deletes files", "net": "contacts the network", "process": "changes the state of the process",
        "stdout": "prints on the standard output", "exit": "ends the process", "exec": "runs code or commands"}
BUFFERS = {"io.BytesIO", "io.StringIO", "builtins.bytearray"}


def under(name, prefixes):
    return any(name == x or name.startswith(x + ".") for x in prefixes)


def is_library(name):
    return not under(name, TOOLS) and not name.endswith("__main__")


def run(ctx, rep):
    p = ctx.project
    rep.rule("exec", "nothing runs code or commands", 1266)
    rep.rule("write", "files are written, created or deleted only by the modules whose purpose it is", 1266)
    rep.rule("open", "every other file is opened for reading only", 1)
    rep.rule("net", "nothing contacts the network but the reverse lookup of addresses", 1266)
    rep.rule("stdout", "only the tools print", 1115)
    rep.rule("exit", "only the tools end the process", 1115)
    rep.rule("process", "nothing changes the state of the process but the modules whose purpose it is", 1266)
    rep.rule("input", "nothing writes to an input", 112)
    rep.rule("reach", "the library uses nothing that writes, prints, ends the process or changes its state", 1115)

    all_units = []
    effectful = {}
    for m in sorted(p.modules.values(), key=lambda m: m.name):
        for label, f, nodes, sc in units(p, m):
            effs = effects(sc, nodes)
            all_units.append((m, label, f, nodes, sc, effs))
            if f is not None:
                for e, d, n in effs:
                    if e in ("write", "exit", "process", "stdout") and m.name != "hachoir.metadata.setter":
                        effectful.setdefault(f, (e, d))
    # functions which call an effectful function by its name are effectful
    for _ in range(4):
        grew = False
        for m, label, f, nodes, sc, effs in all_units:
            if f is None or f in effectful:
                continue
            for n, r in references(sc, nodes, p):
                if r in effectful and not under(r.module.name, ("hachoir.core.log", "hachoir.core.i18n")):
                    effectful[f] = effectful[r]
                    grew = True
                    break
        if not grew:
            break

    for m, label, f, nodes, sc, effs in all_units:
        key = "%s:%s" % (m.name, label)
        lib = is_library(m.name)
        bad = {}
        for e, d, n in effs:
            if e == "read":
                rep.passed("open", sample="%s %s" % (key, d))
            elif e == "open?":
                if lib:
                    rep.undecided("open")
                elif not under(m.name, PURPOSE["write"]):
                    rep.undecided("write")
            elif e == "exec" and harmless_exec(d, n, nodes, sc):
                continue
            elif not under(m.name, PURPOSE[e]):
                bad.setdefault(e, []).append((d, n))
        for e in ("exec", "write", "net", "process") + (("stdout", "exit") if lib else ()):
            if e not in bad:
                rep.passed(e)
        for e, sites in bad.items():
            if e in ("stdout", "exit") and f is not None and prints_by_name(f):
                continue
            for d, n in sites:
                rep.violation(e, "%s:%s" % (key, d), "%s:%d" % (m.path, n.lineno), "%s %s (%s)" % (label, TEXT[e], d))
        if not lib:
            continue
        if m.name not in ("hachoir.stream.output", "hachoir.core.log"):
            for n in nodes:
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        "write", "writelines", "truncate") and not buffer(n.func.value, sc):
                    if isinstance(n.func.value, ast.Name) and (n.func.value.id in (f.all_params if f else ())):
                        rep.undecided("input")
                        continue
                    base = n.func.value
                    if isinstance(base, ast.Attribute):
                        rep.violation("input", "%s:%s" % (key, ast.unparse(n.func)), "%s:%d" % (m.path, n.lineno),
                                      "%s writes to %s while analysing a file" % (label, ast.unparse(base)))
                    else:
                        rep.undecided("input")
            if m.name.startswith("hachoir.stream") or m.name.startswith("hachoir.field"):
                rep.passed("input")
        hit = False
        for n, r in references(sc, nodes, p):
            if r in effectful and r is not f and not under(r.module.name, ("hachoir.core.log", "hachoir.core.i18n")) \
                    and not (r.module is m and under(m.name, PURPOSE[effectful[r][0]])):
                e, d = effectful[r]
                if e == "write" and (under(m.name, WRITERS) or f is not None and f.name.lower().startswith(("write", "save"))):
                    continue
                if f is not None and prints_by_name(f) and e in ("stdout", "exit"):
                    continue
                hit = True
                rep.violation("reach", "%s:%s" % (key, r.name), "%s:%d" % (m.path, n.lineno), "%s uses %s, which %s (%s)" % (
                    label, r.qual, TEXT[e], d))
        if not hit:
            rep.passed("reach")


def prints_by_name(f):
    return f.name.startswith(("print", "display", "usage"))


def harmless_exec(d, n, nodes, sc):
    """type tests, and importing a module of the package by its literal name"""
    if d.startswith("types."):
        return not any(isinstance(x, ast.Call) and x.func is n for x in nodes)
    if d in ("builtins.__import__", "importlib.import_module"):
        calls = [x for x in nodes if isinstance(x, ast.Call) and x.func is n]
        return bool(calls) and all(c.args and sc.const(c.args[0]) for c in calls)
    return False


def buffer(e, sc):
    """the expression is a buffer in memory made here"""
    if isinstance(e, ast.Name):
        vals = sc.locals.get(e.id)
        return bool(vals) and all(isinstance(v, ast.Call) and isinstance(sc.resolve(v.func), External)
                                  and sc.resolve(v.func).dotted in BUFFERS for v in vals)
    return False


def references(sc, nodes, p):
    for n in nodes:
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            r = sc.resolve(n)
            if isinstance(r, ClassInfo):
                r = p.find_attr(r, "__init__")
            if isinstance(r, list):
                r = r[-1] if r else None
            if isinstance(r, FuncInfo):
                yield n, r
