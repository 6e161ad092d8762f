"""Scope resolution: which names are bound where (compiler symbol tables) and
the attribute vocabulary of program classes and of the Python runtime."""
import ast
import builtins
import importlib
import symtable

from .project import ClassInfo, External, FuncInfo, Module, ValueBinding

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__builtins__",
                                 "__spec__", "__loader__", "__package__", "__annotations__",
                                 "__module__", "__qualname__", "WindowsError"}


def global_uses(mod):
    """(name, lineno, scope name) of every name a scope of the module reads
    from the module's globals, from the compiler's own symbol table."""
    out = []
    try:
        top = symtable.symtable(mod.source.decode("utf-8", "replace") if isinstance(mod.source, bytes)
                                else mod.source, mod.path, "exec")
    except SyntaxError:
        return out
    comp_targets = {x.id for nd in ast.walk(mod.tree) if isinstance(nd, ast.comprehension)
                    for x in ast.walk(nd.target) if isinstance(x, ast.Name)}
    declared = set()     # names functions create through "global"

    def visit(t, path):
        for s in t.get_symbols():
            if t.get_type() == "module":
                if s.is_referenced() and s.get_name() not in comp_targets:
                    out.append((s.get_name(), t, path))
                continue
            if s.is_global():
                if s.is_assigned():
                    declared.add(s.get_name())
                if s.is_referenced():
                    out.append((s.get_name(), t, path))
        for c in t.get_children():
            visit(c, path + [c.get_name()])
    visit(top, [])
    return out, declared


def module_has(project, mod, name, seen=None):
    """True / False / None (unknown: external star import)"""
    seen = seen or set()
    if mod.name in seen:
        return False
    seen = seen | {mod.name}
    if name in mod.bindings:
        return True
    unknown = False
    for base in mod.stars:
        if base in project.modules:
            if not name.startswith("_"):
                r = module_has(project, project.modules[base], name, seen)
                if r:
                    return True
                if r is None:
                    unknown = True
        else:
            ext = ext_module(base)
            if ext is None:
                unknown = True
            elif hasattr(ext, name):
                return True
    if mod.is_pkg and (mod.name + "." + name) in project.modules:
        return True
    return None if unknown else False


_ext = {}
THIRD_PARTY_OK = False


def ext_module(dotted):
    """A standard library module (consulted for its vocabulary), else None."""
    if dotted in _ext:
        return _ext[dotted]
    import sys
    r = None
    if dotted.split(".")[0] in sys.stdlib_module_names and dotted.split(".")[0] not in ("antigravity", "this"):
        try:
            r = importlib.import_module(dotted)
        except Exception:
            r = None
    _ext[dotted] = r
    return r


def ext_resolve(dotted):
    """(known, object): the runtime object a dotted external name denotes."""
    parts = dotted.split(".")
    for i in range(len(parts), 0, -1):
        m = ext_module(".".join(parts[:i]))
        if m is not None:
            o = m
            for p in parts[i:]:
                if not hasattr(o, p):
                    return True, None, parts[:i], p
                o = getattr(o, p)
            return True, o, None, None
    return False, None, None, None


TYPES = {"int": int, "str": str, "bytes": bytes, "float": float, "bool": bool, "list": list,
         "dict": dict, "set": set, "tuple": tuple, "frozenset": frozenset, "NoneType": type(None),
         "bytearray": bytearray, "complex": complex}


def class_has(project, types, cls, name, is_open=True):
    """Can an instance of cls (or of a subclass) have this attribute?
    True / False / None (unknown)."""
    if hasattr(object, name):
        return True
    fam = [cls] + (project.descendants(cls) if is_open else [])
    unknown = False
    for c in fam:
        for k in project.mro(c):
            if isinstance(k, ClassInfo):
                if name in k.attrs or name in k.inst_attrs:
                    return True
                if "__getattr__" in k.attrs or "__getattribute__" in k.attrs:
                    unknown = True
                if k.node.keywords:
                    unknown = True
                if getattr(k, "dyn_attrs", None) is None:
                    k.dyn_attrs = has_dynamic_setattr(k)
                if k.dyn_attrs:
                    unknown = True
            elif isinstance(k, External):
                known, o, _, _ = ext_resolve(k.dotted)
                if not known or o is None:
                    unknown = True
                elif hasattr(o, name):
                    return True
                elif isinstance(o, type) and issubclass(o, BaseException) and o is not Exception:
                    unknown = True
            else:
                unknown = True
    return None if unknown else False


def has_dynamic_setattr(c):
    for nd in ast.walk(c.node):
        if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Name) and nd.func.id == "setattr":
            return True
        if isinstance(nd, ast.Attribute) and nd.attr in ("__dict__",):
            return True
    return False
