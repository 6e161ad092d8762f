"""Whatever is opened or changed for a while is closed or put back, whatever happens."""
import ast
from ..effects import Scope, units
from ..oblig import Oblig, C, returns, strip_epoch
from ..flow import find_terms, callee_name
from ..typestate import Typestate, calls_in_order
from ..project import External, FuncInfo, ClassInfo, body_nodes, AnalysisBroken

GUI = ("hachoir.wx", "hachoir.urwid", "hachoir.metadata.gtk", "hachoir.metadata.qt", "hachoir.test")
ACQUIRE = {"builtins.open", "io.open", "codecs.open", "os.open", "os.fdopen", "os.dup", "tempfile.TemporaryFile",
           "tempfile.NamedTemporaryFile", "socket.socket", "gzip.open", "bz2.open", "zipfile.ZipFile", "tarfile.open"}
CALM = {"len", "str", "isinstance", "issubclass", "getattr", "hasattr", "list", "tuple", "dict", "set", "repr", "bool", "print",
        "type", "id", "min", "max", "int", "bytes", "super", "abs", "callable", "range", "iter", "enumerate", "zip", "sorted"}
CALM_METHODS = {"pop", "get", "append", "setdefault", "strip", "items", "keys", "values", "split", "join", "format", "extend",
                "startswith", "endswith", "lower", "upper", "copy", "update", "add", "insert", "close", "rstrip", "lstrip",
                "print_help", "parse_args"}
END = {"sys.exit", "builtins.exit", "builtins.quit", "os._exit"}


class Names:
    """resolution of callees in one function"""

    def __init__(self, project):
        self.p = project
        self.scopes = {}
        self.quiet = {}
        self.props = None

    def properties(self):
        if self.props is None:
            self.props = set()
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "property":
                        self.props.update(t.id for t in n.targets if isinstance(t, ast.Name))
                    elif isinstance(n, ast.FunctionDef) and any(getattr(d, "id", "") == "property" for d in n.decorator_list):
                        self.props.add(n.name)
        return self.props

    def scope(self, f):
        if f not in self.scopes:
            outer = self.scope(f.parent) if isinstance(f.parent, FuncInfo) else None
            self.scopes[f] = Scope(self.p, f.module, f, outer)
        return self.scopes[f]

    def callee(self, f, call):
        """dotted name of a function outside the project, FuncInfo, ClassInfo or None"""
        r = self.scope(f).resolve(call.func)
        if isinstance(r, External):
            return r.dotted
        if r is None and isinstance(call.func, ast.Name) and not self.scope(f).is_local(call.func.id):
            return "builtins." + call.func.id
        return r

    def calm(self, f, call, depth=0):
        """the call cannot raise (as far as anyone cares)"""
        c = self.callee(f, call)
        if isinstance(c, str):
            return c.startswith("builtins.") and c[9:] in CALM
        if isinstance(c, ClassInfo):
            init = self.p.find_attr(c, "__init__")
            if init is None:
                return not self.p.external_bases(c)
            c = init
        if isinstance(c, FuncInfo):
            return self.body_calm(c, depth)
        return isinstance(call.func, ast.Attribute) and call.func.attr in CALM_METHODS and c is None

    def body_calm(self, f, depth=0):
        if f in self.quiet:
            return self.quiet[f]
        if depth > 5:
            return False
        self.quiet[f] = True
        ok = True
        for n in body_nodes(f.node):
            if isinstance(n, (ast.Raise, ast.Assert, ast.Await, ast.Yield, ast.YieldFrom)):
                ok = False
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                ok = False
            elif isinstance(n, ast.Call) and not self.calm(f, n, depth + 1):
                ok = False
        self.quiet[f] = ok
        return ok


def mentions(e, names):
    return any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(e))


class Resource(Typestate):
    """state: None (nothing open), or (names, maybe): held by these names (those in maybe may be None instead)"""

    def __init__(self, nm, f, site, target):
        self.nm, self.f, self.site, self.target = nm, f, site, target
        self.lost = None
        self.flags = flags_of(f, site)

    def harmless(self, call):
        return self.nm.calm(self.f, call)

    def raising(self, call, state):
        if state is None or self.harmless(call) or call is self.site:
            return {state} if not self.harmless(call) else set()
        if self.nm.callee(self.f, call) in END:
            return set()
        if self.closes(call, state):
            return set()
        return {state}

    def closes(self, call, state):
        return (state is not None and isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and
                call.func.attr in ("close", "__exit__") and isinstance(call.func.value, ast.Name) and
                call.func.value.id in state[0])

    def acts(self, call, state):
        if isinstance(call, (ast.Yield, ast.YieldFrom)):
            if state is not None and call.value is not None and mentions(call.value, state[0]):
                return {None}
            return {state}
        if isinstance(call, ast.Await):
            return {state}
        if self.nm.callee(self.f, call) in END:
            return set()
        if self.closes(call, state):
            return {None}
        if isinstance(call.func, ast.Attribute) and state is not None and call.func.attr in (
                "append", "add", "register", "callback", "enter_context", "push", "insert", "setdefault") and any(
                mentions(a, state[0]) for a in call.args) and isinstance(call.func.value, (ast.Attribute, ast.Name)) and (
                isinstance(call.func.value, ast.Attribute) or call.func.attr in ("callback", "enter_context", "push")):
            return {None}
        return {state}

    def stored(self, st, state):
        v = st.value
        targets = st.targets if isinstance(st, ast.Assign) else [st.target]
        if v is self.site_value and isinstance(st, (ast.Assign, ast.AnnAssign)):
            if state is not None:
                self.lost = st
            return {(frozenset(self.target), frozenset())}
        if state is None or v is None:
            return {state}
        names, maybe = state
        if mentions(v, names):
            for t in targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    return {None}
        new = set()
        for t in targets:
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    new.add(n.id)
        if not new:
            return {state}
        if isinstance(v, ast.Name) and v.id in names:
            add, m = True, v.id in maybe
        elif isinstance(v, ast.Call) and any(mentions(a, names) for a in list(v.args) + [k.value for k in v.keywords]):
            # the answer of a function given the resource may keep it
            c = self.nm.callee(self.f, v)
            add = not (isinstance(c, str) and c.startswith("builtins."))
            m = not isinstance(c, ClassInfo)
        elif isinstance(v, (ast.Tuple, ast.List, ast.Dict, ast.IfExp, ast.BoolOp)) and mentions(v, names):
            add, m = True, not mentions(v, names - maybe)
        else:
            add, m = False, False
        names2 = (names - new) | (new if add else set())
        maybe2 = (maybe - new) | (new if add and m else set())
        if not names2:
            self.lost = st
        return {(frozenset(names2), frozenset(maybe2))}

    def returned(self, st, states):
        if st.value is None:
            return states
        r = set()
        for s in states:
            if s is not None and self.site_value is st.value:
                s = None
            if s is not None and (mentions(st.value, s[0] - s[1])):
                s = None
            r.add(s)
        return r

    def refine(self, test, state, truth):
        if state is None:
            return {state}
        names, maybe = state
        name = is_none = None
        for e, b in self.flags:
            if ast.dump(e) == ast.dump(test) and b != truth:
                return {None}       # opened only if the test holds
        if isinstance(test, ast.Name):
            name, is_none = test.id, not truth
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.ops[0], (ast.Is, ast.Eq)):
                name, is_none = test.left.id, truth
            elif isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
                name, is_none = test.left.id, not truth
        if name is not None and name not in names and self.keepers(name):
            # bound to None at first, then to what keeps the resource: it is still None
            return {state} if is_none else set()
        if name is None or name not in names:
            return {state}
        if not is_none:
            return {(names, maybe - {name})}
        if name in maybe:
            names = names - {name}
            return {(names, maybe - {name}) if names else None}
        return {None}       # the resource itself is None: nothing was opened

    def keepers(self, name):
        vals = [n.value for n in body_nodes(self.f.node) if isinstance(n, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == name for t in n.targets)]
        none = [v for v in vals if isinstance(v, ast.Constant) and v.value is None]
        keep = [v for v in vals if isinstance(v, ast.Call) and any(mentions(a, set(self.target)) for a in v.args)]
        return bool(none) and bool(keep) and len(none) + len(keep) == len(vals)

    def left(self, item, state):
        if state is not None:
            e = item.context_expr
            if isinstance(e, ast.Name) and e.id in state[0] or isinstance(e, ast.Call) and mentions(e, state[0]) and (
                    getattr(e.func, "id", getattr(e.func, "attr", "")) == "closing"):
                return {None}
        return {state}


def flags_of(f, site):
    """tests (of a name or of isinstance) which hold where the resource is opened and do not change afterwards"""
    out = []

    def visit(body, flags):
        for st in body:
            if not any(x is site for x in ast.walk(st)):
                continue
            if isinstance(st, ast.If):
                t, b = st.test, True
                while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    t, b = t.operand, not b
                if any(x is site for s in st.body for x in ast.walk(s)):
                    visit(st.body, flags + [(t, b)])
                elif any(x is site for s in st.orelse for x in ast.walk(s)):
                    visit(st.orelse, flags + [(t, not b)])
                continue
            subs = [getattr(st, n) for n in ("body", "orelse", "finalbody") if isinstance(getattr(st, n, None), list)]
            subs += [h.body for h in getattr(st, "handlers", ())]
            if subs and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                for s in subs:
                    visit(s, flags)
            else:
                out.extend(flags)
    visit(f.node.body, [])
    return [(t, b) for t, b in out if isinstance(t, ast.Name) and sum(
        1 for n in body_nodes(f.node) if isinstance(n, ast.Name) and n.id == t.id and isinstance(n.ctx, ast.Store)) <= 1]


def library(m):
    return not any(m.name == g or m.name.startswith(g + ".") for g in GUI)


def acquirers(nm):
    """project functions which answer something they opened"""
    p = nm.p
    found = {}
    changed = True
    while changed:
        changed = False
        for f in p.functions:
            if f in found or isinstance(f.node, ast.Lambda) or not library(f.module):
                continue
            ret = set()
            for n in body_nodes(f.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    for x in ast.walk(n.value):
                        if isinstance(x, ast.Name):
                            ret.add(x.id)
                        if isinstance(x, ast.Call) and is_acquire(nm, f, x, found):
                            found[f] = True
                            changed = True
            if f in found or not ret:
                continue
            # names which hold, directly or through calls, something opened
            hold = set()
            grow = True
            while grow:
                grow = False
                for n in body_nodes(f.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                        c = n.value
                        if is_acquire(nm, f, c, found) or any(mentions(a, hold) for a in c.args):
                            if isinstance(nm.callee(f, c), str) and nm.callee(f, c).startswith("builtins.") and \
                                    nm.callee(f, c) not in ACQUIRE:
                                continue
                            for t in n.targets:
                                for x in ast.walk(t):
                                    if isinstance(x, ast.Name) and x.id not in hold:
                                        hold.add(x.id)
                                        grow = True
            for n in body_nodes(f.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    vals = [n.value] if not isinstance(n.value, ast.Tuple) else n.value.elts
                    for v in vals:
                        direct = isinstance(v, ast.Name) and v.id in hold
                        wrap = isinstance(v, ast.Call) and isinstance(nm.callee(f, v), (ClassInfo, FuncInfo)) and any(
                            mentions(a, hold) for a in v.args)
                        if direct or wrap:
                            found[f] = True
                            changed = True
    return found


def is_acquire(nm, f, call, found):
    c = nm.callee(f, call)
    if isinstance(c, str):
        return c in ACQUIRE
    return isinstance(c, FuncInfo) and c in found


def context_exprs(f):
    out = set()
    for n in body_nodes(f.node):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                out.add(i.context_expr)
                if isinstance(i.context_expr, ast.Call) and getattr(i.context_expr.func, "id", getattr(
                        i.context_expr.func, "attr", "")) == "closing":
                    out.update(i.context_expr.args)
    return out


def resources(ctx, rep, nm):
    p = ctx.project
    found = acquirers(nm)
    rep.rule("opened", "what a function of the library or of a command line tool opens is closed, kept by an object or "
             "answered, on every path (exceptions too)", 5)
    for f in sorted(p.functions, key=lambda f: f.where):
        if isinstance(f.node, ast.Lambda) or not library(f.module):
            continue
        sites = [n for n in body_nodes(f.node) if isinstance(n, ast.Call) and is_acquire(nm, f, n, found)]
        if not sites:
            continue
        withs = context_exprs(f)
        stmts = [n for n in body_nodes(f.node) if isinstance(n, ast.stmt)]
        for s in sites:
            where = "%s:%d" % (f.module.path, s.lineno)
            key = "%s:%s" % (f.module.name, f.qual)
            name = ast.unparse(s.func)
            if s in withs:
                rep.passed("opened", sample="%s: with %s" % (f.where, name))
                continue
            holder = [st for st in stmts if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and
                      any(x is s for x in ast.walk(st.value))]
            ret = [st for st in stmts if isinstance(st, ast.Return) and st.value is not None and
                   any(x is s for x in ast.walk(st.value))]
            if ret:
                # answered; only what runs between opening and answering can lose it
                v = ret[0].value
                outer = [c for c in calls_in_order(v) if c is not s and any(x is s for x in ast.walk(c))]
                bad = [c for c in outer if not nm.calm(f, c)]
                if bad and not all(isinstance(nm.callee(f, c), (ClassInfo, FuncInfo)) for c in bad):
                    rep.undecided("opened")
                elif bad:
                    rep.violation("opened", key + ":" + name, where, "%s: what %s() opens is lost if %s() raises" %
                                  (f.qual, name, ast.unparse(bad[0].func)))
                else:
                    rep.passed("opened", sample="%s: answers %s()" % (f.where, name))
                continue
            if not holder:
                owner = [st for st in stmts if isinstance(st, ast.Expr) and any(x is s for x in ast.walk(st.value))]
                if owner and (owner[0].value is s or any(isinstance(c, ast.Call) and isinstance(nm.callee(f, c), str) and s in c.args
                                                         for c in ast.walk(owner[0].value))):
                    rep.violation("opened", key + ":" + name, where, "%s: what %s() opens is never closed" % (f.qual, name))
                else:
                    rep.undecided("opened")
                continue
            st = holder[0]
            targets = st.targets if isinstance(st, ast.Assign) else [st.target]
            v = st.value
            if isinstance(v, ast.IfExp):
                v = v.body if any(x is s for x in ast.walk(v.body)) else v.orelse
            if any(isinstance(n, ast.Attribute) and n.value is s for n in ast.walk(v)):
                rep.violation("opened", key + ":" + name, where, "%s: what %s() opens is never closed" % (f.qual, name))
                continue
            if v is not s and not (isinstance(v, ast.Call) and s in v.args):
                rep.undecided("opened")
                continue
            if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in targets):
                t = [t for t in targets if isinstance(t, (ast.Attribute, ast.Subscript))][0]
                rep.passed("opened", sample="%s: kept in %s" % (f.where, ast.unparse(t)))
                continue
            first = targets[0]
            if isinstance(first, ast.Tuple):
                first = first.elts[0]
            if not isinstance(first, ast.Name):
                rep.undecided("opened")
                continue
            ts = Resource(nm, f, s, [first.id])
            ts.site_value = st.value
            ex = ts.exits(f.node.body, {None})
            bad = sorted([(ln, k) for k, state, ln in ex if state is not None])
            if ts.lost is not None and not bad:
                bad = [(ts.lost.lineno, "rebind")]
            if bad:
                ln, k = bad[0]
                how = {"raise": "when line %d raises", "return": "at the return in line %d", "fall": "at the end (line %d)",
                       "rebind": "when its name is bound again in line %d"}.get(k, "in line %d")
                rep.violation("opened", key + ":" + name, where, "%s: what %s() opens is not closed %s" % (f.qual, name, how % ln))
            else:
                rep.passed("opened", sample="%s: %s() closed or handed on" % (f.where, name))


# ---- process state which is changed for a while

class Swap:
    """set function, how the old value is known, function which asks for it"""

    def __init__(self, what, setter, getter=None, old=False, reset=None, query=0):
        self.what, self.setter, self.getter, self.old, self.reset, self.query = what, setter, getter, old, reset, query


SWAPS = [Swap("the locale", "locale.setlocale", "locale.setlocale", query=1),
         Swap("a signal handler", "signal.signal", "signal.getsignal", old=True),
         Swap("the alarm", "signal.alarm", reset=0),
         Swap("a resource limit", "resource.setrlimit", "resource.getrlimit"),
         Swap("the memory limit", "hachoir.core.memory.setMemoryLimit", "hachoir.core.memory.getMemoryLimit"),
         Swap("the current directory", "os.chdir", "os.getcwd"),
         Swap("the switch interval", "sys.setswitchinterval", "sys.getswitchinterval"),
         Swap("the recursion limit", "sys.setrecursionlimit", "sys.getrecursionlimit")]
SETUP = {"hachoir.core.i18n", "hachoir.test"}
SETTERS = {"hachoir.core.memory.setMemoryLimit"}


class Swapped(Typestate):
    """state: (name with the old value or None, changed, flag which tells that it was changed)"""

    def __init__(self, nm, f, sw):
        self.nm, self.f, self.sw = nm, f, sw
        self.saved = {t.id for n in body_nodes(f.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and
                      (self.is_get(n.value) or sw.old and self.is_set(n.value)) for t in n.targets if isinstance(t, ast.Name)}

    def dotted(self, call):
        c = self.nm.callee(self.f, call)
        if isinstance(c, str):
            return c
        if isinstance(c, FuncInfo):
            return c.module.name + "." + c.qual
        if c is not None and getattr(c, "name", None) and not isinstance(c, ClassInfo):
            return getattr(getattr(c, "module", None), "name", "") + "." + c.name
        if isinstance(call.func, ast.Name):
            # a function defined in two ways
            return self.f.module.name + "." + call.func.id
        return None

    def is_set(self, c):
        if not isinstance(c, ast.Call) or self.dotted(c) != self.sw.setter:
            return False
        return len(c.args) + len(c.keywords) > self.sw.query

    def is_get(self, c):
        if not isinstance(c, ast.Call):
            return False
        if self.sw.query:
            return self.dotted(c) == self.sw.getter and not self.is_set(c)
        return self.dotted(c) == self.sw.getter

    def restores(self, c, state):
        if self.sw.reset is not None:
            return bool(c.args) and isinstance(c.args[0], ast.Constant) and c.args[0].value == self.sw.reset
        if self.sw.query and len(c.args) > 1 and self.is_query_value(c.args[-1]):
            return True
        if not c.args or not isinstance(c.args[-1], ast.Name):
            return False
        if not state[1]:
            # nothing was changed on this path
            return c.args[-1].id in self.saved
        return state[0] is not None and c.args[-1].id in state[0]

    def is_query_value(self, a):
        return False

    def harmless(self, call):
        return self.nm.calm(self.f, call) or isinstance(call, ast.Call) and self.any_swap(call)

    def any_swap(self, call):
        d = self.dotted(call)
        return any(d in (sw.setter, sw.getter) for sw in SWAPS)

    def raising(self, call, state):
        if self.harmless(call) or isinstance(call, ast.Call) and self.is_set(call) and self.restores(call, state):
            return set()
        return {state}

    def acts(self, call, state):
        if isinstance(call, ast.Call) and self.is_set(call):
            if self.restores(call, state):
                return {(state[0], False, None)}
            return {(state[0], True, None)}
        return {state}

    def stored(self, st, state):
        names = [n.id for t in (st.targets if isinstance(st, ast.Assign) else [st.target]) for n in ast.walk(t)
                 if isinstance(n, ast.Name)]
        v = getattr(st, "value", None)
        old, changed, flag = state
        if isinstance(v, ast.Call) and self.is_get(v) and names:
            return {(frozenset(names) if not changed else old, changed, flag)}
        if isinstance(v, ast.Call) and self.is_set(v) and names and not self.restores(v, state):
            if self.sw.old:
                return {(frozenset(names), True, None)}
            return {(old, True, names[0])}
        if isinstance(v, ast.Name) and old is not None and v.id in old:
            return {(old | set(names), changed, flag)}
        if old is not None and set(names) & old:
            old = (old - set(names)) or None
        if flag in names:
            if isinstance(v, ast.Constant) and not v.value:
                flag = None if changed else flag
            else:
                flag = None
        return {(old, changed, flag)}

    def refine(self, test, state, truth):
        if isinstance(test, ast.Name) and test.id == state[2] and not truth:
            return {(state[0], False, None)}
        return {state}


def swaps(ctx, rep, nm):
    p = ctx.project
    rep.rule("put-back", "process state (locale, signal handlers, alarm, limits) changed for a while is put back on every "
             "path", 2)
    for f in sorted(p.functions, key=lambda f: f.where):
        if isinstance(f.node, ast.Lambda) or f.module.name in SETUP or f.module.name + "." + f.qual in SETTERS:
            continue
        if not library(f.module):
            continue
        for sw in SWAPS:
            ts = Swapped(nm, f, sw)
            if not any(isinstance(n, ast.Call) and ts.is_set(n) for n in body_nodes(f.node)):
                continue
            ex = ts.exits(f.node.body, {(None, False, None)})
            bad = sorted((ln, k) for k, s, ln in ex if s[1])
            key = "%s:%s:%s" % (f.module.name, f.qual, sw.what)
            if bad:
                ln, k = bad[0]
                rep.violation("put-back", key, "%s:%d" % (f.module.path, f.node.lineno), "%s: %s is not put back %s line %d" % (
                    f.qual, sw.what, {"raise": "when an exception comes out of", "return": "at the return in"}.get(
                        k, "at the end, after"), ln))
            else:
                rep.passed("put-back", sample="%s: %s" % (f.where, sw.what))


# ---- attributes which are changed for a while

class AttrSwap(Typestate):
    """state: (names with the old value, changed) of one attribute"""

    def __init__(self, nm, f, attr, rest=None):
        self.nm, self.f, self.attr, self.rest = nm, f, attr, rest

    def expr(self, e, states, out):
        # properties of other objects run code
        for n in ast.walk(e) if e is not None else ():
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in self.nm.properties() and not (
                    isinstance(n.value, ast.Name) and n.value.id in ("self", "fieldset")):
                for s in states:
                    out.add(('raise', s, n.lineno))
        return Typestate.expr(self, e, states, out)

    def method(self, call):
        """the method of the same object which is called, if it sets the attribute"""
        fn = getattr(call, "func", None)
        if not isinstance(fn, ast.Attribute) or not isinstance(fn.value, ast.Name) or fn.value.id != "self" or not self.f.cls:
            return None
        g = self.nm.p.find_attr(self.f.cls, fn.attr)
        if isinstance(g, FuncInfo) and g is not self.f and not g.node.decorator_list and sets(g, self.attr):
            return g

    def harmless(self, call):
        return self.nm.calm(self.f, call) or self.method(call) is not None

    def acts(self, call, state):
        g = self.method(call)
        if g is not None:
            ex = AttrSwap(self.nm, g, self.attr, self.rest).exits(g.node.body, {state})
            return {s for k, s, ln in ex if k in ("fall", "return")}
        return {state}

    def stored(self, st, state):
        targets = st.targets if isinstance(st, ast.Assign) else [st.target]
        old, changed = state
        v = getattr(st, "value", None)
        if isinstance(st, ast.Assign) and isinstance(v, ast.Attribute) and v.attr == self.attr:
            names = {n.id for t in targets for n in ast.walk(t) if isinstance(n, ast.Name)}
            if names and not changed:
                return {((old or frozenset()) | names, changed)}
        for t in targets:
            if isinstance(t, ast.Attribute) and t.attr == self.attr:
                if isinstance(st, ast.Assign) and (
                        isinstance(v, ast.Name) and old and v.id in old or
                        self.rest is not None and isinstance(v, ast.Constant) and v.value is self.rest):
                    return {(old, False)}
                return {(old, True)}
        return {state}


def sets(f, attr):
    return any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) for n in body_nodes(f.node))


def attrs(ctx, rep, nm):
    p = ctx.project
    rep.rule("attribute", "an attribute changed for a while (place of the next field, feeding flag) is put back on every "
             "path", 2)
    for name, attr, rest, kinds in (
            ("hachoir.field.helper.createOrphanField", "_current_size", None, "the place of the next field"),
            ("hachoir.field.generic_field_set.GenericFieldSet._addField", "__is_feeding", False, "the feeding flag")):
        f = p.func(name)
        fs = [f]
        ts = AttrSwap(nm, f, attr, rest)
        if not sets(f, attr) and not any(isinstance(n, ast.Call) and ts.method(n) for n in body_nodes(f.node)):
            # moved into a helper (a context manager)
            fs = [g for g in p.functions if g.module is f.module and sets(g, attr) and g.node.decorator_list]
            if not fs:
                rep.violation("attribute", name + ":" + attr, f.where, "%s: %s is not set" % (f.qual, kinds))
                continue
        for g in fs:
            ts = AttrSwap(nm, g, attr, rest)
            ex = ts.exits(g.node.body, {(None, False)})
            bad = sorted((ln, k) for k, s, ln in ex if s[1])
            if bad:
                ln, k = bad[0]
                rep.violation("attribute", name + ":" + attr, "%s:%d" % (g.module.path, g.node.lineno),
                              "%s: %s is not put back %s line %d" % (g.qual, kinds, {
                                  "raise": "when an exception comes out of", "return": "at the return in"}.get(k, "after"), ln))
            else:
                rep.passed("attribute", sample="%s: %s" % (g.where, attr))


# ---- closing

CLOSES = {
    "hachoir.stream.input.InputIOStream": "_input",
    "hachoir.stream.input.InputSubStream": None,
    "hachoir.stream.output.OutputStream": "_output",
    "hachoir.field.parser.Parser": "stream",
    "hachoir.field.seekable_field_set.RootSeekableFieldSet": "stream",
    "hachoir.parser.misc.ole2.OLE2_File": "stream",
}


def reaches_close(nm, p, cls, f, attr, seen=None):
    """f closes self.<attr> (or calls a method which does)"""
    seen = seen or set()
    if f in seen or not isinstance(f, FuncInfo):
        return False
    seen.add(f)
    # on every path
    class T(Typestate):
        def harmless(self, call):
            return True

        def acts(self, call, state):
            fn = getattr(call, "func", None)
            if isinstance(fn, ast.Attribute):
                if fn.attr == "close" and isinstance(fn.value, ast.Attribute) and fn.value.attr == attr:
                    return {True}
                if fn.attr == "close" and isinstance(fn.value, ast.Name) and fn.value.id in aliases:
                    return {True}
                if isinstance(fn.value, ast.Name) and fn.value.id == "self":
                    g = p.find_attr(cls, fn.attr)
                    if reaches_close(nm, p, cls, g, attr, seen):
                        return {True}
                if isinstance(fn.value, ast.Call) and getattr(fn.value.func, "id", "") == "super" or isinstance(fn.value, ast.Name):
                    g = None
                    for b in p.mro(cls)[1:]:
                        if isinstance(b, ClassInfo) and isinstance(p.find_attr(b, fn.attr), FuncInfo):
                            g = p.find_attr(b, fn.attr)
                            break
                    if (isinstance(fn.value, ast.Call) or isinstance(nm.scope(f).resolve(fn.value), ClassInfo)) and \
                            reaches_close(nm, p, cls, g, attr, seen):
                        return {True}
            return {state}

        def refine(self, test, state, truth):
            # nothing to close: `if self.stream is None`
            if any(isinstance(n, ast.Attribute) and n.attr == attr for n in ast.walk(test)):
                neg = isinstance(test, ast.Compare) and isinstance(test.ops[0], (ast.Is, ast.Eq))
                if truth == neg:
                    return {True}
            return {state}
    aliases = {t.id for n in body_nodes(f.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and
               n.value.attr == attr for t in n.targets if isinstance(t, ast.Name)}
    ends = [s for k, s, ln in T().exits(f.node.body, {False}) if k in ("fall", "return")]
    return bool(ends) and all(ends)


def closing(ctx, rep, nm):
    p = ctx.project
    rep.rule("close", "closing a parser closes its stream, closing a stream its file; leaving `with` closes, also after an "
             "exception, which is not swallowed", 8)
    classes = []
    for name, attr in CLOSES.items():
        c = p.cls(name)
        classes.append(c)
        if attr is None:
            continue
        f = p.find_attr(c, "close")
        if not isinstance(f, FuncInfo):
            rep.violation("close", name + ":close", c.where, "%s cannot be closed" % c.name)
            continue
        if reaches_close(nm, p, c, f, attr):
            rep.passed("close", sample="%s.close() closes %s" % (c.name, attr))
        else:
            rep.violation("close", name + ":close", f.where, "%s.close() does not close its %s" % (c.name, attr.strip("_")))
    # a stream inside another one (of a subfile) does not close it: others read it
    for name in ("hachoir.stream.input.InputSubStream", "hachoir.stream.input.FragmentedStream",
                 "hachoir.stream.input.InputFieldStream"):
        if name not in CLOSES and not any(k.fullname == name for k in p.classes):
            continue
        c = p.cls(name)
        f = p.find_attr(c, "close")
        bad = not isinstance(f, FuncInfo) or any(
            isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "close" for n in body_nodes(f.node))
        if bad:
            rep.violation("close", name + ":shared", c.where, "closing a %s closes the stream it is a part of, which others read" % c.name)
        else:
            rep.passed("close", sample="%s.close() leaves the whole stream open" % c.name)
    for c in classes:
        x, e = p.find_attr(c, "__exit__"), p.find_attr(c, "__enter__")
        if not isinstance(x, FuncInfo) or not isinstance(e, FuncInfo):
            rep.violation("close", c.fullname + ":with", c.where, "%s cannot be used in a with statement" % c.name)
            continue
        if exit_closes(nm, p, c, x):
            rep.passed("close", sample="%s.__exit__ closes" % c.name)
        else:
            rep.violation("close", c.fullname + ":exit", x.where, "%s.__exit__() does not close on every path" % c.name)
        if swallows(x):
            rep.violation("close", c.fullname + ":swallow", x.where, "%s.__exit__() swallows the exception" % c.name)
        else:
            rep.passed("close")
        rets = [n for n in body_nodes(e.node) if isinstance(n, ast.Return)]
        if rets and all(isinstance(n.value, ast.Name) and n.value.id == e.params[0] for n in rets):
            rep.passed("close", sample="%s.__enter__ answers itself" % c.name)
        else:
            rep.violation("close", c.fullname + ":enter", e.where, "%s.__enter__() does not answer the object itself" % c.name)


def exit_closes(nm, p, cls, f):
    class T(Typestate):
        def harmless(self, call):
            return True

        def acts(self, call, state):
            fn = getattr(call, "func", None)
            if isinstance(fn, ast.Attribute) and fn.attr == "close":
                return {True}
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == "self":
                g = p.find_attr(cls, fn.attr)
                if isinstance(g, FuncInfo) and g is not f and exit_closes(nm, p, cls, g):
                    return {True}
            return {state}
    ends = [s for k, s, ln in T().exits(f.node.body, {False}) if k in ("fall", "return")]
    return bool(ends) and all(ends)


def swallows(f):
    for n in body_nodes(f.node):
        if isinstance(n, ast.Return) and n.value is not None:
            v = n.value
            if isinstance(v, ast.Constant) and not v.value:
                continue
            if isinstance(v, ast.Constant) or isinstance(v, (ast.Name, ast.Compare)):
                return True
    return False


def limits(ctx, rep):
    """the limit which is put back is the one which was in force"""
    rep.rule("limit", "getMemoryLimit() answers the limit as setMemoryLimit() takes it", 1)
    ob = Oblig(ctx, rep)
    p = ctx.project
    n = 0
    for f in p.functions:
        if f.module.name != "hachoir.core.memory" or f.qual != "getMemoryLimit":
            continue
        for o in returns(ob.outs(f, exc='none')):
            v = strip_epoch(o.value)
            calls = find_terms(v, lambda t: t[0] == 'call' and callee_name(t[1]) == 'getrlimit')
            if not calls:
                continue
            n += 1
            ok = v[0] == 'item' and v[1] in calls and v[2] == C(0)
            ob.check("limit", f, ok, "the soft limit", "the answer is not the soft limit as the system has it", o.node)
    if not n:
        raise AnalysisBroken("getMemoryLimit: no getrlimit()")


def run(ctx, rep):
    nm = Names(ctx.project)
    limits(ctx, rep)
    resources(ctx, rep, nm)
    swaps(ctx, rep, nm)
    attrs(ctx, rep, nm)
    closing(ctx, rep, nm)
