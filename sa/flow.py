"""Path-partitioned abstract interpretation of one function (no solver).

Values are normalised symbolic terms (nested tuples), so local names, the
split of an expression into statements, the order of independent statements
and shift/multiplication spellings do not show.  Paths are partitioned by the
branch conditions; loops are cut at their back edge after forgetting what the
body assigns; calls are opaque events unless the callee is a helper unknown
to the recorded vocabulary (an extracted helper) or the rule asks to inline.

An analysis yields outcomes: how the path ends ('return', 'raise',
'backedge'), its value, its conditions and its events (calls, stores, yields)
in order.
"""
import ast
import builtins
import json
import os

from .project import ClassInfo, External, FuncInfo, Module, ValueBinding, assigned_pairs, body_nodes, iter_own

NONE = ('const', None)
TRUE = ('const', True)
FALSE = ('const', False)

_vocab_path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "vocab.json")


def load_vocab():
    with open(_vocab_path) as fp:
        return set(json.load(fp))


class TooComplex(Exception):
    pass


# -- terms --------------------------------------------------------------------

def is_num(t):
    return t[0] == 'const' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)


def lin_parts(t):
    """(const, {term: coef}) of a term"""
    if is_num(t):
        return t[1], {}
    if t[0] == 'const' and isinstance(t[1], bool):
        return int(t[1]), {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def lin(const, parts):
    parts = {k: v for k, v in parts.items() if v != 0}
    if not parts:
        return ('const', const)
    if const == 0 and len(parts) == 1:
        (k, v), = parts.items()
        if v == 1:
            return k
    return ('lin', const, tuple(sorted(parts.items(), key=lambda kv: tkey(kv[0]))))


_tk = {}


def tkey(t):
    r = _tk.get(t)
    if r is None:
        r = _tk[t] = repr(t)
    return r


def add(a, b, sign=1):
    if not (numeric_like(a) and numeric_like(b)):
        return ('bin', 'Add' if sign == 1 else 'Sub', a, b)
    c1, p1 = lin_parts(a)
    c2, p2 = lin_parts(b)
    out = dict(p1)
    for k, v in p2.items():
        out[k] = out.get(k, 0) + sign * v
    return lin(c1 + sign * c2, out)


def numeric_like(t):
    if t[0] == 'const':
        return isinstance(t[1], (int, float))
    return t[0] not in ('tuple', 'list', 'dict', 'fmt', 'cat', 'func', 'fn', 'cls', 'set')


def scale(t, k):
    c, p = lin_parts(t)
    return lin(c * k, {x: v * k for x, v in p.items()})


def binop(op, a, b):
    if a[0] == 'const' and b[0] == 'const':
        try:
            x, y = a[1], b[1]
            if op == 'Add':
                return ('const', x + y)
            if op == 'Sub':
                return ('const', x - y)
            if op == 'Mult':
                if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                    return ('const', x * y)
            if op == 'FloorDiv':
                return ('const', x // y)
            if op == 'Mod' and isinstance(x, int):
                return ('const', x % y)
            if op == 'LShift' and y < 200:
                return ('const', x << y)
            if op == 'RShift':
                return ('const', x >> y)
            if op == 'Pow' and abs(y) < 100:
                return ('const', x ** y)
            if op == 'BitOr':
                return ('const', x | y)
            if op == 'BitAnd':
                return ('const', x & y)
            if op == 'BitXor':
                return ('const', x ^ y)
        except Exception:
            pass
    if op == 'LShift' and is_num(b) and 0 <= b[1] < 64:
        return binop('Mult', a, ('const', 1 << b[1]))
    if op == 'RShift' and is_num(b) and 0 <= b[1] < 64:
        return binop('FloorDiv', a, ('const', 1 << b[1]))
    if op == 'Add':
        if numeric_like(a) and numeric_like(b):
            return add(a, b)
    elif op == 'Sub':
        return add(a, b, -1)
    elif op == 'Mult':
        if is_num(b) and isinstance(b[1], int) and numeric_like(a):
            return scale(a, b[1])
        if is_num(a) and isinstance(a[1], int) and numeric_like(b):
            return scale(b, a[1])
        if numeric_like(a) and numeric_like(b):
            a, b = sorted((a, b), key=tkey)
    elif op == 'FloorDiv' and is_num(b) and isinstance(b[1], int) and b[1] > 0:
        c, p = lin_parts(a)
        if isinstance(c, int) and all(isinstance(v, int) for v in p.values()):
            if c % b[1] == 0 and all(v % b[1] == 0 for v in p.values()):
                return lin(c // b[1], {k: v // b[1] for k, v in p.items()})
            if a[0] == 'bin' and a[1] == 'FloorDiv' and is_num(a[3]):
                return binop('FloorDiv', a[2], ('const', a[3][1] * b[1]))
        if b[1] == 1:
            return a
    elif op == 'Mod' and is_num(b) and isinstance(b[1], int) and b[1] > 0:
        c, p = lin_parts(a)
        if isinstance(c, int) and c % b[1] == 0 and all(
                isinstance(v, int) and v % b[1] == 0 for v in p.values()) and a[0] != 'const':
            return ('const', 0)
    elif op == 'BitAnd' and is_num(b) and isinstance(b[1], int) and b[1] > 0 and (b[1] + 1) & b[1] == 0:
        return binop('Mod', a, ('const', b[1] + 1))
    elif op in ('BitAnd', 'BitOr', 'BitXor'):
        a, b = sorted((a, b), key=tkey)
    return ('bin', op, a, b)


def mk_not(t):
    if t[0] == 'not':
        return t[1]
    if t[0] == 'const':
        return ('const', not t[1])
    return ('not', t)


def lt(a, b):
    """term for a < b"""
    if a[0] == 'const' and b[0] == 'const':
        try:
            return ('const', a[1] < b[1])
        except TypeError:
            pass
    if numeric_like(a) and numeric_like(b):
        d = add(a, b, -1)
        if d[0] == 'const':
            return ('const', d[1] < 0)
        c, p = lin_parts(d)
        return ('lt0', c, tuple(sorted(p.items(), key=lambda kv: tkey(kv[0]))))
    return ('lt', a, b)


def eq(a, b):
    if a == b:
        return TRUE
    if a[0] == 'const' and b[0] == 'const':
        return ('const', a[1] == b[1])
    if a[0] == 'const' and a[1] is None or b[0] == 'const' and b[1] is None:
        return isnone(a if b[0] == 'const' and b[1] is None else b)
    if numeric_like(a) and numeric_like(b):
        d = add(a, b, -1)
        if d[0] == 'const':
            return ('const', d[1] == 0)
        c, p = lin_parts(d)
        items = sorted(p.items(), key=lambda kv: tkey(kv[0]))
        if items[0][1] < 0:
            c, items = -c, [(k, -v) for k, v in items]
        return ('eq0', c, tuple(items))
    a, b = sorted((a, b), key=tkey)
    return ('eq', a, b)


def isnone(t):
    if t[0] == 'const':
        return ('const', t[1] is None)
    if t[0] in ('tuple', 'list', 'dict', 'new', 'fn', 'cls', 'func', 'fmt', 'lin', 'bin', 'lt0', 'eq0', 'comp',
                'isnone', 'not', 'bound', 'exc'):
        return FALSE
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in NOT_NONE:
        return FALSE
    return ('isnone', t)


PURE = {"len", "int", "str", "min", "max", "abs", "isinstance", "issubclass", "hasattr", "range", "enumerate", "zip",
        "tuple", "list", "set", "sorted", "bool", "repr", "type", "id", "ord", "chr", "bytes", "bytearray", "float",
        "dict", "reversed", "sum", "any", "all", "frozenset", "callable", "hash", "iter", "hex", "round", "map",
        "filter", "super", "object"}
NOT_NONE = {"builtins." + x for x in PURE}
STR_METHODS = {"startswith", "endswith", "join", "strip", "rstrip", "lstrip", "lower", "upper", "format", "replace",
               "split", "rsplit", "splitlines", "encode", "ljust", "rjust", "zfill", "title", "capitalize", "isdigit"}
CONTAINER_MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "sort", "reverse",
                      "setdefault", "add", "discard", "popitem", "appendleft", "popleft"}


# -- state --------------------------------------------------------------------

class State:
    __slots__ = ("env", "heap", "facts", "bounds", "conds", "events", "ncalls", "depth")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = {}
        self.bounds = {}
        self.conds = ()
        self.events = ()
        self.ncalls = {}
        self.depth = 0

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.bounds = dict(self.bounds)
        s.conds = self.conds
        s.events = self.events
        s.ncalls = dict(self.ncalls)
        s.depth = self.depth
        return s

    def event(self, *e):
        self.events += (e,)

    def known(self, t):
        """truth of a term on this path: True, False or None"""
        k = t[0]
        if k == 'const':
            try:
                return bool(t[1])
            except Exception:
                return None
        if k == 'not':
            r = self.known(t[1])
            return None if r is None else not r
        if t in self.facts:
            return self.facts[t]
        if k in ('new', 'fn', 'cls', 'func', 'bound', 'exc'):
            return True
        if k in ('tuple',):
            return len(t[1]) > 0
        if k == 'list':
            return True if t[1] else None
        if k == 'lt0':
            lo, hi = self.range_of(t[2])
            # expr = t[1] + parts ; parts in [lo, hi]
            if hi is not None and t[1] + hi < 0:
                return True
            if lo is not None and t[1] + lo >= 0:
                return False
        if k == 'eq0':
            lo, hi = self.range_of(t[2])
            if lo is not None and t[1] + lo > 0 or hi is not None and t[1] + hi < 0:
                return False
            if lo is not None and lo == hi and t[1] + lo == 0:
                return True
        if k == 'eq' and len(t) == 3:
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if x[0] == 'const' and isinstance(x[1], (str, bytes)) and ('equals', y) in self.facts:
                    return self.facts['equals', y] == x[1]
        if k == 'isnone' and self.facts.get(t[1]) is True:
            return False
        if k not in ('lt0', 'eq0', 'isnone', 'eq', 'lt'):
            if self.facts.get(('isnone', t)) is True:
                return False
            lo, hi = self.range_of(((t, 1),))
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return True
            if lo == 0 and hi == 0:
                return False
        return None

    def range_of(self, parts):
        """bounds of sum(parts)"""
        lo, hi = self.bounds.get(parts, (None, None))
        neg = tuple((k, -v) for k, v in parts)
        nlo, nhi = self.bounds.get(neg, (None, None))
        if nhi is not None:
            lo = -nhi if lo is None else max(lo, -nhi)
        if nlo is not None:
            hi = -nlo if hi is None else min(hi, -nlo)
        if len(parts) == 1:
            (k, v), = parts
            if nonneg(k) and v > 0:
                lo = 0 if lo is None else max(lo, 0)
            elif nonneg(k) and v < 0:
                hi = 0 if hi is None else min(hi, 0)
            if abs(v) != 1:
                blo, bhi = self.range_of(((k, 1),))
                if v > 0:
                    a, b = blo, bhi
                else:
                    a, b = bhi, blo
                if a is not None:
                    lo = a * v if lo is None else max(lo, a * v)
                if b is not None:
                    hi = b * v if hi is None else min(hi, b * v)
        elif all(nonneg(k) and v > 0 for k, v in parts):
            lo = 0 if lo is None else max(lo, 0)
        elif all(nonneg(k) and v < 0 for k, v in parts):
            hi = 0 if hi is None else min(hi, 0)
        else:
            slo = shi = 0
            for k, v in parts:
                a, b = self.range_of(((k, v),))
                slo = None if slo is None or a is None else slo + a
                shi = None if shi is None or b is None else shi + b
            if slo is not None:
                lo = slo if lo is None else max(lo, slo)
            if shi is not None:
                hi = shi if hi is None else min(hi, shi)
        return lo, hi

    def assume(self, t, pol):
        """add the fact; False when the path is infeasible"""
        while t[0] == 'not':
            t, pol = t[1], not pol
        r = self.known(t)
        if r is not None:
            return r == pol
        self.facts[t] = pol
        self.conds += ((t, pol),)
        if t[0] == 'lt0':
            lo, hi = self.bounds.get(t[2], (None, None))
            if pol:                       # parts < -c  -> parts <= -c-1 (integers)
                b = -t[1] - 1
                hi = b if hi is None else min(hi, b)
            else:
                b = -t[1]
                lo = b if lo is None else max(lo, b)
            self.bounds[t[2]] = (lo, hi)
        elif t[0] == 'eq0':
            if pol:
                self.bounds[t[2]] = (-t[1], -t[1])
            else:
                lo, hi = self.range_of(t[2])
                if lo is not None and lo == -t[1]:
                    self.bounds[t[2]] = (lo + 1, hi)
                elif hi is not None and hi == -t[1]:
                    self.bounds[t[2]] = (lo, hi - 1)
        elif t[0] == 'isnone':
            if pol:
                self.facts.setdefault(t[1], False)
        elif t[0] == 'eq' and pol:
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if x[0] == 'const' and x[1] is not None:
                    self.facts.setdefault(('isnone', y), False)
                    if isinstance(x[1], (str, bytes)):
                        self.facts['equals', y] = x[1]
        elif pol:
            self.facts[('isnone', t)] = False
            lo, hi = self.range_of(((t, 1),))
            if lo == 0:
                self.bounds[((t, 1),)] = (1, hi)
        return True


def nonneg(t):
    return t[0] == 'call' and t[1] == ('ext', 'builtins.len') or \
        t[0] == 'bin' and t[1] == 'Mod' and is_num(t[3]) and t[3][1] > 0


class Outcome:
    __slots__ = ("kind", "value", "state", "node")

    def __init__(self, kind, value, state, node=None):
        self.kind = kind
        self.value = value
        self.state = state
        self.node = node

    @property
    def conds(self):
        return self.state.conds

    @property
    def events(self):
        return self.state.events

    def calls(self, name=None):
        for e in self.events:
            if e[0] == 'call' and (name is None or callee_name(e[1]) == name):
                yield e

    def stores(self, attr=None):
        for e in self.events:
            if e[0] == 'store' and (attr is None or e[2] == attr):
                yield e

    def yields(self):
        return [e for e in self.events if e[0] == 'yield']

    def __repr__(self):
        return "<%s %s>" % (self.kind, show(self.value) if self.value else "")


def callee_name(c):
    if c[0] in ('attr', 'bound'):
        return c[2] if c[0] == 'attr' else c[2].name
    if c[0] == 'fn':
        return c[1].name
    if c[0] == 'cls':
        return c[1].name
    if c[0] == 'ext':
        return c[1].rsplit(".", 1)[-1]
    if c[0] == 'func':
        return getattr(c[1], "name", "<lambda>")
    return "?"


def show(t, d=0):
    """readable form of a term"""
    if not isinstance(t, tuple) or not t or d > 12:
        return str(t)
    k = t[0]
    s = lambda x: show(x, d + 1)
    if k == 'const':
        return repr(t[1])
    if k == 'param':
        return t[1]
    if k == 'attr':
        return "%s.%s%s" % (s(t[1]), t[2], "'" * t[3] if len(t) > 3 and t[3] else "")
    if k == 'item':
        return "%s[%s]" % (s(t[1]), s(t[2]))
    if k == 'call':
        return "%s(%s)%s" % (s(t[1]), ", ".join([s(x) for x in t[2]] + ["%s=%s" % (a, s(b)) for a, b in t[3]]),
                             "#%d" % t[4] if t[4] else "")
    if k == 'bound':
        return "%s.%s" % (s(t[1]), t[2].name)
    if k in ('fn', 'cls'):
        return t[1].name
    if k == 'ext':
        return t[1].replace("builtins.", "")
    if k == 'lin':
        return "(%s%s)" % (" + ".join("%s%s" % ("" if v == 1 else "%s*" % v, s(x)) for x, v in t[2]),
                           " + %s" % t[1] if t[1] else "")
    if k in ('lt0', 'eq0'):
        return "%s %s 0" % (s(('lin', t[1], t[2])), "<" if k == 'lt0' else "==")
    if k == 'not':
        return "not " + s(t[1])
    if k == 'isnone':
        return s(t[1]) + " is None"
    if k in ('eq', 'lt', 'in', 'is'):
        return "%s %s %s" % (s(t[1]), {'eq': '==', 'lt': '<'}.get(k, k), s(t[2]))
    if k == 'bin':
        return "(%s %s %s)" % (s(t[2]), t[1], s(t[3]))
    if k in ('tuple', 'list'):
        return "(%s)" % ", ".join(s(x) for x in t[1])
    if k == 'new':
        return "new %s(%s)" % (t[1].name, ", ".join(s(x) for x in t[2]))
    if k == 'phi':
        return "%s~" % (t[1],)
    if k == 'elem':
        return "elem(%s)" % s(t[1])
    if k == 'exc':
        return "exc(%s)" % (t[1],)
    return str(t)[:80]


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        return any(contains(x, sub) for x in t if isinstance(x, tuple))
    return False


def find_terms(t, pred, out=None):
    out = [] if out is None else out
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and pred(t):
            out.append(t)
        for x in t:
            if isinstance(x, tuple):
                find_terms(x, pred, out)
    return out


# -- interpreter --------------------------------------------------------------

class Flow:
    """One analysis run.

    exc: 'none'  only explicit raise statements raise
         'try'   opaque calls inside try/with statements may raise
         'calls' every opaque call may raise
    """

    def __init__(self, project, exc='try', inline=(), opaque=(), vocab=None, max_states=3000, mods=True,
                 first_iter=False, raising_loads=False, cls=None, effects=None):
        self.p = project
        self.exc = exc
        self.inline_names = set(inline)
        self.opaque_names = set(opaque)
        self.vocab = load_vocab() if vocab is None else vocab
        self.max_states = max_states
        self.use_mods = mods
        self.first_iter = first_iter
        self.raising_loads = raising_loads
        self.cls = cls
        # callee name -> attributes (of any object) the call may change
        self.effects = dict(effects) if effects else {}
        self.nstates = 0
        self.mod_memo = {}
        self.phi = 0

    # entry
    def run(self, f, cls=None, args=None):
        """outcomes of FuncInfo f, analysed as a method of cls"""
        self.cls = cls or f.cls or self.cls
        self.nstates = 0
        self.stack = [f]
        self.delegated = None
        s = State()
        for name in f.all_params:
            s.env[name] = ('param', name)
        if args:
            s.env.update(args)
        if f.cls is not None and f.params and not f.is_static:
            s.env[f.params[0]] = ('param', 'self')
            self.selfterm = ('param', 'self')
        else:
            self.selfterm = ('param', 'self')
        self.trydepth = 0
        self.outs = []
        frame = Frame(f, f.module, self.cls)
        if isinstance(f.node, ast.Lambda):
            return [Outcome('return' if not v[0] == 'raise' else 'raise', v, st, f.node)
                    for st, v in self.ev(f.node.body, s, frame)]
        res = self.block(f.node.body, [s], frame)
        out = []
        for kind, st, val, node in res:
            if kind == 'next':
                out.append(Outcome('return', NONE, st, node or f.node))
            else:
                out.append(Outcome(kind, val, st, node))
        return out + self.outs

    def fork(self, s):
        self.nstates += 1
        if self.nstates > self.max_states:
            raise TooComplex("more than %d paths" % self.max_states)
        return s.copy()

    # -- statements ---------------------------------------------------------
    def block(self, stmts, states, fr):
        """-> list of (kind, state, value, node)"""
        live = states
        done = []
        for st in stmts:
            nxt = []
            for s in live:
                for r in self.stmt(st, s, fr):
                    if r[0] == 'next':
                        nxt.append(r[1])
                    else:
                        done.append(r)
            live = self.merge(nxt)
            if not live:
                break
        return [('next', s, None, None) for s in live] + done

    def merge(self, states):
        """drop states that differ in nothing a rule can see"""
        if len(states) < 2:
            return states
        seen, out = set(), []
        for s in states:
            k = (tuple(sorted(s.env.items(), key=lambda kv: kv[0])), s.events, s.conds)
            try:
                if k in seen:
                    continue
                seen.add(k)
            except TypeError:
                pass
            out.append(s)
        return out

    def vals(self, e, s, fr):
        """evaluate -> (ok list of (state, value), raised list of results)"""
        ok, bad = [], []
        for st, v in self.ev(e, s, fr):
            if v[0] == 'raise':
                bad.append(('raise', st, v[1], e))
            else:
                ok.append((st, v))
        return ok, bad

    def stmt(self, n, s, fr):
        m = getattr(self, "s_" + n.__class__.__name__, None)
        if m is None:
            return [('next', s, None, None)]
        return m(n, s, fr)

    def s_Pass(self, n, s, fr):
        return [('next', s, None, None)]

    s_Global = s_Nonlocal = s_Import = s_ImportFrom = s_Pass

    def s_Import(self, n, s, fr):
        for a in n.names:
            s.env[(a.asname or a.name.split(".")[0])] = ('ext', a.name if a.asname else a.name.split(".")[0])
        return [('next', s, None, None)]

    def s_ImportFrom(self, n, s, fr):
        base = self.p._import_base(fr.module, n)
        for a in n.names:
            e = self.p._entity(("from", base, a.name), set())
            s.env[a.asname or a.name] = self.entity(e)
        return [('next', s, None, None)]

    def s_Expr(self, n, s, fr):
        ok, bad = self.vals(n.value, s, fr)
        return [('next', st, None, None) for st, v in ok] + bad

    def s_Return(self, n, s, fr):
        if n.value is None:
            return [('return', s, NONE, n)]
        ok, bad = self.vals(n.value, s, fr)
        return [('return', st, v, n) for st, v in ok] + bad

    def s_Assign(self, n, s, fr):
        ok, bad = self.vals(n.value, s, fr)
        res = list(bad)
        for st, v in ok:
            cur = [('next', st, None, None)]
            for t in n.targets:
                nxt = []
                for r in cur:
                    if r[0] == 'next':
                        nxt += self.assign(t, v, r[1], fr, n)
                    else:
                        nxt.append(r)
                cur = nxt
            res += cur
        return res

    def s_AnnAssign(self, n, s, fr):
        if n.value is None:
            return [('next', s, None, None)]
        ok, bad = self.vals(n.value, s, fr)
        res = list(bad)
        for st, v in ok:
            res += self.assign(n.target, v, st, fr, n)
        return res

    def s_AugAssign(self, n, s, fr):
        load = ast.copy_location(ast.BinOp(as_load(n.target), n.op, n.value), n)
        ok, bad = self.vals(load, s, fr)
        res = list(bad)
        for st, v in ok:
            res += self.assign(n.target, v, st, fr, n)
        return res

    def assign(self, t, v, s, fr, node):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                s.event('gstore', t.id, v, node)
                s.heap[('global', fr.module.name, t.id)] = v
            else:
                s.env[t.id] = v
            return [('next', s, None, None)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, ('star', v), s, fr, node)
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [('next', s, None, None)]
            for i, x in enumerate(t.elts):
                if v[0] == 'tuple' and len(v[1]) == len(t.elts):
                    xv = v[1][i]
                else:
                    xv = ('item', v, ('const', i), 0)
                nxt = []
                for r in cur:
                    if r[0] == 'next':
                        nxt += self.assign(x, xv, r[1], fr, node)
                    else:
                        nxt.append(r)
                cur = nxt
            return cur
        if isinstance(t, ast.Attribute):
            ok, bad = self.vals(t.value, s, fr)
            res = list(bad)
            for st, b in ok:
                st.event('store', b, t.attr, v, node)
                self.havoc_attr(st, t.attr, keep=b)
                st.heap[(b, t.attr)] = v
                res.append(('next', st, None, None))
            return res
        if isinstance(t, ast.Subscript):
            ok, bad = self.vals(t.value, s, fr)
            res = list(bad)
            for st, b in ok:
                ok2, bad2 = self.vals(t.slice, st, fr)
                res += bad2
                for st2, i in ok2:
                    st2.event('setitem', b, i, v, node)
                    st2.heap[('itemepoch', b)] = st2.heap.get(('itemepoch', b), 0) + 1
                    st2.heap[(b, ('[]', i))] = v
                    res.append(('next', st2, None, None))
            return res
        return [('next', s, None, None)]

    def havoc_attr(self, s, attr, keep=None):
        """another object's attribute may alias: forget values of other bases
        only when the bases could be the same object"""
        k = ('epoch', attr)
        s.heap[k] = s.heap.get(k, 0) + 1

    def s_Delete(self, n, s, fr):
        res = [('next', s, None, None)]
        for t in n.targets:
            nxt = []
            for r in res:
                if r[0] != 'next':
                    nxt.append(r)
                    continue
                st = r[1]
                if isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
                    nxt.append(r)
                elif isinstance(t, ast.Attribute):
                    ok, bad = self.vals(t.value, st, fr)
                    nxt += bad
                    for st2, b in ok:
                        st2.event('delattr', b, t.attr, None, n)
                        self.havoc_attr(st2, t.attr)
                        st2.heap.pop((b, t.attr), None)
                        nxt.append(('next', st2, None, None))
                elif isinstance(t, ast.Subscript):
                    ok, bad = self.vals(t.value, st, fr)
                    nxt += bad
                    for st2, b in ok:
                        ok2, bad2 = self.vals(t.slice, st2, fr)
                        nxt += bad2
                        for st3, i in ok2:
                            st3.event('delitem', b, i, None, n)
                            st3.heap[('itemepoch', b)] = st3.heap.get(('itemepoch', b), 0) + 1
                            nxt.append(('next', st3, None, None))
                else:
                    nxt.append(r)
            res = nxt
        return res

    def s_If(self, n, s, fr):
        res = []
        for st, pol in self.branch(n.test, s, fr):
            if isinstance(pol, tuple):
                res.append(('raise', st, pol[1], n))
            else:
                res += self.block(n.body if pol else n.orelse, [st], fr)
        return res

    def branch(self, test, s, fr):
        """-> list of (state, True/False/('raise', exc))"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(st, (not p) if isinstance(p, bool) else p) for st, p in self.branch(test.operand, s, fr)]
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            live = [s]
            out = []
            for i, v in enumerate(test.values):
                nxt = []
                for st in live:
                    for st2, p in self.branch(v, st, fr):
                        if isinstance(p, tuple):
                            out.append((st2, p))
                        elif p == isand:
                            nxt.append(st2)
                        else:
                            out.append((st2, p))
                live = nxt
            return out + [(st, isand) for st in live]
        out = []
        for st, v in self.ev(test, s, fr):
            if v[0] == 'raise':
                out.append((st, v))
                continue
            out += self.split(st, v)
        return out

    def split(self, st, v):
        k = st.known(v)
        if k is not None:
            return [(st, k)]
        a = self.fork(st)
        out = []
        if a.assume(v, True):
            out.append((a, True))
        if st.assume(v, False):
            out.append((st, False))
        return out

    def s_Assert(self, n, s, fr):
        res = []
        for st, p in self.branch(n.test, s, fr):
            if isinstance(p, tuple):
                res.append(('raise', st, p[1], n))
            elif p:
                res.append(('next', st, None, None))
            else:
                res.append(('raise', st, ('exc', 'builtins.AssertionError', (), None), n))
        return res

    def s_Raise(self, n, s, fr):
        if n.exc is None:
            cur = s.env.get('$exc', ('exc', '*', (), None))
            return [('raise', s, cur, n)]
        ok, bad = self.vals(n.exc, s, fr)
        res = list(bad)
        for st, v in ok:
            res.append(('raise', st, self.as_exc(v), n))
        return res

    def as_exc(self, v):
        if v[0] == 'exc':
            return v
        if v[0] == 'new':
            return ('exc', v[1], v[2], None)
        if v[0] == 'cls':
            return ('exc', v[1], (), None)
        if v[0] == 'ext':
            return ('exc', v[1], (), None)
        if v[0] == 'call' and v[1][0] == 'ext':
            return ('exc', v[1][1], v[2], None)
        return ('exc', '*', (v,), None)

    # exceptions
    def handler_types(self, h, fr):
        """list of exception entities of a handler; None for bare; '?' unknown"""
        if h.type is None:
            return None
        return self.exc_entities(h.type, fr.module, fr)

    def exc_entities(self, e, mod, fr, depth=0):
        if isinstance(e, ast.Tuple):
            out = []
            for x in e.elts:
                out += self.exc_entities(x, mod, fr, depth)
            return out
        if isinstance(e, ast.BinOp):
            return self.exc_entities(e.left, mod, fr, depth) + self.exc_entities(e.right, mod, fr, depth)
        r = self.p.resolve_expr(mod, e)
        if isinstance(r, ValueBinding) and r.expr is not None and depth < 6:
            return self.exc_entities(r.expr, r.module, fr, depth + 1)
        if isinstance(r, ClassInfo):
            return [r]
        if isinstance(r, External):
            return [r.dotted]
        return ['?']

    def exc_bases(self, c):
        """set of names/entities an exception class is an instance of"""
        if isinstance(c, ClassInfo):
            out = set()
            for k in self.p.mro(c):
                if isinstance(k, ClassInfo):
                    out.add(k)
                else:
                    out |= self.exc_bases(k.dotted)
            return out
        name = c.rsplit(".", 1)[-1]
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException) and c.startswith("builtins."):
            return {"builtins." + k.__name__ for k in b.__mro__}
        return {c, "builtins.Exception", "builtins.BaseException"}

    def match(self, exc, types):
        """True / False / None(maybe)"""
        if types is None:
            return True
        c = exc[1]
        names = [canon(t) if isinstance(t, str) else t for t in types]
        if c == '*':
            if "builtins.Exception" in names or "builtins.BaseException" in names:
                return True
            return None
        bases = {canon(b) if isinstance(b, str) else b for b in self.exc_bases(c)}
        if any(t in bases for t in names):
            return True
        if '?' in names:
            return None
        return False

    def s_Try(self, n, s, fr):
        self.trydepth += 1
        fr.tries.append(n)
        body = self.block(n.body, [s], fr)
        fr.tries.pop()
        self.trydepth -= 1
        if n.finalbody:
            self.trydepth += 1
        mid = []
        for r in body:
            if r[0] == 'raise' and n.handlers:
                pend = [r]
                for h in n.handlers:
                    types = self.handler_types(h, fr)
                    nxt = []
                    for q in pend:
                        m = self.match(q[2], types)
                        if m is not True:
                            q2 = q
                            if m is None:
                                q2 = ('raise', self.fork(q[1]), self.exclude(q[2], types), q[3])
                            nxt.append(q2)
                        if m is not False:
                            st = q[1] if m is True else q[1]
                            st.event('caught', q[2], tuple(types) if types is not None else None, h)
                            exc = self.narrow(q[2], types) if m is None else q[2]
                            old = st.env.get('$exc')
                            st.env['$exc'] = exc
                            if h.name:
                                st.env[h.name] = exc
                            for rr in self.block(h.body, [st], fr):
                                if rr[0] == 'next':
                                    if old is None:
                                        rr[1].env.pop('$exc', None)
                                    else:
                                        rr[1].env['$exc'] = old
                                mid.append(rr)
                    pend = nxt
                mid += pend
            else:
                mid.append(r)
        if n.orelse:
            out = []
            for r in mid:
                out.append(r)
            # else runs only for normal completion of the body
            body_next = [r for r in body if r[0] == 'next']
            out = [r for r in mid if not (r[0] == 'next' and any(r is b for b in body_next))]
            for r in body_next:
                out += self.block(n.orelse, [r[1]], fr)
            mid = out
        if n.finalbody:
            self.trydepth -= 1
            out = []
            for r in mid:
                r[1].event('finally', n)
                for q in self.block(n.finalbody, [r[1]], fr):
                    if q[0] == 'next':
                        out.append((r[0], q[1], r[2], r[3]))
                    else:
                        out.append(q)
            mid = out
        return mid

    s_TryStar = s_Try

    def exclude(self, exc, types):
        if exc[1] == '*':
            return ('exc', '*', exc[2], tuple(sorted(set((exc[3] or ()) + tuple(
                t if isinstance(t, str) else t.name for t in types)))))
        return exc

    def narrow(self, exc, types):
        if exc[1] == '*' and types and len(types) == 1:
            return ('exc', types[0], exc[2], None)
        return exc

    def s_With(self, n, s, fr):
        def go(i, st):
            if i == len(n.items):
                return self.block(n.body, [st], fr)
            it = n.items[i]
            ok, bad = self.vals(it.context_expr, st, fr)
            res = list(bad)
            for st2, v in ok:
                st2.event('enter', v, n)
                ev = v if v[0] in ('new', 'call', 'param', 'attr') else ('enter', v)
                if it.optional_vars is not None:
                    pre = self.assign(it.optional_vars, ev, st2, fr, n)
                else:
                    pre = [('next', st2, None, None)]
                for r in pre:
                    if r[0] != 'next':
                        res.append(r)
                        continue
                    self.trydepth += 1
                    for q in go(i + 1, r[1]):
                        q[1].event('exit', v, n)
                        res.append(q)
                    self.trydepth -= 1
            return res
        return go(0, s)

    s_AsyncWith = s_With

    # loops
    def loop_writes(self, body, fr, s):
        names, attrs, items = set(), set(), False
        for n in iter_own(list(body)):
            for t, v in assigned_pairs(n):
                if isinstance(t, ast.Name):
                    names.add(t.id)
                elif isinstance(t, ast.Attribute):
                    attrs.add(t.attr)
                elif isinstance(t, ast.Subscript):
                    items = True
            if isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        attrs.add(t.attr)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                items = True
                if isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) \
                        and s.env.get(n.value.value.id) == self.selfterm:
                    attrs.add("[]" + n.value.attr)
            if isinstance(n, (ast.ExceptHandler,)) and n.name:
                names.add(n.name)
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) \
                        and s.env.get(f.value.id) == self.selfterm and self.use_mods:
                    attrs |= self.self_mods(f.attr)
                if isinstance(f, ast.Attribute) and f.attr in CONTAINER_MUTATORS:
                    items = True
                    if isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name) \
                            and s.env.get(f.value.value.id) == self.selfterm:
                        attrs.add("[]" + f.value.attr)
                if isinstance(f, ast.Name) and s.env.get(f.id, ('',))[0] == 'func':
                    node = s.env[f.id][1]
                    for m in body_nodes(node):
                        if isinstance(m, ast.Nonlocal):
                            names |= set(m.names)
                        for t, v in assigned_pairs(m):
                            if isinstance(t, ast.Attribute):
                                attrs.add(t.attr)
        return names, attrs, items

    def loop_mutated(self, body):
        """local names whose items the loop changes"""
        out = set()
        for n in iter_own(list(body)):
            e = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CONTAINER_MUTATORS:
                e = n.func.value
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                e = n.value
            if isinstance(e, ast.Name):
                out.add(e.id)
        return out

    def havoc_loop(self, n, s, fr, body):
        bases = [s.env[b] for b in self.loop_mutated(body) if b in s.env]
        names, attrs, items = self.loop_writes(body, fr, s)
        self.phi += 1
        for x in names:
            if x in s.env:
                s.env[x] = ('phi', x, id_of(n), s.env[x] if s.env[x][0] != 'phi' else None)
        for a in attrs:
            if a.startswith("[]"):
                for k in [k for k in s.heap if k[0] == 'itemepoch' and k[1][:3] == ('attr', self.selfterm, a[2:])]:
                    s.heap[k] += 1
                k = ('itemepoch', ('attr', self.selfterm, a[2:], s.heap.get(('epoch', a[2:]), 0)))
                if k not in s.heap:
                    s.heap[k] = 1
                continue
            self.havoc_attr_all(s, a)
        for base in bases:
            self.bump_items(s, base)
        for k in [k for k in s.heap if len(k) == 2 and isinstance(k[1], tuple) and k[1][:1] == ('[]',)]:
            if items:
                del s.heap[k]
        return s

    def s_While(self, n, s, fr):
        res = []
        heads = []
        if self.first_iter:
            # exact zero-iteration exit
            s0 = self.fork(s)
            for st, p in self.branch(n.test, s0, fr):
                if isinstance(p, tuple):
                    res.append(('raise', st, p[1], n))
                elif p is False:
                    st.event('loopexit', n, 0)
                    res += self.block(n.orelse, [st], fr) if n.orelse else [('next', st, None, None)]
        s.event('loop', n)
        h = self.havoc_loop(n, s, fr, n.body + [n.test])
        # the conditions known before do not survive for what was forgotten:
        # terms of forgotten values are new terms, so facts stay valid
        for st, p in self.branch(n.test, h, fr):
            if isinstance(p, tuple):
                res.append(('raise', st, p[1], n))
            elif p is False:
                st.event('loopexit', n, 1)
                res += self.block(n.orelse, [st], fr) if n.orelse else [('next', st, None, None)]
            else:
                st.event('iter', n)
                for r in self.block(n.body, [st], fr):
                    if r[0] in ('next', 'continue'):
                        self.outs.append(Outcome('backedge', ('const', id_of(n)), r[1], n))
                    elif r[0] == 'break':
                        r[1].event('loopexit', n, 2)
                        res.append(('next', r[1], None, None))
                    else:
                        res.append(r)
        return res

    def s_For(self, n, s, fr):
        res = []
        ok, bad = self.vals(n.iter, s, fr)
        res += bad
        for st, it in ok:
            st.event('loop', n)
            st.event('iterate', it, n)
            h = self.havoc_loop(n, st, fr, n.body + [n.target])
            # exit
            ex = self.fork(h)
            ex.event('loopexit', n, 1)
            if self.may_raise_iter(it):
                r = self.fork(h)
                res.append(('raise', r, ('exc', '*', (it,), None), n))
            res += self.block(n.orelse, [ex], fr) if n.orelse else [('next', ex, None, None)]
            h.event('iter', n)
            for r in self.assign(n.target, self.elem_of(it, n), h, fr, n):
                if r[0] != 'next':
                    res.append(r)
                    continue
                for q in self.block(n.body, [r[1]], fr):
                    if q[0] in ('next', 'continue'):
                        self.outs.append(Outcome('backedge', ('const', id_of(n)), q[1], n))
                    elif q[0] == 'break':
                        q[1].event('loopexit', n, 2)
                        res.append(('next', q[1], None, None))
                    else:
                        res.append(q)
        return res

    s_AsyncFor = s_For

    def elem_of(self, it, n):
        if it[0] == 'call' and it[1] == ('ext', 'builtins.enumerate') and it[2]:
            return ('tuple', (('index', it[2][0], id_of(n)), ('elem', it[2][0], id_of(n))))
        if it[0] == 'call' and it[1] == ('ext', 'builtins.zip') and it[2]:
            return ('tuple', tuple(('elem', x, id_of(n)) for x in it[2]))
        return ('elem', it, id_of(n))

    def may_raise_iter(self, it):
        if self.exc == 'none' or self.exc == 'try' and not self.trydepth:
            return False
        return it[0] not in ('tuple', 'list', 'const') and not (
            it[0] == 'call' and it[1][0] == 'ext' and it[1][1] in ('builtins.range',))

    def s_Break(self, n, s, fr):
        return [('break', s, None, n)]

    def s_Continue(self, n, s, fr):
        return [('continue', s, None, n)]

    def s_FunctionDef(self, n, s, fr):
        s.env[n.name] = ('func', n, fr.id)
        fr.closures[n] = s
        return [('next', s, None, None)]

    def s_ClassDef(self, n, s, fr):
        ci = getattr(n, "_classinfo", None)
        s.env[n.name] = ('cls', ci) if ci else ('local', n.name)
        return [('next', s, None, None)]

    # -- expressions --------------------------------------------------------
    def ev(self, e, s, fr):
        """-> list of (state, value); value ('raise', exc) for exceptions"""
        m = getattr(self, "e_" + e.__class__.__name__, None)
        if m is None:
            return [(s, ('opaque', ast.dump(e)[:60]))]
        return m(e, s, fr)

    def seq(self, exprs, s, fr):
        """evaluate in order -> list of (state, [values]) and raised"""
        live = [(s, [])]
        bad = []
        for e in exprs:
            nxt = []
            for st, vs in live:
                for st2, v in self.ev(e, st, fr):
                    if v[0] == 'raise':
                        bad.append((st2, v))
                    else:
                        nxt.append((st2, vs + [v]))
            live = nxt
        return live, bad

    def e_Constant(self, e, s, fr):
        return [(s, ('const', e.value))]

    def e_Name(self, e, s, fr):
        if e.id in s.env:
            return [(s, s.env[e.id])]
        return [(s, self.global_name(e.id, s, fr))]

    def global_name(self, name, s, fr):
        k = ('global', fr.module.name, name)
        if k in s.heap:
            return s.heap[k]
        r = self.p.lookup_all(fr.module, name)
        if not r:
            if hasattr(builtins, name):
                return ('ext', 'builtins.' + name)
            return ('global', name)
        if len(r) > 1:
            return ('global', name)
        return self.entity(r[0], name)

    def entity(self, r, name=None):
        if isinstance(r, FuncInfo):
            return ('fn', r)
        if isinstance(r, ClassInfo):
            return ('cls', r)
        if isinstance(r, Module):
            return ('mod', r)
        if isinstance(r, External):
            return ('ext', r.dotted)
        if isinstance(r, ValueBinding):
            if r.kind == 'assign' and r.expr is not None:
                try:
                    c = ast.literal_eval(r.expr)
                    if isinstance(c, (int, str, bytes, float, bool, type(None))):
                        return ('const', c)
                except Exception:
                    pass
            return ('gvar', r.module.name, name or "?")
        return ('global', name or "?")

    def e_Attribute(self, e, s, fr):
        out = []
        for st, b in self.ev(e.value, s, fr):
            if b[0] == 'raise':
                out.append((st, b))
                continue
            out += self.load_attr(st, b, e.attr, e, fr)
        return out

    def load_attr(self, st, b, attr, e, fr):
        if (b, attr) in st.heap:
            return [(st, st.heap[(b, attr)])]
        if b[0] == 'mod':
            r = self.p.lookup(b[1], attr)
            return [(st, self.entity(r, attr) if r is not None else ('attr', b, attr, 0))]
        if b[0] == 'ext':
            return [(st, ('ext', b[1] + "." + attr))]
        # inlined property of self
        if b == self.selfterm and self.cls is not None:
            f = self.prop_func(self.cls, attr)
            if f is not None and self.should_inline(f):
                return self.call_func(f, [b], [], st, fr, e)
        ep = st.heap.get(('epoch', attr), 0)
        t = ('attr', b, attr, ep)
        res = [(st, t)]
        if isinstance(self.raising_loads, (tuple, list, set, frozenset)) and attr in self.raising_loads and fr.tries \
                or self.raising_loads is True and attr in self.propnames() and self.raises_here():
            st2 = self.fork(st)
            res.append((st2, ('raise', ('exc', '*', (t,), None))))
        elif self.handled(fr, "builtins.AttributeError"):
            st2 = self.fork(st)
            res.append((st2, ('raise', ('exc', 'builtins.AttributeError', (t,), None))))
        return res

    def handled(self, fr, name):
        """an enclosing try expects the load to fail with this exception"""
        if self.exc == 'none' or not fr.tries:
            return False
        for h in fr.tries[-1].handlers:
            types = self.handler_types(h, fr)
            if types and any(isinstance(t, str) and canon(t) == name for t in types):
                return True
        return False

    def prop_func(self, cls, attr):
        r = self.p.find_attr(cls, attr)
        if isinstance(r, FuncInfo) and r.is_property:
            return r
        if isinstance(r, ValueBinding) and isinstance(r.expr, ast.Call) and isinstance(r.expr.func, ast.Name) \
                and r.expr.func.id == 'property' and r.expr.args and r.cls is not None:
            a = r.expr.args[0]
            if isinstance(a, ast.Name) and a.id in r.cls.attrs:
                f = r.cls.attrs[a.id][-1]
                return f if isinstance(f, FuncInfo) else None
            if isinstance(a, ast.Lambda):
                return self.p.func_of_node(a)
        return None

    def propnames(self):
        if not hasattr(self.p, "_propnames"):
            out = set()
            for c in self.p.classes:
                for k, vs in c.attrs.items():
                    for v in vs:
                        if isinstance(v, FuncInfo) and v.is_property or isinstance(v, ValueBinding) and isinstance(
                                v.expr, ast.Call) and isinstance(v.expr.func, ast.Name) and v.expr.func.id == 'property':
                            out.add(k)
            self.p._propnames = out
        return self.p._propnames

    def raises_here(self):
        return self.exc == 'calls' or self.exc == 'try' and self.trydepth > 0

    def e_Subscript(self, e, s, fr):
        live, bad = self.seq([e.value, e.slice], s, fr)
        out = list(bad)
        for st, (b, i) in live:
            if b[0] == 'tuple' and is_num(i) and isinstance(i[1], int) and -len(b[1]) <= i[1] < len(b[1]):
                out.append((st, b[1][i[1]]))
                continue
            if (b, ('[]', i)) in st.heap:
                out.append((st, st.heap[(b, ('[]', i))]))
                continue
            t = ('item', b, i, st.heap.get(('itemepoch', b), 0))
            if self.raising_loads is True and self.raises_here() and i[0] != 'slice':
                st2 = self.fork(st)
                out.append((st2, ('raise', ('exc', '*', (t,), None))))
            else:
                for x in ("builtins.KeyError", "builtins.IndexError", "builtins.LookupError"):
                    if self.handled(fr, x) and i[0] != 'slice':
                        st2 = self.fork(st)
                        out.append((st2, ('raise', ('exc', x, (t,), None))))
                        break
            st.event('getitem', b, i, e)
            out.append((st, t))
        return out

    def e_Slice(self, e, s, fr):
        live, bad = self.seq([x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)], s, fr)
        return bad + [(st, ('slice',) + tuple(v)) for st, v in live]

    def e_Tuple(self, e, s, fr):
        live, bad = self.seq(e.elts, s, fr)
        return bad + [(st, ('tuple', tuple(v))) for st, v in live]

    def e_List(self, e, s, fr):
        live, bad = self.seq(e.elts, s, fr)
        out = list(bad)
        for st, v in live:
            n = st.ncalls['[]'] = st.ncalls.get('[]', 0) + 1
            out.append((st, ('list', tuple(v), n)))
        return out

    def e_Set(self, e, s, fr):
        live, bad = self.seq(e.elts, s, fr)
        return bad + [(st, ('set', tuple(v))) for st, v in live]

    def e_Dict(self, e, s, fr):
        live, bad = self.seq([x for x in e.keys if x is not None] + e.values, s, fr)
        out = list(bad)
        for st, v in live:
            n = st.ncalls['{}'] = st.ncalls.get('{}', 0) + 1
            out.append((st, ('dict', tuple(v), n)))
        return out

    def e_Starred(self, e, s, fr):
        return [(st, v if v[0] == 'raise' else ('star', v)) for st, v in self.ev(e.value, s, fr)]

    def e_JoinedStr(self, e, s, fr):
        live, bad = self.seq([v.value if isinstance(v, ast.FormattedValue) else v for v in e.values], s, fr)
        return bad + [(st, ('fmt', tuple(v))) for st, v in live]

    def e_NamedExpr(self, e, s, fr):
        out = []
        for st, v in self.ev(e.value, s, fr):
            if v[0] != 'raise':
                st.env[e.target.id] = v
            out.append((st, v))
        return out

    def e_Lambda(self, e, s, fr):
        fr.closures[e] = s
        return [(s, ('func', e, fr.id))]

    def e_BinOp(self, e, s, fr):
        live, bad = self.seq([e.left, e.right], s, fr)
        return bad + [(st, binop(e.op.__class__.__name__, a, b)) for st, (a, b) in live]

    def e_UnaryOp(self, e, s, fr):
        out = []
        for st, v in self.ev(e.operand, s, fr):
            if v[0] == 'raise':
                out.append((st, v))
            elif isinstance(e.op, ast.Not):
                k = st.known(v)
                out.append((st, ('const', not k) if k is not None else mk_not(v)))
            elif isinstance(e.op, ast.USub):
                out.append((st, scale(v, -1) if numeric_like(v) else ('un', 'USub', v)))
            else:
                out.append((st, ('un', e.op.__class__.__name__, v)))
        return out

    def e_BoolOp(self, e, s, fr):
        isand = isinstance(e.op, ast.And)
        live = [s]
        out = []
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for st in live:
                for st2, v in self.ev(x, st, fr):
                    if v[0] == 'raise' or last:
                        out.append((st2, v))
                        continue
                    for st3, p in self.split(st2, v):
                        if p == isand:
                            nxt.append(st3)
                        else:
                            out.append((st3, v))
            live = nxt
        return out

    def e_IfExp(self, e, s, fr):
        out = []
        for st, p in self.branch(e.test, s, fr):
            if isinstance(p, tuple):
                out.append((st, p))
            else:
                out += self.ev(e.body if p else e.orelse, st, fr)
        return out

    def e_Compare(self, e, s, fr):
        live, bad = self.seq([e.left] + e.comparators, s, fr)
        out = list(bad)
        for st, vs in live:
            terms = []
            for op, a, b in zip(e.ops, vs, vs[1:]):
                terms.append(self.cmp(op, a, b))
            if len(terms) == 1:
                k = st.known(terms[0])
                out.append((st, terms[0] if k is None else ('const', k)))
                continue
            cur = [st]
            for i, t in enumerate(terms):
                nxt = []
                for c in cur:
                    for c2, p in self.split(c, t):
                        if p:
                            nxt.append(c2)
                        else:
                            out.append((c2, FALSE))
                cur = nxt
            out += [(c, TRUE) for c in cur]
        return out

    def cmp(self, op, a, b):
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.LtE):
            return mk_not(lt(b, a))
        if isinstance(op, ast.GtE):
            return mk_not(lt(a, b))
        if isinstance(op, ast.Eq):
            return eq(a, b)
        if isinstance(op, ast.NotEq):
            return mk_not(eq(a, b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b == NONE:
                t = isnone(a)
            elif a == NONE:
                t = isnone(b)
            elif a == b and a[0] in ('const', 'cls', 'fn'):
                t = TRUE
            elif a[0] == 'const' and b[0] == 'const' and type(a[1]) is type(b[1]) and a[1] != b[1]:
                t = FALSE
            elif any(x[0] == 'const' and isinstance(x[1], (str, bytes, int)) and not isinstance(x[1], bool)
                     for x in (a, b)):
                t = eq(a, b)
            else:
                t = ('is',) + tuple(sorted((a, b), key=tkey))
            return t if isinstance(op, ast.Is) else mk_not(t)
        t = ('in', a, b)
        return t if isinstance(op, ast.In) else mk_not(t)

    def e_Yield(self, e, s, fr):
        if e.value is None:
            s.event('yield', NONE, e)
            return [(s, ('sent', id_of(e)))]
        out = []
        for st, v in self.ev(e.value, s, fr):
            if v[0] != 'raise':
                st.event('yield', v, e)
                v = ('sent', id_of(e))
            out.append((st, v))
        return out

    def e_YieldFrom(self, e, s, fr):
        out = []
        # a generator which is delegated to runs here
        old, self.delegated = self.delegated, e.value
        try:
            vals = self.ev(e.value, s, fr)
        finally:
            self.delegated = old
        for st, v in vals:
            if v[0] != 'raise' and (v[0] == 'call' or not isinstance(e.value, ast.Call)):
                st.event('yieldfrom', v, e)
                v = ('sent', id_of(e))
            out.append((st, v))
        return out

    def e_Await(self, e, s, fr):
        return self.ev(e.value, s, fr)

    def comp(self, e, elts, s, fr, kind):
        saved = dict(s.env)
        live = [s]
        bad = []
        its = []
        for g in e.generators:
            nxt = []
            for st in live:
                for st2, it in self.ev(g.iter, st, fr):
                    if it[0] == 'raise':
                        bad.append((st2, it))
                        continue
                    st2.event('iterate', it, e)
                    its.append(it)
                    for r in self.assign(g.target, self.elem_of(it, e), st2, fr, e):
                        nxt.append(r[1])
            live = nxt
        out = list(bad)
        for st in live[:1]:
            conds = []
            cur = [(st, [])]
            l2, b2 = self.seq([c for g in e.generators for c in g.ifs], st, fr)
            for st2, cv in l2[:1]:
                l3, b3 = self.seq(elts, st2, fr)
                for st3, v in l3[:1]:
                    env = dict(saved)
                    st3.env = env
                    st3.event('comp', e)
                    out.append((st3, ('comp', kind, tuple(v), tuple(its[:len(e.generators)]), tuple(cv))))
        return out or [(s, ('comp', kind, (), (), ()))]

    def e_ListComp(self, e, s, fr):
        return self.comp(e, [e.elt], s, fr, 'list')

    def e_SetComp(self, e, s, fr):
        return self.comp(e, [e.elt], s, fr, 'set')

    def e_GeneratorExp(self, e, s, fr):
        return self.comp(e, [e.elt], s, fr, 'gen')

    def e_DictComp(self, e, s, fr):
        return self.comp(e, [e.key, e.value], s, fr, 'dict')

    # calls
    def e_Call(self, e, s, fr):
        out = []
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            owner = fr.func.cls if fr.func is not None else None
            k, f = (None, None)
            if owner is not None and self.cls is not None:
                k, f = self.p.find_attr_after(self.cls if owner in self.p.mro(self.cls) else owner, owner, e.func.attr)
            fn = ('fn', f) if isinstance(f, FuncInfo) else ('attr', ('ext', 'builtins.super'), e.func.attr, 0)
            argl, bad = self.args(e, s, fr)
            out += bad
            for st, (pos, kw) in argl:
                if fn[0] == 'fn':
                    pos = [self.selfterm] + pos
                out += self.do_call(fn, pos, kw, st, fr, e)
            return out
        for st, c in self.ev_callee(e.func, s, fr):
            if c[0] == 'raise':
                out.append((st, c))
                continue
            argl, bad = self.args(e, st, fr)
            out += bad
            for st2, (pos, kw) in argl:
                out += self.do_call(c, pos, kw, st2, fr, e)
        return out

    def ev_callee(self, f, s, fr):
        if isinstance(f, ast.Attribute):
            out = []
            for st, b in self.ev(f.value, s, fr):
                if b[0] == 'raise':
                    out.append((st, b))
                    continue
                if (b, f.attr) in st.heap:
                    out.append((st, st.heap[(b, f.attr)]))
                elif b[0] == 'mod' or b[0] == 'ext':
                    out += self.load_attr(st, b, f.attr, f, fr)
                elif b == self.selfterm and self.cls is not None:
                    r = self.p.find_attr(self.cls, f.attr)
                    if isinstance(r, FuncInfo) and not r.is_property:
                        out.append((st, ('bound', b, r)))
                    else:
                        out.append((st, ('attr', b, f.attr, st.heap.get(('epoch', f.attr), 0))))
                elif b[0] == 'cls' and b[1] is not None:
                    r = self.p.find_attr(b[1], f.attr)
                    out.append((st, ('fn', r) if isinstance(r, FuncInfo) else ('attr', b, f.attr, 0)))
                elif b[0] == 'new' and isinstance(b[1], ClassInfo):
                    r = self.p.find_attr(b[1], f.attr)
                    if isinstance(r, FuncInfo) and not r.is_property:
                        out.append((st, ('bound', b, r)))
                    else:
                        out.append((st, ('attr', b, f.attr, 0)))
                else:
                    out.append((st, ('attr', b, f.attr, 0)))
            return out
        return self.ev(f, s, fr)

    def args(self, e, s, fr):
        live, bad = self.seq([a for a in e.args] + [k.value for k in e.keywords], s, fr)
        out = []
        for st, v in live:
            pos = v[:len(e.args)]
            kw = [(k.arg or '**', x) for k, x in zip(e.keywords, v[len(e.args):])]
            out.append((st, (pos, kw)))
        return out, bad

    def should_inline(self, f, delegate=False):
        if f in self.stack or len(self.stack) > 5:
            return False
        if f.name in self.opaque_names or f.qual in self.opaque_names:
            return False
        if f.name in self.inline_names or f.qual in self.inline_names:
            return True
        return (f.module.name + ":" + f.qual) not in self.vocab and (not f.is_generator or delegate)

    def do_call(self, c, pos, kw, s, fr, e):
        # pure builtins
        if c[0] == 'ext' and c[1].startswith("builtins."):
            name = c[1][9:]
            if name == 'divmod' and len(pos) == 2:
                return [(s, ('tuple', (binop('FloorDiv', pos[0], pos[1]), binop('Mod', pos[0], pos[1]))))]
            if name == 'getattr' and len(pos) == 2 and pos[1][0] == 'const' and isinstance(pos[1][1], str):
                return self.load_attr(s, pos[0], pos[1][1], e, fr)
            if name == 'setattr' and len(pos) == 3 and pos[1][0] == 'const':
                s.event('store', pos[0], pos[1][1], pos[2], e)
                self.havoc_attr(s, pos[1][1])
                s.heap[(pos[0], pos[1][1])] = pos[2]
                return [(s, NONE)]
            if name == 'bool' and len(pos) == 1:
                k = s.known(pos[0])
                if k is not None:
                    return [(s, ('const', k))]
            if name == 'len' and len(pos) == 1:
                if pos[0][0] == 'const' and isinstance(pos[0][1], (str, bytes)):
                    return [(s, ('const', len(pos[0][1])))]
                if pos[0][0] == 'tuple':
                    return [(s, ('const', len(pos[0][1])))]
            if name in ('min', 'max') and len(pos) >= 2:
                pos = sorted(pos, key=tkey)
            if name in PURE:
                t = ('call', c, tuple(pos), tuple(sorted(kw)), 0)
                if name in ('len',) and pos and pos[0][0] not in ('const', 'call', 'item', 'bin', 'elem'):
                    t = ('call', c, tuple(pos), tuple(sorted(kw)), s.heap.get(('itemepoch', pos[0]), 0))
                return [(s, t)]
        if c[0] == 'func':
            return self.call_closure(c, pos, kw, s, fr, e)
        if c[0] == 'bound':
            f = c[2]
            if f.is_static:
                full = pos
            elif f.is_classmethod:
                full = [('classof', c[1])] + pos
            else:
                full = [c[1]] + pos
            if self.should_inline(f, e is self.delegated):
                return self.call_func(f, full, kw, s, fr, e)
        elif c[0] == 'fn':
            if self.should_inline(c[1], e is self.delegated):
                return self.call_func(c[1], pos, kw, s, fr, e)
        elif c[0] == 'cls' and isinstance(c[1], ClassInfo):
            n = s.ncalls[c] = s.ncalls.get(c, 0) + 1
            t = ('new', c[1], tuple(pos), tuple(sorted(kw)), n)
            s.event('call', c, tuple(pos), tuple(sorted(kw)), t, e)
            res = [(s, t)]
            if self.raises_here() and not self.is_exception(c[1]):
                st = self.fork(s)
                res.append((st, ('raise', ('exc', '*', (t,), None))))
            return res
        # opaque
        key = (c, tuple(pos))
        try:
            n = s.ncalls[key] = s.ncalls.get(key, 0) + 1
        except TypeError:
            n = 0
        t = ('call', c, tuple(pos), tuple(sorted(kw)), n)
        pure_m = c[0] == 'attr' and c[2] in STR_METHODS and (c[1][0] in ('const', 'fmt') or c[2] not in ('split',))
        if c[0] == 'attr' and c[2] in STR_METHODS and c[1][0] == 'const':
            return [(s, ('call', c, tuple(pos), tuple(sorted(kw)), 0))]
        s.event('call', c, tuple(pos), tuple(sorted(kw)), t, e)
        res = []
        if self.raises_here() and not (c[0] == 'attr' and (c[2] in CONTAINER_MUTATORS and c[2] not in (
                'pop', 'remove', 'popitem', 'popleft', 'append', 'insert') or c[2] in STR_METHODS)) \
                and not (c[0] == 'ext' and (c[1] + ".").startswith("builtins.isinstance.")):
            st = self.fork(s)
            if self.use_mods and c[0] == 'bound':
                self.apply_mods(st, c)
            res.append((st, ('raise', ('exc', '*', (t,), None))))
        if c[0] == 'attr' and c[2] in CONTAINER_MUTATORS:
            s.heap[('itemepoch', c[1])] = s.heap.get(('itemepoch', c[1]), 0) + 1
        if self.use_mods:
            self.apply_mods(s, c)
        res.insert(0, (s, t))
        return res

    def is_exception(self, c):
        return any(isinstance(k, External) and canon(k.dotted) in ("builtins.Exception", "builtins.BaseException",
                                                                   "builtins.ValueError", "builtins.RuntimeError",
                                                                   "builtins.KeyError", "builtins.TypeError")
                   for k in self.p.mro(c))

    def apply_mods(self, s, c):
        """a call of one of self's methods may change self's attributes"""
        for a in self.effects.get(callee_name(c), ()):
            self.havoc_attr_all(s, a)
        if c[0] == 'bound' and c[1] == self.selfterm:
            for a in self.self_mods(c[2].name):
                if a.startswith("[]"):
                    for k in [k for k in s.heap if k[0] == 'itemepoch' and k[1][:3] == ('attr', self.selfterm, a[2:])]:
                        s.heap[k] += 1
                    k = ('itemepoch', ('attr', self.selfterm, a[2:], s.heap.get(('epoch', a[2:]), 0)))
                    if k not in s.heap:
                        s.heap[k] = 1
                    continue
                s.heap[('epoch', a)] = s.heap.get(('epoch', a), 0) + 1
                for k in [k for k in s.heap if len(k) == 2 and k[1] == a and k[0] != 'epoch']:
                    del s.heap[k]

    def havoc_attr_all(self, s, a):
        s.heap[('epoch', a)] = s.heap.get(('epoch', a), 0) + 1
        for k in [k for k in s.heap if len(k) == 2 and k[1] == a and k[0] != 'epoch']:
            del s.heap[k]

    def bump_items(self, s, base):
        k = ('itemepoch', base)
        s.heap[k] = s.heap.get(k, 0) + 1

    def self_mods(self, name, seen=None):
        """attributes of self a method may store, through self-calls"""
        key = (self.cls, name)
        if key in self.mod_memo:
            return self.mod_memo[key]
        top = seen is None
        seen = set() if seen is None else seen
        if name in seen or self.cls is None:
            return set()
        seen.add(name)
        f = self.p.find_attr(self.cls, name)
        out = set()
        if isinstance(f, FuncInfo) and f.params:
            me = f.params[0]
            todo = [f.node]
            while todo:
                nd = todo.pop()
                for n in body_nodes(nd):
                    for t, v in assigned_pairs(n):
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                            out.add(t.attr)
                    if isinstance(n, ast.Delete):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                out.add(t.attr)
                            elif isinstance(t, ast.Subscript) and self.my_attr(t.value, me):
                                out.add("[]" + t.value.attr)
                    if isinstance(n, (ast.Assign, ast.AugAssign)):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            if isinstance(t, ast.Subscript) and self.my_attr(t.value, me):
                                out.add("[]" + t.value.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                            and n.func.attr in CONTAINER_MUTATORS and self.my_attr(n.func.value, me):
                        out.add("[]" + n.func.value.attr)
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                        out |= self.self_mods(n.attr, seen)
                    if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                        todo.append(n)
        if top:
            self.mod_memo[key] = out
        return out

    def my_attr(self, e, me):
        return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me

    def bind(self, node, pos, kw, s, fr, definer=None):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if any(v[0] == 'star' for v in pos) or any(k == '**' for k, v in kw):
            return None
        for nme, v in zip(names, pos):
            env[nme] = v
        extra = pos[len(names):]
        if extra and a.vararg is None:
            return None
        if a.vararg is not None:
            env[a.vararg.arg] = ('tuple', tuple(extra))
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = []
        for k, v in kw:
            if k in names or k in kwonly:
                env[k] = v
            else:
                rest.append((k, v))
        if rest and a.kwarg is None:
            return None
        if a.kwarg is not None:
            env[a.kwarg.arg] = ('kwargs', tuple(rest))
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({k: d for k, d in zip(kwonly, a.kw_defaults) if d is not None})
        for nme in names + kwonly:
            if nme not in env:
                if nme not in defaults:
                    return None
                r = self.ev(defaults[nme], State(), definer or fr)
                env[nme] = r[0][1]
        return env

    def call_func(self, f, pos, kw, s, fr, e):
        nf = Frame(f, f.module, f.cls)
        env = self.bind(f.node, pos, kw, s, fr, nf)
        if env is None:
            t = ('call', ('fn', f), tuple(pos), tuple(sorted(kw)), 1)
            s.event('call', ('fn', f), tuple(pos), tuple(sorted(kw)), t, e)
            return [(s, t)]
        return self.run_inline(f.node, env, s, nf, f)

    def call_closure(self, c, pos, kw, s, fr, e):
        node = c[1]
        if len(self.stack) > 6 or node in self.stack:
            t = ('call', c, tuple(pos), tuple(sorted(kw)), s.ncalls.setdefault(c, 0) + 1)
            s.event('call', c, tuple(pos), tuple(sorted(kw)), t, e)
            return [(s, t)]
        f = self.p.func_of_node(node)
        nf = Frame(f, fr.module, fr.cls)
        env = self.bind(node, pos, kw, s, fr, nf)
        if env is None:
            t = ('call', c, tuple(pos), tuple(sorted(kw)), 1)
            s.event('call', c, tuple(pos), tuple(sorted(kw)), t, e)
            return [(s, t)]
        # free variables: the definer's environment is the caller's when the
        # closure is called by its definer
        base = dict(s.env)
        base.update(env)
        return self.run_inline(node, base, s, nf, node, nonlocals={
            x for n in body_nodes(node) if isinstance(n, ast.Nonlocal) for x in n.names})

    def run_inline(self, node, env, s, nf, tag, nonlocals=()):
        saved = s.env
        self.stack.append(tag)
        try:
            s.env = env
            if '$exc' in saved:
                s.env.setdefault('$exc', saved['$exc'])
            if isinstance(node, ast.Lambda):
                res = [('return' if v[0] != 'raise' else 'raise', st, v if v[0] != 'raise' else v[1], node)
                       for st, v in self.ev(node.body, s, nf)]
            else:
                res = self.block(node.body, [s], nf)
        finally:
            self.stack.pop()
        out = []
        for kind, st, v, nd in res:
            new = dict(saved)
            for x in nonlocals:
                if x in st.env:
                    new[x] = st.env[x]
            st.env = new
            if kind == 'raise':
                out.append((st, ('raise', v)))
            elif kind == 'return':
                out.append((st, v))
            else:
                out.append((st, NONE))
        return out


class Frame:
    def __init__(self, func, module, cls):
        self.func = func
        self.module = module
        self.cls = cls
        self.tries = []
        self.closures = {}
        self.id = 0
        self.globals = set()
        if func is not None:
            for n in body_nodes(func.node):
                if isinstance(n, ast.Global):
                    self.globals |= set(n.names)


_ids = {}


def id_of(n):
    return (getattr(n, "lineno", 0), getattr(n, "col_offset", 0))


def as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
    return t


ALIASES = {"builtins.IOError": "builtins.OSError", "builtins.EnvironmentError": "builtins.OSError",
           "builtins.select.error": "builtins.OSError", "socket.error": "builtins.OSError"}


def canon(name):
    return ALIASES.get(name, name)
