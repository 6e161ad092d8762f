"""Three-valued evaluation of tests on the regions their constants cut the
values of a subject into: dead tests, dead branches, contradictions."""
import ast
from .project import nid
from .types import TOP

PURE = (ast.Name, ast.Attribute, ast.Subscript, ast.Constant, ast.BinOp, ast.operator, ast.expr_context,
        ast.UnaryOp, ast.unaryop, ast.Slice, ast.Tuple)


def pure(e):
    return all(isinstance(x, PURE) for x in ast.walk(e))


def subject_key(e):
    """key of an expression a constant is compared with, None if it may differ
    between two evaluations"""
    if isinstance(e, ast.Constant) or not pure(e):
        return None
    if not any(isinstance(x, ast.Name) for x in ast.walk(e)):
        return None
    return ast.dump(e)


class Region:
    """a value of the subject: a constant of interest, or all the others"""
    __slots__ = ("value", "other")

    def __init__(self, value, other=False):
        self.value = value
        self.other = other

    def __repr__(self):
        return "<other>" if self.other else repr(self.value)


class Cases:
    def __init__(self, ctx, doms):
        self.ty = ctx.types
        self.doms = doms
        self.mem = {}

    # -- constants ----------------------------------------------------------
    def const(self, e):
        """(True, value) of a constant expression"""
        if isinstance(e, ast.Constant) and not isinstance(e.value, type(Ellipsis)):
            return True, e.value
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) \
                and isinstance(e.operand.value, (int, float)):
            return True, -e.operand.value
        v = self.ty.fact(e)
        if v is not TOP and len(v) == 1:
            a, = v
            if a[0] == 'k' and (isinstance(e, (ast.Name, ast.Attribute, ast.BinOp))):
                return True, a[1]
        return False, None

    def members(self, e):
        """(constants, exact) of a container expression, or None"""
        k = nid(e)
        if k not in self.mem:
            m = self._members(e)
            self.mem[k] = m if m and len(m[0]) <= 100 else None
        return self.mem[k]

    def _members(self, e):
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = []
            for x in e.elts:
                ok, c = self.const(x)
                if not ok:
                    return None
                out.append(c)
            return out, True
        v = self.ty.fact(e)
        if v is TOP or len(v) != 1:
            return None
        a, = v
        if a[0] == 'tup':
            out = []
            for x in a[1]:
                if x is TOP or len(x) != 1:
                    return None
                k, = x
                if k[0] != 'k':
                    return None
                out.append(k[1])
            return out, True
        if a[0] in ('dict',) and len(a) > 1:
            d = self.ty.dicts.get(a[1])
            if not d:
                return None
            out = []
            for kv in d:
                if kv[0] is TOP:
                    return None
                for k in kv[0]:
                    if k[0] != 'k':
                        return None
                    out.append(k[1])
            return out, False
        if a[0] in ('list', 'set') and len(a) > 1 and a[1] is not TOP and a[1]:
            if all(k[0] == 'k' for k in a[1]):
                return [k[1] for k in a[1]], False
        return None

    # -- the atoms of a test --------------------------------------------------
    def atoms(self, t, out):
        """(subject expr, constants, ordered) of a test"""
        if isinstance(t, ast.BoolOp):
            for x in t.values:
                self.atoms(x, out)
        elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            self.atoms(t.operand, out)
        elif isinstance(t, ast.Compare):
            ops = [t.left] + t.comparators
            for op, l, r in zip(t.ops, ops, ops[1:]):
                if isinstance(op, (ast.In, ast.NotIn)):
                    m = self.members(r)
                    if m:
                        out.append((l, m[0], False))
                    continue
                for x, y in ((l, r), (r, l)):
                    ok, c = self.const(y)
                    if ok and not self.const(x)[0]:
                        out.append((x, [c], not isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot))))
        else:
            out.append((t, [], False))
        return out

    def regions(self, consts, doms, ordered, bounded):
        """representative values of the subject"""
        vals = []
        ints = [c for c in consts if isinstance(c, (int, float))]
        intonly = doms is not None and all(d.kind == 'int' for d in doms)
        for c in consts:
            vals.append(c)
        if ordered:
            for c in ints:
                vals += [c - 1, c + 1] + ([] if intonly else [c - 0.5, c + 0.5])
        if bounded and doms and all(d.kind == 'int' and d.lo is not None and d.hi is not None for d in doms):
            for d in doms:
                vals += [d.lo, d.hi]
        uniq = []
        for v in vals:
            if not any(v == u and isinstance(v, (str, bytes)) == isinstance(u, (str, bytes)) and (v is None) == (u is None)
                       for u in uniq):
                uniq.append(v)
        if bounded and doms:
            uniq = [v for v in uniq if any(d.may(v) for d in doms)]
        out = [Region(v) for v in uniq]
        numeric = ordered and consts and all(isinstance(c, (int, float)) for c in consts)
        if not numeric and not (bounded and doms and self.exhausted(doms, uniq)):
            out.append(Region(None, True))
        return out

    def exhausted(self, doms, uniq):
        """the constants are all the values of the domain"""
        lo_hi = [(d.lo, d.hi) for d in doms if d.kind == 'int' and d.mask is None]
        if len(lo_hi) != len(doms) or any(None in x for x in lo_hi):
            return False
        n = set()
        for lo, hi in lo_hi:
            if hi - lo > 64:
                return False
            n |= set(range(lo, hi + 1))
        return n <= {int(u) for u in uniq if isinstance(u, (int, float)) and u == int(u)}

    # -- evaluation -----------------------------------------------------------
    def eval(self, t, key, reg):
        """True / False / None (unknown) of the test when the subject has the value"""
        if isinstance(t, ast.BoolOp):
            rs = [self.eval(x, key, reg) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in rs else (True if all(r is True for r in rs) else None)
            return True if True in rs else (False if all(r is False for r in rs) else None)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.eval(t.operand, key, reg)
            return None if r is None else not r
        if isinstance(t, ast.Compare):
            ops = [t.left] + t.comparators
            res = True
            for op, l, r in zip(t.ops, ops, ops[1:]):
                x = self.cmp(op, l, r, key, reg)
                if x is False:
                    return False
                if x is None:
                    res = None
            return res
        if subject_key(t) == key:
            if reg.other:
                return None
            return bool(reg.value)
        ok, c = self.const(t)
        if ok and isinstance(t, ast.Constant):
            return bool(c)
        return None

    def cmp(self, op, l, r, key, reg):
        if isinstance(op, (ast.In, ast.NotIn)):
            if subject_key(l) != key:
                return None
            m = self.members(r)
            if not m:
                return None
            cs, exact = m
            if reg.other:
                inside = False
            else:
                inside = any(same(c, reg.value) for c in cs)
                if inside and not exact:
                    return None
            return inside if isinstance(op, ast.In) else not inside
        if subject_key(l) == key:
            ok, c = self.const(r)
            flip = False
        elif subject_key(r) == key:
            ok, c = self.const(l)
            flip = True
        else:
            return None
        if not ok:
            return None
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            eq = False if reg.other else same(c, reg.value)
            if isinstance(op, (ast.Is, ast.IsNot)) and c is not None:
                return None
            return eq if isinstance(op, (ast.Eq, ast.Is)) else not eq
        if reg.other:
            return None
        a, b = (c, reg.value) if flip else (reg.value, c)
        try:
            if isinstance(op, ast.Lt):
                return a < b
            if isinstance(op, ast.LtE):
                return a <= b
            if isinstance(op, ast.Gt):
                return a > b
            if isinstance(op, ast.GtE):
                return a >= b
        except TypeError:
            return None
        return None

    # -- verdicts -------------------------------------------------------------
    def chain(self, f, tests, whole_before=()):
        """tests evaluated one after another while the previous ones were
        false: yields (index, test, why) of those which can never be true, and
        (index, test, subject) which were decided"""
        dead = []
        decided = []
        for i, t in enumerate(tests):
            ats = self.atoms(t, [])
            subs = {}
            for e, cs, o in ats:
                k = subject_key(e)
                if k is not None and (cs or True):
                    subs.setdefault(k, [e, [], False])
                    subs[k][1] += cs
                    subs[k][2] = subs[k][2] or o
            for k, (e, cs, o) in subs.items():
                if not cs:
                    continue
                allcs, order = list(cs), o
                for q in tests[:i]:
                    for e2, c2, o2 in self.atoms(q, []):
                        if subject_key(e2) == k:
                            allcs += c2
                            order = order or o2
                doms = self.doms.of(f, e)
                bounded = not o
                regs = self.regions(allcs, doms, order, bounded)
                left = [r for r in regs if not any(self.eval(q, k, r) is True for q in tests[:i])]
                res = [self.eval(t, k, r) for r in left]
                decided.append((i, t, e))
                if all(r is False for r in res):
                    dead.append((i, t, e, doms if bounded else None,
                                 any(r is not False for r in [self.eval(t, k, x) for x in regs])))
                    break
        return dead, decided


def same(a, b):
    if isinstance(a, (str, bytes)) != isinstance(b, (str, bytes)) or (a is None) != (b is None):
        return False
    return a == b
