"""Typestate of one resource over the structured control flow of a function.

exits(body, start) answers the set of (kind, state) in which the statements can end; kind is 'fall', 'return', 'raise',
'break' or 'continue'.  Every call may raise (before it has an effect) unless `harmless` says it cannot; subclasses define
how events change the state.  No path conditions are kept but those `refine` gives to a branch.
"""
import ast

CATCH_ALL = {"Exception", "BaseException"}


def calls_in_order(e):
    """calls, yields and named expressions of an expression in evaluation order (operands first)"""
    out = []

    def visit(n):
        if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return
        for c in ast.iter_child_nodes(n):
            visit(c)
        if isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await)):
            out.append(n)
    visit(e)
    return out


class Typestate:
    def harmless(self, call):
        return False

    def acts(self, call, state):
        """states after the call returned normally"""
        return {state}

    def raising(self, call, state):
        """states in which the call can raise"""
        return set() if self.harmless(call) else {state}

    def stored(self, st, state):
        """states after an assignment"""
        return {state}

    def returned(self, st, states):
        return states

    def refine(self, test, state, truth):
        return {state}

    def entered(self, item, state):
        return {state}

    def left(self, item, state):
        return {state}

    # ---- expressions
    def expr(self, e, states, out):
        if e is None:
            return states
        for c in calls_in_order(e):
            nxt = set()
            for s in states:
                for r in self.raising(c, s):
                    out.add(('raise', r, c.lineno))
                nxt |= self.acts(c, s)
            states = nxt
        return states

    # ---- statements
    def block(self, body, states, out):
        for st in body:
            if not states:
                break
            states = self.stmt(st, states, out)
        return states

    def stmt(self, st, states, out):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom, ast.Global,
                           ast.Nonlocal, ast.Pass)):
            return states
        if isinstance(st, ast.Return):
            states = self.expr(st.value, states, out)
            for s in self.returned(st, states):
                out.add(('return', s, st.lineno))
            return set()
        if isinstance(st, ast.Raise):
            states = self.expr(st.exc, states, out)
            for s in states:
                out.add(('raise', s, st.lineno))
            return set()
        if isinstance(st, (ast.Break, ast.Continue)):
            for s in states:
                out.add(('break' if isinstance(st, ast.Break) else 'continue', s, st.lineno))
            return set()
        if isinstance(st, ast.Assert):
            t = self.branch(st.test, states, True, out)
            for s in self.branch(st.test, states, False, out):
                out.add(('raise', s, st.lineno))
            return t
        if isinstance(st, ast.If):
            states = self.expr(st.test, states, out)
            a = self.block(st.body, self.branch(st.test, states, True), out)
            b = self.block(st.orelse, self.branch(st.test, states, False), out)
            return a | b
        if isinstance(st, (ast.While, ast.For, ast.AsyncFor)):
            return self.loop(st, states, out)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                states = self.expr(it.context_expr, states, out)
                states = set().union(*[self.entered(it, s) for s in states]) if states else set()
            inner = set()
            states = self.block(st.body, states, inner)
            for it in reversed(st.items):
                states = set().union(*[self.left(it, s) for s in states]) if states else set()
                inner = {(k, s2, ln) for k, s, ln in inner for s2 in self.left(it, s)}
            out |= inner
            return states
        if isinstance(st, ast.Try):
            return self.trying(st, states, out)
        if isinstance(st, ast.Match):
            states = self.expr(st.subject, states, out)
            r = set(states)
            for c in st.cases:
                r |= self.block(c.body, states, out)
            return r
        # expression statements, assignments, deletions
        v = getattr(st, "value", None)
        states = self.expr(v, states, out)
        if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                states = self.expr(t, states, out)
            states = set().union(*[self.stored(st, s) for s in states]) if states else set()
        return states

    def branch(self, test, states, truth, out=None):
        if out is not None:
            states = self.expr(test, states, out)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.branch(test.operand, states, not truth)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == truth:
                for v in test.values:
                    states = self.branch(v, states, truth)
                return states
            r = set()
            for v in test.values:
                r |= self.branch(v, states, truth)
            return r
        return set().union(*[self.refine(test, s, truth) for s in states]) if states else set()

    def loop(self, st, states, out):
        test = st.test if isinstance(st, ast.While) else None
        if test is None:
            states = self.expr(st.iter, states, out)
        head, seen, after, brk = set(states), set(), set(), set()
        forever = isinstance(test, ast.Constant) and bool(test.value)
        while head - seen:
            seen |= head
            cur = set(seen)
            if test is not None:
                cur = self.expr(test, cur, out)
                if not forever:
                    after |= self.branch(test, cur, False)
                cur = self.branch(test, cur, True)
            else:
                after |= cur
                cur = set().union(*[self.looped(st, s) for s in cur])
            inner = set()
            end = self.block(st.body, cur, inner)
            for k, s, ln in inner:
                if k == 'break':
                    brk.add(s)
                elif k == 'continue':
                    end = end | {s}
                else:
                    out.add((k, s, ln))
            head = end
        return (self.block(st.orelse, after, out) if st.orelse else after) | brk

    def looped(self, st, state):
        """states at the beginning of an iteration of a for loop"""
        return {state}

    def trying(self, st, states, out):
        inner = set()
        end = self.block(st.body, states, inner)
        raised = {(s, ln) for k, s, ln in inner if k == 'raise'}
        rest = {x for x in inner if x[0] != 'raise'}
        if st.orelse:
            # exceptions of the else block are not caught
            o2 = set()
            end = self.block(st.orelse, end, o2)
            rest |= o2
        caught_all = False
        res = set(end)
        for h in st.handlers:
            o2 = set()
            if raised:
                hs = {s for s, ln in raised}
                res |= self.block(h.body, self.handled(h, hs), o2)
            rest |= o2
            names = [h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else list(getattr(h.type, "elts", ()))
            if h.type is None or any(getattr(n, "id", None) in CATCH_ALL for n in names):
                caught_all = True
        if not caught_all:
            rest |= {('raise', s, ln) for s, ln in raised}
        if not st.finalbody:
            out |= rest
            return res
        # the final block runs on every way out
        fo = set()
        fin = self.block(st.finalbody, res, fo) if res else set()
        for k, s, ln in rest:
            o3 = set()
            for s2 in self.block(st.finalbody, {s}, o3):
                out.add((k, s2, ln))
            fo |= o3
        out |= fo
        return fin

    def handled(self, h, states):
        return states

    def exits(self, body, start):
        out = set()
        for s in self.block(body, set(start), out):
            out.add(('fall', s, body[-1].lineno))
        return out
