"""Reaching definitions of local names over the syntax tree of a function.

`Reach(node).of(name_node)` is the set of definitions which may give the name
its value there: expressions assigned to it, ('aug', statement) for augmented
assignments, ('param', name) and ('other',) for everything else (loop targets,
unpacking, imports, exception names...)."""
import ast
from .project import nid

PARAM, OTHER = "param", ("other",)


class Reach:
    def __init__(self, node):
        self.uses = {}
        self.before = {}    # augmented assignment -> definitions reaching its target
        env = {}
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            env[x.arg] = frozenset([(PARAM, x.arg)])
        self.brk, self.cont = [], []
        if isinstance(node.body, list):
            self.block(node.body, env)
        else:
            self.expr(node.body, env)

    def of(self, nm):
        return self.uses.get(nid(nm), frozenset())

    # -- expressions -------------------------------------------------------------
    def expr(self, e, env):
        if e is None:
            return
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                k = nid(x)
                self.uses[k] = self.uses.get(k, frozenset()) | env.get(x.id, frozenset())
        bound = [x for x in ast.walk(e) if isinstance(x, ast.NamedExpr)]
        for x in bound:
            env[x.target.id] = env.get(x.target.id, frozenset()) | {x.value}
        # names of comprehensions and lambdas are not those of the function
        for x in ast.walk(e):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                mine = {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            elif isinstance(x, ast.Lambda):
                mine = {y.arg for y in x.args.args}
            else:
                continue
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and y.id in mine and isinstance(y.ctx, ast.Load):
                    self.uses[nid(y)] = frozenset([OTHER])

    def bind(self, t, value, env):
        if isinstance(t, ast.Name):
            env[t.id] = frozenset([value])
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and \
                not any(isinstance(y, ast.Starred) for y in value.elts + t.elts) else [OTHER] * len(t.elts)
            for x, v in zip(t.elts, vs):
                self.bind(x, v, env)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, OTHER, env)
        else:
            self.expr(t, env)

    # -- statements ---------------------------------------------------------------
    def block(self, body, env):
        """env after the statements, None when their end is not reached"""
        for st in body:
            if env is None:
                return None
            env = self.stmt(st, env)
        return env

    def stmt(self, st, env):
        if isinstance(st, ast.Assign):
            self.expr(st.value, env)
            for t in st.targets:
                self.bind(t, st.value, env)
        elif isinstance(st, ast.AnnAssign):
            self.expr(st.value, env)
            if st.value is not None:
                self.bind(st.target, st.value, env)
        elif isinstance(st, ast.AugAssign):
            self.expr(st.value, env)
            if isinstance(st.target, ast.Name):
                k = nid(st)
                self.before[k] = self.before.get(k, frozenset()) | env.get(st.target.id, frozenset())
                env[st.target.id] = frozenset([("aug", st)])
            else:
                self.expr(st.target, env)
        elif isinstance(st, ast.If):
            self.expr(st.test, env)
            return join(self.block(st.body, dict(env)), self.block(st.orelse, dict(env)))
        elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            loop = not isinstance(st, ast.While)
            if loop:
                self.expr(st.iter, env)
            start = env
            out = None
            for _ in range(3):
                cur = dict(start)
                self.brk.append([])
                self.cont.append([])
                if loop:
                    exits = dict(cur)
                    self.bind(st.target, OTHER, cur)
                else:
                    self.expr(st.test, cur)
                    exits = None if isinstance(st.test, ast.Constant) and st.test.value else dict(cur)
                end = self.block(st.body, cur)
                for c in self.cont.pop():
                    end = join(end, c)
                broken = self.brk.pop()
                after = self.block(st.orelse, exits) if exits is not None else None
                out = after
                for b in broken:
                    out = join(out, b)
                nxt = join(start, end)
                if nxt == start:
                    break
                start = nxt
            return out
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                self.expr(it.context_expr, env)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, OTHER, env)
            return self.block(st.body, env)
        elif isinstance(st, ast.Try) or st.__class__.__name__ == "TryStar":
            first = dict(env)
            end = self.block(st.body, dict(env))
            # a handler starts with any definition of the body
            mid = dict(first)
            probe = dict(first)
            for s in st.body:
                if probe is None:
                    break
                probe = self.stmt(s, dict(probe))
                mid = join(mid, probe)
            for s in ast.walk(ast.Module(body=st.body, type_ignores=[])):
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            mid[t.id] = mid.get(t.id, frozenset()) | {s.value}
            if end is not None:
                end = self.block(st.orelse, end)
            for h in st.handlers:
                e = dict(mid)
                if h.type is not None:
                    self.expr(h.type, e)
                if h.name:
                    e[h.name] = frozenset([OTHER])
                end = join(end, self.block(h.body, e))
            if st.finalbody:
                if end is None:
                    self.block(st.finalbody, dict(mid))
                else:
                    end = self.block(st.finalbody, end)
            return end
        elif isinstance(st, ast.Match):
            self.expr(st.subject, env)
            out = dict(env)
            for c in st.cases:
                e = dict(env)
                for x in ast.walk(c.pattern):
                    n = getattr(x, "name", None) or getattr(x, "rest", None)
                    if isinstance(n, str):
                        e[n] = frozenset([OTHER])
                if c.guard is not None:
                    self.expr(c.guard, e)
                out = join(out, self.block(c.body, e))
            return out
        elif isinstance(st, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(st):
                if isinstance(x, ast.expr):
                    self.expr(x, env)
            return None
        elif isinstance(st, ast.Break):
            if self.brk:
                self.brk[-1].append(env)
            return None
        elif isinstance(st, ast.Continue):
            if self.cont:
                self.cont[-1].append(env)
            return None
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            env[st.name] = frozenset([OTHER])
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                env[(a.asname or a.name).split(".")[0]] = frozenset([OTHER])
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                else:
                    self.expr(t, env)
        else:
            for x in ast.iter_child_nodes(st):
                if isinstance(x, ast.expr):
                    self.expr(x, env)
        return env


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return {k: a.get(k, frozenset()) | b.get(k, frozenset()) for k in set(a) | set(b)}
