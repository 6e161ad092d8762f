"""One form for code which is written in several ways: conditions held in a variable.

`v = E; if v: ...` reads as `if E: ...` where the variable is assigned once, and either is used nowhere
else and directly behind its assignment, or E depends on parameters only which are never assigned.
"""
import ast
import copy

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
TESTS = (ast.Compare, ast.BoolOp, ast.Call, ast.UnaryOp)


def own(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, SCOPES):
            continue
        todo += ast.iter_child_nodes(n)


def normalise(tree):
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            function(f)
    return tree


def function(f):
    stores, loads, foreign = {}, {}, set()
    for n in own(f.body):
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                loads.setdefault(n.id, []).append(n)
            else:
                stores[n.id] = stores.get(n.id, 0) + 1
        elif isinstance(n, SCOPES):
            for m in ast.walk(n):
                if isinstance(m, ast.Name):
                    foreign.add(m.id)
            if not isinstance(n, ast.Lambda):
                stores[n.name] = stores.get(n.name, 0) + 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            foreign |= set(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            stores[n.name] = stores.get(n.name, 0) + 2
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                x = a.asname or a.name.split(".")[0]
                stores[x] = stores.get(x, 0) + 2
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            stores[n.name] = stores.get(n.name, 0) + 2
        elif isinstance(n, ast.comprehension):
            for m in ast.walk(n.target):
                if isinstance(m, ast.Name):
                    foreign.add(m.id)
    a = f.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    fixed = {p for p in params if p not in stores and p not in foreign}
    f.body = block(f.body, stores, loads, foreign | params)
    held = {}
    for n in own(f.body):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.targets[0].id
            if stores.get(v) == 1 and v not in foreign and v not in params and steady(n.value, fixed):
                held[v] = n.value
    if held:
        t = Substitute(held)
        f.body = [t.visit(s) for s in f.body]


def first(e):
    """(parent, field, index) of the expression evaluated first in a test, None for the test itself"""
    p = None
    while True:
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            p, e = (e, "operand", None), e.operand
        elif isinstance(e, ast.BoolOp):
            p, e = (e, "values", 0), e.values[0]
        else:
            return p, e


def steady(e, fixed):
    """the expression has one value throughout the function"""
    if isinstance(e, ast.BoolOp):
        return all(steady(v, fixed) for v in e.values)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return steady(e.operand, fixed)
    if isinstance(e, ast.Compare):
        return all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops) and all(
            isinstance(x, ast.Constant) or isinstance(x, ast.Name) and x.id in fixed for x in [e.left] + e.comparators)
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2 and \
            isinstance(e.args[0], ast.Name) and e.args[0].id in fixed and not any(
                isinstance(x, ast.Call) for x in ast.walk(e.args[1]))
    return False


class Substitute(ast.NodeTransformer):
    def __init__(self, held):
        self.held = held

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.held:
            e = copy.deepcopy(self.held[n.id])
            for m in ast.walk(e):
                if hasattr(m, "lineno"):
                    m.lineno, m.col_offset = n.lineno, n.col_offset
            return e
        return n

    def skip(self, n):
        return n
    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = skip


def block(body, stores, loads, foreign):
    out = []
    for s in body:
        for k in ("body", "orelse", "finalbody"):
            b = getattr(s, k, None)
            if isinstance(b, list) and b and not isinstance(s, SCOPES):
                setattr(s, k, block(b, stores, loads, foreign))
        for h in getattr(s, "handlers", ()):
            h.body = block(h.body, stores, loads, foreign)
        for c in getattr(s, "cases", ()):
            c.body = block(c.body, stores, loads, foreign)
        prev = out[-1] if out else None
        if isinstance(prev, ast.Assign) and len(prev.targets) == 1 and isinstance(prev.targets[0], ast.Name) and \
                isinstance(prev.value, TESTS) and isinstance(s, (ast.If, ast.Assert)):
            v = prev.targets[0].id
            if v not in foreign and stores.get(v) == 1 and len(loads.get(v, ())) == 1:
                p, e = first(s.test)
                if e is loads[v][0]:
                    if p is None:
                        s.test = prev.value
                    elif p[2] is None:
                        setattr(p[0], p[1], prev.value)
                    else:
                        getattr(p[0], p[1])[p[2]] = prev.value
                    out.pop()
        elif isinstance(prev, ast.Assign) and len(prev.targets) == 1 and isinstance(prev.targets[0], ast.Name) and \
                isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and s.value.id == prev.targets[0].id and \
                s.value.id not in foreign and len(loads.get(s.value.id, ())) == stores.get(s.value.id) and isinstance(prev.value, ast.Call):
            # v = E; return v
            s.value = prev.value
            out.pop()
        out.append(s)
    return out
