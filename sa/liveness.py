"""Live variables on the syntax tree (structured code, conservative)."""
import ast


COMPREHENSIONS = (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)


def loads(node, name):
    if isinstance(node, ast.Name):
        return node.id == name and not isinstance(node.ctx, ast.Store)
    if isinstance(node, COMPREHENSIONS) and any(stores(g.target, name) for g in node.generators):
        return loads(node.generators[0].iter, name)  # a variable of its own
    return any(loads(c, name) for c in ast.iter_child_nodes(node))


def stores(target, name):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(target))


def scan(stmts, name):
    """-> (some path uses the name before it is set, some path reaches the end without setting it)"""
    use = False
    for s in stmts:
        u, p = one(s, name)
        use |= u
        if not p:
            return use, False
    return use, True


def one(s, name):
    if isinstance(s, (ast.Assign, ast.AnnAssign)):
        targets = s.targets if isinstance(s, ast.Assign) else [s.target]
        if s.value is not None and loads(s.value, name) or any(loads(t, name) for t in targets):
            return True, True
        return False, not (s.value is not None and any(stores(t, name) for t in targets))
    if isinstance(s, ast.AugAssign):
        return loads(s, name) or stores(s.target, name), True
    if isinstance(s, (ast.Return, ast.Raise)):
        return loads(s, name), False
    if isinstance(s, ast.If):
        u1, p1 = scan(s.body, name)
        u2, p2 = scan(s.orelse, name)
        return loads(s.test, name) or u1 or u2, p1 or p2
    if isinstance(s, (ast.For, ast.AsyncFor)):
        u = False if stores(s.target, name) else scan(s.body, name)[0]
        return loads(s.iter, name) or loads(s.target, name) or u or scan(s.orelse, name)[0], True
    if isinstance(s, ast.While):
        return loads(s.test, name) or scan(s.body, name)[0] or scan(s.orelse, name)[0], True
    if isinstance(s, (ast.With, ast.AsyncWith)):
        if any(loads(i.context_expr, name) for i in s.items):
            return True, True
        if any(i.optional_vars is not None and stores(i.optional_vars, name) for i in s.items):
            return False, False
        return scan(s.body, name)
    if isinstance(s, (ast.Break, ast.Continue, ast.Pass)):
        return False, True
    if isinstance(s, ast.Expr):
        return loads(s, name), True
    return loads(s, name), True


def parents(root):
    out = {}
    for x in ast.walk(root):
        for c in ast.iter_child_nodes(x):
            out[id(c)] = x
    return out


def live_after(func, node, name):
    """May the value that a variable has at the end of a statement be used later?"""
    for x in ast.walk(func):
        if isinstance(x, (ast.Nonlocal, ast.Global)) and name in x.names:
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not func and loads(x, name):
            return True
    par = parents(func)
    cur = node
    while cur is not func:
        p = par.get(id(cur))
        if p is None:
            return True
        for field in ("body", "orelse", "finalbody", "handlers"):
            block = getattr(p, field, None)
            if isinstance(block, list) and any(b is cur for b in block):
                if field == "handlers" or isinstance(p, (ast.Try, ast.ExceptHandler)):
                    if loads(p, name):
                        return True
                i = next(k for k, b in enumerate(block) if b is cur)
                u, through = scan(block[i + 1:], name) if field != "handlers" else (False, True)
                if u:
                    return True
                if not through:
                    return False
                if isinstance(p, (ast.For, ast.While)) and field == "body":
                    if isinstance(p, ast.While) and loads(p.test, name):
                        return True
                    if not (isinstance(p, ast.For) and stores(p.target, name)) and scan(p.body, name)[0]:
                        return True
                    if scan(p.orelse, name)[0]:
                        return True
        cur = p
    return False
