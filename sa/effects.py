"""Effects: which objects are changed by the functions that an operation can reach."""
import ast

from flow import LIST
from program import walk_scope

MUTATORS = {"append", "add", "extend", "insert", "update", "setdefault", "pop", "popitem", "remove", "discard", "clear", "sort", "reverse", "appendleft",
            "popleft", "__setitem__", "__delitem__", "difference_update", "intersection_update", "move_to_end", "set", "replace"}
FRESH_CALLS = {"list", "dict", "set", "sorted", "tuple", "frozenset", "bytearray", "copy.copy", "copy.deepcopy", "str", "int", "float", "len", "min", "max",
               "sum", "range", "abs", "round", "collections.OrderedDict", "collections.defaultdict", "collections.deque", "zip", "enumerate", "bytes", "open"}
FRESH_METHODS = {"copy", "split", "splitlines", "join", "format", "strip", "encode", "decode", "items", "keys", "values", "replace", "lower", "upper",
                 "difference", "union", "groupdict", "groups"}
TREE = ("lxml.", "xml.")


def keeps(e):
    """A call of a built-in that does not call its arguments."""
    if isinstance(e.func, ast.Name):
        return e.func.id in ("len", "enumerate", "isinstance", "str", "repr", "int", "float", "bool", "zip", "list", "tuple", "set", "dict", "range", "hasattr",
                             "getattr", "setattr", "print", "id", "hash", "type", "reversed", "sum")
    return isinstance(e.func, ast.Attribute) and e.func.attr in MUTATORS


class Effects:
    """Mutations in the functions reachable from `roots`, for objects that existed before."""

    def __init__(self, flow, roots, state):
        """state: the class whose object lives on after the operation"""
        self.flow = flow
        self.prog = flow.prog
        self.reach = set()
        self.edges = {}
        todo = list(roots)
        calls = {}
        for e, (f, fn) in flow.calls.items():
            calls.setdefault(f, []).append((e, fn))
        self.calls = calls
        while todo:
            f = todo.pop()
            if f in self.reach:
                continue
            self.reach.add(f)
            for e, fn in calls.get(f, ()):
                for g in self.targets(fn):
                    self.edges.setdefault(g, []).append((f, e))
                    todo.append(g)
                for a in list(e.args) + [k.value for k in e.keywords]:  # functions given to external ones
                    if keeps(e):
                        break
                    if not any(x[0] in ("fn", "meth", "cls") for x in fn):
                        todo += [x[1] for x in flow.eval(a, f) if x[0] in ("fn", "meth")]
            for n in walk_scope(f.node):
                if isinstance(n, ast.Attribute):
                    g = self.property_of(n, f)
                    for x in g:
                        self.edges.setdefault(x, []).append((f, n))
                        todo.append(x)
        self.defs = {}
        self.lines = {}
        self.tops = {}
        self.busy = set()

        self.heap = self.survivors(state)

    def survivors(self, state):
        """The classes whose objects can be reached from the surviving object."""
        flow = self.flow
        seen, todo = set(), [("obj", state)]
        fields = {}
        for (owner, name), v in flow.env.items():
            if isinstance(name, str) and name.startswith(".") and isinstance(owner, str):
                fields.setdefault(owner, []).append(v)
        while todo:
            a = todo.pop()
            if a in seen or a[0] not in ("obj", "fn", "meth"):
                continue
            seen.add(a)
            if a[0] == "meth":
                todo.append(("obj", a[2]))
            if a[0] == "obj":
                c = self.prog.classes.get(a[1])
                for k in (c.mro() + c.all_subclasses()) if c is not None else ():
                    for v in fields.get(k.qual, ()):
                        todo += v
            else:
                g = a[1].parent
                if g in self.reach:
                    continue  # made by the operation itself
                names = {n.id for n in ast.walk(a[1].node) if isinstance(n, ast.Name)}
                while g is not None:
                    for x in names:
                        todo += flow.env.get((g, x), ())
                    g = getattr(g, "parent", None)
        return {a[1] for a in seen if a[0] == "obj"}

    def owned(self, c):
        return c not in self.heap

    def survives(self, e, f, seen=None):
        """Evidence that the object was there before the operation."""
        seen = set() if seen is None else seen
        if isinstance(e, tuple):
            if e[0] in ("element", "item"):
                return self.survives(e[1], f, seen)
            return False
        if isinstance(e, ast.Attribute):
            owners = [a for a in self.flow.eval(e.value, f) if a[0] in ("obj", "cls", "module")]
            if owners:
                return any(a[0] != "obj" or not self.owned(a[1]) for a in owners) and not self.fresh(e.value, f)
            return self.survives(e.value, f, seen)
        if isinstance(e, (ast.Subscript, ast.Starred, ast.NamedExpr)):
            return self.survives(e.value, f, seen)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return any(self.survives(x, f, seen) for x in e.elts)
        if isinstance(e, ast.IfExp):
            return self.survives(e.body, f, seen) or self.survives(e.orelse, f, seen)
        if isinstance(e, ast.BoolOp):
            return any(self.survives(x, f, seen) for x in e.values)
        if isinstance(e, ast.Name):
            g, ds = self.scope(f, e.id, getattr(e, "lineno", None))
            if g is None:
                return f.module.bindings.get(e.id) is not None
            if g is not f and g not in self.reach:
                return True
            if (g, e.id) in seen:
                return False
            seen.add((g, e.id))
            for h, v in self.put_into(g, e.id):
                if self.survives(v, h, seen):
                    return True
            for d in ds:
                if isinstance(d, tuple) and d[0] == "param":
                    a = g.node.args
                    pos = [x.arg for x in a.posonlyargs + a.args]
                    for h, c in self.edges.get(g, ()):
                        if isinstance(c, ast.Call):
                            v = self.argument(g, e.id, pos, c, h)
                            if v is None and self.shared_default(g, e.id):
                                return True
                            if v is not None and v is not True and self.survives(v, h, seen):
                                return True
                        elif pos and pos[0] == e.id and self.survives(c.value, h, seen):
                            return True
                    if not self.edges.get(g) and pos and pos[0] == e.id and g.cls is not None:
                        return not self.owned(g.cls.qual)
                elif self.survives(d, g, seen):
                    return True
            return False
        if isinstance(e, ast.Call):
            fn = self.flow.eval(e.func, f)
            for a in fn:
                if a[0] in ("fn", "meth") and ("result", a[1]) not in seen:
                    seen.add(("result", a[1]))
                    for n in walk_scope(a[1].node):
                        if isinstance(n, ast.Return) and n.value is not None and self.survives(n.value, a[1], seen):
                            return True
            if any(a[0] == "ext" and a[1] in ("next", "iter", "getattr", "list", "sorted", "reversed", "enumerate", "zip", "filter") for a in fn):
                return any(self.survives(a, f, seen) for a in e.args)
            if isinstance(e.func, ast.Attribute) and not any(a[0] in ("fn", "meth", "cls") for a in fn):
                return e.func.attr not in FRESH_METHODS - {"items", "keys", "values"} and self.survives(e.func.value, f, seen)
        return False

    def shared_default(self, g, name):
        a = g.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        return name in d and not isinstance(d[name], ast.Constant)

    def property_of(self, n, f):
        out = []
        for a in self.flow.eval(n.value, f):
            if a[0] == "obj":
                c = self.prog.classes.get(a[1])
                for k in (c.mro() + c.all_subclasses()) if c else ():
                    t = k.setters if isinstance(n.ctx, ast.Store) else k.getters
                    if n.attr in t:
                        out.append(t[n.attr])
        return out

    def targets(self, fn):
        out = []
        for a in fn:
            if a[0] in ("fn", "meth"):
                out.append(a[1])
            elif a[0] == "cls":
                c = self.prog.classes.get(a[1])
                g = c.find("__init__") if c else None
                if g is not None:
                    out.append(g)
        return out

    # -- freshness
    def definitions(self, f):
        d = self.defs.get(f)
        if d is not None:
            return d
        d = self.defs[f] = {}
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            d.setdefault(x.arg, []).append(("param", x.arg))
        for n in walk_scope(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.target(t, n.value, d)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.target(n.target, n.value, d)
            elif isinstance(n, ast.NamedExpr):
                self.target(n.target, n.value, d)
            elif isinstance(n, (ast.For, ast.comprehension)):
                self.target(n.target, ("element", n.iter), d)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.target(i.optional_vars, i.context_expr, d)
            elif isinstance(n, ast.FunctionDef):
                d.setdefault(n.name, []).append(("fn", n))
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for alias, _ in self.prog.import_names(f.module, n):
                    d.setdefault(alias, []).append(("import", alias))
        for n in walk_scope(f.node):
            if isinstance(n, (ast.Nonlocal, ast.Global)):
                for x in n.names:
                    d.pop(x, None)
        return d

    def target(self, t, v, d):
        if isinstance(t, ast.Name):
            d.setdefault(t.id, []).append(v)
            self.lines[id(d), t.id, len(d[t.id]) - 1] = t.lineno
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for x, y in zip(t.elts, v.elts):
                    self.target(x, y, d)
            else:
                for i, x in enumerate(t.elts):
                    self.target(x, ("item", v, i), d)

    def scope(self, f, name, line=None):
        """-> (the function that has the variable, its definitions that can reach the line)"""
        g = f
        while g is not None:
            d = self.definitions(g)
            if name in d:
                found = d[name]
                if g is f and line is not None and isinstance(g.node, ast.FunctionDef):
                    top = self.top_level(g, name, line)
                    if top:
                        found = [v for i, v in enumerate(found) if self.lines.get((id(d), name, i), 0) >= top]
                return g, found
            g = g.parent
        return None, None

    def top_level(self, g, name, line):
        """The line of the last unconditional assignment before the line."""
        lines = self.tops.get(g)
        if lines is None:
            lines = self.tops[g] = {}
            for s in g.node.body:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                lines.setdefault(x.id, []).append((s.lineno, s.end_lineno))
        return max((a for a, b in lines.get(name, ()) if b < line), default=None)

    def is_tree(self, e, f):
        atoms = self.flow.eval(e, f)
        return LIST not in atoms and any(a[0] in ("of", "ext") and a[1].startswith(TREE) for a in atoms)

    def fresh(self, e, f, path=()):
        """The value (or what it contains, down the path of indices; None is any index) was created by the operation itself."""
        if len(path) > 4:
            return False
        if isinstance(e, tuple):
            if e[0] == "element":
                return self.element(e[1], f, path)
            if e[0] == "item":
                return self.fresh(e[1], f, (e[2],) + path)
            return e[0] == "fn"
        if isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare, ast.UnaryOp, ast.Lambda)):
            return True
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            if path and isinstance(path[0], int) and isinstance(e, ast.Tuple) and -len(e.elts) <= path[0] < len(e.elts) and \
                    not any(isinstance(x, ast.Starred) for x in e.elts):
                return self.fresh(e.elts[path[0]], f, path[1:])
            return not path or all(self.fresh(x, f, path[1:]) for x in e.elts)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return not path or self.fresh(e.elt, f, path[1:])
        if isinstance(e, ast.Dict):
            return not path or all(self.fresh(x, f, path[1:]) for x in e.values)
        if isinstance(e, ast.DictComp):
            return not path or self.fresh(e.value, f, path[1:])
        if isinstance(e, ast.BinOp):
            return not path or isinstance(e.op, ast.Mod) or self.fresh(e.left, f, path) and self.fresh(e.right, f, path)
        if isinstance(e, ast.IfExp):
            return self.fresh(e.body, f, path) and self.fresh(e.orelse, f, path)
        if isinstance(e, ast.BoolOp):
            return all(self.fresh(v, f, path) for v in e.values)
        if isinstance(e, (ast.Starred, ast.NamedExpr)):
            return self.fresh(e.value, f, path)
        if isinstance(e, ast.Name):
            return self.fresh_name(e, f, path)
        if isinstance(e, ast.Attribute):
            owners = [a for a in self.flow.eval(e.value, f) if a[0] in ("obj", "cls", "module")]
            if owners:
                if all(a[0] == "obj" and self.owned(a[1]) for a in owners):
                    return not path
                return not path and isinstance(e.value, ast.Name) and self.constructed(e.value, f)
            return self.fresh(e.value, f)  # a part of an object of a library
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return not path or self.fresh(e.value, f, path)
            i = e.slice.value if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) else None
            if isinstance(e.slice, ast.UnaryOp) and isinstance(e.slice.op, ast.USub) and isinstance(e.slice.operand, ast.Constant):
                i = -e.slice.operand.value
            return self.element(e.value, f, path, i)
        if isinstance(e, ast.Call):
            return self.fresh_call(e, f, path)
        return False

    def element(self, e, f, path, i=None):
        """An element of the collection (or of the tree)."""
        if not isinstance(e, tuple) and self.is_tree(e, f):
            return self.fresh(e, f)
        return self.fresh(e, f, (i,) + path)

    def fresh_name(self, e, f, path):
        g, ds = self.scope(f, e.id, getattr(e, "lineno", None))
        if g is None or g is not f and g not in self.reach:  # a captured variable belongs to the operation if its function does
            return False
        key = (g, e.id, path)
        if key in self.busy:
            return True
        self.busy.add(key)
        try:
            for d in ds:
                if isinstance(d, tuple) and d[0] == "param":
                    if not self.fresh_param(g, e.id, path):
                        return False
                elif not self.fresh(d, g, path):
                    return False
            if path:
                for h, v in self.put_into(g, e.id):
                    if not self.fresh(v.value if isinstance(v, ast.Starred) else v, h, path if isinstance(v, ast.Starred) else path[1:]):
                        return False
            return True
        finally:
            self.busy.discard(key)

    def put_into(self, g, name):
        """-> (function, value) added to the collection with the name; Starred for the elements of a value"""
        out = []
        for h in [g] + [h for h in self.flow.funcs if h.parent is g]:
            for n in walk_scope(h.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                        n.func.value.id == name and n.func.attr in ("append", "add", "insert", "extend", "appendleft"):
                    out += [(h, ast.Starred(a, ast.Load()) if n.func.attr == "extend" else a) for a in n.args]
        return out

    def fresh_call(self, e, f, path):
        fn = self.flow.eval(e.func, f)
        own = [a for a in fn if a[0] in ("fn", "meth")]
        for a in own:
            if not self.fresh_result(a[1], path):
                return False
        ext = {a[1] for a in fn if a[0] == "ext"}
        for q in ext:
            if q in ("copy.deepcopy", "range", "json.load", "json.loads", "os.listdir"):
                continue
            if q in ("getattr", "next", "iter", "map", "filter", "vars", "functools.reduce"):
                return False
            if q in ("list", "sorted", "tuple", "set", "reversed", "copy.copy", "enumerate", "zip"):
                if path and not all(self.fresh(a, f, path if q not in ("enumerate", "zip") else path[1:]) for a in e.args):
                    return False
                continue
            if q.startswith(TREE) and "()" in q:  # a method of a tree, or a compiled query
                recv = e.func.value if isinstance(e.func, ast.Attribute) else None
                if recv is not None and not self.fresh(recv, f):
                    return False
                if recv is None and not all(self.fresh(a, f) for a in e.args):
                    return False
                continue
            if path and not q.startswith(TREE):
                return False
        if any(a[0] == "cls" for a in fn):
            return not path
        if own or ext:
            return True
        if isinstance(e.func, ast.Attribute):
            if e.func.attr in ("getparent", "getroot", "find", "iter", "findall", "xpath", "getroottree", "iterchildren"):
                return self.fresh(e.func.value, f)
            return not path and e.func.attr in FRESH_METHODS
        if e.args and isinstance(e.func, ast.Name):  # a query object of a library
            return bool(self.query(e.func, f)) and all(self.fresh(a, f) for a in e.args)
        return False

    def query(self, name, f):
        vs = [n.value for n in f.module.tree.body if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name.id for t in n.targets)]
        v = vs[0] if len(vs) == 1 else None
        return isinstance(v, ast.Call) and any(a[0] == "ext" and a[1].startswith(TREE) for a in self.flow.eval(v.func, f.module))

    def fresh_result(self, g, path=()):
        key = ("result", g, path)
        if key in self.busy:
            return True
        self.busy.add(key)
        try:
            if isinstance(g.node, ast.Lambda):
                return self.fresh(g.node.body, g, path)
            for n in walk_scope(g.node):
                if isinstance(n, ast.Return) and n.value is not None and not self.fresh(n.value, g, path):
                    return False
                if isinstance(n, (ast.Yield,)) and n.value is not None and not self.fresh(n.value, g, path if g.is_contextmanager else path[1:]):
                    return False
            return True
        finally:
            self.busy.discard(key)

    def fresh_param(self, g, name, path=()):
        a = g.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if name in (a.vararg and a.vararg.arg, a.kwarg and a.kwarg.arg):
            return not path
        edges = self.edges.get(g)
        if not edges:
            return False
        for f, e in edges:
            if not isinstance(e, ast.Call):  # property
                if pos and name == pos[0]:
                    if not self.fresh(e.value, f, path):
                        return False
                    continue
                return False
            v = self.argument(g, name, pos, e, f)
            if v is None or v is not True and not self.fresh(v, f, path):
                return False
        return True

    def argument(self, g, name, pos, e, f):
        """The argument of a call for a parameter; True when it is the object under construction or the default."""
        bound = g.cls is not None and not g.is_static
        i = pos.index(name) if name in pos else None
        if bound and i == 0:
            fn = self.flow.eval(e.func, f)
            if g.is_classmethod or any(a[0] == "cls" for a in fn):
                return True
            if isinstance(e.func, ast.Attribute):
                v = e.func.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                    h = f
                    while h is not None and h.cls is None:
                        h = h.parent
                    return ast.Name(h.node.args.args[0].arg, ast.Load()) if h is not None else None
                if any(a[0] == "cls" for a in self.flow.eval(v, f)):
                    return e.args[0] if e.args else None
                return v
            return None
        for k in e.keywords:
            if k.arg == name:
                return k.value
        if i is not None:
            unbound = bound and not g.is_classmethod and isinstance(e.func, ast.Attribute) and any(a[0] == "cls" for a in self.flow.eval(e.func.value, f)) and \
                not any(a[0] == "cls" for a in self.flow.eval(e.func, f))
            j = i - 1 if bound and not unbound else i
            if j < len(e.args) and not any(isinstance(x, ast.Starred) for x in e.args[: j + 1]):
                return e.args[j]
        if any(k.arg is None for k in e.keywords) or any(isinstance(x, ast.Starred) for x in e.args):
            return None
        a = g.node.args
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        d = defaults.get(name)
        return True if isinstance(d, ast.Constant) else None  # other defaults are shared by all calls

    def constructed(self, e, f):
        """A local object made by a constructor (so that its parts are new as well)."""
        g, ds = self.scope(f, e.id)
        if g is None or g is not f:
            return False
        for d in ds:
            if not isinstance(d, ast.Call):
                return False
            fn = self.flow.eval(d.func, g)
            if not fn or not all(a[0] == "cls" or a[0] == "ext" and a[1] == "copy.deepcopy" for a in fn):
                return False
        return True

    # -- mutations
    def sites(self):
        """-> (function, node, changed expression, attribute or None, what)"""
        for f in sorted(self.reach, key=lambda f: (f.qual, getattr(f.node, "lineno", 0))):
            for n in walk_scope(f.node):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For)):
                    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                    for t in ts:
                        yield from self.stored(f, n, t)
                elif isinstance(n, ast.With):
                    for i in n.items:
                        if i.optional_vars is not None:
                            yield from self.stored(f, n, i.optional_vars)
                elif isinstance(n, ast.Call):
                    yield from self.called(f, n)

    def stored(self, f, n, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                yield from self.stored(f, n, x)
        elif isinstance(t, ast.Starred):
            yield from self.stored(f, n, t.value)
        elif isinstance(t, ast.Attribute):
            yield f, n, t.value, t.attr, "attribute {}".format(t.attr)
        elif isinstance(t, ast.Subscript):
            yield f, n, t.value, None, "an element of {}".format(ast.unparse(t.value)[:40])
        elif isinstance(t, ast.Name):
            outer = {x for s in walk_scope(f.node) if isinstance(s, (ast.Nonlocal, ast.Global)) for x in s.names}
            if t.id in outer:
                yield f, n, t, None, "variable {}".format(t.id)
            elif isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.BitOr)) and not self.number(n.value, f):
                atoms = self.flow.eval(ast.Name(t.id, ast.Load()), f)
                if LIST in atoms:
                    yield f, n, ast.Name(t.id, ast.Load()), None, "the list {}".format(t.id)

    def number(self, e, f):
        if isinstance(e, (ast.BinOp, ast.UnaryOp)):
            return not isinstance(e, ast.BinOp) or self.number(e.left, f) or self.number(e.right, f) or isinstance(e.op, (ast.Div, ast.FloorDiv))
        if isinstance(e, ast.Call):
            return all(a[0] == "ext" and a[1] in ("max", "min", "len", "int", "float", "abs", "round", "sum") for a in self.flow.eval(e.func, f))
        if isinstance(e, ast.Constant):
            return True
        return LIST not in self.flow.eval(e, f)

    def called(self, f, n):
        fn = self.flow.eval(n.func, f)
        names = {a[1] for a in fn if a[0] == "ext"}
        if names & {"setattr", "delattr", "next", "random.shuffle", "heapq.heappush", "heapq.heappop", "object.__setattr__"} and n.args:
            attr = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else None
            yield f, n, n.args[0], attr, "{}({})".format(sorted(names)[0], ast.unparse(n.args[0])[:30])
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and not any(a[0] in ("fn", "meth", "cls") for a in fn):
            if n.func.attr == "replace" and len(n.args) == 2:
                recv = self.flow.eval(n.func.value, f)
                if not any(a[0] == "of" and a[1].startswith(TREE) and "attrib" not in a[1] for a in recv):
                    return
            if n.func.attr in ("set", "remove") and names and not any(x.startswith(TREE) for x in names):
                return
            yield f, n, n.func.value, None, "{}.{}".format(ast.unparse(n.func.value)[:40], n.func.attr)
