"""Where values come from: a flow-insensitive analysis of the whole program.

Every expression has a set of atoms:
  ("obj", class)           an instance of a class of the program
  ("fn", function)         a function; ("meth", function, class) a bound method; ("cls", class); ("ext", name) an external name
  ("of", name)             the result of a call of an external function
  ("str", base, parts)     a text, path or number that begins with base, and the bases of its other parts
Bases: ("const", value), ("arg", function, parameter), ("temp",), ("safe",) (a number, digest or generated name), ("unknown", text).
Fields are kept per class, containers are merged with their elements."""
import ast
import functools

from program import walk_scope

LIST = ("list",)  # marks containers
SAFE = ("str", ("safe",), frozenset())
TEMPORARY = {"tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "tempfile.TemporaryDirectory", "tempfile.mkdtemp", "tempfile.mkstemp",
             "tempfile.SpooledTemporaryFile", "tempfile.gettempdir", "tempfile.mktemp"}
CONTAINER = {x for t in (dict, list, set, tuple) for x in dir(t) if not x.startswith("_")}
SAFE_CALLS = {"len", "int", "float", "range", "enumerate", "abs", "round", "hash", "id", "bool", "os.getpid", "tempfile._get_candidate_names",
              "os.listdir", "time.time", "time.time_ns", "uuid.uuid4", "threading.get_ident", "ord", "isinstance", "os.path.getsize"}
SAME = {"os.path.abspath", "os.path.normpath", "os.path.realpath", "os.path.expanduser", "str", "os.fspath", "os.fsdecode", "os.fsencode", "list",
        "tuple", "set", "frozenset", "sorted", "reversed", "iter", "next", "dict", "pathlib.Path", "pathlib.PurePath", "os.path.expandvars",
        "copy.copy", "copy.deepcopy", "max", "min", "sum", "zip", "bytes", "bytearray", "repr"}
SAME_METHODS = {"strip", "lstrip", "rstrip", "lower", "upper", "encode", "decode", "get", "pop", "copy", "items", "values", "difference", "union",
                "intersection", "setdefault", "resolve", "absolute", "as_posix", "removeprefix", "removesuffix", "ljust", "rjust", "split", "keys",
                "popitem", "symmetric_difference", "title", "capitalize", "expanduser"}
STORES = {"append": 0, "add": 0, "extend": 0, "insert": 1, "update": 0, "setdefault": 1, "appendleft": 0}
MAX_ATOMS = 60


def const(v):
    return ("str", ("const", v), frozenset())


class Flow:
    def __init__(self, prog, api=()):
        self.prog = prog
        self.api = set(api)
        self.funcs = []
        seen = set()
        for q, f in prog.funcs.items():
            if not q.startswith("spec."):
                if id(f.node) not in seen:
                    seen.add(id(f.node))
                    self.funcs.append(f)
        for n, f in prog.func_by_node.items():
            if not f.qual.startswith("spec.") and id(n) not in seen:
                seen.add(id(n))
                self.funcs.append(f)
        self.env = {}
        self.called = set()
        self.foreign = set()  # called by external functions
        self.omitted = set()  # parameters that some call leaves to their default
        self.callers = {}
        self.locals = {}
        for f in self.funcs:
            self.locals[f] = self.local_names(f)
        self.calls = {}  # call node -> (function or module, callee atoms)
        self.entry = set()
        self.final = False
        self.solve()
        new = {f for f in self.funcs if f not in self.called and not self.nested(f)}
        self.entry = new | {f for f in self.funcs if f.qual in self.api}
        self.solve()
        self.final = True
        self.solve()

    @staticmethod
    def nested(f):
        return "<locals>" in f.qual or "<lambda>" in f.qual

    def solve(self):
        for _ in range(25):
            self.changed = False
            for f in self.funcs:
                self.function(f)
            for m in self.prog.modules.values():
                if not m.name.startswith("spec."):
                    for s in m.tree.body:
                        if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                            self.statement(s, m)
            if not self.changed:
                return

    def local_names(self, f):
        out = set()
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            out.add(x.arg)
        for n in walk_scope(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for alias, dotted in self.prog.import_names(f.module, n):
                    out.add(alias)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
        return out

    # -- environment
    def add(self, key, atoms):
        old = self.env.get(key)
        if old is None:
            old = self.env[key] = set()
        if not atoms <= old and len(old) < MAX_ATOMS:
            old |= atoms
            self.changed = True

    def scope_of(self, scope, name):
        f = scope
        while f is not None and f in self.locals:
            if name in self.locals[f]:
                return f
            f = f.parent
        return None

    # -- statements
    def function(self, f):
        a = f.node.args
        pos = a.posonlyargs + a.args
        defaults = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        names = [x.arg for x in pos + a.kwonlyargs]
        if f.cls is not None and not f.is_static and names:
            self.add((f, names[0]), {("cls" if f.is_classmethod else "obj", f.cls.qual)})
            names = names[1:]
        for n, d in defaults.items():
            v = self.eval(d, f.parent or f.module)
            if f in self.entry or f in self.foreign or (f, n) in self.omitted:
                self.add((f, n), v)
        anns = {x.arg: x.annotation for x in pos + a.kwonlyargs}
        for n in names:
            c = self.prog.annotation_class(f.module, anns.get(n))
            if c is not None:
                self.add((f, n), {("obj", c.qual)})
            if f in self.entry:
                self.add((f, n), {("str", ("arg", f.qual, n), frozenset())})
        for x in (a.vararg, a.kwarg):
            if x and f in self.entry:
                self.add((f, x.arg), {("str", ("arg", f.qual, x.arg), frozenset())})
        if isinstance(f.node, ast.Lambda):
            self.add((f, "return"), self.eval(f.node.body, f))
            return
        for s in f.node.body:
            self.statement(s, f)

    def statement(self, s, f):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = self.prog.func_by_node.get(s)
            if g is not None:
                self.add((f, s.name), {("fn", g)})
            for d in s.decorator_list:
                self.eval(d, f)
            return
        if isinstance(s, ast.ClassDef):
            for c in self.prog.classes.values():
                if c.node is s:
                    self.add((f, s.name), {("cls", c.qual)})
            return
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for alias, dotted in self.prog.import_names(f.module if f in self.locals else f, s):
                self.add((f, alias), self.resolved(self.prog.resolve_dotted(dotted)))
            return
        if isinstance(s, ast.Assign):
            v = self.eval(s.value, f)
            for t in s.targets:
                self.bind(t, v, f)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.eval(s.value, f), f)
        elif isinstance(s, ast.AugAssign):
            old = self.eval(ast.copy_location(self.load(s.target), s), f)
            new = self.eval(s.value, f)
            self.bind(s.target, self.plus(old, new) if isinstance(s.op, ast.Add) else {SAFE}, f)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.bind(s.target, self.eval(s.iter, f) - {LIST}, f)
            self.block(s.body + s.orelse, f)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.eval(i.context_expr, f)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, f)
            self.block(s.body, f)
        elif isinstance(s, (ast.If, ast.While)):
            self.eval(s.test, f)
            self.block(s.body + s.orelse, f)
        elif isinstance(s, ast.Try):
            self.block(s.body, f)
            for h in s.handlers:
                if h.name:
                    self.add((f, h.name), {("str", ("unknown", "exception"), frozenset())})
                self.block(h.body, f)
            self.block(s.orelse + s.finalbody, f)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.add((f, "return"), self.eval(s.value, f))
        elif isinstance(s, ast.Expr):
            self.eval(s.value, f)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.eval(s.exc, f)
        elif isinstance(s, ast.Assert):
            self.eval(s.test, f)
        elif isinstance(s, ast.Match):
            self.eval(s.subject, f)
            for c in s.cases:
                self.block(c.body, f)

    def block(self, body, f):
        for s in body:
            self.statement(s, f)

    @staticmethod
    def load(t):
        if isinstance(t, ast.Name):
            return ast.Name(t.id, ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(t.value, t.attr, ast.Load())
        return ast.Subscript(t.value, t.slice, ast.Load())

    def bind(self, t, v, f):
        if isinstance(t, ast.Name):
            self.add((self.scope_of(f, t.id) or f, t.id), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, v - {LIST}, f)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, f)
        elif isinstance(t, ast.Attribute):
            owners = [a[1] for a in self.eval(t.value, f) if a[0] in ("obj", "cls")]
            for o in owners or ["*"]:
                self.add((o, "." + t.attr), v)
        elif isinstance(t, ast.Subscript):
            self.eval(t.slice, f)
            self.into(t.value, v, f)

    def into(self, container, v, f):
        if isinstance(container, (ast.Name, ast.Attribute)):
            self.bind(container, v, f)
        elif isinstance(container, ast.Subscript):
            self.into(container.value, v, f)

    # -- expressions
    def resolved(self, r):
        if r is None:
            return set()
        if r[0] == "func":
            return {("fn", r[1])}
        if r[0] == "class":
            return {("cls", r[1].qual)}
        if r[0] == "module":
            return {("module", r[1].name)}
        if r[0] == "assign":
            return set(self.env.get((r[1], r[3]), ())) | self.eval(r[2], r[1])
        return {("ext", r[1])}

    def name(self, n, f):
        s = self.scope_of(f, n) if f in self.locals else None
        if s is not None:
            return set(self.env.get((s, n), ()))
        m = f.module if f in self.locals else f
        r = self.prog.resolve_name(m, n)
        out = set(self.env.get((m, n), ()))
        if r is None:
            return out or {("ext", n)}
        return out | self.resolved(r)

    def attribute(self, objs, attr, text):
        out = set()
        known = False
        for a in objs:
            if a[0] in ("obj", "cls"):
                c = self.prog.classes.get(a[1])
                if c is None:
                    continue
                found = set()
                if attr == "__class__" and a[0] == "obj":
                    out |= {("cls", k.qual) for k in [c] + c.all_subclasses()}
                    known = True
                    continue
                first = c.find(attr)
                for k in c.mro() + c.all_subclasses():
                    got = self.env.get((k.qual, "." + attr))
                    if got:
                        found |= got
                        known = True
                    g = k.getters.get(attr)
                    if g is not None:
                        self.call_function(g, [{a if k in c.mro() or a[0] != "obj" else ("obj", k.qual)}], {}, None)
                        found |= self.env.get((g, "return"), set())
                        known = True
                    m = k.methods.get(attr)
                    if m is not None and (m is first or a[0] == "obj" and k not in c.mro()):
                        found.add(("fn", m) if m.is_static or a[0] == "cls" and not m.is_classmethod else ("meth", m, a[1] if k in c.mro() else k.qual))
                        known = True
                    v = k.assigns.get(attr)
                    if v is not None:
                        found |= self.eval(v, k.module)
                        known = True
                out |= found
                out |= self.env.get(("*", "." + attr), set())
            elif a[0] == "super":
                here = self.prog.classes[a[1]]
                known = True  # a method that is not found is one of a class outside
                for s in [here] + here.all_subclasses():  # the next class in the order of each possible class of the object
                    order = s.mro()
                    for k in order[order.index(here) + 1:]:
                        if attr in k.methods:
                            out.add(("meth", k.methods[attr], a[1]))
                            known = True
                            break
                        if attr in k.getters:
                            self.call_function(k.getters[attr], [{("obj", a[1])}], {}, None)
                            out |= self.env.get((k.getters[attr], "return"), set())
                            known = True
                            break
            elif a[0] == "module":
                m = self.prog.modules[a[1]]
                out |= set(self.env.get((m, attr), ())) | self.resolved(self.prog.resolve_dotted(a[1] + "." + attr))
                known = True
            elif a[0] == "ext":
                out.add(("ext", a[1] + "." + attr))
                known = True
            elif a[0] == "of":
                out.add(("ext", a[1].split("().")[0] + "()." + attr))
                known = True
            elif a[0] == "str" and a[1] == ("temp",):
                out.add(a if attr == "name" else ("ext", "file." + attr))
                known = True
        text_method = bool(objs) and all(a[0] == "str" and a[1][0] in ("const", "safe") or a == LIST for a in objs)
        if attr in CONTAINER and any(a[0] == "obj" for a in objs) and all(a[0] == "obj" or a == LIST or a[0] == "str" and a[1][0] != "unknown" for a in objs):
            text_method = True  # a dictionary or a list of such objects
        if not known and not out and self.final and not text_method:
            for q, c in self.prog.classes.items():
                if not q.startswith("spec."):
                    got = self.env.get((q, "." + attr))
                    if got:
                        out |= got
                    if attr in c.methods:
                        out.add(("meth", c.methods[attr], q))
                    g = c.getters.get(attr)
                    if g is not None:
                        out |= self.env.get((g, "return"), set())
            out |= self.env.get(("*", "." + attr), set())
            if not out:
                out.add(("str", ("unknown", text), frozenset()))
        return out

    def join(self, parts, text):
        """A text whose parts have the given atoms, in order."""
        acc = None
        for p in parts:
            strs = {(a[1], a[2]) for a in p if a[0] == "str"}
            if not strs:
                if not self.final:
                    return set()
                strs = {(("unknown", text), frozenset())}
            if acc is None:
                acc = strs
                continue
            if len(acc) * len(strs) > 300:
                acc, strs = few(acc), few(strs)
            new = set()
            for b, h in acc:
                for b2, h2 in strs:
                    if b == ("const", ""):
                        new.add((b2, h | h2))
                    elif b[0] == b2[0] == "const" and isinstance(b[1], str) and isinstance(b2[1], str) and not h and len(b[1]) < 80:
                        new.add((("const", b[1] + b2[1]), h2))
                    elif b == b2 == ("safe",):
                        new.add((b, h | h2))
                    else:
                        extra = set(h) | set(h2)
                        if b2[0] == "const" and isinstance(b2[1], str):
                            extra |= marks(b2[1])
                            if b[0] == "arg" and b2[1]:
                                extra.add(("more",))
                        elif b2 != ("safe",):
                            extra.add(b2)
                        if b[0] == "const" and isinstance(b[1], str):
                            extra |= marks(b[1])
                        new.add((b, frozenset(extra)))
            acc = new
            if len(acc) > MAX_ATOMS:
                acc = few(acc)
        return {("str", b, h) for b, h in acc or ()}

    def plus(self, a, b):
        if LIST in a or LIST in b:
            return a | b
        if all(x == SAFE or x[0] == "str" and x[1][0] == "const" and isinstance(x[1][1], (int, float)) for x in a | b) and a | b:
            return {SAFE}
        lists = [x for x in a | b if x[0] != "str"]
        out = self.join([a, b], "+")
        return out | set(lists) | ({x for x in b} if lists else set())

    def eval(self, e, f):
        if isinstance(e, ast.Constant):
            return {const(e.value)}
        if isinstance(e, ast.Name):
            return self.name(e.id, f)
        if isinstance(e, ast.Attribute):
            return self.attribute(self.eval(e.value, f), e.attr, ast.unparse(e)[:60])
        if isinstance(e, ast.Call):
            return self.call(e, f)
        if isinstance(e, ast.JoinedStr):
            parts = []
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    x = self.eval(v.value, f)
                    parts.append({SAFE} if v.format_spec is not None and x else x)
                else:
                    parts.append({const(v.value)})
            return self.join(parts, ast.unparse(e)[:60]) if parts else {const("")}
        if isinstance(e, ast.BinOp):
            a, b = self.eval(e.left, f), self.eval(e.right, f)
            if isinstance(e.op, ast.Add):
                return self.plus(a, b)
            if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
                return self.template(e.left.value.split("%s") if e.left.value.count("%s") else e.left.value.split("%d"), [b] * 9)
            if isinstance(e.op, ast.Div) and any(x[0] == "str" and x[1][0] not in ("safe", "const") for x in a):
                return self.join([a, b], ast.unparse(e)[:60])
            if isinstance(e.op, (ast.BitOr, ast.Sub, ast.BitAnd)) and any(x[0] != "str" for x in a | b):
                return a | b
            if isinstance(e.op, ast.Mult):
                return a | b if any(isinstance(x, (ast.List, ast.Tuple)) for x in (e.left, e.right)) else {SAFE}
            return {SAFE}
        if isinstance(e, (ast.IfExp,)):
            self.eval(e.test, f)
            return self.eval(e.body, f) | self.eval(e.orelse, f)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.eval(v, f)
            return out
        if isinstance(e, (ast.Compare,)):
            self.eval(e.left, f)
            for c in e.comparators:
                self.eval(c, f)
            return {SAFE}
        if isinstance(e, ast.UnaryOp):
            self.eval(e.operand, f)
            return {SAFE}
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = {LIST}
            for x in e.elts:
                out |= self.eval(x, f)
            return out
        if isinstance(e, ast.Dict):
            out = set()
            for k, v in zip(e.keys, e.values):
                if k is not None:
                    out |= self.eval(k, f)
                out |= self.eval(v, f)
            return out
        if isinstance(e, ast.Subscript):
            if not isinstance(e.slice, ast.Slice):
                self.eval(e.slice, f)
                return self.eval(e.value, f) - {LIST}
            return self.eval(e.value, f)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in e.generators:
                self.bind(g.target, self.eval(g.iter, f) - {LIST}, f)
                for c in g.ifs:
                    self.eval(c, f)
            if isinstance(e, ast.DictComp):
                return self.eval(e.key, f) | self.eval(e.value, f)
            return self.eval(e.elt, f) | {LIST}
        if isinstance(e, ast.Lambda):
            g = self.prog.func_by_node.get(e)
            return {("fn", g)} if g is not None else set()
        if isinstance(e, ast.Starred):
            return self.eval(e.value, f)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if e.value is not None:
                self.add((f, "return"), self.eval(e.value, f))
            return set()
        if isinstance(e, ast.NamedExpr):
            v = self.eval(e.value, f)
            self.bind(e.target, v, f)
            return v
        if isinstance(e, ast.Await):
            return self.eval(e.value, f)
        return set()

    def template(self, texts, args):
        parts = []
        for i, t in enumerate(texts):
            if t or i == 0:
                parts.append({const(t)})
            if i < len(texts) - 1 and i < len(args):
                parts.append(args[i])
        return self.join(parts, "format")

    def call(self, e, f):
        text = ast.unparse(e)[:60]
        fn = self.eval(e.func, f)
        args = [self.eval(a, f) for a in e.args]
        starred = [isinstance(a, ast.Starred) for a in e.args]
        kw = {k.arg: self.eval(k.value, f) for k in e.keywords}
        self.calls[e] = (f, fn)
        out = set()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            g = f
            while g is not None and g in self.locals and g.cls is None:
                g = g.parent
            if g is not None and getattr(g, "cls", None) is not None:
                return {("super", g.cls.qual)}
        done = False
        for a in list(fn):
            if a[0] == "fn":
                out |= self.call_function(a[1], args, kw, f, starred)
                done = True
            elif a[0] == "meth":
                out |= self.call_function(a[1], [{("cls" if a[1].is_classmethod else "obj", a[2])}] + args, kw, f, [False] + starred)
                done = True
            elif a[0] == "cls":
                out |= self.construct(a[1], args, kw, f, starred)
                done = True
            elif a[0] == "obj":
                m = self.attribute({a}, "__call__", text)
                for b in m:
                    if b[0] == "meth":
                        out |= self.call_function(b[1], [{("obj", b[2])}] + args, kw, f, [False] + starred)
                        done = True
            elif a[0] == "ext":
                out |= self.external(a[1], e, args, kw, f, text)
                done = True
        if isinstance(e.func, ast.Attribute) and not done or isinstance(e.func, ast.Attribute) and any(a[0] == "str" for a in fn):
            out |= self.method(e.func, args, kw, f, text)
            done = True
        if not done and self.final:
            out.add(("str", ("unknown", text), frozenset()))
        return out

    def method(self, func, args, kw, f, text):
        """A method of a built-in object."""
        recv = self.eval(func.value, f)
        name = func.attr
        if name in STORES and len(args) > STORES[name]:
            self.into(func.value, args[STORES[name]], f)
            if name != "setdefault":
                return set()
        if name in SAME_METHODS:
            out = set(recv)
            for a in args:
                out |= a
            return out
        if name == "format":
            v = func.value
            if isinstance(v, ast.Constant) and isinstance(v.value, str):
                import string
                pieces, used, n = [], [], 0
                for lit, field, spec, conv in string.Formatter().parse(v.value):
                    pieces.append(lit)
                    if field is None:
                        continue
                    key = field.split(".")[0].split("[")[0]
                    if key == "":
                        key, n = str(n), n + 1
                    a = kw.get(key, set()) if not key.isdigit() else args[int(key)] if int(key) < len(args) else set()
                    used.append({SAFE} if spec else a)
                if len(pieces) == len(used):
                    pieces.append("")
                return self.template(pieces, used)
        if name == "join":
            return self.join([x for x in [recv] + args if x], text) | set().union(*args) if args else set()
        if name in ("joinpath", "with_name", "__truediv__"):
            return self.join([recv] + args, text)
        if name in ("hexdigest", "digest", "index", "count", "find", "startswith", "endswith"):
            return {SAFE}
        if name == "replace" and len(args) == 2:
            return set(recv) | args[1]
        return {("str", ("unknown", text), frozenset())} if self.final else set()

    def external(self, q, e, args, kw, f, text):
        if q in TEMPORARY:
            d = kw.get("dir") or (args[2] if q.endswith("mkdtemp") and len(args) > 2 else None)
            if d and any(a[0] == "str" and a[1] != ("const", None) for a in d):
                return self.join([d, {const("/temp")}], text)
            return {("str", ("temp",), frozenset())}
        if q in SAFE_CALLS:
            if q == "enumerate":
                return {SAFE}.union(*args)
            return {SAFE}
        if q in SAME:
            out = set().union(*args) if args else set()
            for v in kw.values():
                out |= v
            return out
        if q in ("os.path.join",):
            parts = []
            for a in args:
                parts += [a, {const("/")}]
            return self.join(parts[:-1], text) if args else set()
        if q in ("os.path.basename",):
            return {("str", ("base name",) + tuple(a[1]), a[2]) if a[0] == "str" and a[1] != ("safe",) else a for a in args[0]} if args else set()
        if q in ("os.path.dirname", "os.path.split"):
            return {("str", ("parent of", ) + tuple(a[1]), frozenset()) if a[0] == "str" else a for a in args[0]} if args else set()
        if q in ("os.path.splitext",):
            return set(args[0]) if args else set()
        if q == "functools.partial" and args:
            for a in args[0]:
                if a[0] in ("fn", "meth"):
                    self.call_function(a[1], ([{("obj", a[2])}] if a[0] == "meth" else []) + args[1:], kw, f)
            return set(args[0])
        if q in ("map", "filter") and args:
            out = set()
            for a in args[0]:
                if a[0] in ("fn", "meth"):
                    out |= self.call_function(a[1], ([{("obj", a[2])}] if a[0] == "meth" else []) + args[1:], {}, f)
            return out if q == "map" else set().union(*args[1:])
        if q == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            return self.attribute(args[0], e.args[1].value, text) | (args[2] if len(args) > 2 else set())
        # callbacks of external functions are called with values that are not known
        for a in set().union(*args, *kw.values()) if args or kw else ():
            if a[0] in ("fn", "meth"):
                self.called.add(a[1])
                self.foreign.add(a[1])
        if q.endswith((".hexdigest", ".digest")):
            return {SAFE}
        tail = q.rsplit(").", 1)[-1] if ")." in q else None
        if tail in SAME_METHODS or tail is not None and e.func is not None and "()." in q and tail in ("crop", "convert", "resize"):
            return {("of", q[: -len(tail) - 3])}
        return {("of", q)}

    def construct(self, q, args, kw, f, starred=()):
        c = self.prog.classes.get(q)
        if c is None:
            return set()
        init = c.find("__init__")
        if init is not None:
            self.call_function(init, [{("obj", q)}] + args, kw, f, [False] + list(starred))
        else:
            for n in c.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    i = [x.target.id for x in c.node.body if isinstance(x, ast.AnnAssign)].index(n.target.id)
                    v = kw.get(n.target.id) or (args[i] if i < len(args) else None)
                    if v:
                        self.add((q, "." + n.target.id), v)
        return {("obj", q)}

    def call_function(self, g, args, kw, f, starred=()):
        self.called.add(g)
        if f is not None:
            self.callers.setdefault(g, set()).add(f)
        a = g.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        rest = [x.arg for x in a.kwonlyargs]
        given = set()
        for i, v in enumerate(args):
            if i < len(starred) and starred[i]:
                # the values are taken for the parameters that have to be given
                required = pos[i:len(pos) - len(a.defaults)] or pos[i:]
                for n in required:
                    self.add((g, n), v - {LIST})
                if a.vararg:
                    self.add((g, a.vararg.arg), v)
                break
            if i < len(pos):
                self.add((g, pos[i]), v)
                given.add(pos[i])
            elif a.vararg:
                self.add((g, a.vararg.arg), v)
        for n, v in kw.items():
            if n is None:
                for m in pos + rest:
                    if m not in given and m not in kw and not (g.cls is not None and pos and m == pos[0] and not g.is_static):
                        self.add((g, m), v)
                if a.kwarg:
                    self.add((g, a.kwarg.arg), v)
            elif n in pos or n in rest:
                self.add((g, n), v)
            elif a.kwarg:
                self.add((g, a.kwarg.arg), v)
        if None not in kw:
            for n in pos + rest:
                if n not in given and n not in kw:
                    self.omitted.add((g, n))
        return set(self.env.get((g, "return"), ()))


def few(strs):
    """The most telling texts: those that begin with something else than a constant."""
    return set(sorted(strs, key=lambda x: (x[0][0] == "const", len(x[1]), repr(x)))[:16])


@functools.lru_cache(10000)
def marks(text):
    """What a constant part says about a path."""
    out = set()
    if "temp" in text or "tmp" in text:
        out.add(("temporary name",))
    if any(p == ".." for p in text.split("/")):
        out.add(("const", ".."))
    return out
