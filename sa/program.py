"""Program model: parses the current sources, resolves names, classes and types.

Nothing of the analysed program is imported or executed."""
import ast
import os

REPO = os.environ.get("ELSIE_SA_REPO", "/repo")
PKG = "elsie"


class AnchorError(Exception):
    """A construct the rules are anchored on does not exist any more."""


class Func:
    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, "name", "<lambda>")
        self.decorators = [deco_name(d) for d in getattr(node, "decorator_list", ())]
        self._gen = None

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(self.node)
            )
        return self._gen

    @property
    def is_contextmanager(self):
        return any(d.endswith("contextmanager") for d in self.decorators)

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    def loc(self, node=None):
        return "{}:{} ({})".format(
            self.module.relpath, getattr(node or self.node, "lineno", 0), self.qual
        )

    def __repr__(self):
        return "<Func {}>".format(self.qual)


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    parts = []
    while isinstance(d, ast.Attribute):
        parts.append(d.attr)
        d = d.value
    if isinstance(d, ast.Name):
        parts.append(d.id)
    return ".".join(reversed(parts))


def walk_scope(node):
    """Nodes of a function body without nested function scopes."""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Class:
    def __init__(self, qual, node, module):
        self.qual = qual
        self.name = node.name
        self.node = node
        self.module = module
        self.methods = {}
        self.getters = {}
        self.setters = {}
        self.assigns = {}
        self.bases = []
        self.ext_bases = []
        self.subclasses = []
        self.field_types = {}

    def mro(self):
        out = []

        def visit(c):
            out.append(c)
            for b in c.bases:
                visit(b)

        visit(self)
        res = []
        for i, c in enumerate(out):
            if c not in out[i + 1:]:
                res.append(c)
        return res

    def find(self, name, table="methods"):
        for c in self.mro():
            t = getattr(c, table)
            if name in t:
                return t[name]
        return None

    def all_subclasses(self):
        out = []
        for s in self.subclasses:
            out.append(s)
            out.extend(s.all_subclasses())
        return out

    def __repr__(self):
        return "<Class {}>".format(self.qual)


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.relpath = os.path.relpath(path, REPO) if path.startswith(REPO) else path
        self.tree = tree
        self.is_pkg = is_pkg
        self.bindings = {}  # name -> ('func', Func) | ('class', Class) | ('import', dotted) | ('assign', expr)

    def package(self):
        return self.name if self.is_pkg else self.name.rpartition(".")[0]


class Program:
    def __init__(self, root=None, pkg=PKG, extra=()):
        self.root = root or REPO
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.func_by_node = {}
        base = os.path.join(self.root, pkg)
        if not os.path.isdir(base):
            raise AnchorError("package {} not found in {}".format(pkg, self.root))
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].split(os.sep)
                    is_pkg = rel[-1] == "__init__"
                    if is_pkg:
                        rel = rel[:-1]
                    self.add_module(".".join(rel), p, is_pkg)
        for name, path in extra:
            self.add_module(name, path, False)
        self._link()

    FRESH_LISTS = {"get_painters"}  # methods that return a list of their own

    WALKS = {"_traverse"}  # methods that call their argument for every box of the tree

    def repo_functions(self):
        """All functions of the repository that have a name."""
        seen, out = set(), []
        for q, f in self.funcs.items():
            if not q.startswith("spec.") and id(f) not in seen and isinstance(f.node, ast.FunctionDef) and "<locals>" not in q:
                seen.add(id(f))
                out.append(f)
        return out

    def functions_of(self, module):
        """All functions of a module, including methods and nested functions."""
        return [f for q, f in sorted(self.funcs.items()) if f.module.name == module]

    def add_module(self, name, path, is_pkg):
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read(), path)
        m = Module(name, path, tree, is_pkg)
        self.modules[name] = m
        self._collect(m, tree.body)

    # -- collection -----------------------------------------------------
    def _collect(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._func(m.name + "." + n.name, n, m, None, None)
                m.bindings[n.name] = ("func", f)
            elif isinstance(n, ast.ClassDef):
                m.bindings[n.name] = ("class", self._class(m, n, m.name + "." + n.name))
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for alias, dotted in self.import_names(m, n):
                    m.bindings[alias] = ("import", dotted)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.bindings[t.id] = ("assign", n.value)
                    elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                        for a, b in zip(t.elts, n.value.elts):
                            if isinstance(a, ast.Name):
                                m.bindings[a.id] = ("assign", b)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value:
                m.bindings[n.target.id] = ("assign", n.value)
            elif isinstance(n, ast.If):
                self._collect(m, n.body)
                self._collect(m, n.orelse)
            elif isinstance(n, ast.Try):
                self._collect(m, n.body)
                for h in n.handlers:
                    self._collect(m, h.body)
                self._collect(m, n.orelse)
                self._collect(m, n.finalbody)
            elif isinstance(n, ast.With):
                self._collect(m, n.body)

    def import_names(self, m, n):
        out = []
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    out.append((a.asname, a.name))
                else:
                    out.append((a.name.split(".")[0], a.name.split(".")[0]))
        else:
            if n.level:
                base = m.package().split(".")
                base = base[: len(base) - (n.level - 1)]
                mod = ".".join(base + ([n.module] if n.module else []))
            else:
                mod = n.module or ""
            for a in n.names:
                out.append((a.asname or a.name, mod + "." + a.name))
        return out

    def _func(self, qual, node, m, cls, parent):
        f = Func(qual, node, m, cls, parent)
        self.funcs.setdefault(qual, f)
        self.func_by_node[node] = f
        for n in walk_scope(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._func(qual + ".<locals>." + n.name, n, m, None, f)
            elif isinstance(n, ast.Lambda):
                self._func(qual + ".<lambda>", n, m, None, f)
            elif isinstance(n, ast.ClassDef):
                self._class(m, n, qual + ".<locals>." + n.name)
        return f

    def _class(self, m, n, qual):
        c = Class(qual, n, m)
        self.classes[qual] = c
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decos = [deco_name(d) for d in s.decorator_list]
                suffix = ""
                if any(d.endswith(".setter") for d in decos):
                    suffix = ".setter"
                f = self._func(qual + "." + s.name + suffix, s, m, c, None)
                if suffix:
                    c.setters[s.name] = f
                elif any(d in ("property", "functools.cached_property", "cached_property") for d in decos):
                    c.getters[s.name] = f
                else:
                    c.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    c.assigns[s.target.id] = s.value
        return c

    def _link(self):
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                if r and r[0] == "class":
                    c.bases.append(r[1])
                    r[1].subclasses.append(c)
                else:
                    c.ext_bases.append(r[1] if r else ast.unparse(b))
        self._infer_fields()

    # -- resolution -----------------------------------------------------
    def resolve_dotted(self, dotted, _seen=None):
        """-> ('module', Module) | ('func', Func) | ('class', Class) | ('assign', Module, expr) | ('ext', dotted)"""
        seen = _seen or set()
        if dotted in seen:
            return ("ext", dotted)
        seen.add(dotted)
        if dotted in self.modules:
            return ("module", self.modules[dotted])
        parts = dotted.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.modules:
                m = self.modules[mod]
                r = self.resolve_name(m, parts[i], seen)
                for p in parts[i + 1:]:
                    if r is None:
                        return ("ext", dotted)
                    if r[0] == "module":
                        sub = self.resolve_dotted(r[1].name + "." + p, seen)
                        r = sub
                    elif r[0] == "class":
                        f = r[1].find(p)
                        r = ("func", f) if f else None
                    else:
                        r = None
                return r if r is not None else ("ext", dotted)
        return ("ext", dotted)

    def resolve_name(self, m, name, _seen=None):
        b = m.bindings.get(name)
        if b is None:
            sub = m.name + "." + name
            if sub in self.modules:
                return ("module", self.modules[sub])
            return None
        if b[0] == "import":
            return self.resolve_dotted(b[1], _seen)
        if b[0] == "assign":
            return ("assign", m, b[1], name)
        return b

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id) or ("ext", e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(m, e.value)
            if r and r[0] == "module":
                return self.resolve_dotted(r[1].name + "." + e.attr)
            if r and r[0] == "ext":
                return ("ext", r[1] + "." + e.attr)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(m, ast.parse(e.value, mode="eval").body)
            except SyntaxError:
                return None
        return None

    def annotation_class(self, m, ann):
        """Class named by an annotation (also as a string, in Optional/Union with None)."""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            h = ann.value
            nm = h.id if isinstance(h, ast.Name) else getattr(h, "attr", "")
            if nm in ("Optional", "Union"):
                el = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                el = [x for x in el if not (isinstance(x, ast.Constant) and x.value is None)]
                cs = {self.annotation_class(m, x) for x in el}
                return cs.pop() if len(cs) == 1 else None
            return None
        r = self.resolve_expr(m, ann)
        return r[1] if r and r[0] == "class" else None

    def mixed(self, ann):
        """The annotation is a union of several types."""
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return False
        if isinstance(ann, ast.Subscript) and (getattr(ann.value, "id", "") or getattr(ann.value, "attr", "")) == "Union":
            el = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            return len([x for x in el if not (isinstance(x, ast.Constant) and x.value is None)]) > 1
        return False

    # -- anchors --------------------------------------------------------
    def func(self, qual):
        r = self.resolve_dotted(qual)
        if r[0] == "func":
            return r[1]
        if qual in self.funcs:
            return self.funcs[qual]
        raise AnchorError("function {} not found".format(qual))

    def cls(self, qual):
        r = self.resolve_dotted(qual)
        if r[0] == "class":
            return r[1]
        raise AnchorError("class {} not found".format(qual))

    def public_class(self, name):
        cs = [c for c in self.classes.values() if c.name == name]
        if len(cs) != 1:
            raise AnchorError("class named {} not found (or ambiguous)".format(name))
        return cs[0]

    # -- field types ----------------------------------------------------
    METHOD_HINTS = {"_get_box": "Box"}
    ELEM_HINTS = {"walk": "Box"}
    NAME_HINTS = {
        "box": "Box", "_box": "Box", "new_box": "Box", "slide": "Slide",
        "slides": "SlideDeck", "slide_deck": "SlideDeck", "layout": "Layout",
        "rect": "Rect", "xml": "Xml", "style": "TextStyle", "inkscape": "InkscapeShell",
        "fs_cache": "FsCache", "_show_info": "ShowInfo", "show_info": "ShowInfo",
        "temp_cache": None,
    }

    def _infer_fields(self):
        names = {}
        for c in self.classes.values():
            names.setdefault(c.name, []).append(c)
        self.class_by_name = {k: v[0] for k, v in names.items() if len(v) == 1}
        for c in self.classes.values():
            init = c.methods.get("__init__")
            fs = list(c.methods.values())
            for f in fs:
                anns = {a.arg: a.annotation for a in f.node.args.args + f.node.args.kwonlyargs}
                for n in ast.walk(f.node):
                    tgt = val = None
                    if isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, val = n.targets[0], n.value
                    elif isinstance(n, ast.AnnAssign):
                        tgt, val = n.target, n.value
                    if not (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self"):
                        continue
                    t = None
                    if isinstance(val, ast.Call):
                        r = self.resolve_expr(c.module, val.func)
                        if r and r[0] == "class":
                            t = r[1]
                        elif isinstance(val.func, ast.Attribute) and isinstance(val.func.value, ast.Name):
                            r = self.resolve_expr(c.module, val.func.value)
                            if r and r[0] == "class" and val.func.attr == "parse":
                                t = r[1]
                    elif isinstance(val, ast.Name) and f is init:
                        t = self.annotation_class(c.module, anns.get(val.id))
                    if t is not None:
                        c.field_types.setdefault(tgt.attr, t)
        self.method_owners = {}
        for c in self.classes.values():
            for n in c.methods:
                self.method_owners.setdefault(n, []).append(c)

    def field_type(self, cls, attr):
        for c in cls.mro() if cls else ():
            if attr in c.field_types:
                return c.field_types[attr]
            g = c.getters.get(attr)
            if g is not None:
                return self.annotation_class(c.module, g.node.returns)
        h = self.NAME_HINTS.get(attr)
        return self.class_by_name.get(h) if h else None
