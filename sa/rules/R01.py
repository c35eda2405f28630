"""R01: rendering does not change the deck and can be repeated."""
import ast

from effects import Effects
from program import walk_scope
from rules import W01

ROOTS = ["elsie.slides.slidedeck.SlideDeck.render", "elsie.slides.slide.Slide.prepare", "elsie.slides.slide.Slide.make_render_unit",
         "elsie.slides.slide.Slide._repr_html_", "elsie.slides.slide.Slide.steps"]
LAYOUT = "elsie.slides.slide.Slide.prepare"
BOOKS = ("elsie.render.backends.backend.Backend", "elsie.utils.cache.FsCache")
EXPLANATION = (
    "All functions that a rendering can reach (through calls, drawing closures, layout callbacks and properties) are examined for changes of objects. "
    "An object that the rendering itself made may be changed (decided by following definitions, arguments of all call sites, results and the elements "
    "of collections). The deck, and every class and captured variable that can be reached from it, keeps its state, except memoised values of the "
    "backend whose keys determine them, the book-keeping of the file cache, and derived values that each rendering computes anew: the assigned value "
    "does not depend on a value that a rendering leaves behind and is not read before it is set. No clock or random generator is used for what is drawn.")
ASSUMPTIONS = ["callables given by the user (slide_postprocessing, lazy values) do not change the deck", "external libraries change only the objects they are given",
               "geometry callbacks of boxes run before the boxes inside are placed"]
MIN_OBLIGATIONS = 60
CHANGING = ("random.", "time.", "uuid.", "secrets.", "os.urandom", "os.getpid", "datetime.", "numpy.random")


def check(ctx):
    prog = ctx.prog
    flow = ctx.flow(W01.API)
    roots = [prog.func(q) for q in ROOTS]
    ef = Effects(flow, [r for r in roots if r is not None], "elsie.slides.slidedeck.SlideDeck")
    layout = reachable(ef, prog.func(LAYOUT))
    r = Rule(ctx, flow, ef, layout)
    bad = {}
    for f, n, e, attr, what in ef.sites():
        x = r.site(f, n, e, attr, what)
        if x is not None:
            bad.setdefault(f, []).append((x, n, what))
    for f in sorted(ef.reach, key=lambda f: (f.qual, getattr(f.node, "lineno", 0))):
        subject = f.qual.split("elsie.", 1)[-1]
        if f not in bad:
            ctx.ok("changes", subject)
        for (kind, why), n, what in bad.get(f, ()):
            if kind == "violation":
                ctx.violation("changes", "{}: {}".format(subject, what), why, f.loc(n))
            else:
                ctx.undecided("changes", "{}: {}".format(subject, what), why)
    content(ctx, flow, ef)


def reachable(ef, root):
    out, todo = set(), [root]
    back = {}
    for g, es in ef.edges.items():
        for f, _ in es:
            back.setdefault(f, []).append(g)
    while todo:
        f = todo.pop()
        if f in out or f is None:
            continue
        out.add(f)
        todo += back.get(f, ())
    return out


def content(ctx, flow, ef):
    """What is drawn does not come from a clock or a random generator."""
    for q in ("elsie.slides.slide.Slide.prepare", "elsie.slides.slide.Slide.make_render_unit"):
        root = ctx.prog.func(q)
        found = None
        for f in sorted(reachable(ef, root), key=lambda f: f.qual):
            for e, fn in ef.calls.get(f, ()):
                for a in fn:
                    if a[0] == "ext" and a[1].startswith(CHANGING) and not a[1].startswith("time.sleep"):
                        found = found or (f, e, a[1])
        if found:
            ctx.violation("content", q.split("elsie.")[-1], "the result depends on {}".format(found[2]), found[0].loc(found[1]))
        else:
            ctx.ok("content", q.split("elsie.")[-1])


class Rule:
    def __init__(self, ctx, flow, ef, layout):
        self.ctx, self.flow, self.ef, self.layout = ctx, flow, ef, layout
        self.prog = ctx.prog
        self.books = set()
        for q in BOOKS:
            c = self.prog.classes.get(q)
            if c is not None:
                self.books |= {k.qual for k in [c] + c.all_subclasses()}
        self.memos = self.memo_attributes()
        self.written = None

    def memo_attributes(self):
        """Attributes of the book-keeping classes that only hold values determined by their keys."""
        memos = set()
        for q in self.books:
            c = self.prog.classes[q]
            for m in c.methods.values():
                looked, stored = {}, {}
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute):
                        (stored if isinstance(n.ctx, ast.Store) else looked).setdefault(n.value.attr, set()).add(ast.unparse(n.slice))
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "setdefault") and n.args and \
                            isinstance(n.func.value, ast.Attribute):
                        looked.setdefault(n.func.value.attr, set()).add(ast.unparse(n.args[0]))
                        if n.func.attr == "setdefault":
                            stored.setdefault(n.func.value.attr, set()).add(ast.unparse(n.args[0]))
                    elif isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], ast.Attribute):
                        looked.setdefault(n.comparators[0].attr, set()).add(ast.unparse(n.left))
                keys = set()
                for a in stored:
                    keys |= looked.get(a, set()) & stored[a]
                memos |= {a for a in stored if stored[a] <= keys}
        return memos

    # -- one site
    def site(self, f, n, e, attr, what):
        ef = self.ef
        if ef.fresh(e, f):
            return None
        owners = {a[1] for a in self.flow.eval(e, f) if a[0] == "obj"}
        if attr is None and isinstance(e, ast.Attribute):
            holders = {a[1] for a in self.flow.eval(e.value, f) if a[0] == "obj"}
            if holders and holders <= self.books and (e.attr in self.memos or all("FsCache" in h for h in holders)):
                return None
        if attr is not None and owners and owners <= self.books and (attr in self.memos or all("FsCache" in h for h in owners)):
            return None
        if attr is not None:
            lasting = ef.survives(e, f) or any(not ef.owned(o) for o in owners)
            if owners and all(ef.owned(o) for o in owners):
                return None
        else:
            lasting = ef.survives(e, f)
        if not self.read_elsewhere(f, n, e, attr):
            return None
        if attr is not None and isinstance(n, ast.Assign):
            return self.derived(f, n, e, attr, owners, lasting)
        if attr is None and self.memo_like(f, n, e):
            if isinstance(n, ast.Assign):
                key = {x.id for x in ast.walk(n.targets[0].slice) if isinstance(x, ast.Name)}
                return self.remembered(f, n, ast.unparse(e), self.slice(f, n, tests=False), key)
            return "undecided", "values are remembered between renderings"
        if isinstance(n, ast.Assign) and isinstance(e, ast.Name) and what.startswith("variable") and unset_guard(f, n, e.id):
            return self.remembered(f, n, e.id, self.slice(f, n, tests=False), set())
        if lasting:
            return "violation", "{} of an object that outlives the rendering is changed: {}".format(what, ast.unparse(n)[:80])
        return "undecided", "unknown whether the rendering made the object that is changed: {}".format(ast.unparse(n)[:80])

    def read_elsewhere(self, f, n, e, attr):
        """The changed state is read by something else than the change itself."""
        if isinstance(n, ast.Call) and not any(isinstance(s, ast.Expr) and s.value is n for s in walk_scope(f.node)):
            return True  # the result is used
        name = attr if attr is not None else e.attr if isinstance(e, ast.Attribute) else None
        inside = set(map(id, ast.walk(n)))
        if name is not None:
            for g in self.flow.funcs:
                for x in walk_scope(g.node):
                    if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Load) and id(x) not in inside:
                        return True
                    if isinstance(x, ast.Constant) and x.value == name or isinstance(x, ast.Attribute) and x.attr == "__dict__":
                        return True
            return False
        if isinstance(e, ast.Name):
            g, _ = self.ef.scope(f, e.id)
            where = [g] + [h for h in self.flow.funcs if within(h, g)] if g is not None else [h for h in self.flow.funcs if h.module is f.module]
            for h in where:
                for x in walk_scope(h.node):
                    if isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Load) and id(x) not in inside:
                        return True
            if g is None:
                return e.id in {k for m in self.prog.modules.values() if m is not f.module for k in m.bindings}
            return False
        return True

    def memo_like(self, f, n, e):
        """container[key] = value in a function that looks the key up, and the value does not depend on the container otherwise."""
        if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript)):
            return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault"
        text, key = ast.unparse(e), ast.unparse(n.targets[0].slice)
        for x in walk_scope(f.node):
            if isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.In, ast.NotIn)) and ast.unparse(x.comparators[0]) == text and ast.unparse(x.left) == key:
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get" and ast.unparse(x.func.value) == text and \
                    x.args and ast.unparse(x.args[0]) == key:
                return True
        return False

    def remembered(self, f, n, text, reads, key):
        """A value that is computed once: it must not depend on what is drawn at the moment."""
        self.find_written()
        keys = set(key)
        for k in key:
            for d in self.ef.definitions(f).get(k, ()):
                if isinstance(d, ast.AST):
                    keys |= {x.id for x in ast.walk(d) if isinstance(x, ast.Name)}
        params = sorted(x[1] for x in reads if isinstance(x, tuple) and x[1] not in keys)
        state = sorted(x for x in reads if x in self.written) if not key else []
        if params or state:
            return "violation", "{} is remembered from an earlier drawing, but depends on {}".format(text, (params + state)[0])
        return "undecided", "{} is remembered between renderings".format(text)

    def find_written(self):
        if self.written is None:
            self.written = set()
            for g, m, e2, a2, _ in self.ef.sites():
                if a2 is not None and not self.ef.fresh(e2, g) and not (isinstance(e2, ast.Name) and g.name == "__init__"):
                    o = {a[1] for a in self.flow.eval(e2, g) if a[0] == "obj"}
                    if not o or any(not self.ef.owned(x) for x in o):
                        self.written.add(a2)

    # -- derived values
    def derived(self, f, n, e, attr, owners, lasting):
        text = "{}.{}".format(ast.unparse(e), attr)
        reads = self.slice(f, n)
        self.find_written()
        if attr in reads:
            others = self.slice(f, n, tests=False)
            if unset_guard(f, n, text) and attr not in others:
                return self.remembered(f, n, text, others, set())
            return "violation", "{} is computed from the value that the previous rendering left in it".format(text)
        initial = self.initial(attr, owners)
        unset = bool(initial) and all(isinstance(v, ast.Constant) and v.value is None for v in initial)
        stale = self.stale_reads(f, n, attr, owners, unset)
        if stale:
            kind, where = stale
            return kind, "{} is read in {}, possibly before this rendering has set it".format(text, where)
        cycle = [a for a in reads & self.written if isinstance(a, str) and a != attr and not self.unset(a)]
        if cycle:
            return "violation" if lasting else "undecided", "{} is computed from {}, which a previous rendering may have changed".format(text, sorted(cycle)[0])
        return None

    def unset(self, attr):
        v = self.initial(attr, None)
        return bool(v) and all(isinstance(x, ast.Constant) and x.value is None for x in v)

    def initial(self, attr, owners):
        """The values assigned outside of renderings."""
        out = []
        family = None
        if owners:
            family = set()
            for o in owners:
                c = self.prog.classes.get(o)
                if c is not None:
                    family |= set(c.mro()) | set(c.all_subclasses())
        for g in self.flow.funcs:
            if g in self.ef.reach:
                continue
            for x in walk_scope(g.node):
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if isinstance(t, ast.Attribute) and t.attr == attr:
                            if family is not None:
                                o = {self.prog.classes.get(a[1]) for a in self.flow.eval(t.value, g) if a[0] == "obj"}
                                if o and not o & family:
                                    continue
                            out.append(x.value)
        for c in family or ():
            if attr in c.assigns:
                out.append(c.assigns[attr])
        return out

    def stale_reads(self, f, n, attr, owners, unset):
        """Reads of the attribute that may see the value of a previous rendering."""
        early = f in self.layout
        for g in sorted(self.ef.reach, key=lambda g: g.qual):
            for x in walk_scope(g.node):
                if not (isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Load)):
                    continue
                o = {a[1] for a in self.flow.eval(x.value, g) if a[0] == "obj"}
                if o and owners and not any(self.related(a, b) for a in o for b in owners):
                    continue
                if g is f and x.lineno > n.lineno and n in f.node.body:
                    continue
                tested = self.is_tested(g, x)
                if unset and not tested:
                    continue  # nothing could be read in the first rendering
                if early and not tested and (g not in self.layout or g.parent is not None and g.parent not in self.ef.reach):
                    continue  # drawn after the layout, or a value of a box inside of this one
                return ("violation" if not early else "undecided"), g.qual.split("elsie.")[-1]
        return None

    def related(self, a, b):
        x, y = self.prog.classes.get(a), self.prog.classes.get(b)
        return x is None or y is None or x in y.mro() or y in x.mro()

    def is_tested(self, g, x):
        for n in walk_scope(g.node):
            tests = [n.test] if isinstance(n, (ast.If, ast.IfExp, ast.While)) else n.values[:-1] if isinstance(n, ast.BoolOp) else []
            for t in tests:
                for y in ast.walk(t):
                    if y is x:
                        s = t.operand if isinstance(t, ast.UnaryOp) else t
                        if s is x or isinstance(s, ast.Compare) and s.left is x and isinstance(s.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                            return True
        return False

    def slice(self, f, n, tests=True):
        """Names of the attributes that the assigned value depends on (parameters are not followed)."""
        out, seen = set(), set()
        todo = [(n.value, f)]
        if tests:
            for t, _ in guards(f.node, n):
                todo.append((t, f))
        while todo:
            e, g = todo.pop()
            if isinstance(e, tuple):
                if e[0] in ("element", "item"):
                    todo.append((e[1], g))
                continue
            for x in ast.walk(e):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    v = set_before(f.node, n, ast.unparse(x)) if g is f else None
                    if v is None:
                        out.add(x.attr)
                    elif id(v) not in seen:
                        seen.add(id(v))
                        todo.append((v, g))
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    h, ds = self.ef.scope(g, x.id, getattr(x, "lineno", None))
                    if h is None or (h, x.id) in seen or h not in self.ef.reach:
                        continue
                    seen.add((h, x.id))
                    todo += [(d, h) for d in ds]
                    if any(isinstance(d, tuple) and d[0] == "param" for d in ds) and not (h.cls is not None and x.id == first(h)):
                        out.add(("parameter", x.id))
                if isinstance(x, ast.Call):
                    for a in self.flow.eval(x.func, g):
                        if a[0] in ("fn", "meth") and a[1] not in seen:
                            seen.add(a[1])
                            for y in ast.walk(a[1].node):
                                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Load):
                                    out.add(y.attr)
        return out


def first(g):
    a = g.node.args
    pos = a.posonlyargs + a.args
    return pos[0].arg if pos else None


def unset_guard(f, n, text):
    """The statement runs only while the variable is None (or false)."""
    for t, taken in guards(f.node, n):
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, taken = t.operand, not taken
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            t, taken = t.left, taken ^ isinstance(t.ops[0], (ast.Is, ast.Eq))
        if ast.unparse(t) == text and not taken:
            return True
    return False


def within(h, g):
    while h is not None:
        if h.parent is g:
            return True
        h = h.parent
    return False


def set_before(root, n, text):
    """The value assigned to the attribute on the way to the statement, in every case."""
    found = None

    def visit(body):
        nonlocal found
        mine = None
        for s in body:
            if s is n:
                found = found or mine
                return True
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for name in ("body", "orelse", "finalbody"):
                b = getattr(s, name, None)
                if isinstance(b, list) and visit(b):
                    found = found or mine
                    return True
            if isinstance(s, ast.Assign) and any(ast.unparse(t) == text for t in s.targets):
                mine = s.value
        return False

    visit(root.body if isinstance(root.body, list) else [])
    return found


def guards(root, n):
    """(condition, value) under which the statement is reached."""
    out = []

    def visit(body, tests):
        """-> found"""
        tests = list(tests)
        for s in body:
            if s is n:
                out.extend(tests)
                return True
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for name in ("body", "orelse", "finalbody"):
                b = getattr(s, name, None)
                if isinstance(b, list) and visit(b, tests + ([(s.test, name == "body")] if hasattr(s, "test") else [])):
                    return True
            for h in getattr(s, "handlers", ()):
                if visit(h.body, tests):
                    return True
            if isinstance(s, ast.If):
                for b, taken in ((s.body, False), (s.orelse, True)):
                    if any(isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break)) for x in b):
                        tests.append((s.test, taken))
        return False

    visit(root.body if isinstance(root.body, list) else [], [])
    return out
