"""E02: a refused call leaves the slide as it was."""
import ast

from effects import Effects
from program import walk_scope
from rules import W01
from rules.R01 import BOOKS, first, guards

B = "elsie.boxtree.boxmixin.BoxMixin."
D = "elsie.slides.slidedeck.SlideDeck."
S = "elsie.text.stylecontainer.StyleContainer."
T = "elsie.text.textboxitem.TextBoxItem."
CALLS = [B + n for n in ("box", "overlay", "fbox", "sbox", "rect", "ellipse", "polygon", "path", "line", "image", "text", "code")] + [
    D + "new_slide", D + "slide", D + "add_pdf", S + "set_style", S + "update_style", T + "line_box", T + "inline_box"]

EXPLANATION = (
    "For every call of the interface that adds something to a deck, slide or box or changes a style, and for every function that it reaches, the order "
    "of changes and failures is followed through the statements (branches joined, loops repeated). A failure is a raise, a failed assertion, a failed "
    "list lookup or number conversion that depends on an argument of the call; a change is a write to an object that existed before the call. No such "
    "failure may come after a change, unless the same check with the same values has already succeeded.")
ASSUMPTIONS = ["arguments have the documented types", "caches of files and images are no content of the slide",
               "a failure that does not depend on an argument of the call is not a refusal"]
MIN_OBLIGATIONS = 15


def check(ctx):
    prog = ctx.prog
    flow = ctx.flow(W01.API + tuple(CALLS))
    roots = []
    for q in CALLS:
        f = prog.func(q)
        if f is None:
            ctx.undecided("order", q.split("elsie.")[-1], "the function is not there")
            continue
        roots.append(f)
        roots += [g for g in flow.funcs if g.parent is f and isinstance(g.node, ast.FunctionDef) and returned(f, g)]
    ef = Effects(flow, roots, "elsie.slides.slidedeck.SlideDeck")
    a = Order(ctx, flow, ef, roots)
    for f in sorted(ef.reach, key=lambda f: (f.qual, getattr(f.node, "lineno", 0))):
        if isinstance(f.node, ast.Lambda) or not a.tainted.get(f):
            continue
        subject = f.qual.split("elsie.", 1)[-1]
        found = a.function(f)
        if not found:
            if a.writes(f) or a.leafs(f):
                ctx.ok("order", subject)
            continue
        seen = set()
        for kind, change, failure, node in found:
            key = (failure, change)
            if key in seen:
                continue
            seen.add(key)
            text = "{} can fail after {} has been changed".format(failure, change)
            if kind == "violation":
                ctx.violation("order", "{}: {}".format(subject, change), text, f.loc(node))
            else:
                ctx.undecided("order", subject, text)


def returned(f, g):
    return any(isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id == g.name for n in walk_scope(f.node))


class Leaf:
    """A point at which a call can fail."""

    def __init__(self, ident, text, deps, key, classes=None):
        self.ident, self.text, self.deps, self.key, self.classes = ident, text, deps, key, classes

    def mark(self):
        return self.ident, self.key

    def kind(self):
        """What the check asks, roughly: a similar one may have succeeded before."""
        return "like", self.text.split(" in ")[0].replace("assertion", "check"), frozenset(self.deps)


def marks(leafs):
    return {x.mark() for x in leafs if x.key is not None} | {x.kind() for x in leafs}


class State:
    def __init__(self, changed=None, done=frozenset()):
        self.changed, self.done = changed, done

    def join(self, o):
        if o is None:
            return self
        may = {x for x in self.done | o.done if x[0] == "like"}
        return State(self.changed or o.changed, self.done & o.done | may)


class Order:
    def __init__(self, ctx, flow, ef, roots):
        self.ctx, self.flow, self.ef = ctx, flow, ef
        self.prog = ctx.prog
        self.books = set()
        for q in BOOKS:
            c = self.prog.classes.get(q)
            if c is not None:
                self.books |= {k.qual for k in [c] + c.all_subclasses()}
        self.site_map = {}
        for f, n, e, attr, what in ef.sites():
            if not ef.fresh(e, f) and not self.exempt(f, e, attr):
                self.site_map.setdefault(f, {}).setdefault(id(n), []).append((n, e, attr, what))
        self.memo_leafs, self.memo_writes = {}, {}
        self.taint(roots)

    def exempt(self, f, e, attr):
        holder = e if attr is not None else e.value if isinstance(e, ast.Attribute) else None
        if attr is None and isinstance(e, ast.Attribute) and e.attr == "temp_cache":
            return True
        if holder is None:
            return False
        o = {a[1] for a in self.flow.eval(holder, f) if a[0] == "obj"}
        return bool(o) and o <= self.books

    # -- which parameters carry arguments of the call
    def params(self, f):
        a = f.node.args
        out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        if f.cls is not None and not f.is_static and out:
            out = out[1:]
        return out

    def taint(self, roots):
        self.tainted = {}
        todo = []
        for f in roots:
            self.tainted[f] = set(self.params(f))
            todo.append(f)
        n = 0
        while todo:
            f = todo.pop()
            n += 1
            if n > 20000:
                break
            for e, fn in self.ef.calls.get(f, ()):
                for g in self.ef.targets(fn):
                    for p in self.params(g):
                        if p in self.tainted.get(g, ()):
                            continue
                        v = self.passed(g, p, e, f)
                        if any(self.depends(x, f) for x in v):
                            self.tainted.setdefault(g, set()).add(p)
                            todo.append(g)

    def passed(self, g, p, e, f):
        """The arguments that can become the parameter."""
        a = g.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        rest = [x for x in e.args if isinstance(x, ast.Starred)] + [k.value for k in e.keywords if k.arg is None]
        if a.kwarg is not None and p == a.kwarg.arg:
            named = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            return [k.value for k in e.keywords if k.arg is None or k.arg not in named]
        if a.vararg is not None and p == a.vararg.arg:
            return list(e.args)
        v = self.ef.argument(g, p, pos, e, f)
        if v is True or v is None:
            if any(k.arg == p for k in e.keywords):
                return []
            return rest
        return [v]

    def depends(self, e, f):
        return bool(self.slice(e, f) & self.tainted.get(f, set())) or any(x.startswith("^") for x in self.slice(e, f))

    def slice(self, e, f):
        """Parameters of the function that an expression depends on."""
        out, seen, todo = set(), set(), [e]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                if x[0] in ("element", "item"):
                    todo.append(x[1])
                continue
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in seen:
                    g, ds = self.ef.scope(f, n.id, getattr(n, "lineno", None))
                    if g is None:
                        continue
                    seen.add(n.id)
                    if g is not f:
                        if any(isinstance(d, tuple) and d[0] == "param" for d in ds) and n.id in self.tainted_of(g) and n.id != first(g):
                            out.add("^" + n.id)
                        continue
                    for d in ds:
                        if isinstance(d, tuple) and d[0] == "param":
                            out.add(n.id)
                        else:
                            todo.append(d)
        return out

    def tainted_of(self, g):
        return self.tainted.get(g, set()) if hasattr(self, "tainted") else set()

    # -- failures
    def leafs(self, g):
        if g in self.memo_leafs:
            return self.memo_leafs[g]
        self.memo_leafs[g] = []
        out = []
        if isinstance(g.node, ast.FunctionDef):
            for n in self.points(g):
                out += self.leaf(g, n)
        ps = self.params(g)
        res = {}
        for x in out:
            deps = {d for d in x.deps if d in ps or d.startswith("^")}
            if deps:
                x.deps = deps
                res[(x.ident, x.key)] = x
        self.memo_leafs[g] = list(res.values())
        return self.memo_leafs[g]

    def points(self, g):
        """Nodes at which the function can fail, without the ones inside of a try that handles errors."""
        caught = set()
        for n in walk_scope(g.node):
            if isinstance(n, ast.Try) and n.handlers and not any(isinstance(x, ast.Raise) for h in n.handlers for x in ast.walk(h)):
                for s in n.body:
                    caught |= {id(x) for x in ast.walk(s)}
        for n in walk_scope(g.node):
            if id(n) not in caught and isinstance(n, (ast.Raise, ast.Assert, ast.Call)):
                yield n
            if id(n) not in caught and isinstance(n, ast.Assign) and self.setters(g, n):
                yield n

    def setters(self, g, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Attribute):
                out += [(s, t) for s in self.ef.property_of(t, g)]
        return out

    def leaf(self, g, n):
        where = "{}:{}".format(g.qual.split("elsie.", 1)[-1], n.lineno)
        own = tuple(sorted(self.params(g) + [first(g) or ""]))
        if isinstance(n, ast.Raise):
            if n.exc is not None and "NotImplemented" in ast.unparse(n.exc):
                return []
            deps = set()
            for t, _ in guards(g.node, n):
                deps |= self.slice(t, g)
            deps |= self.loop_deps(g, n)
            return [Leaf((g, n.lineno), "the check in " + where, deps, own)]
        if isinstance(n, ast.Assert):
            deps = self.slice(n.test, g)
            if isinstance(n.test, ast.Constant):
                for t, _ in guards(g.node, n):
                    deps |= self.slice(t, g)
            return [Leaf((g, n.lineno), "the assertion in " + where, deps, own, self.isinstance_of(n.test, g))]
        if isinstance(n, ast.Assign):
            out = []
            for s, t in self.setters(g, n):
                ps = self.params(s)
                for x in self.leafs(s):
                    if ps and ps[0] in x.deps:
                        out.append(Leaf(x.ident, x.text, self.slice(n.value, g), (ast.unparse(t.value), ast.unparse(n.value))))
            return out
        fn = dict(self.calls(g)).get(n, set())
        out = []
        for h in self.ef.targets(fn):
            for x in self.leafs(h):
                y = self.mapped(x, h, n, g)
                if y is not None:
                    out.append(y)
        names = {a[1] for a in fn if a[0] == "ext"}
        if names & {"int", "float", "builtins.int", "builtins.float"}:
            deps = set().union(*[self.slice(a, g) for a in n.args]) if n.args else set()
            out.append(Leaf((g, n.lineno, "number"), "the conversion in " + where, deps, tuple(ast.unparse(a) for a in n.args)))
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("index", "remove") and not self.ef.targets(fn) and n.args:
            out.append(Leaf((g, n.lineno, n.func.attr), "the lookup in " + where, self.slice(n.args[0], g), (ast.unparse(n.func.value), ast.unparse(n.args[0]))))
        return out

    def loop_deps(self, g, n):
        out = set()
        for s in walk_scope(g.node):
            if isinstance(s, (ast.For, ast.While)) and any(x is n for x in ast.walk(s)):
                out |= self.slice(s.iter if isinstance(s, ast.For) else s.test, g)
        return out

    def calls(self, g):
        return self.ef.calls.get(g, ())

    def isinstance_of(self, test, g):
        """(parameter, classes) when the test only asks for the class of a parameter."""
        parts = test.values if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or) else [test]
        name, classes = None, set()
        for p in parts:
            if not (isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "isinstance" and isinstance(p.args[0], ast.Name)):
                return None
            if name not in (None, p.args[0].id):
                return None
            name = p.args[0].id
            for c in p.args[1].elts if isinstance(p.args[1], ast.Tuple) else [p.args[1]]:
                classes |= {a[1] for a in self.flow.eval(c, g) if a[0] == "cls"}
        return name, classes

    def mapped(self, x, h, e, f):
        """The failure of the callee, for the arguments of a call."""
        deps = set()
        for p in x.deps:
            if p.startswith("^"):
                deps.add(p)
                continue
            for v in self.passed(h, p, e, f):
                deps |= self.slice(v, f)
        if x.classes is not None:
            v = self.passed(h, x.classes[0], e, f)
            if len(v) == 1:
                objs = self.flow.eval(v[0], f)
                if objs and all(a[0] == "obj" and self.subclass(a[1], x.classes[1]) for a in objs):
                    return None
        key = None
        if x.key is not None:
            a = h.node.args
            pos = [y.arg for y in a.posonlyargs + a.args]
            sub = {}
            for p in pos + [y.arg for y in a.kwonlyargs]:
                v = self.ef.argument(h, p, pos, e, f)
                if isinstance(v, ast.AST):
                    sub[p] = ast.unparse(v)
                elif v is True:
                    d = self.default(h, p)
                    sub[p] = d if d is not None else None
            parts = []
            for t in x.key:
                parts.append(substitute(t, sub))
            key = tuple(parts) if all(p is not None for p in parts) else None
        if not deps:
            return None
        classes = None
        if x.classes is not None:
            v = self.passed(h, x.classes[0], e, f)
            if len(v) == 1 and isinstance(v[0], ast.Name):
                classes = (v[0].id, x.classes[1])
        return Leaf(x.ident, x.text, deps, key, classes)

    def default(self, h, p):
        a = h.node.args
        pos = [y.arg for y in a.posonlyargs + a.args]
        d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        d.update({y.arg: v for y, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        return ast.unparse(d[p]) if p in d else None

    def subclass(self, q, classes):
        c = self.prog.classes.get(q)
        return c is not None and any(k.qual in classes for k in c.mro())

    # -- changes
    def writes(self, h):
        """Parameters whose objects the function changes; '*' for other objects that existed before."""
        if h in self.memo_writes:
            return self.memo_writes[h]
        self.memo_writes[h] = set()
        out = set()
        for _, entries in self.site_map.get(h, {}).items():
            for n, e, attr, what in entries:
                out |= self.aliases(e, h) or {"*"}
        for e, fn in self.calls(h):
            for g in self.ef.targets(fn):
                for a in self.changed_args(g, e, h):
                    out |= self.aliases(a, h) or {"*"} if a is not None else {"*"}
        self.memo_writes[h] = out
        return out

    def changed_args(self, g, e, f):
        """Arguments of the call that are changed and existed before; None is another object."""
        out = []
        for p in self.writes(g):
            if p == "*":
                out.append(None)
                continue
            a = g.node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            v = self.ef.argument(g, p, pos, e, f)
            if v is True:
                continue
            if v is None:
                out.append(None)
            elif not self.ef.fresh(v, f):
                out.append(v)
        return out

    def aliases(self, e, f, seen=None):
        seen = set() if seen is None else seen
        if isinstance(e, tuple):
            return self.aliases(e[1], f, seen) if e[0] in ("element", "item") else set()
        if isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred, ast.NamedExpr)):
            return self.aliases(e.value, f, seen)
        if isinstance(e, ast.IfExp):
            return self.aliases(e.body, f, seen) | self.aliases(e.orelse, f, seen)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.aliases(v, f, seen) for v in e.values])
        if isinstance(e, ast.Name):
            if e.id in seen:
                return set()
            seen.add(e.id)
            g, ds = self.ef.scope(f, e.id, getattr(e, "lineno", None))
            if g is not f:
                return set()
            out = set()
            for d in ds:
                if isinstance(d, tuple) and d[0] == "param":
                    out.add(e.id)
                else:
                    out |= self.aliases(d, f, seen)
            return out
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute):
                return self.aliases(e.func.value, f, seen)
            return set().union(*[self.aliases(a, f, seen) for a in e.args]) if e.args else set()
        return set()

    # -- order
    def function(self, f):
        self.found = []
        self.f = f
        self.t = self.tainted.get(f, set())
        self.block(f.node.body, State())
        return self.found

    def relevant(self, deps):
        return any(d in self.t or d.startswith("^") for d in deps)

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Nonlocal, ast.Global)):
            return st
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            a = self.block(s.body, State(st.changed, st.done))
            b = self.block(s.orelse, State(st.changed, st.done))
            out = b if a is None else a.join(b)
            if out is not None:  # the checks of this statement have succeeded
                ls = [x for n in ast.walk(s) if isinstance(n, ast.Raise) for x in self.leaf(self.f, n)]
                out = State(out.changed, out.done | marks(ls))
            return out
        if isinstance(s, (ast.For, ast.While)):
            st = self.expr(s.iter if isinstance(s, ast.For) else s.test, st)
            for _ in range(2):
                b = self.block(s.body, State(st.changed, st.done))
                st = st.join(b)
            b = self.block(s.orelse, State(st.changed, st.done))
            return st.join(b)
        if isinstance(s, ast.With):
            for i in s.items:
                st = self.expr(i.context_expr, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            raises = any(isinstance(x, ast.Raise) for h in s.handlers for x in ast.walk(h))
            repairs = any(id(x) in self.site_map.get(self.f, {}) or isinstance(x, ast.Call) and any(
                self.changed_args(g, x, self.f) for g in self.ef.targets(dict(self.calls(self.f)).get(x, set())))
                for h in s.handlers for y in h.body for x in ast.walk(y)) or any(
                id(x) in self.site_map.get(self.f, {}) for y in s.finalbody for x in ast.walk(y))
            n = len(self.found)
            b = self.block(s.body, State(st.changed, st.done))
            if s.handlers and not raises:
                del self.found[n:]  # the errors are handled
            elif repairs:  # the changes may be taken back
                self.found[n:] = [("undecided",) + x[1:] for x in self.found[n:]]
            st2 = st.join(b)
            for h in s.handlers:
                n = len(self.found)
                hb = self.block(h.body, State(st2.changed, st.done))
                if repairs:
                    self.found[n:] = [("undecided",) + x[1:] for x in self.found[n:]]
                b = hb if b is None else b.join(hb)
            if b is not None:
                b = self.block(s.orelse, b)
            fin = self.block(s.finalbody, b or st2)
            return fin if b is not None else None
        if isinstance(s, (ast.Return, ast.Raise)):
            v = s.value if isinstance(s, ast.Return) else s.exc
            if v is not None:
                st = self.expr(v, st)
            if isinstance(s, ast.Raise):
                self.fail(self.leaf(self.f, s), st, s)
            return None
        if isinstance(s, ast.Assert):
            st = self.expr(s.test, st)
            ls = self.leaf(self.f, s)
            self.fail(ls, st, s)
            return State(st.changed, st.done | marks(ls))
        if isinstance(s, (ast.Continue, ast.Break)):
            return None if False else st
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                st = self.expr(c, st)
        if isinstance(s, ast.Assign):
            ls = self.leaf(self.f, s)
            self.fail(ls, st, s)
            st = State(st.changed, st.done | marks(ls))
            for g, t in self.setters(self.f, s):
                if "*" in self.writes(g) or not self.ef.fresh(t.value, self.f):
                    st = State(st.changed or ast.unparse(t), st.done)
        return self.change(s, st)

    def change(self, n, st):
        for _, e, attr, what in self.site_map.get(self.f, {}).get(id(n), ()):
            text = ast.unparse(e)[:50] + ("." + attr if attr else "")
            st = State(st.changed or text, st.done)
        return st

    def fail(self, leafs, st, node):
        if not st.changed:
            return
        for x in leafs:
            if not self.relevant(x.deps) or x.key is not None and (x.ident, x.key) in st.done:
                continue
            self.found.append(("undecided" if x.kind() in st.done else "violation", st.changed, x.text, node))

    def expr(self, e, st):
        """Calls of the expression in the order of evaluation."""
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and isinstance(e, ast.Lambda):
            return st
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.keyword):
                st = self.expr(c.value, st)
            elif isinstance(c, ast.comprehension):
                st = self.expr(c.iter, st)
                for i in c.ifs:
                    st = self.expr(i, st)
            elif isinstance(c, ast.expr):
                st = self.expr(c, st)
        if isinstance(e, ast.Call):
            ls = self.leaf(self.f, e)
            self.fail(ls, st, e)
            st = State(st.changed, st.done | marks(ls))
            if not st.changed:
                fn = dict(self.calls(self.f)).get(e, set())
                for g in self.ef.targets(fn):
                    for a in self.changed_args(g, e, self.f):
                        st = State(st.changed or "{} ({})".format(ast.unparse(a)[:40] if a is not None else "an object", g.name), st.done)
            st = self.change(e, st)
        return st


def substitute(text, sub):
    try:
        t = ast.parse(text, mode="eval").body
    except SyntaxError:
        return sub.get(text)

    class V(ast.NodeTransformer):
        ok = True

        def visit_Name(self, n):
            if n.id in sub:
                if sub[n.id] is None:
                    self.ok = False
                    return n
                return ast.parse(sub[n.id], mode="eval").body
            return n
    v = V()
    t = v.visit(t)
    return ast.unparse(t) if v.ok else None
