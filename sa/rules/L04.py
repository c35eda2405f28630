"""Deferred geometry."""
import ast

from program import walk_scope

Z = "elsie.boxtree.lazy."
L = "elsie.boxtree.layout.Layout."
B = "elsie.boxtree.boxmixin.BoxMixin."
I = "elsie.text.textboxitem.TextBoxItem."
P = "elsie.shapes.path."

EXPLANATION = (
    "Lazy values and points, the coordinates that boxes and texts hand out and the drawing calls are compared with their specification "
    "(a deferred computation is analysed as a function of the state in which it is evaluated). In addition the call graph of the "
    "building phase is searched: nothing that is reachable from a call that builds content, outside of deferred functions, may read "
    "the rectangle of a layout or evaluate a lazy value."
)
ASSUMPTIONS = ["calls are resolved by the name of the method"]
MIN_OBLIGATIONS = 20


def check(ctx):
    coordinates(ctx)
    ctx.attempt("building phase", "call graph", phase, ctx)


def coordinates(ctx):
    for name, spec in (("map", "map_value"), ("add", "add_value"), ("eval", "eval_lazy"), ("__init__", "lazy_init")):
        ctx.conform("lazy value", Z + "LazyValue." + name, "spec.drawing." + spec, anchor=name != "add")
    lazy = ctx.prog.classes.get(Z + "LazyValue")
    types = {("a", ("p", "self"), n): lazy for n in ("x", "y")} if lazy else None
    for name, spec in (("__init__", "point_init"), ("add", "add_point"), ("eval", "eval_point")):
        ctx.conform("lazy point", Z + "LazyPoint." + name, "spec.drawing." + spec, types=types)
    for name, spec in (("unpack_point", "unpack"), ("eval_value", "value_of"), ("eval_pair", "pair_of")):
        ctx.conform("lazy point", Z + name, "spec.drawing." + spec)
    pos = ("PosValue.parse", "PosValue.compute")
    ctx.conform("coordinates", L + "x", "spec.layout.lazy_x", pure=pos, anchor=True)
    ctx.conform("coordinates", L + "y", "spec.layout.lazy_y", pure=pos, anchor=True)
    ctx.conform("coordinates", L + "point", "spec.layout.lazy_point", pure=("Layout.x", "Layout.y"))
    for name, spec in (("x", "mixin_x"), ("y", "mixin_y"), ("p", "mixin_p"), ("mid_point", "mid_point")):
        ctx.conform("coordinates", B + name, "spec.drawing." + spec, opaque=("Layout.x", "Layout.y", "Layout.point", B + "p"), pure=("_get_box",))
    text = dict(opaque=("BoxMixin.box", "compute_text_x", "compute_text_width"), pure=("extract_line",))
    ctx.conform("line and inline boxes", I + "line_box", "spec.texts.line_box", **text)
    ctx.conform("line and inline boxes", I + "_text_box_helper", "spec.texts.styled_part", **text)
    item = dict(opaque=("_create_simple_box_item", "elsie.shapes.arrow.Arrow.move_end_point", "elsie.shapes.arrow.Arrow.render",
                        "check_and_unpack_path_commands"), pure=("_get_box", "unpack_point", "eval_pair", "eval_value"))
    for name in ("rect", "ellipse", "polygon", "line", "path"):
        ctx.conform("drawing", B + name, "spec.drawing." + name, **item)
    ctx.conform("drawing", P + "check_and_unpack_path_commands", "spec.drawing.check_path", pure=("unpack_point",))
    ctx.conform("drawing", P + "eval_path_commands", "spec.drawing.eval_commands", pure=("eval_pair",))


BUILDERS = ("elsie.boxtree.boxmixin.BoxMixin", "elsie.text.textboxitem.TextBoxItem", "elsie.slides.slidedeck.SlideDeck",
            "elsie.ext.list.ListBuilder", "elsie.ext.list", "elsie.ext.markdown", "elsie.ext.latex", "elsie.ext.todo",
            "elsie.boxtree.boxitem.BoxItem", "elsie.boxtree.boxitem.SimpleBoxItem", "elsie.boxtree.box.Box")
RENDERING = {"render", "_repr_html_", "get_painters", "write_debug", "draw", "get_svg"}
EVALUATES = {"eval", "eval_value", "eval_pair"}


def direct(node):
    """Nodes that run when the function is called: without nested functions unless they are called there."""
    nested = {n.name: n for n in walk_scope(node) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and hasattr(n, "name")}
    seen = set()
    todo = [node]
    while todo:
        f = todo.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        for n in walk_scope(f):
            yield n
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in nested:
                todo.append(nested[n.func.id])
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Lambda):
                todo.append(n.func)


def phase(ctx):
    prog = ctx.prog
    by_name, classes = {}, {}
    for f in prog.repo_functions():
        if f.parent is not None:
            continue
        by_name.setdefault(f.name, []).append(f)
        if f.cls is not None and f.name == "__init__":
            classes.setdefault(f.cls.name, []).append(f)
    roots = []
    for f in prog.repo_functions():
        if f.parent is not None or f.name in RENDERING:
            continue
        owner = f.cls.qual if f.cls is not None else f.module.name
        if owner in BUILDERS and (not f.name.startswith("_") or f.name in ("__init__", "__enter__", "__exit__")):
            roots.append(f)
    if len(roots) < 20:
        ctx.undecided("building phase", "call graph", "the building calls were not found")
        return
    seen = {}
    todo = [(f, None) for f in roots]
    edges = 0
    while todo:
        f, via = todo.pop()
        if f.qual in seen:
            continue
        seen[f.qual] = via
        if isinstance(f.node, ast.Lambda):
            continue
        for n in direct(f.node):
            bad = None
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr == "rect" and is_layout(ctx, f, n.value):
                if not any(isinstance(c, ast.Call) and c.func is n for c in ast.walk(f.node)):
                    bad = "reads the rectangle of a layout ({})".format(ast.unparse(n))
            if isinstance(n, ast.Call):
                name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if name in EVALUATES and (isinstance(n.func, ast.Attribute) and not n.args or name != "eval") and f.module.name != "elsie.boxtree.lazy":
                    bad = "evaluates a deferred value ({})".format(ast.unparse(n)[:60])
                if name in RENDERING:
                    continue
                # x.y() of a module or local object that is not from elsie has no definition here
                for g in by_name.get(name, ()) if not (isinstance(n.func, ast.Attribute) and external(prog, f, n.func)) else ():
                    if isinstance(n.func, ast.Name) and g.cls is not None:
                        continue
                    if g.name in EVALUATES:
                        continue
                    edges += 1
                    todo.append((g, f.qual))
                for g in classes.get(name, ()):
                    edges += 1
                    todo.append((g, f.qual))
            if bad:
                path = [f.qual]
                while seen.get(path[-1]):
                    path.append(seen[path[-1]])
                ctx.violation("building phase", f.qual, "{} while content is built (reached by {})".format(bad, " <- ".join(path)),
                              (f.module.relpath, n.lineno, f.qual))
                return
    ctx.ok("building phase", "call graph", "{} functions, {} call edges from {} building calls".format(len(seen), edges, len(roots)))


def external(prog, f, func):
    """A call through an imported module."""
    v = func.value
    while isinstance(v, ast.Attribute):
        v = v.value
    if isinstance(v, ast.Name):
        r = prog.resolve_name(f.module, v.id)
        return bool(r) and r[0] == "ext"
    return isinstance(v, ast.Constant)


def is_layout(ctx, f, e):
    """Whether an expression denotes a layout (by its name, or self in the class)."""
    if isinstance(e, ast.Name):
        if e.id == "self":
            return f.cls is not None and f.cls.name == "Layout"
        return "layout" in e.id.lower()
    if isinstance(e, ast.Attribute):
        return "layout" in e.attr.lower()
    return False
