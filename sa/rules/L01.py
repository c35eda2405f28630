"""Sizing and placing of boxes."""
import ast

L = "elsie.boxtree.layout.Layout"
V = "elsie.boxtree.value"
G = "elsie.utils.geom.Rect"

EXPLANATION = (
    "Path summaries (conditions, results, field updates, calls and loop tables in normal form) of the functions that size and "
    "place boxes are computed from the syntax tree and compared with the summaries of the specification table spec/layout.py "
    "on every partition of their inputs; nothing is executed."
)
ASSUMPTIONS = ["padding, sizes and positions are real numbers (rounding of floating point arithmetic is not considered)"]
MIN_OBLIGATIONS = 16

# no callbacks: None or an empty list
NO_CALLBACKS = dict(set_ok=lambda base, attr: attr != "callbacks")


def always_list(ctx):
    """The callbacks are a list from the beginning."""
    f = ctx.prog.func(L + ".__init__")
    return any(isinstance(n, ast.Assign) and isinstance(n.value, ast.List) and ast.unparse(n.targets[0]) == "self.callbacks" for n in ast.walk(f.node))


def check(ctx):
    rq = L + ".compute_size_request"
    ctx.conform("placement", L + ".set_rect", "spec.layout.set_rect", opaque=(L + ".set_rect",),
                pure=(rq, V + ".SizeValue.compute", V + ".PosValue.compute"), anchor=True)
    ctx.conform("request", rq, "spec.layout.compute_size_request", pure=(L + ".min_children_size", V + ".SizeValue.ensure"), anchor=True)
    ctx.conform("request", L + ".min_children_size", "spec.layout.min_children_size", pure=(rq,))
    ctx.conform("request", L + ".ensure_width", "spec.layout.ensure_width", pure=(V + ".SizeValue.ensure",))
    ctx.conform("request", L + ".ensure_height", "spec.layout.ensure_height", pure=(V + ".SizeValue.ensure",))
    ctx.conform("padding", L + ".add", "spec.layout.add", opaque=(L,))
    ctx.conform("fields", L + ".__init__", "spec.layout.init", pure=(V + ".SizeValue.parse", V + ".PosValue.parse"), cmp=NO_CALLBACKS)
    ctx.conform("fields", L + ".add_callback", "spec.layout.add_callback", assume={("isnone", ("a", ("p", "self"), "callbacks")): False} if always_list(ctx) else None)
    ctx.conform("value", V + ".SizeValue.ensure", "spec.layout.size_ensure")
    ctx.conform("value", V + ".SizeValue.compute", "spec.layout.size_compute")
    ctx.conform("value", V + ".PosValue.compute", "spec.layout.pos_compute")
    ctx.conform("rect", G + ".shrink", "spec.layout.shrink")
    ctx.conform("rect", G + ".__init__", "spec.layout.rect_init")
    ctx.conform("rect", G + ".copy", "spec.layout.rect_copy")
    for n in ("mid_x", "mid_y", "x2", "y2"):
        ctx.conform("rect", G + "." + n, "spec.layout.rect_" + n)
