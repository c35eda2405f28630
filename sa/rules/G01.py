"""Arrow heads."""
A = "elsie.shapes.arrow.Arrow."
P = "elsie.shapes.path."
G = "elsie.utils.geom."
B = "elsie.boxtree.boxmixin.BoxMixin."

EXPLANATION = (
    "The geometry of arrow heads, the shortening of lines and paths and the closures that draw lines and paths are summarised per "
    "path with polynomial normal forms of all coordinates and compared with spec/drawing.py on every partition of their inputs."
)
ASSUMPTIONS = ["coordinates are real numbers (rounding is not considered)", "segments with an arrow have a non-zero length"]
MIN_OBLIGATIONS = 8


def check(ctx):
    ctx.conform("arrow", A + "__init__", "spec.drawing.arrow_init", anchor=True)
    ctx.conform("arrow", A + "move_end_point", "spec.drawing.arrow_move", anchor=True)
    ctx.conform("arrow", A + "render", "spec.drawing.arrow_render", anchor=True)
    ctx.conform("geometry", G + "segment_delta", "spec.drawing.delta")
    ctx.conform("geometry", G + "segment_len", "spec.drawing.length")
    ctx.conform("geometry", G + "segment_resize", "spec.drawing.along")
    lines(ctx)
    ctx.conform("path", P + "path_points_for_end_arrow", "spec.drawing.end_arrow_points")


def lines(ctx):
    ctx.conform("line", B + "line", "spec.drawing.line", anchor=True,
                opaque=("_create_simple_box_item", A + "move_end_point", A + "render"), pure=("unpack_point", "eval_pair"))
    ctx.conform("path", B + "path", "spec.drawing.path", anchor=True,
                opaque=("_create_simple_box_item", A + "move_end_point", A + "render", "check_and_unpack_path_commands"), pure=("eval_pair",))
