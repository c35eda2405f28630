"""Outlines of paths in both backends."""
from orders import attributes, cairo

S = "elsie.render.backends.cairo.shapes."
P = "elsie.shapes.path."
NAMES = {"M", "L", "C", "S", "Q", "T"}  # others are refused with the commands

EXPLANATION = (
    "The checking of path commands and their translation to Cairo calls (with the current point and the previous control points as "
    "loop-carried values) and to the SVG path notation are compared with spec/cairo.py, spec/drawing.py and spec/svgout.py: equal calls "
    "with equal polynomials for every command, number of points and history of control points."
)
ASSUMPTIONS = ["real arithmetic", "Cairo's current point is the end of the segment drawn before"]
MIN_OBLIGATIONS = 7


def check(ctx):
    ctx.conform("commands", P + "check_and_unpack_path_commands", "spec.drawing.check_path", pure=("unpack_point",), anchor=True)
    ctx.conform("commands", P + "eval_path_commands", "spec.drawing.eval_commands", pure=("eval_pair",))
    how = dict(cmp=dict(arrange=cairo, ordered=True))
    ctx.conform("segments", S + "split_commands", "spec.cairo.segments")
    ctx.conform("curves", S + "draw_path", "spec.cairo.outline", pure=("split_commands", "get_current_point"), anchor=True,
                cmp=dict(how["cmp"], domains=(NAMES,)))
    ctx.conform("curves", S + "draw_quadratic_bezier", "spec.cairo.quadratic", **how)
    ctx.conform("curves", S + "reflect", "spec.cairo.mirrored")
    ctx.conform("Cairo", "elsie.render.backends.cairo.rcontext.CairoRenderingContext.draw_path", "spec.cairo.path",
                opaque=("elsie.render.backends.cairo.shapes.draw_path",), pure=("get_rgb_color",), anchor=True, **how)
    ctx.conform("SVG", "elsie.render.backends.svg.draw.draw_path", "spec.svgout.path", anchor=True,
                opaque=("Xml.element", "Xml.set", "Xml.close", "set_paint_style"), cmp=dict(arrange=attributes, ordered=True))
