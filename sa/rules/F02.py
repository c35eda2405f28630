"""Hidden boxes draw nothing."""
import ast

B = "elsie.boxtree.box.Box."
R = "elsie.render.backends."

EXPLANATION = (
    "The collection of the painters of a box and the creation of a render unit (both backends) are summarised per path and compared "
    "with spec/boxes.py; the recursion over children is compared by induction (the recursive call is opaque). The functions that "
    "compute the layout are enumerated and must not read any fragment state."
)
ASSUMPTIONS = []
MIN_OBLIGATIONS = 8
STEP_NAMES = {"_show_info", "is_visible", "ShowInfo", "_min_steps", "max_step", "current_fragment"}


def check(ctx):
    painters(ctx)
    ctx.conform("visibility", "elsie.slides.show.ShowInfo.is_visible", "spec.boxes.is_visible", anchor=True)
    ctx.conform("context", R + "rcontext.RenderingContext.__init__", "spec.boxes.context_init")
    n = 0
    for mod in ("elsie.boxtree.layout", "elsie.boxtree.value", "elsie.boxtree.lazy", "elsie.utils.geom"):
        for f in ctx.prog.functions_of(mod):
            n += 1
            used = sorted({x.attr if isinstance(x, ast.Attribute) else x.id for x in ast.walk(f.node)
                           if isinstance(x, (ast.Attribute, ast.Name)) and (x.attr if isinstance(x, ast.Attribute) else x.id) in STEP_NAMES})
            ctx.verdict("layout", f.qual, "the layout reads fragment state ({})".format(", ".join(used)) if used else None, f.loc())


def painters(ctx):
    """Shared with Z01."""
    ctx.conform("painters", B + "get_painters", "spec.boxes.get_painters",
                opaque=(B + "get_painters", "SimpleBoxItem", "_debug_paint"), pure=("is_visible",), anchor=True)
    ctx.conform("render unit", R + "svg.backend.InkscapeBackend.create_render_unit", "spec.boxes.svg_unit",
                opaque=(B + "get_painters", "SvgRenderingContext", "SvgRenderUnit"), anchor=True)
    ctx.conform("render unit", R + "cairo.backend.CairoBackend.create_render_unit", "spec.boxes.cairo_unit",
                opaque=(B + "get_painters", "CairoRenderingContext", "CairoRenderUnit", "get_cache_file_path"), anchor=True)
