"""Placing and scaling of images."""
B = "elsie.boxtree.boxmixin.BoxMixin."
L = "elsie.boxtree.layout.Layout."

EXPLANATION = (
    "The functions that create image items, including the closures that draw them, are summarised per path with polynomial normal "
    "forms of all sizes and coordinates and compared with spec/drawing.py on every partition of their inputs."
)
ASSUMPTIONS = ["sizes are real numbers (rounding is not considered)"]
MIN_OBLIGATIONS = 6
ITEM = ("_create_simple_box_item",)


def check(ctx):
    ctx.conform("scale", "elsie.boxtree.boxmixin.scaler", "spec.drawing.fitting_scale")
    bitmap(ctx)
    svg(ctx)
    ctx.conform("request", L + "set_image_size_request", "spec.drawing.image_size_request",
                opaque=(L + "ensure_width", L + "ensure_height"), pure=(L + "min_children_size",), anchor=True)
    ctx.conform("dispatch", B + "image", "spec.drawing.image", opaque=("_image_svg", "_image_ora", "_image_bitmap"), anchor=True)
    ctx.conform("request", L + "ensure_width", "spec.layout.ensure_width", pure=("elsie.boxtree.value.SizeValue.ensure",))
    ctx.conform("request", L + "ensure_height", "spec.layout.ensure_height", pure=("elsie.boxtree.value.SizeValue.ensure",))
    latex(ctx)
    ctx.conform("source", "elsie.utils.files.read_helper", "spec.drawing.read_source")


def bitmap(ctx):
    ctx.conform("bitmap", B + "_image_bitmap", "spec.drawing.image_bitmap",
                opaque=ITEM + (L + "set_image_size_request", "read_helper"), cmp=dict(ignore=noise))


def svg(ctx):
    ctx.conform("svg", B + "_image_svg", "spec.drawing.image_svg",
                opaque=ITEM + (L + "set_image_size_request", "Box._ensure_steps"),
                pure=("create_image_data", "get_image_steps", "has_fragments", "svg_size_to_pixels"), cmp=dict(ignore=noise))
    ctx.conform("ora", B + "_image_ora", "spec.drawing.image_ora", opaque=("_image_svg", "convert_ora_to_svg", "ensure_by_file"))


def latex(ctx):
    ctx.conform("latex", "elsie.ext.latex.latex", "spec.cache.latex_svg", anchor=True,
                opaque=("FsCache.get", "_render_latex", "svg_size_to_pixels", "ensure_width", "ensure_height", "draw_svg", "SimpleBoxItem", "add_child"),
                cmp=dict(ignore=noise))


def noise(e):
    """Logging."""
    return e.kind == "call" and "logging" in str(e.a[:2])
