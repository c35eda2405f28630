"""Fragments in images."""
import rules.G02 as G02

I = "elsie.render.image."
O = "elsie.render.ora."
S = "elsie.slides.show.ShowInfo."

EXPLANATION = (
    "The functions that find, count and hide annotated elements, the conversion of ORA layers and the closure that draws an image "
    "in a fragment are summarised per path (loops over elements in order, effects on the original and on the copied tree kept apart) "
    "and compared with spec/images.py and spec/drawing.py on every partition of their inputs."
)
ASSUMPTIONS = ["lxml's iter/remove/deepcopy behave as documented", "the tree below a hidden element is removed with it (lxml's remove)"]
MIN_OBLIGATIONS = 10


LABEL = ("parse_show_info_from_label", S + "is_visible", S + "min_steps", S + "from_label")


def check(ctx):
    label = LABEL
    ctx.conform("annotation", I + "parse_show_info_from_label", "spec.images.label_of", pure=(S + "from_label",))
    ctx.conform("annotation", S + "from_label", "spec.boxes.from_label", opaque=(S + "parse",))
    ctx.conform("annotation", S + "is_visible", "spec.boxes.is_visible")
    ctx.conform("annotation", I + "has_fragments", "spec.images.any_annotated", pure=label, anchor=True)
    ctx.conform("extent", I + "get_image_steps", "spec.images.image_steps", pure=label, anchor=True)
    ctx.conform("extent", S + "min_steps", "spec.boxes.show_min_steps")
    data(ctx)
    G02.svg(ctx)
    layers(ctx)


def layers(ctx):
    xml = ("Xml.element", "Xml.set", "Xml.close", "draw_bitmap", "svg_begin", "svg_end", "Xml.to_string", "elsie.utils.sxml.Xml")
    parts = (O + "_children_to_svg", O + "_stack_to_svg", O + "_layer_to_svg")
    vis = (O + "_check_visibility",)
    ctx.conform("layers", O + "_check_visibility", "spec.images.ora_visible")
    ctx.conform("layers", O + "_children_to_svg", "spec.images.ora_children", opaque=parts[1:])
    ctx.conform("layers", O + "_stack_to_svg", "spec.images.ora_stack", opaque=xml + parts[:1], pure=vis)
    ctx.conform("layers", O + "_layer_to_svg", "spec.images.ora_layer", opaque=xml, pure=vis)
    ctx.conform("layers", O + "convert_ora_to_svg", "spec.images.ora_to_svg", opaque=xml + parts, anchor=True)


def data(ctx):
    ctx.conform("hiding", I + "create_image_data", "spec.images.data_of_step", pure=LABEL, anchor=True)
