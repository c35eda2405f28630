"""Documents are well formed and nested."""
from orders import attributes

D = "elsie.render.backends.svg.draw."
U = "elsie.render.backends.svg.utils."
R = "elsie.render.backends.svg.rcontext.SvgRenderingContext."
X = "elsie.utils.sxml.Xml."
XML = ("Xml.element", "Xml.set", "Xml.text", "Xml.raw_text", "Xml.close", "Xml.to_string")
STYLE = ("set_paint_style", "set_font_from_style")


EXPLANATION = (
    "The calls that write a document (element, set, text, close) are the alphabet; every function that draws into an SVG document is "
    "summarised per path as a word over it and compared with spec/svgout.py (loops by simulation with equal stacks of open styles), "
    "in which every element is closed on every path. The document class itself is compared with its specification: the state of the "
    "start tag and the stack of open elements."
)
ASSUMPTIONS = ["embedded fragments (raw_text) are complete documents or elements"]
MIN_OBLIGATIONS = 20


def check(ctx):
    elements(ctx)
    document(ctx)
    contexts(ctx)


def elements(ctx):
    style = ctx.prog.classes.get("elsie.text.textstyle.TextStyle")
    how = dict(types={("items", ("p", "styles")): style}, opaque=XML + STYLE, pure=("find_centroid",), cmp=dict(arrange=attributes, ordered=True))
    shapes(ctx)
    ctx.conform("element", D + "draw_text", "spec.svgout.text_element", anchor=True, **how)
    how = dict(opaque=XML, cmp=dict(arrange=attributes, ordered=True))
    ctx.conform("attributes", D + "set_font_from_style", "spec.svgout.font", **how)
    ctx.conform("attributes", D + "set_paint_style", "spec.svgout.paint", **how)
    ctx.conform("attributes", U + "apply_rotation", "spec.svgout.rotation_around", **how)
    ctx.conform("document", U + "svg_begin", "spec.svgout.begin", **how)
    ctx.conform("document", U + "svg_end", "spec.svgout.end", **how)


def shapes(ctx):
    how = dict(opaque=XML + STYLE, pure=("find_centroid",), cmp=dict(arrange=attributes, ordered=True))
    for name, spec in (("draw_rect", "rect"), ("draw_ellipse", "ellipse"), ("draw_polygon", "polygon"), ("draw_polyline", "polyline"),
                       ("draw_path", "path"), ("draw_bitmap", "bitmap")):
        ctx.conform("element", D + name, "spec.svgout." + spec, **how)


SPECS = dict(__init__="xml_init", raw_text="raw_text", element="element", set="attribute", text="text", close="close", to_string="to_string", write="write")


def document(ctx):
    for name, spec in SPECS.items():
        ctx.conform("document", X + name, "spec.svgout." + spec, anchor=True)
    ctx.conform("document", X + "_close", "spec.svgout.end_of_tag")


def contexts(ctx):
    doc = ("svg_begin", "svg_end", "draw_text")
    how = dict(cmp=dict(arrange=attributes, ordered=True))
    ctx.conform("context", R + "__init__", "spec.svgout.context_init", opaque=XML + doc + ("Xml",), **how)
    ctx.conform("context", R + "draw_text", "spec.svgout.context_text", opaque=XML + doc, **how)
    for n in ("rect", "ellipse", "polygon", "polyline", "path", "bitmap"):
        ctx.conform("context", R + "draw_" + n, "spec.svgout.context_" + n, opaque=XML + STYLE, **how)
    ctx.conform("context", R + "draw_svg", "spec.svgout.context_svg", opaque=XML + doc + ("Xml",), also=("spec.svgout.context_svg_inplace",), **how)
    ctx.conform("context", R + "render", "spec.svgout.context_render", opaque=XML + doc, **how)
    ctx.conform("query", "elsie.render.backends.svg.query.compute_query", "spec.svgout.query_document", opaque=XML + doc + ("Xml",), **how)
    ctx.conform("query", "elsie.render.backends.svg.backend.InkscapeBackend._text_query", "spec.svgout.text_query",
                opaque=XML + doc + ("Xml", "process_query"), **how)
