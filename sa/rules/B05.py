"""Sizes and units of the pages and of the images on them in the Cairo backend."""
from orders import cairo

C = "elsie.render.backends.cairo."
EXPLANATION = (
    "Conformance of the functions of the Cairo backend that create the surface of a page, embed an SVG image in it and write it to "
    "spec/pages.py, for all sizes, formats, view boxes, positions and rotations: 0.75 points or one pixel per pixel, the same factor in both "
    "directions, the given position, size and centre of rotation of an embedded image, RGBA pixels in rows from the top."
)
ASSUMPTIONS = ["the documented meaning of the calls of cairocffi, CairoSVG and Pillow"]
MIN_OBLIGATIONS = 10


def check(ctx):
    how = dict(cmp=dict(arrange=cairo, ordered=True), pure=("normalize_svg",), anchor=True)
    for name, spec, kw in (
        ("rcontext.CairoRenderingContext.__init__", "context", dict(opaque=("apply_viewbox",), anchor=True)),
        ("draw.apply_viewbox", "spec.cairo.viewbox", {}),
        ("backend.CairoRenderUnit.export", "export", {}),
        ("svg.render_svg", "embed", dict(opaque=("CairoSurface",))),
        ("svg.CairoSurface.__init__", "svg_surface", dict(opaque=(C + "draw.transform",))),
        ("svg.CairoSurface._create_surface", "same_surface", {}),
        ("draw.transform", "spec.cairo.place", {}),
        ("utils.normalize_color", "fractions", {}),
        ("rcontext.CairoRenderingContext.draw_bitmap", "spec.cairo.bitmap", how),
        ("rcontext.CairoRenderingContext.draw_svg", "spec.cairo.svg", dict(how, opaque=("render_svg",))),
    ):
        ctx.conform("page", C + name, spec if "." in spec else "spec.pages." + spec, **kw)
