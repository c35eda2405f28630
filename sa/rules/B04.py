"""The styles of the runs of a text in the Cairo backend."""
from orders import attributes

T = "elsie.render.backends.cairo.text."
OPAQUE = tuple(T + n for n in (
    "attr_from_scale", "byte_length", "from_pango_rect", "from_pango_units", "get_byte_range", "get_pango_alignment",
    "get_text_and_attributes", "get_text_height", "style_to_attributes", "to_pango_color", "to_pango_units")) + (
    "elsie.render.backends.cairo.utils.get_rgb_color", "TextStyle.compose")
EXPLANATION = (
    "Conformance of the functions of the Cairo backend that turn the tokens of a text into a Pango layout to spec/pango.py, for all token "
    "lists, styles and scales: the text, the stack of styles in effect (loops by simulation with equal stacks), the byte range and the "
    "attributes of every run, line spacing and alignment, and the byte range that an inline part covers."
)
ASSUMPTIONS = ["Pango's documented meaning of attributes and units"]
MIN_OBLIGATIONS = 10
NAMES = dict(to_pango_units="to_units", from_pango_units="from_units", to_pango_color="color", byte_length="bytes_of",
             attr_from_scale="relative_size", style_to_attributes="attributes", get_text_and_attributes="runs", get_text_height="height",
             build_layout="layout", get_pango_alignment="alignment", from_pango_rect="rectangle", get_extents="extents", get_byte_range="part",
             compute_subtext_extents="part_extents")

ALSO = dict(to_pango_color=("spec.pango.color_by_parts",), get_text_and_attributes=("spec.pango.runs_by_flag",))
KINDS = ("text", "newline", "begin", "end")


def token_lists(n):
    """Lists of n tokens in which every begin has its end, as conditions on the parameter parsed_text."""
    from engine import C
    tokens = ("p", "parsed_text")

    def lists(n, depth):
        if n == 0:
            yield from ((),) if depth == 0 else ()
            return
        for k in KINDS:
            if k == "newline" and n > 3 or k == "end" and not depth or k == "begin" and depth + 1 > n - 1:
                continue
            for rest in lists(n - 1, depth + (k == "begin") - (k == "end")):
                yield (k,) + rest

    for kinds in lists(n, 0):
        conds = {("more", tokens, C(n)): False}
        for i, kind in enumerate(kinds):
            conds[("more", tokens, C(i))] = True
            for k in KINDS:
                conds[("eq", C(k), ("idx", ("idx", tokens, C(i)), C(0)))] = k == kind
            if kind == "begin":
                conds[("startswith", ("idx", ("idx", tokens, C(i)), C(1)), C("#"))] = False
        yield n, conds


def metrics(e):
    """Questions to Pango and the settings of a layout do not depend on their order."""
    if e.kind == "call" and e.a[0] == "m" and e.a[2].startswith("set_"):
        return e.a[2]
    if e.kind == "call" and e.a[0] == "ext" and e.a[1].startswith("pangocffi.pango."):
        return e.a[1]


def check(ctx):
    style = ctx.prog.classes.get("elsie.text.textstyle.TextStyle")
    for name, spec in NAMES.items():
        ctx.conform("text", T + name, "spec.pango." + spec, pure=tuple(x for x in OPAQUE if x != T + name),
                    types={("items", ("p", "styles")): style}, anchor=name == "build_layout", also=ALSO.get(name, ()),
                    shapes=[x for n in (3, 4, 5) for x in token_lists(n)] if name == "get_text_and_attributes" else (), cmp=dict(channel=metrics))
    svg(ctx, style)


def svg(ctx, style):
    """The same texts in the SVG backend."""
    xml = ("Xml.element", "Xml.set", "Xml.text", "Xml.raw_text", "Xml.close", "Xml.to_string")
    how = dict(cmp=dict(arrange=attributes, ordered=True))
    ctx.conform("svg", "elsie.render.backends.svg.draw.draw_text", "spec.svgout.text_element", types={("items", ("p", "styles")): style},
                opaque=xml + ("set_paint_style", "set_font_from_style"), **how)
    ctx.conform("svg", "elsie.render.backends.svg.draw.set_font_from_style", "spec.svgout.font", opaque=xml, **how)
