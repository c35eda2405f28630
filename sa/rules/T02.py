"""Placement of texts."""
T = "elsie.text.textboxitem."
I = T + "TextBoxItem."
P = "elsie.text.textparser."

EXPLANATION = (
    "The measurement, placement and scaling of a text, and the boxes made for its lines and styled parts, are summarised per path; the "
    "deferred coordinates and the layout callback are analysed as functions of the final layout. Everything is compared with "
    "spec/texts.py on every partition (arithmetic in polynomial normal form)."
)
ASSUMPTIONS = ["the backends measure widths correctly (not applicable: Q01)", "real arithmetic"]
MIN_OBLIGATIONS = 9


def check(ctx):
    ctx.conform("alignment", T + "text_x_in_rect", "spec.texts.anchor", anchor=True)
    ctx.conform("lines", P + "number_of_lines", "spec.texts.lines", anchor=True)
    ctx.conform("size", I + "_make_query", "spec.texts.measure", opaque=("compute_text_width", "ensure_width", "ensure_height"), anchor=True)
    ctx.conform("fit", I + "__init__", "spec.styles.text_init", opaque=("TextBoxItem._make_query", "Layout.add_callback"), anchor=True)
    ctx.conform("placement", I + "render", "spec.texts.render", opaque=("draw_text",), pure=("text_x_in_rect",), anchor=True)
    ctx.conform("line box", I + "line_box", "spec.texts.line_box", opaque=("BoxMixin.box",), anchor=True)
    ctx.conform("inline box", I + "inline_box", "spec.texts.inline_box", opaque=("TextBoxItem._text_box_helper",), anchor=True)
    ctx.conform("inline box", I + "_text_box_helper", "spec.texts.styled_part", opaque=("BoxMixin.box", "compute_text_x", "compute_text_width"), pure=("extract_line",))
    ctx.conform("inline line", P + "extract_line", "spec.texts.line_of", pure=("_open_blocks", "_open_blocks_count"))
    ctx.conform("inline line", P + "_open_blocks", "spec.texts.open_blocks")
    ctx.conform("inline line", P + "_open_blocks_count", "spec.texts.open_count", cmp=dict(lenient=True))
