"""Fragment specifications."""
S = "elsie.slides.show.ShowInfo."
B = "elsie.boxtree.boxmixin.BoxMixin."

EXPLANATION = (
    "Parsing, evaluation and extension of fragment specifications are summarised per path (loops over the items of a "
    "specification in closed form) and compared with spec/boxes.py on every partition. The grammar of one item is compared as a "
    "minimal deterministic automaton with group boundaries."
)
ASSUMPTIONS = ["strings contain no line terminators", "fragment numbers are integers"]
MIN_OBLIGATIONS = 8


def check(ctx):
    ctx.conform("specification", S + "parse", "spec.boxes.show_parse", opaque=("elsie.slides.show.ShowInfo",), anchor=True)
    ctx.conform("specification", S + "from_label", "spec.boxes.from_label", opaque=(S + "parse",))
    ctx.conform("visibility", S + "is_visible", "spec.boxes.is_visible", anchor=True)
    ctx.conform("extent", S + "__init__", "spec.boxes.show_init", pure=(S + "max_step",))
    ctx.conform("extent", S + "max_step", "spec.boxes.max_step", anchor=True)
    ctx.conform("extent", S + "min_steps", "spec.boxes.show_min_steps")
    ctx.conform("extent", S + "ensure_steps", "spec.boxes.show_ensure_steps", pure=("elsie.slides.show.ShowInfo",))
    ctx.conform("slide", B + "box", "spec.boxes.box", opaque=("Layout.add", "Box"), pure=("_get_box", S + "parse", "max_step"))
    ctx.conform("slide", "elsie.boxtree.box.Box._ensure_steps", "spec.boxes.ensure_steps", pure=(S + "ensure_steps",))
