"""Combination and validity of styles."""
T = "elsie.text.textstyle."
S = T + "TextStyle."
K = "elsie.text.stylecontainer.StyleContainer."
SLOTS = ("font", "size", "align", "line_spacing", "color", "bold", "italic", "variant_numeric", "opacity", "priority")

EXPLANATION = (
    "Every accessor, the constructor, the attribute-wise update (unrolled over the slots) and the lookups of styles are summarised "
    "per path and compared with spec/styles.py on every partition: types accepted and refused, value stored, operand changed."
)
ASSUMPTIONS = []
MIN_OBLIGATIONS = 30


def check(ctx):
    for n in SLOTS:
        ctx.conform("attribute", S + n + ".setter", "spec.styles.set_" + n, anchor=True)
        ctx.conform("attribute", S + n, "spec.styles.get_" + n)
    ctx.conform("constructor", S + "__init__", "spec.styles.init", opaque=tuple(S + n + ".setter" for n in SLOTS), anchor=True)
    combination(ctx)
    for n in ("string", "number", "bool", "choice"):
        ctx.conform("value", T + "_check_" + n, "spec.styles.check_" + n)


def combination(ctx):
    ctx.conform("combination", S + "copy", "spec.styles.copied", anchor=True)
    setters = tuple(S + n + ".setter" for n in SLOTS)
    if ctx.conform("combination", S + "update", "spec.styles.update", anchor=True, opaque=setters) is None:
        # too many combinations of attributes: styles that give one attribute
        for n in SLOTS:
            others = {("isnone", ("a", ("p", "style"), "_" + m)): True for m in SLOTS if m != n}
            ctx.conform("combination", S + "update", "spec.styles.update", S + "update (" + n + " only)", opaque=setters, assume=others)
    ctx.conform("combination", S + "compose", "spec.styles.compose", opaque=(S + "update",), anchor=True)
    ctx.conform("lookup", T + "compose_style", "spec.styles.composed", pure=(S + "copy", S + "compose"), anchor=True)
    ctx.conform("lookup", K + "get_style", "spec.styles.get_style", pure=(T + "compose_style",), anchor=True)
    opaque = (S + "update",)
    ctx.conform("lookup", K + "update_style", "spec.styles.update_style", opaque=opaque, pure=(T + "compose_style",), anchor=True)
    ctx.conform("lookup", K + "set_style", "spec.styles.set_style", opaque=opaque, pure=(T + "compose_style",), anchor=True)
    ctx.conform("lookup", K + "has_style", "spec.styles.has_style")
    ctx.conform("lookup", K + "__init__", "spec.styles.container_init")
