"""Notation of sizes and positions."""
from rules.L01 import NO_CALLBACKS

V = "elsie.boxtree.value."

EXPLANATION = (
    "The functions that read sizes and positions are summarised per path and compared with spec/values.py on every partition of "
    "their inputs. Regular expressions are compared as minimal deterministic automata with group boundaries, so acceptance and "
    "captured parts agree for every string without line terminators."
)
ASSUMPTIONS = ["numbers are real numbers", "strings contain no line terminators"]
MIN_OBLIGATIONS = 6


def check(ctx):
    ctx.conform("arguments", "elsie.boxtree.layout.Layout.__init__", "spec.layout.init", pure=(V + "SizeValue.parse", V + "PosValue.parse"), cmp=NO_CALLBACKS)
    ctx.conform("notation", V + "SizeValue.parse", "spec.values.size_parse", anchor=True)
    ctx.conform("notation", V + "PosValue.parse", "spec.values.pos_parse", anchor=True)
    ctx.conform("fields", V + "SizeValue.__init__", "spec.values.size_init")
    ctx.conform("fields", V + "PosValue.__init__", "spec.values.pos_init")
    ctx.conform("meaning", V + "SizeValue.compute", "spec.layout.size_compute")
    ctx.conform("meaning", V + "PosValue.compute", "spec.layout.pos_compute")
