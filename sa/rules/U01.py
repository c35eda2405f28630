"""Numbering of lists."""
X = "elsie.ext.list."
L = X + "ListBuilder."

EXPLANATION = (
    "The list builder's methods are summarised per path (counters, indentation, precedence of arguments as dictionary merges, calls "
    "on boxes) and compared with spec/lists.py on every partition of their inputs."
)
ASSUMPTIONS = []
MIN_OBLIGATIONS = 8


def check(ctx):
    ctx.conform("state", L + "__init__", "spec.lists.list_init", anchor=True)
    ctx.conform("scope", L + "__enter__", "spec.lists.enter")
    ctx.conform("scope", L + "__exit__", "spec.lists.leave")
    ctx.conform("item", L + "item", "spec.lists.item", opaque=("BoxMixin.box", "text", "update_style"), anchor=True)
    ctx.conform("sublist", L + "_create_sublist", "spec.lists.sublist", opaque=("BoxMixin.box", X + "ListBuilder"))
    ctx.conform("sublist", L + "ul", "spec.lists.make_ul", opaque=("_create_sublist",), anchor=True)
    ctx.conform("sublist", L + "ol", "spec.lists.make_ol", opaque=("_create_sublist",), anchor=True)
    ctx.conform("list", X + "unordered_list", "spec.lists.new_ul", opaque=("sbox", X + "ListBuilder"), anchor=True)
    ctx.conform("list", X + "ordered_list", "spec.lists.new_ol", opaque=("sbox", X + "ListBuilder"), anchor=True)
    ctx.conform("label", X + "arabic_digit_render_fn", "spec.lists.digits", opaque=("text",))
