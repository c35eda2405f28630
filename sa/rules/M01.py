"""Translation of Markdown."""
X = "elsie.ext.markdown."

EXPLANATION = (
    "The translation of every kind of block and inline element is summarised per path (loops over the children in order, the "
    "recursive calls opaque: induction over the tree) and compared with spec/lists.py on every partition of their inputs."
)
ASSUMPTIONS = ["marko delivers the blocks and inline elements of the document in order"]
MIN_OBLIGATIONS = 12
BOX = ("sbox", "BoxMixin.box", "text", "code", "set_style", "update_style")


def check(ctx):
    ctx.conform("context", X + "MarkdownContext.__init__", "spec.lists.md_context")
    ctx.conform("context", X + "MarkdownContext.copy", "spec.lists.md_copy")
    ctx.conform("inline", X + "MarkdownContext.wrap_text_with_style", "spec.lists.wrap")
    ctx.conform("inline", X + "get_raw_text", "spec.lists.raw_text", opaque=("get_raw_text",))
    ctx.conform("styles", X + "create_root_md_box", "spec.lists.root_box", opaque=BOX, pure=("has_style",))
    text = ("get_raw_text",)
    ctx.conform("block", X + "build_heading", "spec.lists.heading", opaque=BOX, pure=text)
    ctx.conform("block", X + "build_paragraph", "spec.lists.paragraph", opaque=BOX, pure=text)
    ctx.conform("block", X + "build_blank_line", "spec.lists.blank_line", opaque=BOX, pure=text)
    ctx.conform("block", X + "build_quote", "spec.lists.quote", opaque=BOX + (X + "build",), pure=text + ("get_style",))
    ctx.conform("block", X + "build_fenced_code", "spec.lists.fenced", opaque=BOX, pure=text)
    ctx.conform("block", X + "build_list_top", "spec.lists.list_top",
                opaque=BOX + (X + "build_children", "ordered_list", "unordered_list", "ListBuilder.ol", "ListBuilder.ul", "ListBuilder.item"), pure=text)
    ctx.conform("dispatch", X + "build", "spec.lists.build_node", opaque=tuple(
        X + "build_" + n for n in ("heading", "paragraph", "blank_line", "quote", "fenced_code", "list_top")),
        cmp=dict(ignore=lambda e: e.kind == "call" and "print" in str(e.a[:2])))
    ctx.conform("dispatch", X + "build_children", "spec.lists.all_children", opaque=(X + "build",))
    ctx.conform("document", X + "markdown", "spec.lists.md", opaque=(X + "build_children", X + "create_root_md_box"), pure=("trim_indent",), anchor=True)
