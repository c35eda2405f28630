"""Pages and their order."""
S = "elsie.slides.slide."
D = "elsie.slides.slidedeck.SlideDeck."
M = "elsie.render.pdfmerge."

XML = tuple("elsie.utils.sxml.Xml." + n for n in ("element", "set", "text", "raw_text", "close", "to_string", "set_style"))

EXPLANATION = (
    "The rendering loop, the number of fragments of a slide, the units of inserted PDF files, and the mergers are summarised per path "
    "(loops as tables over a generic iteration, in order) and compared with spec/deck.py. The grid is decided by a separate analysis of "
    "the loop invariant of per_page_grouping."
)
ASSUMPTIONS = ["PyPDF2's merger keeps the order in which files are appended"]
MIN_OBLIGATIONS = 12


def check(ctx):
    render(ctx)
    ctx.conform("fragments", S + "Slide.steps", "spec.deck.slide_steps", pure=("_min_steps",), anchor=True)
    ctx.conform("fragments", "elsie.boxtree.box.Box._min_steps", "spec.deck.box_min_steps", pure=("min_steps",))
    ctx.conform("fragments", "elsie.boxtree.box.Box._traverse", "spec.boxes.traverse", opaque=("Box._traverse",))
    ctx.conform("fragments", "elsie.slides.show.ShowInfo.ensure_steps", "spec.boxes.show_ensure_steps", pure=("elsie.slides.show.ShowInfo",))
    ctx.conform("fragments", "elsie.boxtree.box.Box._ensure_steps", "spec.boxes.ensure_steps", pure=("ShowInfo.ensure_steps",))
    ctx.conform("unit", S + "Slide.prepare", "spec.deck.slide_prepare", opaque=("Layout.set_rect",))
    ctx.conform("unit", S + "Slide.make_render_unit", "spec.deck.slide_unit", opaque=("create_render_unit",))
    merge(ctx)
    grid(ctx)


def render(ctx):
    ctx.conform("render", D + "render", "spec.deck.render", anchor=True,
                opaque=("per_page_grouping", "get_pdf_merger_by_name", "remove_unused", "prune_cache", "save_cache", "Slide.box",
                        "prepare", "steps", "make_render_unit", "write_debug", "export", "_show_progress"),
                cmp=dict(ignore=lambda e: e.kind == "call" and noise(e.a)))


def noise(t):
    return t[0] == "m" and t[2] in ("_show_progress", "flush") or t[0] in ("ext", "e") and t[1] in ("builtins.print", "sys.stdout.write") or t[0] == "m" and t[2] == "write" and "stdout" in str(t[1])


def merge(ctx):
    ctx.conform("merge", M + "get_pdf_merger_by_name", "spec.deck.merger_by_name", opaque=("PyPdfMerger", "ExternalMerger"))
    ctx.conform("merge", M + "ExternalMerger.__init__", "spec.deck.external_init")
    ctx.conform("merge", M + "ExternalMerger.append", "spec.deck.external_append")
    ctx.conform("merge", M + "ExternalMerger.write", "spec.deck.external_write")
    ctx.conform("merge", M + "PyPdfMerger.append", "spec.deck.pypdf_append")
    ctx.conform("merge", M + "PyPdfMerger.write", "spec.deck.pypdf_write")


def grid(ctx):
    ctx.conform("grid", "elsie.render.render.per_page_grouping", "spec.deck.grouping", opaque=("svg_begin", "svg_end", "Xml", "SvgRenderUnit", "get_svg") + XML, anchor=True)
