"""Names of slides."""
D = "elsie.slides.slidedeck.SlideDeck."

EXPLANATION = (
    "Choosing, applying and looking up slide names is summarised per path (policies, types of names, the search over the slides in "
    "order, the slide that is removed, what happens before the slide is registered) and compared with spec/slides.py on every "
    "partition."
)
ASSUMPTIONS = []
MIN_OBLIGATIONS = 6


def check(ctx):
    ctx.conform("policy", D + "_apply_name_policy", "spec.slides.name_policy", pure=(D + "get_slide_by_name",), anchor=True)
    ctx.conform("lookup", D + "get_slide_by_name", "spec.slides.by_name", anchor=True)
    new_slide(ctx)
    ctx.conform("decorator", D + "slide", "spec.slides.slide_decorator", opaque=(D + "new_slide",), anchor=True)
    ctx.conform("name", "elsie.slides.slide.Slide.__init__", "spec.slides.slide_init", opaque=("Box", "Layout", "ShowInfo"))
    deck(ctx)
    ctx.conform("name", "elsie.slides.slide.ExternPdfSlide.__init__", "spec.deck.pdf_init")


def new_slide(ctx):
    ctx.conform("creation", D + "new_slide", "spec.slides.new_slide", anchor=True,
                opaque=(D + "_apply_name_policy", "Slide", "BoxMixin.box", "BoxMixin.rect"), pure=("Slide.box",))


def deck(ctx):
    ctx.conform("deck", D + "__init__", "spec.slides.deck_init", anchor=True,
                opaque=("TextStyle", "InkscapeBackend", "FsCache", "set_dimensions", "make_highlight_styles"),
                pure=("is_inside_notebook", "get_version", "os.path.isdir", "os.path.abspath", "make_highlight_styles"),
                cmp=dict(ignore=lambda e: e.kind == "call" and "print" in str(e.a[:2])))
