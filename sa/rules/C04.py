"""The cache of text measurements."""
Q = "elsie.render.backends.svg.backend.InkscapeBackend."

EXPLANATION = (
    "The functions that build the key of a measurement, look it up, mark it as used, and load, save and prune the collection are "
    "summarised per path and compared with spec/queries.py."
)
ASSUMPTIONS = ["json preserves strings, numbers and lists"]
MIN_OBLIGATIONS = 10
DRAW = ("draw_text", "Xml", "to_string")


def check(ctx):
    for name, spec in (("compute_text_width", "width"), ("compute_text_height", "height"), ("compute_text_x", "left")):
        ctx.conform("key", Q + name, "spec.queries." + spec, opaque=DRAW + ("process_query",), anchor=True)
    queries(ctx)
    ctx.conform("state", Q + "__init__", "spec.queries.backend_init", opaque=("InkscapeShell", "_load_query_cache"),
                pure=("detect_inkscape_bin", "get_version"), cmp=dict(ignore=lambda e: e.kind == "call" and "print" in str(e.a[:2])))
    ctx.conform("measure", "elsie.render.backends.svg.query.compute_query", "spec.cache.inkscape_query",
                opaque=("Xml", "svg_begin", "svg_end", "raw_text", "get_width", "get_height", "get_x", "to_string"))


def queries(ctx):
    quiet = dict(ignore=lambda e: e.kind == "call" and "print" in str(e.a[:2]))
    ctx.conform("lookup", Q + "process_query", "spec.queries.process", opaque=("compute_query",), anchor=True)
    ctx.conform("collection", Q + "_load_query_cache", "spec.queries.load", cmp=quiet)
    ctx.conform("collection", Q + "_save_query_cache", "spec.queries.save", cmp=quiet)
    ctx.conform("collection", Q + "prune_cache", "spec.queries.prune", anchor=True, also=("spec.queries.prune_in_order",))
    ctx.conform("collection", Q + "save_cache", "spec.queries.save_all", opaque=("_save_query_cache",), anchor=True)
