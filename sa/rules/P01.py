"""LaTeX formulas."""
U = "elsie.render.backends.svg.utils."
EXPLANATION = (
    "Conformance of the functions that render a LaTeX formula to spec/formulas.py, for all formulas, results of the tools and documents: what "
    "the tools get, the error for every unsuccessful tool, the suffix of the ids (a digest of the source), the attributes and the references "
    "that are renamed, and the units of sizes."
)
ASSUMPTIONS = ["pdflatex and pdf2svg report failures by their exit status"]
MIN_OBLIGATIONS = 4


def check(ctx):
    ctx.conform("formula", "elsie.ext.latex._render_latex", "spec.formulas.render", opaque=("rename_ids",), cmp=dict(exc=True),
                also=("spec.formulas.render_by_run",), anchor=True)
    ctx.conform("ids", U + "rename_ids", "spec.formulas.rename")
    ctx.conform("size", U + "svg_size_to_pixels", "spec.formulas.pixels")
    ctx.conform("formula", "elsie.ext.latex.latex", "spec.cache.latex_svg", anchor=True,
                opaque=("FsCache.get", "_render_latex", "svg_size_to_pixels", "ensure_width", "ensure_height", "draw_svg", "SimpleBoxItem", "add_child"),
                cmp=dict(ignore=lambda e: e.kind == "call" and "logging" in str(e.a[:2])))
