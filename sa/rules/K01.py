"""Inserted PDF pages."""
import ast

import rules.F03 as F03

D = "elsie.slides.slidedeck.SlideDeck."
P = "elsie.slides.slide.ExternPdfSlide."
U = "elsie.render.render.ExportedRenderUnit."

EXPLANATION = (
    "The operations of an inserted PDF page, and the operations of a deck on its slides and pages (rendering, grouping, lookup, names), "
    "are summarised per path and compared with spec/deck.py and spec/slides.py. Every attribute that any function uses on an element "
    "of a list of slides or pages is required to exist in every class whose objects the list may contain."
)
ASSUMPTIONS = ["lists named _slides, select_slides and units contain slides and pages"]
MIN_OBLIGATIONS = 10
LISTS = {"_slides": "elsie.slides.slide", "select_slides": "elsie.slides.slide", "units": "elsie.render.render"}


def check(ctx):
    ctx.conform("page", P + "__init__", "spec.deck.pdf_init", anchor=True)
    ctx.conform("page", P + "prepare", "spec.deck.pdf_prepare", anchor=True)
    ctx.conform("page", P + "steps", "spec.deck.pdf_steps", anchor=True)
    ctx.conform("page", P + "make_render_unit", "spec.deck.pdf_unit", opaque=("ExportedRenderUnit",), anchor=True)
    ctx.conform("page", U + "__init__", "spec.deck.exported_init")
    ctx.conform("page", U + "export", "spec.deck.exported_export", anchor=True)
    ctx.conform("page", "elsie.render.render.RenderUnit.get_svg", "spec.deck.no_svg")
    ctx.conform("page", "elsie.render.render.RenderUnit.write_debug", "spec.deck.nothing")
    ctx.conform("deck", D + "add_pdf", "spec.deck.add_pdf", opaque=("ExternPdfSlide",), anchor=True)
    ctx.conform("deck", D + "get_slide_by_name", "spec.slides.by_name", anchor=True)
    ctx.conform("deck", D + "_apply_name_policy", "spec.slides.name_policy", pure=(D + "get_slide_by_name",))
    F03.render(ctx)
    F03.grid(ctx)
    for f in ctx.prog.repo_functions():
        ctx.attempt("interface", f.qual, interface, ctx, f)


def classes(ctx, kind):
    m = ctx.prog.modules[kind]
    cs = [c for c in ctx.prog.classes.values() if c.module is m]
    if kind.endswith("slide"):
        return [c for c in cs if c.find("steps") is not None]
    base = ctx.prog.classes.get(kind + ".RenderUnit")
    return [c for c in ctx.prog.classes.values() if base in c.mro()]


def attributes(ctx, c):
    out = set()
    for k in c.mro():
        for n in ast.walk(k.node):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                out.add(n.attr)
    return out


def interface(ctx, f):
    """Attributes used on the elements of lists of slides and pages."""
    uses = []
    for n in ast.walk(f.node):
        gens = []
        if isinstance(n, ast.For):
            gens = [(n.target, n.iter, n.body, ())]
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            gens = [(g.target, g.iter, [n.elt], g.ifs) for g in n.generators]
        for target, it, body, ifs in gens:
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "list", "reversed", "tuple") and it.args:
                if it.func.id == "enumerate" and isinstance(target, ast.Tuple) and len(target.elts) == 2:
                    target = target.elts[1]
                it = it.args[0]
            name = it.attr if isinstance(it, ast.Attribute) else it.id if isinstance(it, ast.Name) else None
            if name == "units" and f.module.name.endswith("jupyter"):
                continue  # pages of one ordinary slide
            if name not in LISTS or not isinstance(target, ast.Name):
                continue
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "hasattr", "type")
                   for b in list(ifs) + list(body) for x in ast.walk(b)):
                continue  # selected by class
            for b in list(body) + list(ifs):
                for x in ast.walk(b):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == target.id and isinstance(x.ctx, ast.Load):
                        uses.append((name, x.attr, x.lineno))
    for name, attr, line in uses:
        missing = [c.name for c in classes(ctx, LISTS[name]) if attr not in attributes(ctx, c)]
        ctx.verdict("interface", "{} .{}".format(f.qual, attr), "{} has no attribute {}, which is used on every element of {}".format(
            ", ".join(missing), attr, name) if missing else None, loc=(f.module.path, line, f.qual))
