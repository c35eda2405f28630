"""The Cairo graphics state around every drawing."""
from compare import show, show_conds
from orders import cairo, method

X = "elsie.render.backends.cairo.rcontext.CairoRenderingContext."
D = "elsie.render.backends.cairo.draw."
V = "elsie.render.backends.cairo.svg."
METHODS = ("draw_rect", "draw_ellipse", "draw_polygon", "draw_polyline", "draw_path", "draw_text", "draw_bitmap", "draw_svg")
RAISES = {"get_rgb_color", "build_layout", "render_svg", "draw_path", "find_centroid"}
OPAQUE = ("get_rgb_color", "build_layout", "render_svg", "elsie.render.backends.cairo.shapes.draw_path", "find_centroid")
STATE = {"translate", "rotate", "scale", "transform", "set_matrix", "identity_matrix", "set_source_rgb", "set_source_rgba", "set_source",
         "set_source_surface", "set_line_width", "set_dash", "set_line_cap", "set_line_join", "set_miter_limit", "set_operator",
         "set_fill_rule", "set_antialias", "set_tolerance", "set_font_face", "set_font_size", "clip", "clip_preserve", "reset_clip",
         "push_group"}
OUTLINE = {"move_to", "line_to", "curve_to", "rel_move_to", "rel_line_to", "rel_curve_to", "arc", "arc_negative", "rectangle", "text_path"}
CLEARS = {"fill", "stroke", "new_path"}

EXPLANATION = (
    "Typestate: on every path through a drawing method of the Cairo context (also when a callee raises), each change of the graphics state "
    "comes after a save, each save is restored exactly once, and an outline that was begun is painted or dropped. Conformance: each method "
    "and helper makes the calls of spec/cairo.py with equal values, for all arguments; setters commute with outlines and are compared in a "
    "normal order."
)
ASSUMPTIONS = ["Cairo's documented state: save/restore cover everything except the current path"]
MIN_OBLIGATIONS = 26


def fails(t, args, st):
    return ("?E",) if t[0] == "f" and t[1].split(".")[-1] in RAISES else ()


def balanced(ctx, name):
    f = ctx.prog.func(X + name)
    e = ctx.engine(opaque=OPAQUE, raises=fails)
    bad = {}
    n = 0
    paths = e.run(f, self_val=("p", "self"))
    ctx.analysed |= e.analysed
    ctx.partitions += len(paths)

    def calls(events, depth, outline, where):
        for ev in events:
            if ev.kind == "loop":
                for conds, evs, how in ev.b:
                    d, o = calls(evs, depth, outline, where)
                    if how[0] in ("next", "cont") and d != depth:
                        where.append(("save and restore do not match in a loop", ev.loc))
                    outline = outline or o
                continue
            m = method(ev)
            if m is None:
                if ev.kind == "call" and ev.a[0] == "f":
                    q = ev.a[1].split(".")[-1]
                    if q in ("draw_path", "show_layout"):
                        outline = True
                elif ev.kind == "call" and "show_layout" in repr(ev.a[:2]):
                    outline = True
                continue
            if not on_ctx(ev):
                continue
            if m == "save":
                depth += 1
            elif m == "restore":
                depth -= 1
                if depth < 0:
                    where.append(("restore without save", ev.loc))
            elif m in STATE and depth == 0:
                where.append(("{} is not undone after the drawing".format(m), ev.loc))
            elif m in OUTLINE:
                outline = True
            elif m in CLEARS:
                outline = False
        return depth, outline

    def on_ctx(ev):
        b = show(ev.a[1])
        return b.endswith(".ctx") or b == "ctx"

    for p in paths:
        where = []
        depth, outline = calls(p.state.events, 0, False, where)
        n += 1
        if depth > 0:
            where.append(("{} save without restore".format(depth), None))
        if outline and p.outcome != "raise":
            where.append(("an outline is left to later drawings", None))
        for what, loc in where:
            bad.setdefault(what, (loc, p.state.conds, p.outcome))
    for what, (loc, conds, outcome) in bad.items():
        ctx.violation("balanced", X + name, "{}{}{}".format(what, " when an error is raised" if outcome == "raise" else "",
                                                          " [when {}]".format(show_conds(conds)[:300]) if conds else ""), loc or f.loc())
    if not bad:
        ctx.ok("balanced", X + name, "{} paths".format(n))


def check(ctx):
    drawing(ctx)
    for name in METHODS:
        ctx.attempt("balanced", X + name, balanced, ctx, name)


def drawing(ctx):
    how = dict(cmp=dict(arrange=cairo, ordered=True), pure=("get_rgb_color", "find_centroid", "normalize_svg"), anchor=True)
    rounded = dict(opaque=("rounded_rectangle",))
    for name, spec, kw in (
        ("draw_rect", "rect", rounded), ("draw_ellipse", "ellipse", {}), ("draw_polygon", "polygon", {}), ("draw_polyline", "polyline", {}),
        ("draw_path", "path", dict(opaque=("elsie.render.backends.cairo.shapes.draw_path",))),
        ("draw_text", "text", dict(opaque=("build_layout",))), ("draw_bitmap", "bitmap", {}), ("draw_svg", "svg", dict(opaque=("render_svg",))),
    ):
        ctx.conform("drawing", X + name, "spec.cairo." + spec, **dict(how, **kw))
    for name, spec, kw in (
        ("rounded_rectangle", "rounded", {}), ("fill_shape", "fill", {}), ("stroke_shape", "stroke", {}),
        ("fill_stroke_shape", "fill_and_stroke", {}), ("transform", "place", {}), ("apply_viewbox", "viewbox", {}),
    ):
        ctx.conform("helper", D + name, "spec.cairo." + spec, **dict(how, anchor=False, **kw))
    ctx.conform("helper", "elsie.render.backends.cairo.utils.get_rgb_color", "spec.cairo.rgb")
