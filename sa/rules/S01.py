"""Scope of styles."""
import ast

import rules.N01 as N01
import rules.S02 as S02
from compare import show, show_ev
from engine import Limit

B = "elsie.boxtree.boxmixin.BoxMixin."
SLOTS = set(S02.SLOTS) | {"_" + n for n in S02.SLOTS}

EXPLANATION = (
    "The functions that store, look up and hand over styles and style dictionaries are summarised per path, with the identity of copies "
    "and stored objects, and compared with spec/styles.py and spec/slides.py. In every other function each assignment to a style "
    "attribute, update of a style and change of a style dictionary is required to concern an object that was created in it."
)
ASSUMPTIONS = ["set_style stores the given object itself, as documented: it belongs to the box from then on"]
MIN_OBLIGATIONS = 20


def check(ctx):
    S02.combination(ctx)
    users(ctx)
    ctx.conform("inheritance", B + "box", "spec.boxes.box", opaque=("Layout.add", "Box"), pure=("_get_box", "ShowInfo.parse", "max_step"))
    ctx.conform("inheritance", "elsie.boxtree.box.Box.__init__", "spec.boxes.box_init", opaque=("elsie.boxtree.box.Box",))
    N01.new_slide(ctx)
    N01.deck(ctx)
    ctx.conform("inheritance", "elsie.slides.slide.Slide.__init__", "spec.slides.slide_init", opaque=("Box", "Layout", "ShowInfo"))
    ctx.conform("theme", "elsie.text.highlight.make_highlight_styles", "spec.styles.theme_styles")
    ctx.conform("markdown", "elsie.ext.markdown.create_root_md_box", "spec.lists.root_box",
                opaque=("sbox", "BoxMixin.box", "text", "code", "set_style", "update_style"), pure=("has_style",))
    ctx.conform("list", "elsie.ext.list.ListBuilder.item", "spec.lists.item", opaque=("BoxMixin.box", "text", "update_style"))
    own = {"elsie.text.textstyle", "elsie.text.stylecontainer"}
    for f in ctx.prog.repo_functions():
        if f.module.name not in own:
            ctx.attempt("unshared", f.qual, unshared, ctx, f)


def users(ctx):
    h = (B + "_text_helper",)
    ctx.conform("snapshot", B + "text", "spec.styles.text", opaque=h, pure=("_get_box", "parse_text", "get_style"), anchor=True)
    ctx.conform("snapshot", B + "code", "spec.styles.code", opaque=h, anchor=True, pure=(
        "_get_box", "parse_text", "get_style", "tokens_to_text_without_style", "highlight_code", "tokens_merge", "add_line_numbers"))
    ctx.conform("snapshot", B + "_text_helper", "spec.styles.text_helper", opaque=("TextBoxItem", "add_child"), pure=("_get_box",))
    ctx.conform("snapshot", "elsie.text.textboxitem.TextBoxItem.__init__", "spec.styles.text_init", opaque=("_make_query", "add_callback"))


def candidate(f):
    """Functions with a syntactic site that may change a style or a dictionary of styles."""
    fresh = set()
    stale = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    (fresh if isinstance(n.value, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(
                        n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ("dict", "list", "set") else stale).add(t.id)

    def shared(x):
        return not (isinstance(x, ast.Name) and x.id in fresh - stale) and not (
            isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and "style" not in x.attr)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in SLOTS:
            if not (f.cls is not None and isinstance(n.value, ast.Name) and n.value.id == "self"):
                return True
        if isinstance(n, ast.Call):
            t = n.func
            if isinstance(t, ast.Attribute) and t.attr in ("update", "setdefault", "pop", "clear", "popitem", "__setattr__", "__setitem__"):
                if shared(t.value) and "style" in ast.unparse(t.value).lower():
                    return True
            if isinstance(t, ast.Name) and t.id in ("setattr", "delattr"):
                return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if shared(n.value) and "style" in ast.unparse(n.value).lower():
                return True
    return False


def is_styles(t):
    """A dictionary of styles that exists outside of the function."""
    return t[0] == "a" and t[2] in ("_styles", "styles") or t[0] == "p" and t[1] in ("styles", "_styles")


def is_style(ctx, eng, t, st):
    c = eng.typeof(t, st)
    if t[0] == "call" and t[1][0] in ("m", "f") and (t[1][-1] or "").split(".")[-1] in ("get_style", "compose_style", "copy", "compose"):
        return False  # a new object
    return c is not None and c.name == "TextStyle"


def unshared(ctx, f):
    if not candidate(f):
        return
    own = f.module.name + "."
    eng = ctx.engine(max_paths=400, inline=lambda g: g.qual.startswith(own) and g.name.startswith("_") or "<locals>" in g.qual, opaque=("elsie.text.textstyle.TextStyle.update",) + tuple(
        "elsie.text.textstyle.TextStyle.{}.setter".format(n) for n in S02.SLOTS))
    try:
        ps = ctx.paths(f, eng)
    except Limit as x:
        ctx.undecided("unshared", f.qual, "limit: {}".format(x))
        return
    bad = loc = None

    def scan(evs, st):
        nonlocal bad, loc
        for e in evs:
            if e.kind == "loop":
                for _, es, _ in e.b:
                    scan(es, st)
                continue
            t = e.a
            if e.kind == "set" and e.b in SLOTS and t[0] != "ref" and is_style(ctx, eng, t, st):
                bad = "assigns {} of the style {}, which was not created here".format(e.b, show(t)[:120])
            elif e.kind == "call" and t[0] == "m" and len(t) > 3 and t[3] == "elsie.text.textstyle.TextStyle.update" and (
                    t[1][0] not in ("ref", "inst") and is_style(ctx, eng, t[1], st)):
                bad = "updates the style {}, which was not created here".format(show(t[1])[:120])
            elif e.kind in ("mut", "setitem", "delitem") and t[0] != "ref" and is_styles(t):
                bad = "changes the style dictionary {}: {}".format(show(t)[:80], show_ev(e)[:120])
            else:
                continue
            loc = e.loc
    for p in ps:
        if p.state is not None:
            scan(p.events, p.state)
    if bad and f.name.startswith("_") and f.name != "__init__" and called(ctx, f):
        ctx.undecided("unshared", f.qual, "helper: " + bad)
        return
    ctx.verdict("unshared", f.qual, bad, loc=loc)


def called(ctx, f):
    """The function is analysed as a part of its callers in the package."""
    for g in ctx.prog.repo_functions():
        if g is not f and any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == f.name or isinstance(
                n.func, ast.Attribute) and n.func.attr == f.name) for n in ast.walk(g.node)):
            return True
    return False
