"""Horizontal and vertical quantities."""
import re

import rules.B02 as B02
import rules.G01 as G01
import rules.G02 as G02
import rules.L01 as L01
import rules.L04 as L04
import rules.T02 as T02
import rules.X01 as X01
from axes import NAMES, H, V, Axes
from engine import C

EXPLANATION = (
    "A dimensional analysis of the whole program: quantities whose names fix their axis (attributes, keyword arguments, parameters, "
    "attributes of SVG elements, arguments of Cairo calls) are exponents of a product; sums of horizontal and vertical quantities, and "
    "values passed under a name of the other axis are reported. The functions that lay out, place and draw are in addition compared "
    "with their specifications, coordinate by coordinate."
)
ASSUMPTIONS = ["the public names x, y, width, height, rx, ry, p_* have their documented meaning"]
MIN_OBLIGATIONS = 80


def check(ctx):
    ctx.attempt("axes", "whole program", axes, ctx)
    ctx.judge = exchanged
    L01.check(ctx)
    L04.coordinates(ctx)
    T02.check(ctx)
    G01.check(ctx)
    G02.check(ctx)
    B02.drawing(ctx)
    X01.shapes(ctx)
    X01.contexts(ctx)
    ctx.judge = None


def content(t):
    """Axes of the quantities in a term."""
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple):
            continue
        if len(x) == 3 and x[0] == "a" and isinstance(x[2], str):
            out.add(NAMES.get(x[2].lstrip("_")))
        elif len(x) == 2 and x[0] == "p":
            out.add(NAMES.get(x[1]))
        elif len(x) == 3 and x[0] == "idx" and x[2] in (C(0), C(1)):
            out.add((H, V)[x[2][2]])
        todo += [y for y in x if isinstance(y, tuple)]
    return out - {None}


def exchanged(d):
    """A difference in the axes of the quantities."""
    def differ(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and (not isinstance(a[0], str) or a[0] == b[0] in ("tup", "new")):
            return any(differ(x, y) for x, y in zip(a, b))
        return content(a) != content(b)

    if not isinstance(d.a, tuple) or not isinstance(d.b, tuple):
        return isinstance(d.a, str) and isinstance(d.b, str) and words(d.a) != words(d.b)
    return differ(d.a, d.b)


def words(s):
    return {NAMES.get(w.lstrip("_")) for w in re.findall(r"[A-Za-z_][A-Za-z_0-9]*", s)} - {None}


def axes(ctx):
    bad = []
    a = Axes(ctx.prog, lambda f, n, what: bad.append((f, n, what)))
    n = 0
    for f in list(ctx.prog.funcs.values()):
        if f.qual.startswith("spec."):
            continue
        before = a.checked
        a.function(f)
        if a.checked > before:
            n += 1
            ctx.analysed.add(f.qual)
    seen = set()
    for f, node, what in bad:
        key = (f.loc()[0], getattr(node, "lineno", 0), what)
        if key in seen:
            continue
        seen.add(key)
        ctx.violation("axes", f.qual, what, (f.loc()[0], getattr(node, "lineno", f.node.lineno), f.qual))
    if not bad:
        ctx.ok("axes", "whole program", "{} sums, arguments and attributes in {} functions".format(a.checked, n))
