"""Values that reach an SVG document are escaped exactly once."""
import ast
import re

import rules.F03 as F03
import rules.F04 as F04
import rules.G02 as G02
import rules.X01 as X01

EXPLANATION = (
    "Escaping is compared as a table character -> replacement (chains of replace, translate, html.escape and joins over characters have "
    "the same normal form), for attributes and for character data. Every function that writes to a document or supplies an embedded "
    "fragment is compared, value by value, with its specification: values go through set/text unescaped, only complete fragments "
    "and base64 data are written verbatim. Every other use of raw_text, set(escape=...) or the document's buffer is listed and "
    "has to write constants or complete fragments."
)
ASSUMPTIONS = ["texts consist of characters that XML allows", "lxml escapes what it serialises"]
MIN_OBLIGATIONS = 30


def check(ctx):
    for name in ("set", "text", "raw_text"):
        ctx.conform("document", X01.X + name, "spec.svgout." + X01.SPECS[name], anchor=True)
    ctx.judge = escaping
    X01.elements(ctx)
    X01.contexts(ctx)
    F03.grid(ctx)
    F04.layers(ctx)
    G02.bitmap(ctx)
    G02.svg(ctx)
    G02.latex(ctx)
    F04.data(ctx)
    ctx.judge = None
    ctx.attempt("writers", "all uses of raw_text, set and the buffer", writers, ctx)


WORDS = re.compile("chars|escap|replace|translate|raw_text|text|html|quote|b64|tostring|to_string|decode|encode|set")


def escaping(d):
    """A difference in what is written verbatim, as text or as an attribute, or in a replacement of characters."""
    return any(x is not None and WORDS.search(x if isinstance(x, str) else repr(x)) for x in (d.a, d.b)) and \
        verbs(d.a) != verbs(d.b)


def verbs(x):
    return sorted(WORDS.findall(x if isinstance(x, str) else repr(x)))


def fragment(e):
    """An expression that yields constants or a complete fragment."""
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        if e.func.attr in ("to_string", "get_svg"):
            return True
        if e.func.attr == "tostring":
            return True
        if e.func.attr in ("decode", "strip"):
            return fragment(e.func.value)
    if isinstance(e, ast.JoinedStr):
        return all(isinstance(v, ast.Constant) or fragment(v.value) for v in e.values)
    if isinstance(e, ast.BinOp):
        return fragment(e.left) and fragment(e.right)
    return False


def writers(ctx):
    bad = []
    n = 0
    for f in ctx.prog.funcs.values():
        if f.qual.startswith("spec.") or f.cls is not None and f.cls.name == "Xml":
            continue
        compared = f.qual in ctx.analysed
        for e in ast.walk(f.node):
            if isinstance(e, ast.Attribute) and e.attr == "chunks":
                bad.append(("the buffer of a document is written directly", f, e))
            if not isinstance(e, ast.Call) or not isinstance(e.func, ast.Attribute):
                continue
            value = None
            if e.func.attr == "raw_text" and e.args:
                value = e.args[0]
            elif e.func.attr == "set" and (len(e.args) == 3 or any(k.arg == "escape" for k in e.keywords)):
                flag = e.args[2] if len(e.args) == 3 else next(k.value for k in e.keywords if k.arg == "escape")
                if isinstance(flag, ast.Constant) and flag.value is True:
                    continue
                value = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == "value"), None)
            if value is None:
                continue
            n += 1
            if not compared and not fragment(value):
                bad.append(("{} is written without escaping".format(ast.unparse(value)[:60]), f, e))
    for what, f, e in bad:
        ctx.violation("writers", f.qual, what, (f.loc()[0], e.lineno, f.qual))
    if not bad:
        ctx.ok("writers", "all uses of raw_text, set and the buffer", "{} sites".format(n))
