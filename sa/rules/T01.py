"""Inline markup."""
import itertools

from engine import C, contains, find_terms

P = "elsie.text.textparser."

EXPLANATION = (
    "The parser of inline markup and the functions that normalise, number and merge token streams are compared with spec/texts.py; their "
    "loops by simulation (equal initial values, equal changes of the carried values in every partition of an iteration, equal exits), and "
    "for differences also iteration by iteration for the first few iterations."
)
ASSUMPTIONS = ["pygments returns the text that it was given"]
MIN_OBLIGATIONS = 5

# pieces of marked-up text: "e" the escape character, "b" and "c" the characters that begin and end a block, "x" any other character
PIECES = ("ee", "exb", "eb", "c", "x", "b", "e")


def markup(tier):
    """Texts of the first few pieces, as conditions on the parameters of the parser."""
    for n in range(1, 5 if tier == "quick" else 6):
        for pieces in itertools.product(PIECES, repeat=n):
            word = "".join(pieces)
            if len(word) <= 9 and (n < 4 or pieces[0] in ("exb", "ee")):
                yield len(word), of_shape(word)


def of_shape(word):
    text, chars = ("p", "text"), (("e", ("p", "escape_char")), ("b", ("p", "begin_char")), ("c", ("p", "end_char")))
    length, none = ("call", ("ext", "builtins.len"), (text,), (), 0), C(None)
    n = len(word)
    conds = {("truthy", text): n > 0, ("eq", chars[0][1], C("\n")): False}
    for i in range(n + 3):
        conds[("lt", C(i), length)] = i < n
        for k, x in chars:
            for y in (("idx", text, C(i)), ("slice", text, C(i), C(i + 1), none)):
                known = i < n and word[i] == k
                conds[("eq", x, y)] = conds[("eq", y, x)] = known
        for j in range(i, n + 3):
            rows = ("call", ("m", ("slice", text, C(i), C(j), none), "split"), (C("\n"),), (), 0)
            conds[("more", ("slice", rows, C(1), none, none), C(0))] = False
    return conds


def check(ctx):
    ctx.conform("markup", P + "parse_text", "spec.texts.parse", pure=("normalize_tokens",), anchor=True, shapes=list(markup(ctx.tier)))
    ctx.conform("markup", P + "normalize_tokens", "spec.texts.normalized", anchor=True)
    ctx.conform("plain text", P + "tokens_to_text_without_style", "spec.texts.plain")
    ctx.conform("line numbers", P + "add_line_numbers", "spec.texts.numbered", pure=("number_of_lines",))
    ctx.conform("merging", P + "_get_block_end_index", "spec.texts.block_end")
    ctx.conform("merging", P + "tokens_merge", "spec.texts.merged", pure=("_tokens_merge_helper", "normalize_tokens"))
    ctx.conform("merging", P + "_tokens_merge_helper", "spec.texts.interleaved", pure=("tokens_to_text_without_style", "_get_block_end_index"))
    ctx.conform("highlighting", "elsie.text.highlight.MyFormatter.format", "spec.texts.formatted")
    ctx.conform("highlighting", "elsie.text.highlight.highlight_code", "spec.texts.highlighted", opaque=("normalize_tokens", "MyFormatter"))
    ctx.conform("indentation", P + "trim_indent", "spec.texts.without_indent")
    ctx.attempt("verbatim", P + "parse_text", verbatim, ctx, "parse_text")


# calls that give another text than the one they are applied to
CHANGES = {"replace", "strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "casefold", "swapcase", "translate",
           "expandtabs", "splitlines", "removeprefix", "removesuffix", "zfill", "ljust", "rjust", "center", "encode", "decode"}


def verbatim(ctx, name):
    """The pieces of a text are taken out of it by slicing and by splitting into lines only."""
    f = ctx.prog.func(P + name)
    text = ("p", f.node.args.args[0].arg)
    eng = ctx.engine(opaque=("normalize_tokens",))
    paths = eng.run(f)
    calls = set()

    def scan(events, loc):
        for e in events:
            loc = e.loc or loc
            if e.kind in ("loop", "mut", "call", "setitem"):
                look((e.a, e.fargs, e.c if isinstance(e.c, tuple) else None), loc)
            if e.kind == "loop":
                for c, es, o in e.b:
                    look(tuple(a for a, _ in c), e.loc or loc)
                    look(o, e.loc or loc)
                    scan(es, e.loc or loc)

    def look(t, loc):
        for x in find_terms(t, lambda x: x[0] == "call" and len(x) == 5 and x[1][0] == "m"):
            calls.add((x, loc))

    for p in paths:
        scan(p.events, None)
        look((tuple(p.conds), eng.freeze(p.value, p.state) if p.value is not None else None), None)
    for x, loc in sorted(calls, key=repr):
        recv, name = x[1][1], x[1][2]
        # the receiver is a piece of the text, or of a token made of it
        if name in CHANGES and (contains(recv, text) or find_terms(recv, lambda t: t[0] in ("lv", "elem", "unkseq", "idx", "grown"))):
            ctx.violation("verbatim", f.qual, "a piece of the text is changed by .{}()".format(name), loc or f.loc())
            return
        if name in ("split", "partition", "rsplit", "rpartition") and (x[2][:1] != (C("\n"),) or len(x[2]) > 1 or x[3]):
            ctx.undecided("verbatim", f.qual, "text is split at something else than line breaks")
            return
    ctx.ok("verbatim", f.qual, "{} method calls".format(len(calls)))
