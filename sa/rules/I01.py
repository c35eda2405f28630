"""The conversation with Inkscape."""
import ast

from compare import find_terms, show

I = "elsie.render.inkscape."
S = I + "InkscapeShell."

EXPLANATION = (
    "Every function that talks to Inkscape is summarised along all paths, including those on which any command fails, and the sequence of "
    "commands (open, select, query, export, close) and the release of the temporary file are compared with spec/inkscape.py. The loop that "
    "waits for the prompt is checked for its exits."
)
ASSUMPTIONS = ["commands fail with an ordinary exception", "Inkscape prints one prompt ('>' and a space at the beginning of a line) for each command"]
MIN_OBLIGATIONS = 10


def fails(tgt, args, st):
    return ("?E",) if tgt[0] == "m" and tgt[2] in ("run_command", "convert_to_pdf") else ()


def log(e):
    return e.kind == "call" and "logging" in str(e.a[:2])


def check(ctx):
    kw = dict(opaque=("run_command", "wait_for_prompt"), raises=fails, cmp=dict(ignore=log))
    ctx.conform("shell", S + "__init__", "spec.inkscape.shell_init", **kw)
    ctx.conform("query", S + "run_query", "spec.inkscape.query", **kw)
    ctx.conform("query", S + "get_width", "spec.inkscape.width", anchor=True, **kw)
    ctx.conform("query", S + "get_height", "spec.inkscape.height", anchor=True, **kw)
    ctx.conform("query", S + "get_x", "spec.inkscape.left", anchor=True, **kw)
    ctx.conform("query", S + "get_version", "spec.inkscape.version", **kw)
    ctx.conform("export", S + "convert_to_pdf", "spec.inkscape.export", anchor=True, **kw)
    ctx.conform("export", I + "export_by_inkscape", "spec.inkscape.export_file", opaque=("convert_to_pdf",), raises=fails)
    ctx.conform("command", S + "run_command", "spec.inkscape.command", opaque=("wait_for_prompt",), cmp=dict(ignore=log), anchor=True)
    ctx.conform("prompt", S + "wait_for_prompt", "spec.inkscape.prompt")
    for name, spec in (("client", "use_document"), ("binary_client", "use_binary_document")):
        ctx.conform("document", "spec.inkscape." + name, "spec.inkscape." + spec, subject=I + "svg_file_input", opaque=("run_command",),
                    raises=lambda t, a, s: ("?E", "?B") if t[0] == "v" or t[0] == "m" and t[2] == "run_command" else ())
    ctx.attempt("prompt", S + "wait_for_prompt", prompt, ctx)


def prompt(ctx):
    """Every round of the loop reads one character, and the end of the output ends the loop with an error."""
    f = ctx.prog.func(S + "wait_for_prompt")
    eng = ctx.engine()
    bad = loc = None
    loops = reads = 0
    for p in ctx.paths(f, eng):
        for e in p.events:
            if e.kind != "loop":
                continue
            loops += 1
            for conds, evs, out in e.b:
                rd = [x for x in evs if x.kind == "call" and "read" in show(x.a) or x.kind == "call" and isinstance(x.ret, tuple) and "read" in str(x.ret[1])]
                reads += len(rd)
                if out[0] != "next":
                    continue
                if len(rd) > 1:
                    bad, loc = "a round of the loop reads more than once, so that a prompt may be overlooked", e.loc
                for x in rd[:1]:
                    known = [v for a, v in conds if a[0] == "truthy" and a[1] == x.ret or a[0] == "eq" and x.ret in a[1:] and
                             any(y[0] == "c" and y[2] in ("", b"") for y in a[1:]) and not v]
                    same = [v for a, v in conds if a[0] == "eq" and x.ret in a[1:] and any(y[0] == "c" and y[2] for y in a[1:]) and v]
                    if not known and not same or known and not known[0] and ("truthy", x.ret) in [a for a, v in conds]:
                        bad, loc = "the loop goes on reading after the end of Inkscape's output", e.loc
    if not loops or not reads:
        ctx.undecided("prompt", f.qual, "no reading loop was found")
        return
    ctx.verdict("prompt", f.qual + " (end of output)", bad, loc=loc)
