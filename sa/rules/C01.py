"""Keys of the file cache."""
import ast

import cachelib
import rules.N01 as N01

B = "elsie.boxtree.boxmixin.BoxMixin."
INK = "elsie.render.inkscape.InkscapeShell"

EXPLANATION = (
    "The name of an entry, the version that goes into it and every request of an entry are summarised per path and compared with "
    "spec/cache.py. Every free variable of a function that produces an entry must be constant or a part of the requested content, and every "
    "option of the Inkscape shell that is read while a file is exported must be read when the version is computed."
)
ASSUMPTIONS = ["SHA-1 has no collisions", "the external programs for LaTeX are not changed"]
MIN_OBLIGATIONS = 10


def check(ctx):
    c = cachelib.CACHE
    ctx.conform("key", c + "._get_filename", "spec.cache.filename_of")
    ctx.conform("key", c + "._full_path", "spec.cache.full_path")
    ctx.conform("key", c + ".__init__", "spec.cache.cache_init", anchor=True)
    ctx.attempt("key", c + ".ensure", request, ctx)
    ctx.conform("request", c + ".ensure_by_file", "spec.cache.by_file", opaque=("ensure",))
    ctx.conform("request", c + ".get", "spec.cache.get", opaque=("ensure",), cmp=dict(channel=cachelib.producer_channel))
    ctx.conform("request", "elsie.render.render.SvgRenderUnit.export", "spec.cache.export_page", opaque=("ensure", "export_by_inkscape"), anchor=True)
    ctx.conform("request", B + "_image_ora", "spec.cache.ora_image", opaque=("ensure_by_file", "convert_ora_to_svg", "_image_svg"), pure=("_get_box",))
    ctx.conform("request", "elsie.ext.latex.latex", "spec.cache.latex_svg", anchor=True,
                opaque=("FsCache.get", "_render_latex", "svg_size_to_pixels", "ensure_width", "ensure_height", "draw_svg", "SimpleBoxItem", "add_child"),
                pure=("_get_box", "svg_size_to_pixels"))
    ctx.conform("version", "elsie.render.backends.backend.Backend.get_version", "spec.cache.version")
    ctx.conform("version", "elsie.render.backends.svg.backend.InkscapeBackend.get_version", "spec.cache.inkscape_version", anchor=True)
    N01.deck(ctx)
    for f in ctx.prog.repo_functions():
        ctx.attempt("producer", f.qual, producers, ctx, f)
    ctx.attempt("options", INK, options, ctx)


def request(ctx):
    """The requested entry is the one of the given content and format, for every path of ensure."""
    f = ctx.prog.func(cachelib.CACHE + ".ensure")
    facts = cachelib.Facts(ctx)
    bad = None
    want = None
    g = ctx.prog.func("spec.cache.filename_of")
    eng = ctx.engine()
    eng.types[("p", "self")] = facts.cls
    names = {p.value for p in eng.run(g, args={"self": cachelib.SELF}) if p.outcome == "ret"}
    for p in cachelib.run(ctx, f, facts, cachelib.producer_fails):
        if p.state is None:
            continue
        if p.outcome == "ret":
            d, n = cachelib.path_parts(p.value)
            if n not in names or d != ("a", cachelib.SELF, "cache_dir"):
                ctx.undecided("key", f.qual, "the returned path has another form than the one that is specified")
                return
            want = n
        for k, e in cachelib.flat(p.events):
            if k == "ev" and cachelib.is_producer(e):
                a = cachelib.arguments(e)
                if not a or a[0] not in (("p", "input_data"),) and "input_data" not in str(a[0]):
                    bad = "the producer does not get the content for which the entry is requested"
                elif len(a) > 2 and a[2] != ("p", "data_type"):
                    bad = "the producer does not get the format for which the entry is requested"
    if want is None:
        ctx.undecided("key", f.qual, "no returned path was found")
        return
    ctx.verdict("key", f.qual, bad, loc=f.loc())


CONSTANT = ("inkscape", "backend")


def producers(ctx, f):
    """Free variables of the producers that are given to the cache."""
    for call in ast.walk(f.node):
        if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr in ("ensure", "ensure_by_file", "get")
                and "fs_cache" in ast.unparse(call.func.value)):
            continue
        if any(call in ast.walk(n) for n in ast.walk(f.node) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f.node):
            continue  # analysed with the inner function
        args = list(call.args) + [k.value for k in call.keywords]
        if not args:
            continue
        content = args[0]
        fn = args[2] if len(args) > 2 else None
        if isinstance(fn, ast.Name):
            fn = next((n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n.name == fn.id), fn)
        if isinstance(fn, ast.Name):
            g = ctx.prog.resolve_expr(f.module, fn)
            (ctx.ok if g is not None else lambda *a: ctx.undecided(*a))("producer", "{} at {}".format(f.qual, "the cache"), "a function of the module: no free variables")
            continue
        if not isinstance(fn, (ast.FunctionDef, ast.Lambda)):
            ctx.undecided("producer", f.qual, "the producer is " + (ast.unparse(fn)[:60] if fn is not None else "missing"))
            continue
        bad = loc = None
        for text, line in free(ctx, f, fn):
            last = text.split(".")[-1]
            if last in CONSTANT or any(text == t or t.startswith(text + ".") or t == text for t in chains(content)):
                continue
            bad, loc = "the producer uses {}, which is not a part of the content {}".format(text, ast.unparse(content)[:60]), (f.module.path, line, f.qual)
        ctx.verdict("producer", f.qual, bad, loc=loc)


def chains(node):
    """Names and attribute chains in an expression."""
    return {ast.unparse(n) for n in ast.walk(node) if isinstance(n, (ast.Name, ast.Attribute))}


def free(ctx, f, fn):
    """Attribute chains of local variables of f that are read in the inner function."""
    a = fn.args
    own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            own.add(n.id)
    fa = f.node.args
    outer = {x.arg for x in fa.posonlyargs + fa.args + fa.kwonlyargs}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            outer.add(n.id)
    outer -= own
    inner = set()
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Attribute):
                base = n
                while isinstance(base, ast.Attribute):
                    inner.add(id(base.value))
                    base = base.value
    for b in body:
        for n in ast.walk(b):
            if id(n) in inner or not isinstance(n, (ast.Name, ast.Attribute)) or not isinstance(n.ctx, ast.Load):
                continue
            base = n
            while isinstance(base, ast.Attribute):
                base = base.value
            if isinstance(base, ast.Name) and base.id in outer:
                yield ast.unparse(n), n.lineno


def options(ctx):
    """Options of the Inkscape shell that influence an export are parts of the version."""
    shell = ctx.prog.classes[INK]
    init = shell.find("__init__")
    params = {a.arg for a in init.node.args.args[1:] + init.node.args.kwonlyargs}
    opts = set()
    for n in ast.walk(init.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and any(
                        isinstance(x, ast.Name) and x.id in params for x in ast.walk(n.value)) and not isinstance(n.value, ast.Call):
                    opts.add(t.attr)
    seen, todo = set(), ["convert_to_pdf"]
    read = {}
    while todo:
        name = todo.pop()
        g = shell.find(name)
        if g is None or name in seen:
            continue
        seen.add(name)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                todo.append(n.attr)
                if n.attr in opts:
                    read[n.attr] = n.lineno
    v = ctx.prog.func("elsie.render.backends.svg.backend.InkscapeBackend.get_version")
    used = {n.attr for n in ast.walk(v.node) if isinstance(n, ast.Attribute)}
    for m in v.cls.methods.values():
        if m.name in used:
            used |= {n.attr for n in ast.walk(m.node) if isinstance(n, ast.Attribute)}
    for o, line in sorted(read.items()):
        ctx.verdict("options", "{}.{}".format(INK, o), None if o in used else
                    "the option {} changes exported files but not the version in the key".format(o), loc=(shell.module.path, line, "convert_to_pdf"))
