"""Backends accept every call."""
import ast

import rules.X01 as X01
from program import walk_scope

R = "elsie.render.backends."
EXPLANATION = (
    "Every call of a drawing operation, text measurement or backend operation in the package is bound against the method of every "
    "backend class, like Python binds it (positional arguments, names, *args and **kwargs followed through the functions to which they "
    "are forwarded): nothing may be missing or unexpected, and an argument that ends in an unused *args/**kwargs or an unread parameter "
    "is dropped - for each argument this is allowed only if it is listed as redundant for that backend. All other calls inside the "
    "backends that can be resolved are bound as well, and the methods that pass arguments on are compared with their specifications."
)
ASSUMPTIONS = ["the classes derived from RenderingContext and Backend are the backends"]
MIN_OBLIGATIONS = 30

# arguments that a backend may ignore because others determine them
REDUNDANT = {
    ("draw_bitmap", "mime", "Cairo"),            # the data tell the format
    ("draw_svg", "scale", "Cairo"),              # given by the size
    ("draw_svg", "rotation_center", "Cairo"),    # the middle
    ("draw_text", "x", "Cairo"),                 # the alignment in the rectangle
    ("create_render_unit", "export_type", "Svg"),  # one unit for every format
    ("draw_svg", "width", "Svg"), ("draw_svg", "height", "Svg"),  # given by the scale
}
PUBLIC = {"create_render_unit", "compute_text_width", "compute_text_height", "compute_text_x", "prune_cache", "save_cache",
          "set_dimensions"}


def check(ctx):
    contexts = implementations(ctx, R + "rcontext.RenderingContext")
    backends = implementations(ctx, R + "backend.Backend")
    ctx.attempt("calls", "drawing operations", sites, ctx, contexts, lambda n: n.startswith("draw_"))
    ctx.attempt("calls", "backend operations", sites, ctx, backends, lambda n: n in PUBLIC)
    ctx.attempt("signatures", "calls inside the backends", internal, ctx)
    X01.contexts(ctx)
    measures(ctx)


def measures(ctx):
    X = R + "cairo.rcontext.CairoRenderingContext."
    C = R + "cairo.backend.CairoBackend."
    S = R + "svg.backend.InkscapeBackend."
    for n in ("compute_text_width", "compute_text_height", "compute_text_x"):
        ctx.conform("measurement", C + n, "spec.cairo." + n.replace("compute_", ""), pure=("_text_extents",))
        ctx.conform("measurement", S + n, "spec.svgout." + n.replace("compute_", ""), opaque=("_text_query",))
    ctx.conform("measurement", C + "_text_extents", "spec.cairo.extents", opaque=("elsie.render.backends.cairo.rcontext.CairoRenderingContext", X + "compute_text_extents", X + "compute_subtext_extents"))
    pure = ("elsie.render.backends.cairo.text.compute_subtext_extents", "get_extents", "text_x_in_rect")
    ctx.conform("measurement", X + "compute_text_extents", "spec.cairo.text_extents", pure=pure, opaque=("build_layout",))
    ctx.conform("measurement", X + "compute_subtext_extents", "spec.cairo.part_extents", pure=pure, opaque=("build_layout",))


def implementations(ctx, base):
    c = ctx.prog.cls(base)
    return [x for x in c.all_subclasses() if not x.qual.startswith("spec.")]


def backend_of(cls):
    return "Cairo" if "cairo" in cls.qual.lower() else "Svg"


def sites(ctx, classes, wanted):
    prog = ctx.prog
    found = 0
    for f in list(prog.funcs.values()):
        if f.qual.startswith("spec."):
            continue
        for n in walk_scope(f.node):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute) or not wanted(n.func.attr):
                continue
            base = n.func.value
            if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == "super":
                continue
            if named(prog, f, n.func) is not None:
                continue  # a function of a module
            found += 1
            ctx.analysed.add(f.qual)
            one(ctx, f, n, classes)
    if not found:
        ctx.undecided("calls", "no calls", "no call of an operation was found")


def one(ctx, f, n, classes):
    name = n.func.attr
    subject = "{} in {}".format(name, f.qual)
    loc = (f.loc()[0], n.lineno, f.qual)
    args = n.args
    if any(isinstance(a, ast.Starred) for a in args) or any(k.arg is None for k in n.keywords):
        shape = starred(f, n)
        if shape is None:
            ctx.undecided("calls", subject, "arguments are not listed")
            return
        count, names = shape
    else:
        count, names = len(args), [k.arg for k in n.keywords]
    bad = []
    dropped = {}
    for c in classes:
        m = c.find(name)
        if m is None or abstract(m):
            bad.append("{} is not implemented by {}".format(name, c.name))
            continue
        ctx.analysed.add(m.qual)
        err, unused = bind(ctx.prog, m, count, names, skip=1)
        if err:
            bad.append("{}.{} {}".format(c.name, name, err))
            continue
        for a in unused:
            dropped.setdefault(a, []).append(c)
    for a, cs in dropped.items():
        if all((name, a, backend_of(c)) in REDUNDANT for c in cs) and len(cs) < len(classes):
            continue
        for c in cs:
            if (name, a, backend_of(c)) not in REDUNDANT or len(cs) == len(classes):
                bad.append("the argument {} has no effect in {}.{}".format(a, c.name, name))
    ctx.verdict("calls", subject, "; ".join(bad), loc, "{} backends".format(len(classes)))


def starred(f, n):
    """The names behind **kwargs if they are the caller's own dictionary literal."""
    count = len(n.args)
    if any(isinstance(a, ast.Starred) for a in n.args):
        return None
    names = []
    for k in n.keywords:
        if k.arg is not None:
            names.append(k.arg)
            continue
        v = k.value
        if isinstance(v, ast.Name):
            defs = [s.value for s in ast.walk(f.node) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in s.targets)]
            if len(defs) == 1:
                v = defs[0]
        if isinstance(v, ast.Dict) and all(isinstance(x, ast.Constant) for x in v.keys):
            names += [x.value for x in v.keys]
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict" and not v.args and all(x.arg for x in v.keywords):
            names += [x.arg for x in v.keywords]
        else:
            return None
    return count, names


def abstract(m):
    body = [s for s in m.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise) and "NotImplementedError" in ast.unparse(body[0])


def bind(prog, m, count, names, skip, depth=0):
    """(error, arguments without effect) of a call with count positional arguments and names."""
    a = m.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    ko = [x.arg for x in a.kwonlyargs]
    required = set(pos[:len(pos) - len(a.defaults)] if a.defaults else pos)
    required |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    used = {x.id for x in ast.walk(m.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
    bound, unused = [], []
    if count > len(pos):
        if a.vararg is None:
            return "takes {} positional arguments but gets {}".format(len(pos), count), []
        extra = count - len(pos)
        ok = forwarded(prog, m, a.vararg.arg, ast.Starred)
        if ok is None or depth > 5:
            if a.vararg.arg not in used:
                unused += ["number {}".format(len(pos) + i + 1) for i in range(extra)]
        else:
            for g, call, sk in ok:
                before = [x for x in call.args if not isinstance(x, ast.Starred)]
                e, u = bind(prog, g, len(before) + extra, [k.arg for k in call.keywords if k.arg] +
                            [n for n in names if n not in pos + ko], sk, depth + 1)
                if e:
                    return e, []
    bound += pos[:count]
    rest = []
    for n in names:
        if n in bound:
            return "gets the argument {} twice".format(n), []
        if n in pos or n in ko:
            bound.append(n)
        elif a.kwarg is None:
            return "does not accept the argument {}".format(n), []
        else:
            rest.append(n)
    missing = required - set(bound)
    if missing:
        return "misses the argument {}".format(", ".join(sorted(missing))), []
    unused += [n for n in bound if n not in used]
    if rest:
        if depth > 5:
            return None, unused
        ok = forwarded(prog, m, a.kwarg.arg, None)
        if ok is None:
            if a.kwarg.arg not in used:
                unused += rest
        else:
            dropped = set(rest)
            for g, call, sk in ok:
                given = [k.arg for k in call.keywords if k.arg]
                stars = any(isinstance(x, ast.Starred) for x in call.args)
                if stars:
                    # *args, **kwargs
                    e, u = bind(prog, g, len([x for x in call.args if not isinstance(x, ast.Starred)]) + max(0, count - len(pos)), given + rest, sk, depth + 1)
                else:
                    e, u = bind(prog, g, len(call.args), given + rest, sk, depth + 1)
                if e:
                    return e, []
                dropped &= set(u)
            unused += sorted(dropped)
    return None, unused


def forwarded(prog, m, name, kind):
    """Functions to which *name or **name is passed on: [(function, call, 1 for methods)], None if there is another use."""
    out = []
    uses = 0
    for n in ast.walk(m.node):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
            uses += 1
        if not isinstance(n, ast.Call):
            continue
        hit = any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id == name for k in n.keywords) or \
            any(isinstance(x, ast.Starred) and isinstance(x.value, ast.Name) and x.value.id == name for x in n.args)
        if not hit:
            continue
        g, skip = callee(prog, m, n.func)
        if g is None:
            return None
        out.append((g, n, skip))
    return out if out and uses == len(out) else None


def callee(prog, m, e):
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and m.cls is not None:
        g = m.cls.find(e.attr)
        return (g, 1) if g is not None else (None, 0)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super" and m.cls:
        for c in m.cls.mro()[1:]:
            if e.attr in c.methods:
                return c.methods[e.attr], 1
        return None, 0
    r = named(prog, m, e)
    if r is not None and r[0] == "func":
        return r[1], 0
    if r is not None and r[0] == "class":
        i = r[1].find("__init__")
        return (i, 1) if i is not None else (None, 0)
    return None, 0


def named(prog, m, e):
    """What a dotted name of the module means, None for values."""
    local = {x.id for x in ast.walk(m.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
        {x.arg for x in ast.walk(m.node) if isinstance(x, ast.arg)} | \
        {x.name for x in ast.walk(m.node) if isinstance(x, ast.FunctionDef) and x is not m.node}
    p = m.parent
    while p is not None:
        local |= {x.id for x in ast.walk(p.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
            {x.arg for x in ast.walk(p.node) if isinstance(x, ast.arg)} | {x.name for x in ast.walk(p.node) if isinstance(x, ast.FunctionDef)}
        p = p.parent
    root = e
    while isinstance(root, ast.Attribute):
        root = root.value
    if not isinstance(root, ast.Name) or root.id in local:
        return None
    r = prog.resolve_expr(m.module, e)
    return r if r is not None and r[0] in ("func", "class", "module") else None


def internal(ctx):
    prog = ctx.prog
    n = 0
    bad = []
    for f in list(prog.funcs.values()):
        if not f.qual.startswith(R):
            continue
        for e in walk_scope(f.node):
            if not isinstance(e, ast.Call):
                continue
            if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
                continue
            g, skip = callee(prog, f, e.func)
            if g is None or g.is_static:
                continue
            if g.cls is None:
                skip = 0
            n += 1
            err, _ = bind(prog, g, len(e.args), [k.arg for k in e.keywords], skip)
            if err:
                bad.append((f, e, "{} {}".format(g.qual, err)))
    for f, e, what in bad:
        ctx.violation("signatures", f.qual, what, (f.loc()[0], e.lineno, f.qual))
    if not bad:
        ctx.ok("signatures", "calls inside the backends", "{} calls".format(n))
