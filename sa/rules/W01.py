"""Files that are written, replaced or removed."""
import ast

from flow import TEMPORARY

EXPLANATION = (
    "The values of all expressions of the program are traced to their origins (a flow-insensitive analysis with fields per class, over all "
    "modules). Every call that creates, replaces, writes or removes a file, or that starts a program which does, is found by its "
    "callee; the path in it has to begin with the cache directory, an own temporary file or directory, or the output that the caller "
    "named, and its other parts must not come from names that the caller chose. What is removed has to be an own temporary file, or "
    "be reached only from the removal of unused entries, which is compared with spec/cache.py."
)
ASSUMPTIONS = ["export_type is the name of a format", "external libraries write no other files than the ones they are given",
               "a name generated for a temporary file or cache entry is not the name of somebody else's file"]
MIN_OBLIGATIONS = 8

CACHE = "elsie.utils.cache.FsCache."
DECK = "elsie.slides.slidedeck.SlideDeck."
API = (DECK + "__init__", DECK + "render", DECK + "new_slide", DECK + "slide", DECK + "add_pdf", "elsie.boxtree.boxmixin.BoxMixin.image",
       "elsie.boxtree.boxmixin.BoxMixin.latex", "elsie.boxtree.boxmixin.BoxMixin.text", "elsie.boxtree.boxmixin.BoxMixin.box",
       "elsie.boxtree.boxmixin.BoxMixin.code", "elsie.ext.export.export_pptx", "elsie.ext.latex.latex",
       "elsie.render.backends.svg.backend.InkscapeBackend.__init__", "elsie.render.backends.cairo.backend.CairoBackend.__init__")
OUTPUTS = {(DECK + "render", "output"), ("elsie.ext.export.export_pptx", "filename")}

# callee -> positions of what is written and of what is removed
SINKS = {
    "os.replace": ((1,), (0,)), "os.rename": ((1,), (0,)), "os.renames": ((1,), (0,)), "shutil.move": ((1,), (0,)),
    "os.remove": ((), (0,)), "os.unlink": ((), (0,)), "os.rmdir": ((), (0,)), "os.removedirs": ((), (0,)), "shutil.rmtree": ((), (0,)),
    "os.mkdir": ((0,), ()), "os.makedirs": ((0,), ()), "os.symlink": ((1,), ()), "os.link": ((1,), ()), "os.truncate": ((0,), ()),
    "os.utime": ((0,), ()), "os.chmod": ((0,), ()), "os.mkfifo": ((0,), ()), "os.mknod": ((0,), ()),
    "shutil.copy": ((1,), ()), "shutil.copy2": ((1,), ()), "shutil.copyfile": ((1,), ()), "shutil.copytree": ((1,), ()),
    "shutil.copymode": ((1,), ()), "shutil.unpack_archive": ((1,), ()), "os.chdir": ((0,), ()),
    "cairocffi.PDFSurface": ((0,), ()), "cairocffi.SVGSurface": ((0,), ()), "cairocffi.PSSurface": ((0,), ()),
}
METHODS = {"save": ((0,), ()), "write_to_png": ((0,), ()), "extractall": ((0,), ()), "extract": ((1,), ())}
PATHLIB = {"write_text": "w", "write_bytes": "w", "touch": "w", "mkdir": "w", "unlink": "r", "rmdir": "r", "symlink_to": "w", "hardlink_to": "w"}
OPENERS = {"open", "io.open", "os.fdopen", "codecs.open", "gzip.open", "zipfile.ZipFile", "bz2.open", "lzma.open", "tarfile.open", "builtins.open"}
RUNNERS = {"subprocess.Popen", "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "os.system",
           "os.spawnv", "os.execv", "subprocess.getoutput"}
IN_PLACE = ("latex", "bibtex", "tex")  # programs that write into the current directory


def check(ctx):
    ctx.attempt("files", "whole program", files, ctx)
    ctx.conform("unused entries", CACHE + "remove_unused", "spec.cache.remove_unused", anchor=True)
    ctx.judge = lambda d: "cache_files" in repr(d)
    ctx.conform("unused entries", CACHE + "__init__", "spec.cache.cache_init")
    ctx.judge = None


def arg(e, flow, f, i, names=()):
    for k in e.keywords:
        if k.arg in names:
            return flow.eval(k.value, f)
    if i < len(e.args) and not any(isinstance(a, ast.Starred) for a in e.args[: i + 1]):
        return flow.eval(e.args[i], f)
    return None


def files(ctx):
    flow = ctx.flow(API)
    outputs = set(OUTPUTS)
    for g in flow.funcs:
        # code that nothing in the program calls writes where its caller says
        if g in flow.entry and g.qual not in API:
            for n in g.node.args.args:
                if n.arg in ("filename", "output", "path", "target"):
                    outputs.add((g.qual, n.arg))
    caches = set()
    for g in flow.funcs:
        if g.qual in API:
            for n in g.node.args.args + g.node.args.kwonlyargs:
                if n.arg == "cache_dir":
                    caches.add((g.qual, n.arg))
    if not caches:
        raise LookupError("no function takes the cache directory")
    defaults = set()
    for q, n in outputs | caches:
        g = ctx.prog.funcs.get(q)
        if g is None:
            continue
        a = g.node.args
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if x.arg == n and d is not None:
                for v in flow.eval(d, g.module):
                    if v[0] == "str" and v[1][0] == "const" and isinstance(v[1][1], str):
                        defaults.add(((q, n) in caches, v[1][1]))
    w = Where(caches, outputs, defaults)
    for e, (f, fn) in sorted(flow.calls.items(), key=lambda x: (getattr(x[1][0], "qual", ""), x[0].lineno, x[0].col_offset)):
        if getattr(f, "qual", getattr(f, "name", "")).startswith("spec."):
            continue
        for kind, what, atoms in effects(e, f, fn, flow):
            site(ctx, flow, w, e, f, kind, what, atoms)


def effects(e, f, fn, flow):
    names = {a[1] for a in fn if a[0] == "ext"}
    known = any(a[0] in ("fn", "meth", "cls") for a in fn)
    for q in sorted(names):
        if q in OPENERS:
            mode = arg(e, flow, f, 1, ("mode",)) or set()
            modes = {a[1][1] for a in mode if a[0] == "str" and a[1][0] == "const" and isinstance(a[1][1], str)}
            if any(set(m) & set("wax+") for m in modes):
                yield "written", q, arg(e, flow, f, 0, ("file",))
            elif mode and not modes:
                yield "opened", q, arg(e, flow, f, 0, ("file",))
        elif q in SINKS:
            w, r = SINKS[q]
            for i in w:
                yield "written", q, arg(e, flow, f, i, ("dst", "target", "name", "path"))
            for i in r:
                yield "removed", q, arg(e, flow, f, i, ("src", "path"))
        elif q in TEMPORARY:
            if any(k.arg == "dir" for k in e.keywords) or len(e.args) > 2:
                yield "written", q, flow.eval(e, f)
        elif q in RUNNERS:
            yield "run", q, arg(e, flow, f, 0, ("args",))
        elif "()." in q:
            m = q.rsplit(".", 1)[-1]
            if m in METHODS and (e.args or e.keywords):
                a = arg(e, flow, f, METHODS[m][0][0], ("fp", "filename", "path"))
                if a is None and m.startswith("extract"):
                    a = {("str", ("const", "."), frozenset())}
                yield "written", q, a
            elif m == "write" and ("ElementTree" in q or q.endswith("parse().write")):
                yield "written", q, arg(e, flow, f, 0, ("file_or_filename",))
    if isinstance(e.func, ast.Attribute) and not known and not names:
        m = e.func.attr
        recv = flow.eval(e.func.value, f)
        if m in PATHLIB:
            yield "written" if PATHLIB[m] == "w" else "removed", m, recv
        elif m in ("rename", "replace") and len(e.args) == 1:
            yield "removed", m, recv
            yield "written", m, flow.eval(e.args[0], f)
        elif m == "open":
            mode = arg(e, flow, f, 0, ("mode",)) or set()
            if any(a[0] == "str" and a[1][0] == "const" and isinstance(a[1][1], str) and set(a[1][1]) & set("wax+") for a in mode):
                yield "written", m, recv
        elif m in METHODS and e.args:
            yield "written", m, flow.eval(e.args[0], f)
    for a in e.args:
        if isinstance(a, (ast.JoinedStr, ast.BinOp, ast.Call, ast.Constant, ast.Name)):
            v = flow.eval(a, f)
            got = {x for x in v if x[0] == "str" and x[1][0] == "const" and isinstance(x[1][1], str) and x[1][1].startswith("export-filename:")}
            if got and any(isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.startswith("export-filename:")
                           for n in ast.walk(a)):
                yield "exported", "export-filename", got


class Where:
    def __init__(self, caches, outputs, defaults):
        self.caches, self.outputs, self.defaults = caches, outputs, defaults

    def place(self, b):
        """cache, temp, output, nothing, or a text that says what else the base is"""
        if b == ("temp",):
            return "temp"
        if b[0] == "arg":
            if (b[1], b[2]) in self.caches:
                return "cache"
            if (b[1], b[2]) in self.outputs:
                return "output"
            return "parameter {} of {}".format(b[2], b[1].split("elsie.")[-1])
        if b[0] == "const":
            if b[1] is None:
                return "nothing"
            if not isinstance(b[1], str):
                return "nothing"
            for cache, d in self.defaults:
                if cache and (b[1] == d or b[1].startswith(d.rstrip("/") + "/")):
                    return "cache"
                if not cache and b[1] == d:
                    return "output"
            return "the constant {!r}".format(b[1])
        if b[0] == "parent of":
            return "the parent directory of " + str(self.place(tuple(b[1:])))
        if b[0] in ("base name", "safe"):
            return "a name in the current directory"
        return None


def safe_part(h):
    return h[0] in ("temp", "safe", "more", "temporary name", "base name") or h[0] == "arg" and h[2] in ("export_type", "extension", "data_type", "type") or \
        h[0] == "const" and h[1] != ".." and not (isinstance(h[1], str) and h[1].startswith("/"))


def judge(w, atoms, allow=("cache", "temp", "output")):
    """-> (problem, unsure, places)"""
    problem = unsure = None
    places = set()
    strs = [a for a in atoms or () if a[0] == "str"]
    if not strs:
        if any(a[0] == "of" for a in atoms or ()):
            return None, None, {"object"}
        return None, "the path is not known", places
    for b, holes in sorted({(a[1], a[2]) for a in strs}, key=repr):
        p = w.place(b)
        if p is None:
            unsure = "the path may be " + str(b[-1])
            continue
        if p == "nothing":
            continue
        if p not in allow:
            problem = problem or "the path comes from " + p
            continue
        temp = ("temporary name",) in holes or p == "temp" or b[0] == "const" and ("temp" in b[1] or "tmp" in b[1])
        if p == "output" and ("more",) in holes:
            problem = problem or "the path is not the output that the caller named, but another name made from it"
        places.add("temp" if temp and p != "output" else p)
        for h in sorted(holes, key=repr):
            if h[0] == "unknown":
                unsure = "a part of the path may be " + h[1]
            elif not safe_part(h):
                x = w.place(h)
                if x == "cache":
                    continue
                problem = problem or "a part of the path comes from {}".format(x or "..")
    return problem, unsure, places


def site(ctx, flow, w, e, f, kind, what, atoms):
    fname = getattr(f, "qual", getattr(f, "name", "?"))
    subject = "{} {}".format(fname.split("elsie.")[-1], what)
    loc = f.loc(e) if hasattr(f, "loc") else "{}:{}".format(f.relpath, e.lineno)
    if kind == "run":
        return run(ctx, flow, w, e, f, subject, loc, atoms)
    if kind == "exported":
        problem = unsure = None
        for x in sorted(atoms, key=repr):
            rest = x[1][1][len("export-filename:"):]
            base = [("const", rest)] if rest else [h for h in x[2] if w.place(h) in ("cache", "temp")]
            if not base:
                base = list(x[2]) or [("const", ".")]
            p, u, _ = judge(w, {("str", b, frozenset(x[2]) - {b}) for b in base}, ("cache", "temp"))
            problem, unsure = problem or p, unsure or u
        return close(ctx, "written", subject, problem, unsure, loc)
    problem, unsure, places = judge(w, atoms)
    if kind == "removed" and not problem:
        if "output" in places:
            problem = "the output of the caller is removed"
        elif "cache" in places and not only_from(flow, f, CACHE + "remove_unused"):
            # a file that may have no temporary name
            named = [a for a in atoms if a[0] == "str"]
            if not any(("temporary name",) in a[2] or a[1][0] == "const" and isinstance(a[1][1], str) and ("temp" in a[1][1] or "tmp" in a[1][1]) for a in named):
                problem = "an entry of the cache is removed outside of the removal of unused entries"
    close(ctx, kind, subject, problem, unsure, loc)


def close(ctx, rule, subject, problem, unsure, loc):
    if problem:
        ctx.violation(rule, subject, problem, loc)
    elif unsure:
        ctx.undecided(rule, subject, unsure)
    else:
        ctx.ok(rule, subject)


def run(ctx, flow, w, e, f, subject, loc, atoms):
    consts = [a[1][1] for a in atoms or () if a[0] == "str" and a[1][0] == "const" and isinstance(a[1][1], str)]
    cwd = [k.value for k in e.keywords if k.arg == "cwd"]
    if any(c.rsplit("/", 1)[-1].endswith(IN_PLACE) for c in consts):
        where = flow.eval(cwd[0], f) if cwd else {("str", ("const", "."), frozenset())}
        where = {a for a in where if a[0] == "str" and a[1] != ("const", None)} or {("str", ("const", "."), frozenset())}
        problem, unsure, _ = judge(w, where, ("cache", "temp"))
        if problem:
            problem = "the program writes into its current directory: " + problem
        return close(ctx, "programs", subject, problem, unsure, loc)
    bad = None
    for a in sorted(atoms or (), key=repr):
        if a[0] == "str" and a[1][0] in ("parent of", "base name"):
            bad = bad or "an argument is {}".format(w.place(a[1]))
    close(ctx, "programs", subject, bad, None, loc)


def only_from(flow, f, root):
    """Function f runs only as a part of root."""
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if getattr(g, "qual", None) == root:
            continue
        if g in seen:
            continue
        seen.add(g)
        if flow.nested(g) and g.parent is not None and g not in flow.callers:
            todo.append(g.parent)
            continue
        up = flow.callers.get(g)
        if not up:
            return False
        todo += list(up)
    return True
