"""Text encodings."""
import ast

from rules.W01 import API, RUNNERS

EXPLANATION = (
    "All calls that open text files, convert between text and bytes, serialise XML or talk to other programs in text mode are found by "
    "their callees (origins of values over the whole program). The encoding has to be UTF-8 on every call; the default of the locale is "
    "accepted only where nothing but ASCII passes: JSON with escapes, and the commands of the Inkscape shell, which are made of "
    "constants, numbers and names of files."
)
ASSUMPTIONS = ["names of files are encoded by the file system's encoding", "xml.etree serialises ASCII with character references by default"]
MIN_OBLIGATIONS = 10
UTF8 = {"utf8", "utf_8", "u8", "cp65001", "utf8_sig"}
OPEN = {"open": (1, 3), "io.open": (1, 3), "os.fdopen": (1, 3), "builtins.open": (1, 3), "codecs.open": (1, 2), "gzip.open": (1, 3), "bz2.open": (1, 3),
        "lzma.open": (1, 3), "tempfile.NamedTemporaryFile": (0, 2), "tempfile.TemporaryFile": (0, 2), "tempfile.SpooledTemporaryFile": (1, 3),
        "io.TextIOWrapper": (None, 1)}
BINARY = {"codecs.open", "gzip.open", "bz2.open", "lzma.open", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "tempfile.SpooledTemporaryFile"}
LOCALE = ("locale.", "sys.getfilesystemencoding", "sys.stdout.encoding", "sys.getdefaultencoding", "os.device_encoding")


def check(ctx):
    ctx.attempt("encodings", "whole program", sites, ctx)


def normal(name):
    return name.lower().replace("-", "_").replace("utf_8", "utf8")


def values(atoms):
    """-> (constants, all known, locale dependent)"""
    out, known, loc = set(), True, None
    for a in atoms or ():
        if a[0] == "str" and a[1][0] == "const" and not a[2]:
            out.add(a[1][1])
        elif a[0] in ("of", "ext") and a[1].startswith(LOCALE) and "getdefaultencoding" not in a[1]:
            loc = a[1]
        elif a[0] == "list":
            pass
        else:
            known = False
    return out, known and bool(atoms), loc


def given(e, flow, f, i, name):
    for k in e.keywords:
        if k.arg == name:
            return flow.eval(k.value, f)
    if i is not None and i < len(e.args) and not any(isinstance(a, ast.Starred) for a in e.args[: i + 1]):
        return flow.eval(e.args[i], f)
    if any(k.arg is None for k in e.keywords):
        return {("str", ("unknown", "keywords"), frozenset())}
    return None


class Out:
    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, rule, f, e, what, problem=None, unsure=None):
        name = getattr(f, "qual", getattr(f, "name", "?")).split("elsie.")[-1]
        subject = "{} {}".format(name, what)
        loc = f.loc(e) if hasattr(f, "loc") else "{}:{}".format(f.relpath, e.lineno)
        if problem:
            self.ctx.violation(rule, subject, problem, loc)
        elif unsure:
            self.ctx.undecided(rule, subject, unsure)
        else:
            self.ctx.ok(rule, subject)


def sites(ctx):
    flow = ctx.flow(API)
    out = Out(ctx)
    parents = {}
    for m in ctx.prog.modules.values():
        if not m.name.startswith("spec."):
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    parents[c] = n
    ascii_json = json_is_ascii(flow)
    for e, (f, fn) in sorted(flow.calls.items(), key=lambda x: (getattr(x[1][0], "qual", ""), x[0].lineno, x[0].col_offset)):
        if e not in parents:
            continue
        names = {a[1] for a in fn if a[0] == "ext"}
        known = any(a[0] in ("fn", "meth", "cls") for a in fn)
        for q in sorted(names & set(OPEN)):
            opened(out, flow, e, f, q, parents, ascii_json)
        for q in sorted(names & RUNNERS):
            process(ctx, out, flow, e, f, q)
        for q in sorted(names):
            if q.rsplit(".", 1)[-1] in ("tostring", "tostringlist") and "xml" in q.lower() or q.endswith(("ElementTree().write", "parse().write")):
                serialised(out, flow, e, f, q, parents)
        if isinstance(e.func, ast.Attribute) and not known:
            m = e.func.attr
            if m in ("encode", "decode") and not any(a[0] == "ext" and a[1].startswith(("base64.", "html.", "json.", "codecs.")) for a in fn):
                converted(out, flow, e, f, m, given(e, flow, f, 0, "encoding"))
            elif m in ("read_text", "write_text"):
                i = 0 if m == "read_text" else 1
                named(out, "files", e, f, m, given(e, flow, f, i, "encoding"))
            elif m == "open" and not names:
                mode = values(given(e, flow, f, 0, "mode"))[0] or {"r"}
                if not all(isinstance(x, str) and "b" in x for x in mode):
                    named(out, "files", e, f, "Path.open", given(e, flow, f, 2, "encoding"))
        if isinstance(e.func, ast.Name) and e.func.id in ("bytes", "str", "bytearray") and len(e.args) >= 2 and e.func.id in names:
            converted(out, flow, e, f, e.func.id, flow.eval(e.args[1], f))
        for q in sorted(names):
            if q in ("codecs.encode", "codecs.decode"):
                converted(out, flow, e, f, q, given(e, flow, f, 1, "encoding"))


def named(out, rule, e, f, what, enc, exempt=None):
    """The encoding of a text file."""
    vals, known, loc = values(enc)
    if loc:
        return out(rule, f, e, what, "the encoding is the one of the locale ({})".format(loc))
    if enc is None or None in vals or not known and not vals:
        if enc is not None and None not in vals:
            return out(rule, f, e, what, unsure="the encoding is not known")
        if exempt:
            return out(rule, f, e, what)
        return out(rule, f, e, what, "text is read or written in the encoding of the locale")
    bad = sorted(v for v in vals if not isinstance(v, str) or normal(v) not in UTF8)
    if bad:
        return out(rule, f, e, what, "the encoding is {} and not UTF-8".format(bad[0]))
    out(rule, f, e, what, unsure=None if known else "the encoding is not known")


def opened(out, flow, e, f, q, parents, ascii_json):
    im, ie = OPEN[q]
    mode = given(e, flow, f, im, "mode") if im is not None else {("str", ("const", "w"), frozenset())}
    default = "rb" if q in BINARY else "r"
    vals, known, loc = values(mode) if mode is not None else ({default}, True, None)
    texts = [v for v in vals if isinstance(v, str) and ("t" in v if q in BINARY and not q.startswith("tempfile") else "b" not in v)]
    if known and not texts:
        return
    if not known and not texts:
        enc = given(e, flow, f, ie, "encoding")
        if enc is None or values(enc)[0] == {None}:
            return out("files", f, e, q, unsure="the mode is not known")
    named(out, "files", e, f, q, given(e, flow, f, ie, "encoding"), exempt=only_ascii(e, f, flow, parents, ascii_json))


def json_is_ascii(flow):
    for e, (f, fn) in flow.calls.items():
        if any(a[0] == "ext" and a[1] in ("json.dump", "json.dumps") for a in fn):
            for k in e.keywords:
                if k.arg is None or k.arg == "ensure_ascii" and values(flow.eval(k.value, f))[0] != {True}:
                    return False
    return True


def only_ascii(e, f, flow, parents, ascii_json):
    """The file is used for JSON without other characters, or for ASCII constants, only."""
    p = parents.get(e)
    name = None
    scope = None
    if isinstance(p, ast.withitem) and isinstance(p.optional_vars, ast.Name):
        name, scope = p.optional_vars.id, parents.get(p).body
    if name is None:
        if isinstance(p, ast.Call):  # json.load(open(...))
            got = {a[1] for a in flow.calls.get(p, (None, ()))[1] if a[0] == "ext"}
            return ascii_json and bool(got) and got <= {"json.load", "json.dump"}
        return False
    used = False
    for s in scope:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id == name:
                c = parents.get(n)
                if isinstance(c, ast.Call) and n in c.args:
                    got = {a[1] for a in flow.calls.get(c, (None, ()))[1] if a[0] == "ext"}
                    if ascii_json and got and got <= {"json.load", "json.dump"}:
                        used = True
                        continue
                if isinstance(c, ast.Attribute) and c.attr in ("flush", "close", "fileno"):
                    continue
                if isinstance(c, ast.Attribute) and c.attr == "write" and isinstance(parents.get(c), ast.Call):
                    got = flow.eval(parents[c].args[0], f) if parents[c].args else ()
                    if ascii_json and got and all(a[0] == "of" and a[1].startswith("json.dumps") for a in got):
                        used = True
                        continue
                    v, known, _ = values(got) if parents[c].args else (set(), False, None)
                    if known and all(isinstance(x, str) and x.isascii() for x in v):
                        used = True
                        continue
                if ascii_json and isinstance(c, ast.Attribute) and c.attr == "read" and parsed(flow, parents, parents.get(c), f):
                    used = True
                    continue
                return False
    return used


def parsed(flow, parents, call, f):
    """What is read is only given to json.loads."""
    def loaded(e):
        p = parents.get(e)
        return isinstance(p, ast.Call) and e in p.args and {a[1] for a in flow.calls.get(p, (None, ()))[1] if a[0] == "ext"} == {"json.loads"}
    if loaded(call):
        return True
    p = parents.get(call)
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        name = p.targets[0].id
        uses = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]
        return bool(uses) and all(loaded(n) for n in uses)
    return False


def process(ctx, out, flow, e, f, q):
    keys = {k.arg: k.value for k in e.keywords}
    if None in keys:
        return out("programs", f, e, q, unsure="the arguments are not known")
    text = [k for k in ("text", "universal_newlines") if k in keys and values(flow.eval(keys[k], f))[0] - {False, None}]
    text += [k for k in ("errors", "encoding") if k in keys]
    if q == "subprocess.getoutput":
        text = text or ["getoutput"]
    if not text:
        return out("programs", f, e, q)
    if "encoding" in keys and values(flow.eval(keys["encoding"], f))[0] != {None}:
        return named(out, "programs", e, f, q, flow.eval(keys["encoding"], f))
    # the encoding of the locale: what is sent has to be free of user text
    bad = None
    n = 0
    if "input" in keys:
        bad = user_text(flow.eval(keys["input"], f))
    for c, (g, fn) in flow.calls.items():
        for a in fn:
            if a[0] == "ext" and a[1] in (q + "().stdin.write", q + "().stdin.writelines", q + "().communicate") and c.args:
                if stream_of(flow, c, g, f):
                    n += 1
                    bad = bad or user_text(flow.eval(c.args[0], g))
    out("programs", f, e, q, "text of the deck is sent to a program in the encoding of the locale ({})".format(bad) if bad else None)


def stream_of(flow, c, g, f):
    """The stream may belong to the process that f starts (same class, or same function)."""
    def owner(x):
        while x is not None and getattr(x, "cls", None) is None:
            x = getattr(x, "parent", None)
        return x.cls if x is not None else None
    return g is f or owner(g) is not None and owner(g) is owner(f) or owner(f) is None and owner(g) is None


def user_text(atoms):
    for a in sorted(atoms or (), key=repr):
        if a[0] != "str":
            continue
        for b in (a[1],) + tuple(a[2]):
            if b[0] == "arg" and b[2] not in ("cache_dir", "export_type", "output", "filename"):
                return "parameter {} of {}".format(b[2], b[1].split("elsie.")[-1])
            if b[0] == "const" and isinstance(b[1], str) and not b[1].isascii():
                return repr(b[1])
    return None


def converted(out, flow, e, f, what, enc):
    vals, known, loc = values(enc) if enc is not None else ({"utf-8"}, True, None)
    if loc:
        return out("conversions", f, e, what, "the encoding is the one of the locale ({})".format(loc))
    errors = values(given(e, flow, f, 1, "errors"))[0]
    bad = None
    for v in sorted(vals, key=str):
        n = normal(v) if isinstance(v, str) else None
        if n in UTF8 or v is None:
            continue
        if n in ("ascii", "us_ascii") and errors & {"xmlcharrefreplace", "backslashreplace"}:
            continue
        if n in ("ascii", "us_ascii", "latin_1", "latin1", "iso8859_1", "iso_8859_1") and plain(e, f, flow):
            continue
        if n == "unicode_escape" or n == "idna":
            bad = bad or "the text is converted with {}".format(v)
            continue
        bad = bad or "the encoding is {} and not UTF-8".format(v)
    out("conversions", f, e, what, bad, None if known else "the encoding is not known")


def plain(e, f, flow):
    """What is converted is ASCII: base64, digests, constants."""
    if not isinstance(e.func, ast.Attribute):
        return False
    todo = flow.eval(e.func.value, f)
    if not todo:
        return False
    for a in todo:
        if a[0] == "of" and a[1].startswith(("base64.", "binascii.", "hashlib.", "json.dumps")):
            continue
        if a[0] == "str" and (a[1] == ("safe",) or a[1][0] == "const" and isinstance(a[1][1], (str, bytes)) and a[1][1].isascii()) and not a[2]:
            continue
        return False
    return True


def serialised(out, flow, e, f, q, parents):
    enc = given(e, flow, f, 1, "encoding")
    vals, known, loc = values(enc) if enc is not None else ({"us-ascii"}, True, None)
    if loc:
        return out("conversions", f, e, q, "the encoding is the one of the locale ({})".format(loc))
    bad = None
    for v in vals:
        n = normal(v) if isinstance(v, str) else None
        if n in UTF8 or n in ("us_ascii", "ascii", "unicode") or v is None or v is str:
            continue
        p = parents.get(e)
        if isinstance(p, ast.Attribute) and p.attr == "decode" and isinstance(parents.get(p), ast.Call):
            arg = values(given(parents[p], flow, f, 0, "encoding"))[0]
            if any(isinstance(x, str) and normal(x) == n for x in arg):
                continue
        bad = "the document is serialised in {}".format(v)
    out("conversions", f, e, q, bad, None if known else "the encoding is not known")
