"""Preview in notebooks."""
import ast
import re
from html.parser import HTMLParser

import js
from compare import Norm, show
from engine import C, find_terms
from program import Module

J = "elsie.render.jupyter."

EXPLANATION = (
    "The calls that produce the fragments of a preview are compared with spec/jupyter.py. The HTML text is taken as a term with holes: "
    "its elements are required to be balanced, each fragment to be one element with the classes of its number, and the identifier of a "
    "preview to be generated anew in each call. The script in it is parsed, translated and compared with spec/jupyter.py: its start and "
    "the handlers of both buttons, for every active fragment and number of fragments."
)
ASSUMPTIONS = ["querySelector and querySelectorAll have no effects", "uuid.uuid4 never repeats"]
MIN_OBLIGATIONS = 4
FRESH = ("uuid.uuid4", "uuid.uuid1", "secrets.token_hex", "secrets.token_urlsafe", "random.getrandbits", "random.randint", "random.random",
         "time.time_ns", "time.perf_counter_ns", "os.urandom")
VOID = {"img", "br", "hr", "input", "meta", "link"}
DOM = {"querySelector", "querySelectorAll", "addEventListener", "disabled", "style", "display", "innerText", "length", "toString", "forEach",
       "concat", "min", "max"}


def check(ctx):
    ctx.conform("fragments", J + "get_slide_repr_steps", "spec.jupyter.preview_images", opaque=("SlideDeck.render",), anchor=True,
                types={("a", ("p", "slide"), "slides"): ctx.prog.classes["elsie.slides.slidedeck.SlideDeck"]})
    ctx.conform("display", "elsie.slides.slide.Slide._repr_html_", "spec.jupyter.preview", opaque=("render_slide_html",))
    ctx.conform("display", "elsie.boxtree.box.Box._repr_html_", "spec.jupyter.preview_of_box", opaque=("render_slide_html",))
    ctx.attempt("page", J + "render_slide_html", page, ctx)


class Node:
    def __init__(self, tag, attrs, parent):
        self.tag, self.attrs, self.parent = tag, dict(attrs), parent
        self.children = []
        self.text = ""

    def classes(self):
        return (self.attrs.get("class") or "").split()

    def all(self):
        yield self
        for c in self.children:
            yield from c.all()


class Tree(HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.root = self.cur = Node("", (), None)
        self.problem = None
        self.feed(text)
        self.close()
        if self.cur is not self.root and not self.problem:
            self.problem = "<{}> is not closed".format(self.cur.tag)

    def handle_starttag(self, tag, attrs):
        n = Node(tag, attrs, self.cur)
        self.cur.children.append(n)
        if tag not in VOID:
            self.cur = n

    def handle_startendtag(self, tag, attrs):
        self.cur.children.append(Node(tag, attrs, self.cur))

    def handle_endtag(self, tag):
        if self.cur.tag != tag:
            self.problem = self.problem or "</{}> closes <{}>".format(tag, self.cur.tag)
            n = self.cur
            while n is not None and n.tag != tag:
                n = n.parent
            if n is None or n is self.root:
                return
            self.cur = n
        self.cur = self.cur.parent

    def handle_data(self, data):
        self.cur.text += data


class Text:
    """The text of a string term; its holes are private use characters."""

    def __init__(self):
        self.terms = []

    def of(self, term, norm):
        t = norm(term)
        parts = t[1] if t[0] == "str" else (t,)
        return "".join(p[2] if p[0] == "c" and isinstance(p[2], str) else self.hole(p) for p in parts)

    def hole(self, t):
        if t not in self.terms:
            self.terms.append(t)
        return chr(0xE000 + self.terms.index(t))

    def term(self, ch):
        i = ord(ch) - 0xE000 if len(ch) == 1 else -1
        return self.terms[i] if 0 <= i < len(self.terms) else None


def page(ctx):
    eng = ctx.engine(opaque=("get_slide_repr_steps",))
    f = ctx.prog.func(J + "render_slide_html")
    paths = ctx.paths(f, eng)
    norm = Norm(eng, None)
    loc = f.loc()
    steps = None
    scripts = set()
    for p in paths:
        for e in p.events:
            if e.kind == "call" and e.a == ("f", J + "get_slide_repr_steps"):
                steps = ("call", e.a, (("p", "slide"), ("p", "format")), (), 0)
    if steps is None:
        ctx.undecided("page", f.qual, "the fragments are not obtained here")
        return
    steps = norm(steps)
    count = norm(("call", ("ext", "builtins.len"), (steps,), (), 0))
    rets = [p for p in paths if p.outcome == "ret"]
    for p in rets:
        value = eng.freeze(p.value, p.state)
        if value[0] not in ("str", "c"):
            ctx.undecided("page", f.qual, "the page is not a text with holes: " + show(value)[:100])
            return
        text = Text()
        html = text.of(value, norm)
        tree = Tree(html)
        if tree.problem:
            ctx.violation("balanced", f.qual, "the elements of the page are not balanced: " + tree.problem, loc)
            return
        nodes = list(tree.root.all())
        script = [n for n in nodes if n.tag == "script"]
        # fragments
        if not blocks(ctx, f, norm, text, nodes, steps, loc):
            return
        # identifier
        if script and not identifier(ctx, f, eng, text, nodes, script, p, loc):
            return
        if not script:
            why = allows_many(norm, p, count)
            if why is None:
                ctx.undecided("buttons", f.qual, "the condition under which there are buttons is not understood")
                return
            if why:
                ctx.violation("buttons", f.qual, "a preview of {} fragments has no buttons".format(why), loc)
                return
            continue
        scripts.add((tuple((text.term(c) if 0xE000 <= ord(c) <= 0xF8FF else c) for n in script for c in n.text), tuple(
            sorted({c for n in nodes for c in n.classes()}))))
    if not scripts:
        ctx.undecided("page", f.qual, "there is no script in the page")
        return
    for r in ("balanced", "blocks", "identifier", "buttons"):
        ctx.ok(r, f.qual)
    for chars, classes in scripts:
        script_text(ctx, f, eng, norm, chars, classes, count, loc)


def blocks(ctx, f, norm, text, nodes, steps, loc):
    """One element for each fragment, in order, with the classes elsie-step and step-N."""
    holes = [n for n in nodes for c in n.text if text.term(c) is not None and find_terms(text.term(c), lambda t: t == steps)]
    joins = [text.term(c) for n in holes if n.tag != "script" for c in n.text if text.term(c) is not None]
    joins = [t for t in joins if t[0] == "join"]
    if len(joins) != 1 or joins[0][2][0] != "list" or len(joins[0][2][1]) != 1 or joins[0][2][1][0][0] != "each":
        ctx.undecided("blocks", f.qual, "the blocks of the fragments are not recognised")
        return False
    _, src, tree = joins[0][2][1][0][:3]
    if src != steps:
        ctx.violation("blocks", f.qual, "the blocks are made of {} instead of all the fragments in order".format(show(src)), loc)
        return False
    if tree[0] != "leaf" or len(tree[1]) != 1:
        ctx.violation("blocks", f.qual, "not exactly one block for each fragment", loc)
        return False
    inner = Text()
    block = Tree(inner.of(tree[1][0], norm))
    if block.problem:
        ctx.violation("balanced", f.qual, "the block of a fragment is not balanced: " + block.problem, loc)
        return False
    if len(block.root.children) != 1:
        ctx.undecided("blocks", f.qual, "a block is not one element")
        return False
    n = block.root.children[0]
    content = [inner.term(c) for m in n.all() for c in m.text if inner.term(c) is not None]
    if not (len(content) == 1 and content[0][0] == "elem" and content[0][1] == steps):
        ctx.violation("blocks", f.qual, "a block does not contain its fragment: {}".format([show(c) for c in content]), loc)
        return False
    numbers = [c for c in n.classes() if c.startswith("step-")]
    if "elsie-step" not in n.classes() or len(numbers) != 1:
        ctx.undecided("blocks", f.qual, "the classes of a block are {}".format(" ".join(n.classes())))
        return False
    num = numbers[0][len("step-"):]
    num = inner.term(num) if inner.term(num) is not None else C(num)
    want = norm(("add", ("pos", steps, content[0][2]), C(1)))
    if norm(num) != want:
        ctx.violation("blocks", f.qual, "a block is numbered {} instead of {}".format(show(num), show(want)), loc)
        return False
    return True


def identifier(ctx, f, eng, text, nodes, script, p, loc):
    """The class by which the script finds its elements is made of something that is new in every call."""
    outer = script[0]
    while outer.parent is not None and outer.parent.tag:
        outer = outer.parent
    ids = [c for c in outer.classes() if any(text.term(ch) is not None for ch in c)]
    if len(ids) != 1:
        ctx.undecided("identifier", f.qual, "the identifier of the preview is not recognised")
        return False
    used = [t for t in (text.term(ch) for ch in ids[0]) if t is not None]
    made = {t[1][1] for u in used for t in find_terms(u, lambda t: t[0] == "call" and t[1][0] == "ext")}
    called = [e.a[1] for e in p.events if e.kind == "call" and e.a[0] == "ext"]
    fresh = [m for m in made if m in FRESH]
    if fresh:
        if not any(m in called for m in fresh):
            ctx.violation("identifier", f.qual, "the identifier is not generated in the call that makes the preview", loc)
            return False
        if len([c for c in called if c in fresh]) > 1:
            ctx.undecided("identifier", f.qual, "several identifiers are generated")
            return False
    elif all(only_arguments(u, ctx) for u in used):
        ctx.violation("identifier", f.qual, "two previews may have the same identifier: it is made of {}".format(", ".join(show(u) for u in used)), loc)
        return False
    else:
        ctx.undecided("identifier", f.qual, "the source of the identifier is not known: {}".format(", ".join(show(u) for u in used)))
        return False
    # everything that the script looks up is inside of the element with the identifier
    for n in script:
        names = re.findall(r"elsie-wrapper[-\w\ue000-\uf8ff]*", n.text)
        if any(x != ids[0] for x in names):
            ctx.violation("identifier", f.qual, "the script looks for another preview than its own", loc)
            return False
        for m in re.finditer(r"[\ue000-\uf8ff]", n.text):
            t = text.term(m.group())
            if t in used and ids[0] not in n.text:
                ctx.undecided("identifier", f.qual, "the identifier in the script is not recognised")
                return False
    return True


PURE = ("uuid.uuid3", "uuid.uuid5", "builtins.str", "builtins.int", "builtins.hash", "builtins.id", "hashlib.md5", "hashlib.sha1", "hashlib.sha256",
        "builtins.repr", "builtins.hex")


def constant_global(ctx, module, name):
    m = ctx.prog.modules.get(module)
    b = m.bindings.get(name) if m else None
    return b is not None and b[0] == "assign" and isinstance(b[1], (ast.JoinedStr, ast.Constant, ast.BinOp, ast.Attribute)) and not any(
        isinstance(n, ast.Global) and name in n.names for n in ast.walk(m.tree))


def only_arguments(t, ctx):
    return not find_terms(t, lambda x: x[0] in ("unk", "lv", "lvl", "unkseq") or x[0] == "g" and not constant_global(ctx, *x[1:3]) or (
        x[0] == "call" and not (x[1][0] == "ext" and x[1][1] in PURE) and not (x[1][0] == "m" and x[1][2] in ("hexdigest", "encode", "digest"))
        and not x[1] == ("f", J + "get_slide_repr_steps")))


def allows_many(norm, p, count):
    """A number of fragments above one for which the path is taken; 0 if there is none, None if this is not known."""
    unknown = False
    for n in range(2, 12):
        state = True
        for c, b in p.conds.items():
            d = norm(c)
            if not find_terms(d, lambda t: t == count):
                state = None if state else state
                continue
            v = ground(d, count, n)
            if v is None:
                state = None if state else state
            elif v != b:
                state = False
        if state:
            return n
        unknown |= state is None
    return None if unknown else 0


def ground(t, count, n):
    if t == count:
        return n
    if t[0] == "c":
        return t[2]
    if t[0] == "poly":
        total = 0
        for m, (a, b) in t[1]:
            v = 1
            for x in m:
                y = ground(x, count, n)
                if y is None:
                    return None
                v *= y
            total += v * a / b
        return total
    ops = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "eq": lambda a, b: a == b, "add": lambda *a: sum(a), "not": lambda a: not a,
           "truthy": bool, "neg": lambda a: -a}
    if t[0] == "atom":
        return ground(t[1], count, n)
    if t[0] in ops:
        vs = [ground(x, count, n) for x in t[1:]]
        return None if any(v is None for v in vs) else ops[t[0]](*vs)
    return None


def script_text(ctx, f, eng, norm, chars, classes, count, loc):
    subject = "script of the preview"
    holes, out, terms = {}, [], []
    for c in chars:
        if isinstance(c, str):
            out.append(c)
            continue
        if c not in terms:
            terms.append(c)
        ch = chr(0xE000 + terms.index(c))
        out.append(ch)
        if find_terms(c, lambda t: t == count):
            d = offset(norm, c, count)
            if d is None:
                ctx.undecided("script", subject, "a number in the script is not understood: " + show(c)[:80])
                return
            holes[ch] = "max_step" if d == 0 else "(max_step + ({}))".format(d)
        else:
            holes[ch] = "slide_id"
    text = "".join(out)
    # the identifier together with the constant text that it is part of
    text = re.sub(r"elsie-wrapper-([\ue000-\uf8ff])", lambda m: m.group(1) if holes.get(m.group(1)) == "slide_id" else m.group(), text)
    missing = {"elsie-next", "elsie-previous", "elsie-current-step"} - set(classes)
    try:
        holes_plain = {k: v if v in ("max_step", "slide_id") else v for k, v in holes.items()}
        t = js.Translator(js.Parser(text).program(), holes_plain)
        t.prefix = ["document", "state", "max_step", "slide_id"]
        src = t.source()
    except js.Unsupported as x:
        ctx.undecided("script", subject, "the script is not understood: {}".format(x))
        return
    prog = t.program
    names = {x[2] for x in js.walk(prog) if x[0] == "get"}
    shown = [x for x in js.walk(prog) if x[0] == "assign" and x[1][0] == "get" and x[1][2] == "display"]
    if names - DOM or any(x[2][0] != "str" for x in shown) or set(t.handlers) != {"next", "previous"}:
        ctx.undecided("script", subject, "the script uses other means: {}".format(", ".join(sorted(names - DOM))))
        return
    selected = {c for x in js.walk(prog) if x[0] == "str" for c in re.findall(r"\.([a-z][-\w]*\w)(?![-\w])", x[1])}
    lost = {c for c in selected if c.startswith("elsie-") and c != "elsie-step" and c not in classes and not c.startswith("elsie-wrapper")}
    if lost:
        ctx.violation("script", subject, "the script looks for elements that the page does not contain: {}".format(", ".join(sorted(lost))), loc)
        return
    if missing:
        ctx.undecided("script", subject, "the page has other classes")
        return
    m = Module("js.preview", f.module.path, ast.parse(src), False)
    ctx.prog.modules["js.preview"] = m
    ctx.prog._collect(m, m.tree.body)
    ctx._attrs = None
    active, top = ("a", ("p", "state"), "active"), ("p", "max_step")
    ints = lambda x: x in (active, top)  # noqa
    dom = ("querySelector", "querySelectorAll")
    cmp = dict(ints=ints)
    at = {("lt", active, C(1)): False, ("lt", top, active): False}
    ctx.conform("script", "js.preview.main", "spec.jupyter.main", "start of the script", pure=dom, cmp=cmp, assume={("lt", top, C(1)): False})
    ctx.conform("script", "js.preview.on_next", "spec.jupyter.on_next", "button for the next fragment", pure=dom, cmp=cmp, assume=at)
    ctx.conform("script", "js.preview.on_previous", "spec.jupyter.on_previous", "button for the previous fragment", pure=dom, cmp=cmp, assume=at)


def offset(norm, t, count):
    """d where t = count + d."""
    if norm(t) == norm(count):
        return 0
    d = norm(("add", t, ("neg", count)))
    return d[2] if d[0] == "c" else None
