BUGS = [
dict(id="z01-zero-level", prop="Z01",
 edits=[("boxtree/boxmixin.py", "        if z_level is None:\n            z_level = box.z_level\n", "        z_level = z_level or box.z_level\n")],
 needs="a box with the explicit z level 0 inside a box of another z level",
 breaks="the box gets the z level of its parent",
 demo="""
d = deck()
s = d.new_slide()
top = s.overlay(z_level=5)
top.overlay(z_level=0).rect(bg_color="#000001")
s.overlay(z_level=1).rect(bg_color="#000002")
svg = pages(d)[0]
expect(svg.index("#000001") < svg.index("#000002"), "z level 0 is below z level 1")
"""),
dict(id="c05-query-used", prop="C05",
 edits=[("render/backends/svg/backend.py", "            self.query_cache[key] = value\n        self.used_query_cache[key] = value\n", "            self.query_cache[key] = self.used_query_cache[key] = value\n")],
 needs="a third run (measurements found in the stored collection are lost by the pruning of the second one)",
 breaks="measurements that the deck used are removed and must be computed again",
 demo="""
import json

def run():
    d = deck()
    d.new_slide().text("Hello")
    d.render("out.pdf", pdf_merger=None)
    with open(os.path.join("cache", "queries3.cache")) as f:
        return len(json.load(f)["queries"])

expect([run(), run(), run()] == [1, 1, 1], "the measurement is kept")
"""),
dict(id="i01-loose-prompt", prop="I01",
 edits=[("render/inkscape.py", """                character == " "
                and chars
                and chars[-1] == ">"
                and (len(chars) == 1 or chars[-2] == "\\n")
""", """                character == " "
                and chars
                and chars[-1] == ">"
""")],
 needs="an output line of Inkscape that contains '> ' somewhere",
 breaks="the answers of the commands are shifted: a query gets the answer of an earlier command",
 demo="""
with open("ink", "w") as f:
    f.write('''#!/usr/bin/env python3
import sys
print("> ", end="", flush=True)
for line in sys.stdin:
    if line.startswith("file-open"):
        print("note: <svg a=1> b is deprecated")
    if line.startswith("query-width"):
        print("7.5")
    print("> ", end="", flush=True)
''')
os.chmod("ink", 0o755)
shell = InkscapeShell(os.path.join(WORK, "ink"))
try:
    w = shell.get_width("<svg/>", "target")
except Exception as e:
    w = e
shell.process.stdin.close()
shell.process.wait()
expect(w == 7.5, "query returned %r" % w)
"""),
dict(id="b02-path-dash", prop="B02",
 edits=[("render/backends/cairo/rcontext.py", """        with ctx_scope(self.ctx):

            def draw():
                draw_path(self.ctx, commands)

            fill_stroke_shape(self.ctx, draw, **kwargs)

    def compute_text_extents""", """        def draw():
            draw_path(self.ctx, commands)

        fill_stroke_shape(self.ctx, draw, **kwargs)

    def compute_text_extents""")],
 needs="Cairo backend, a dashed path drawn before an undashed shape",
 breaks="the dash pattern stays active for the following shapes",
 demo="""
from elsie.render.backends.cairo.rcontext import CairoRenderingContext
from elsie.utils.geom import Rect

def picture(dash):
    ctx = CairoRenderingContext(100, 100, filename=None, export_format="png")
    ctx.draw_path([("M", [(200, 200)]), ("L", [(300, 300)])], color="red", stroke_width=2, stroke_dasharray=dash)
    ctx.draw_rect(Rect(10, 10, 50, 50), color="black", stroke_width=2)
    ctx.surface.flush()
    return bytes(ctx.surface.get_data())

expect(picture("4 4") == picture(None), "the dash of a path outside of the page changes the rectangle")
"""),
dict(id="b03-tt", prop="B03",
 edits=[("render/backends/cairo/shapes.py", """            last_quadratic_cp = reflect(last_quadratic_cp or location, location)
            draw_quadratic_bezier(ctx, location, args[0], last_quadratic_cp)
""", """            cp = reflect(last_quadratic_cp or location, location)
            draw_quadratic_bezier(ctx, location, args[0], cp)
""")],
 needs="Cairo backend, a path with two consecutive smooth quadratic segments",
 breaks="the second smooth segment reflects a wrong control point",
 demo="""
from elsie.render.backends.cairo.shapes import draw_path

class Ctx:
    def __init__(self):
        self.pos = (0, 0)
        self.curves = []
    def get_current_point(self):
        return self.pos
    def move_to(self, x, y):
        self.pos = (x, y)
    line_to = move_to
    def curve_to(self, *a):
        self.curves.append(a)
        self.pos = a[-2:]

c = Ctx()
draw_path(c, [("M", [(0, 0)]), ("Q", [(10, 30), (20, 0)]), ("T", [(40, 0)]), ("T", [(60, 0)])])
# the control point of the last segment is (50, -30) reflected to (30, -30) -> (50, 30)
want = (40 + 2 / 3 * 10, 2 / 3 * 30, 60 - 2 / 3 * 10, 2 / 3 * 30, 60, 0)
got = c.curves[-1]
expect(near(got, want) , "last curve %s" % (got,))
"""),
dict(id="x02-entities", prop="X02",
 edits=[("utils/sxml.py", "class Xml:\n", "import re\n\n\nclass Xml:\n"),
  ("utils/sxml.py", '    text = text.replace("&", "&amp;")\n', '    # Keep entities that are already escaped\n    text = re.sub(r"&(?!#?\\w+;)", "&amp;", text)\n')],
 needs="a text that contains something that looks like an XML entity",
 breaks="the text '&lt;' is shown as '<', and '&foo;' makes the SVG malformed",
 demo="""
import lxml.etree as et
d = deck()
s = d.new_slide()
s.text("a&lt;b", escape_char="~")
t = "".join(elements(pages(d)[0], "text")[0].itertext())
expect(t == "a&lt;b", "text read back: %r" % t)
"""),
dict(id="l04-memo", prop="L04",
 edits=[("boxtree/lazy.py", "        self.fn = fn\n", "        self.fn = fn\n        self._value = None\n"),
  ("boxtree/lazy.py", "        return self.fn()\n", "        if self._value is None:\n            self._value = self.fn()\n        return self._value\n")],
 needs="a deck that is rendered, extended and rendered again",
 breaks="coordinates are taken from the layout of the first rendering",
 demo="""
d = deck()
s = d.new_slide()
b = s.box(width=50, height=50)
s.line([b.p(0, 0), b.p("100%", "100%")])
pages(d)
s.box(width=50, height=200)
fresh = deck()
s2 = fresh.new_slide()
b2 = s2.box(width=50, height=50)
s2.line([b2.p(0, 0), b2.p("100%", "100%")])
s2.box(width=50, height=200)
expect(pages(d) == pages(fresh), "the line follows the box")
"""),
dict(id="t02-blank-lines", prop="T02",
 edits=[("text/textboxitem.py", "            line_number = number_of_lines(self._parsed_text[:index]) - 1\n", "            line_number = sum(1 for t, _ in self._parsed_text[:index] if t == \"newline\")\n")],
 needs="an inline box on a styled text below a blank line",
 breaks="the inline box is placed too high",
 demo="""
def top(text):
    d = deck()
    s = d.new_slide()
    t = s.box(x=0, y=0).text(text)
    t.inline_box("emph").rect(color="red")
    return rects(pages(d)[0])[0][1]

expect(abs((top("a\\n\\n~emph{b}") - top("a\\n~emph{b}\\nc")) - 28 * 1.2) < 1e-6, "one line lower")
"""),
dict(id="j01-same-id", prop="J01",
 edits=[("render/jupyter.py", "    slide_id = f\"elsie-wrapper-{uuid.uuid4().hex}\"\n", "    slide_id = f\"elsie-wrapper-{uuid.uuid3(uuid.NAMESPACE_OID, str(slide.index)).hex}\"\n")],
 needs="one slide shown twice (or slides of two decks) in one notebook",
 breaks="the buttons of one preview change the other one",
 demo="""
import re
from elsie.render.jupyter import render_slide_html

def preview():
    d = deck()
    s = d.new_slide()
    s.box(show="2").rect(color="red")
    html = render_slide_html(s.slide)
    return re.search(r'var slide_id = "([^"]*)"', html).group(1)

expect(preview() != preview(), "previews are told apart")
"""),
dict(id="r01-scale-kept", prop="R01",
 edits=[("boxtree/boxmixin.py", """        def draw(ctx):
            rect = self._get_box().layout.rect
            if scale is None:
                s = scaler(rect, image_width, image_height)
                if s is None:
                    s = 0
                    logging.warning(
                        "Scale of image {} is 0, set scale explicitly or set at least one "
                        "dimension for the parent box".format(source)
                    )
            else:
                s = scale
""", """        def draw(ctx):
            nonlocal scale
            rect = self._get_box().layout.rect
            if scale is None:
                scale = scaler(rect, image_width, image_height)
                if scale is None:
                    scale = 0
                    logging.warning(
                        "Scale of image {} is 0, set scale explicitly or set at least one "
                        "dimension for the parent box".format(source)
                    )
            s = scale
""")],
 needs="a bitmap that fills the free space, rendered, then more content is added and it is rendered again",
 breaks="the image keeps the size of the first rendering",
 demo="""
from PIL import Image
Image.new("RGB", (10, 10)).save("a.png")

def make(render_between):
    d = deck()
    s = d.new_slide()
    s.box(width=500, height="fill").image("a.png")
    if render_between:
        pages(d)
    s.box(width=10, height=500)
    e = elements(pages(d)[0], "image")[0]
    return e.get("width"), e.get("height")

expect(make(True) == make(False), "the first rendering changed the deck")
"""),
dict(id="b01-positional-index", prop="B01",
 edits=[("text/textboxitem.py", """        query_x = backend.compute_text_x(
            line, self._style, self._styles, id_index=index_in_line
        )
""", """        query_x = backend.compute_text_x(
            line, self._style, self._styles, index_in_line
        )
""")],
 needs="an inline box with the Cairo backend",
 breaks="the inline box is placed at the start of the whole line in the Cairo backend",
 demo="""
from elsie.render.backends.cairo.backend import CairoBackend
os.makedirs("cc")
d = elsie.SlideDeck(600, 100, backend=CairoBackend(cache_dir="cc"), cache_dir="cc")
s = d.new_slide()
t = s.box(x=0, y=0).text("aaaaaaaaaaaaaaaa ~emph{b}", elsie.TextStyle(align="left"))
box = t.inline_box("emph")
d.render(None, export_type="png")
expect(box.layout.rect.x > 50, "the box is at x=%s" % box.layout.rect.x)
"""),
dict(id="t01-crlf", prop="T01",
 edits=[("text/textparser.py", "        lines = r[1].split(\"\\n\")\n", "        lines = r[1].replace(\"\\n\\r\", \"\\n\").replace(\"\\u2028\", \"\\n\").split(\"\\n\")\n")],
 needs="a text with an unusual line separator",
 breaks="a character of the text is replaced",
 demo="""
from elsie.text.textparser import parse_text
expect(parse_text("a\\u2028b") == [("text", "a\\u2028b")], "the character is kept")
"""),
dict(id="m01-lost-link-text", prop="M01",
 edits=[("ext/markdown.py", """        elif isinstance(child, Link):
            text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_LINK_STYLE)
""", """        elif isinstance(child, Link):
            if child.dest:
                text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_LINK_STYLE)
""")],
 needs="a Markdown link with an empty target",
 breaks="the text of the link is lost",
 demo="""
from elsie.ext.markdown import markdown
d = deck()
s = d.new_slide()
markdown(s, "before [inside]() after")
t = "".join(elements(pages(d)[0], "text")[0].itertext())
expect("inside" in t, "text: %r" % t)
"""),
dict(id="u01-explicit-level", prop="U01",
 edits=[("ext/list.py", "        level = level if level is not None else self.level\n", "        level = level or self.level\n")],
 needs="a nested ordered list with an explicitly empty enclosing level",
 breaks="the labels start with the labels of the enclosing items",
 demo="""
from elsie.ext.list import ordered_list
d = deck()
s = d.new_slide()
seen = []
lst = ordered_list(s)
lst.item()
sub = lst.ol(level=(), label=lambda box, level: seen.append(list(level)))
sub.item()
sub.item()
expect(seen == [[1], [2]], "levels %s" % seen)
"""),
dict(id="x01-empty-close", prop="X01",
 edits=[("utils/sxml.py", """        if self.is_open:
            self.is_open = False
            self.stack.pop()
            self.chunks.append(" />")
""", """        if self.is_open:
            self.is_open = False
            self.chunks.append(" />")
            if text is not None:
                self.stack.pop()
""")],
 needs="close() of an empty element without a name",
 breaks="the element stays on the stack; the document is closed wrongly",
 demo="""
from elsie.utils.sxml import Xml
x = Xml()
x.element("a")
x.element("b")
x.close()
x.close("a")
expect(x.to_string() == "<a><b /></a>", x.to_string() if not x.stack else "not closed")
"""),
dict(id="f01-range-order", prop="F01",
 edits=[("slides/show.py", "                steps.update(range(start, end + 1))\n", "                steps.update(range(start, end + 1))\n                current_max = max(current_max or 1, end)\n")],
 needs="'next' after another item of the same specification that is larger than the current last fragment",
 breaks="'5,next' selects 6 instead of the current last fragment plus one",
 demo="""
from elsie.slides.show import ShowInfo
i = ShowInfo.parse("5,next", 1)
expect([n for n in range(1, 10) if i.is_visible(n)] == [2, 5], "visible in %s" % [n for n in range(1, 10) if i.is_visible(n)])
"""),
dict(id="f02-item-visibility", prop="F02",
 edits=[("boxtree/box.py", """        if not self._show_info.is_visible(ctx.step):
            return painters
        depth += 1
""", """        if not self._show_info.is_visible(ctx.step) and not (
            self._show_info.open_step is None and not self._show_info.steps
        ):
            return painters
        depth += 1
        visible = self._show_info.is_visible(ctx.step) or self._show_info.steps == ()
"""), ("boxtree/box.py", """            if not isinstance(child, Box):
                painters.append(child)
            else:
                painters += child.get_painters(ctx, depth)
""", """            if isinstance(child, Box):
                painters += child.get_painters(ctx, depth)
            elif visible and not any(child is p for p in painters[-1:]):
                painters.append(child)
""")],
 needs="x", breaks="x", demo="pass"),
]
BUGS = [b for b in BUGS if b["id"] != "f02-item-visibility"]
