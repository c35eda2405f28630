BUGS = [
dict(id="s01-copy-once", prop="S01",
 edits=[("text/stylecontainer.py", "        self._styles = styles\n", "        self._styles = styles\n        self._own_styles = False\n"),
  ("text/stylecontainer.py", """        old_style.update(style)
        self._styles = self._styles.copy()
""", """        old_style.update(style)
        self._make_styles_own()
"""),
  ("text/stylecontainer.py", """            style = base_style
        self._styles = self._styles.copy()
        self._styles[style_name] = style
        return style
""", """            style = base_style
        self._make_styles_own()
        self._styles[style_name] = style
        return style

    def _make_styles_own(self):
        # The styles are shared with the parent until the first change
        if not self._own_styles:
            self._styles = self._styles.copy()
            self._own_styles = True
""")],
 needs="two style changes in one box with a text or a child box created between them",
 breaks="the second change also reaches the text and the child box that were created before it",
 demo="""
d = deck()
s = d.new_slide()
b = s.box()
b.set_style("hot", elsie.TextStyle(color="red"))
b.text("~hot{one}")
child = b.box()
b.set_style("hot", elsie.TextStyle(color="blue"))
child.text("~hot{two}")
svg = pages(d)[0]
expect("fill:blue" not in svg and svg.count("fill:red") == 2, "styles changed after the creation")
b.text("~hot{three}")
expect(pages(d)[0].count("fill:blue") == 1, "a later text has the new style")
"""),
dict(id="f03-forgets-steps", prop="F03",
 edits=[("slides/show.py", "        min_steps = max(self._min_steps, steps)\n", "        min_steps = max(self.max_step(), steps)\n")],
 needs="two images with fragments in one box, the second with fewer fragments than the first",
 breaks="the fragments that only the first image needs are not rendered",
 demo="""
IMG = "<svg xmlns='http://www.w3.org/2000/svg' xmlns:inkscape='http://www.inkscape.org/namespaces/inkscape' width='10' height='10'><g inkscape:label='a **%s**'/></svg>"
for name, n in (("a.svg", "4"), ("b.svg", "2")):
    with open(name, "w") as f:
        f.write(IMG % n)
d = deck()
s = d.new_slide()
b = s.box(width=100, height=100)
b.image("a.svg")
b.image("b.svg")
expect(len(pages(d)) == 4, "four fragments")
"""),
dict(id="z01-cairo-ties", prop="Z01",
 edits=[("render/backends/cairo/backend.py", """        painters.sort(key=lambda painter: painter.z_level)
        for p in painters:
""", """        painters.sort(key=lambda painter: painter.z_level, reverse=True)
        while painters:
            p = painters.pop()
""")],
 needs="two overlapping items of the same z level, Cairo backend",
 breaks="items of one z level are painted in reverse order",
 demo="""
from elsie.render.backends.cairo.backend import CairoBackend
from PIL import Image
os.makedirs("cc")
d = elsie.SlideDeck(100, 100, backend=CairoBackend(cache_dir="cc"), cache_dir="cc")
s = d.new_slide()
s.overlay().rect(bg_color="red")
s.overlay().rect(bg_color="#0000ff")
files = d.render(None, export_type="png")
expect(Image.open(files[0]).convert("RGB").getpixel((50, 50)) == (0, 0, 255), "the later box is on top")
"""),
dict(id="n01-stale-index", prop="N01",
 edits=[("slides/slidedeck.py", "                self._slides.remove(slide)\n", "                del self._slides[slide.index]\n")],
 needs="name policy 'replace' and a slide replaced after an earlier one has been replaced",
 breaks="a wrong slide is removed from the deck (or an IndexError)",
 demo="""
d = deck(name_policy="replace")
for n in ("a", "b", "c", "d"):
    d.new_slide(n)
d.new_slide("a")
d.new_slide("b")
d.new_slide("c")
names = sorted(s.name for s in d._slides)
expect(names == ["a", "b", "c", "d"], "one slide per name: %s" % names)
"""),
dict(id="g01-path-shrinks", prop="G01",
 edits=[("shapes/path.py", "        unpacked = tuple(unpack_point(p, box) for p in command[1:])\n", "        unpacked = [unpack_point(p, box) for p in command[1:]]\n"),
  ("shapes/path.py", """    result = []
    for name, pairs in commands:
        result.append((name, [eval_pair(p) for p in pairs]))
    return result
""", """    for _, pairs in commands:
        for i, pair in enumerate(pairs):
            pairs[i] = eval_pair(pair)
    return commands
""")],
 needs="a path with an end arrow drawn in more than one fragment",
 breaks="the path becomes shorter each time it is drawn",
 demo="""
from elsie.shapes.arrow import Arrow
d = deck()
s = d.new_slide()
s.box(show="1-3").path([("M", (10, 10)), ("Q", (10, 60), (100, 60))], end_arrow=Arrow(10))
s.box(show="3")
ds = [elements(p, "path")[0].get("d") for p in pages(d)]
expect(len(ds) == 3 and len(set(ds)) == 1, "same path in all fragments")
"""),
dict(id="l01-stale-request", prop="L01",
 edits=[("boxtree/layout.py", "        self.callbacks = None\n        self.children = []\n        self.rect = None\n", "        self.callbacks = None\n        self.children = []\n        self.rect = None\n        self._request = None\n"),
  ("boxtree/layout.py", """        minx, miny = self.min_children_size()
        minx += self.p_left + self.p_right
        miny += self.p_top + self.p_bottom
        return self._width.ensure(minx), self._height.ensure(miny)
""", """        if self._request is None:
            minx, miny = self.min_children_size()
            minx += self.p_left + self.p_right
            miny += self.p_top + self.p_bottom
            self._request = self._width.ensure(minx), self._height.ensure(miny)
        return self._request
"""),
  ("boxtree/layout.py", "        self._width = self._width.ensure(width + self.p_left + self.p_right)\n", "        self._width = self._width.ensure(width + self.p_left + self.p_right)\n        self._request = None\n"),
  ("boxtree/layout.py", "        self._height = self._height.ensure(height + self.p_top + self.p_bottom)\n", "        self._height = self._height.ensure(height + self.p_top + self.p_bottom)\n        self._request = None\n"),
  ("boxtree/layout.py", "        if prepend:\n            self.children.insert(0, layout)\n", "        self._request = None\n        if prepend:\n            self.children.insert(0, layout)\n")],
 needs="an image in a box of given height whose child boxes are filled afterwards (or a second rendering after content was added)",
 breaks="the children keep the size that was requested before they were filled",
 demo="""
with open("a.svg", "w") as f:
    f.write("<svg xmlns='http://www.w3.org/2000/svg' width='10' height='10'/>")
d = deck()
s = d.new_slide()
outer = s.box(height=300)
inner = outer.box()
leaf = inner.box()
outer.image("a.svg")
leaf.box(width=40, height=60).rect(color="red")
inner.rect(color="blue")
r = sorted(rects(pages(d)[0]), key=lambda r: r[0])
expect(r[0] == r[1] and r[0][2:] == (40, 60), "the inner box encloses its content: %s" % r)
"""),
dict(id="s02-zero-is-unset", prop="S02",
 edits=[("text/textstyle.py", "            if value is not None:\n                setattr(self, slot, value)\n", "            # the default priority does not override an explicit one\n            if value is not None and value != 0:\n                setattr(self, slot, value)\n")],
 needs="a style that sets an attribute to False or zero combined with one that has it set",
 breaks="bold=False and opacity=0 do not override",
 demo="""
a = elsie.TextStyle(bold=True, opacity=0.5, size=10)
c = a.compose(elsie.TextStyle(bold=False, opacity=0))
expect(c.bold is False and c.opacity == 0 and c.size == 10, "falsy values override")
"""),
dict(id="c01-key-by-stat", prop="C01",
 edits=[("utils/cache.py", """        with open(filename, "rb") as f:
            data = f.read()
        return self.ensure(
""", """        # Do not read the whole file, it may be large
        st = os.stat(filename)
        data = "{}:{}:{}".format(os.path.abspath(filename), st.st_size, int(st.st_mtime))
        return self.ensure(
""")],
 needs="an ORA image replaced by another one of the same size within one second (or with a kept time stamp)",
 breaks="the cached conversion of the old image is used for the new one",
 demo="""
from elsie.utils.cache import FsCache
os.makedirs("c")

def build(data, output, data_type):
    with open("img.ora") as f, open(output, "w") as g:
        g.write(f.read())

def get():
    with open(FsCache("c", "1").ensure_by_file("img.ora", "svg", build)) as f:
        return f.read()

for content in ("first", "other"):
    with open("img.ora", "w") as f:
        f.write(content)
    os.utime("img.ora", (1000000000, 1000000000))
    expect(get() == content, "cached file of other content")
"""),
dict(id="c05-touch-on-build", prop="C05",
 edits=[("utils/cache.py", "            self.touched_files.add(cache_file)\n", ""),
  ("utils/cache.py", "            self.in_progress[cache_file] = condition\n", "            self.in_progress[cache_file] = condition\n            self.touched_files.add(cache_file)\n")],
 needs="a second run with the same cache directory",
 breaks="pruning removes the entries that were found in the cache and are used by the deck",
 demo="""
def run():
    d = deck()
    d.new_slide().text("Hello")
    return d.render(None, export_type="png")

expect(all(os.path.exists(f) for f in run()), "first run")
expect(all(os.path.exists(f) for f in run()), "the files of the second run were removed")
"""),
dict(id="i01-first-line", prop="I01",
 edits=[("render/inkscape.py", "            output = output.splitlines(keepends=False)[-1]\n", "            output = output.splitlines(keepends=False)[0]\n")],
 needs="a message of Inkscape on the standard output before the answer of a query",
 breaks="the message is taken for the answer",
 demo="""
with open("ink", "w") as f:
    f.write('''#!/usr/bin/env python3
import sys
print("> ", end="", flush=True)
for line in sys.stdin:
    if line.startswith("query-width"):
        print("12345 is deprecated")
        print("7.5")
    print("> ", end="", flush=True)
''')
os.chmod("ink", 0o755)
shell = InkscapeShell(os.path.join(WORK, "ink"))
try:
    w = shell.get_width("<svg/>", "target")
except Exception as e:
    w = e
shell.process.stdin.close()
shell.process.wait()
expect(w == 7.5, "query returned %r" % w)
"""),
dict(id="e02-policy-first", prop="E02",
 edits=[("slides/slidedeck.py", """        if view_box is not None and not (
            isinstance(view_box, tuple)
""", """        self._apply_name_policy(name)

        if view_box is not None and not (
            isinstance(view_box, tuple)
"""), ("slides/slidedeck.py", """            )

        self._apply_name_policy(name)

        slide = Slide(
""", """            )

        slide = Slide(
""")],
 needs="name policy 'replace' and a slide that is refused because of an invalid view_box",
 breaks="the slide that should have been replaced is lost",
 demo="""
d = deck(name_policy="replace")
d.new_slide("intro")
try:
    d.new_slide("intro", view_box=(0, 0, 100))
except Exception:
    pass
else:
    expect(False, "refused")
expect(d.get_slide_by_name("intro") is not None, "the old slide is still there")
"""),
dict(id="b02-polyline-dash", prop="B02",
 edits=[("render/backends/cairo/rcontext.py", """        with ctx_scope(self.ctx):

            def draw():
                self.ctx.move_to(*points[0])
                for p in points[1:]:
                    self.ctx.line_to(*p)

            fill_stroke_shape(self.ctx, draw, **kwargs)
""", """        def draw():
            self.ctx.move_to(*points[0])
            for p in points[1:]:
                self.ctx.line_to(*p)

        # there is no transformation to be undone
        fill_stroke_shape(self.ctx, draw, **kwargs)
""")],
 needs="Cairo backend, a dashed line drawn before an undashed shape",
 breaks="the dash pattern stays active for the following shapes",
 demo="""
from elsie.render.backends.cairo.rcontext import CairoRenderingContext
from elsie.utils.geom import Rect
import cairocffi

def picture(dash):
    ctx = CairoRenderingContext(100, 100, filename=None, export_format="png")
    ctx.draw_polyline([(200, 200), (300, 300)], color="red", stroke_width=2, stroke_dasharray=dash)
    ctx.draw_rect(Rect(10, 10, 50, 50), color="black", stroke_width=2)
    ctx.surface.flush()
    return bytes(ctx.surface.get_data())

expect(picture("4 4") == picture(None), "the dash of a line outside of the page changes the rectangle")
"""),
]
