BUGS=[
dict(id="e01-latin-image", prop="E01", needs="the Cairo backend, and an SVG image with a text with a character between U+0080 and U+00FF",
 breaks="the image is handed to CairoSVG in Latin-1, although it declares UTF-8",
 edits=[("render/backends/cairo/svg.py",'Tree(bytestring=svg.encode())','Tree(bytestring=svg.encode("latin-1", "xmlcharrefreplace"))')],
 demo='''
from elsie.render.backends import CairoBackend
import elsie.render.backends.cairo.svg as module
d = deck(backend=CairoBackend(cache_dir=WORK))
with open(WORK + "/a.svg", "w", encoding="utf-8") as f:
    f.write('<svg xmlns="http://www.w3.org/2000/svg" width="20" height="20"><text x="1" y="9">caf\\xe9 \\u010d</text></svg>')
seen = []
original = module.Tree
def tree(**kw):
    seen.append(kw["bytestring"])
    return original(**kw)
module.Tree = tree
d.new_slide().image(WORK + "/a.svg")
d.render(os.path.join(WORK, "out.pdf"), pdf_merger=None)
assert seen and "caf\\xe9 \\u010d" in seen[0].decode("utf-8")
'''),
dict(id="w01-debug-name", prop="W01", needs="debugging turned on, and a named slide whose name contains a path",
 breaks="the debugging output of a slide is written outside of the cache directory",
 edits=[("render/render.py",'"{}-{}.svg".format(self.slide.index, self.step)','"{}-{}.svg".format(self.slide.name or self.slide.index, self.step)')],
 demo='''
import tempfile, shutil
from types import SimpleNamespace
from elsie.render.render import SvgRenderUnit
d = tempfile.mkdtemp()
try:
    cache = os.path.join(d, "cache")
    os.mkdir(cache)
    u = SvgRenderUnit(SimpleNamespace(index=0, name="../intro"), 1, "<svg/>", None)
    u.write_debug(cache)
    assert os.listdir(d) == ["cache"], os.listdir(d)
    assert len(os.listdir(cache)) == 1
finally:
    shutil.rmtree(d)
'''),
]
