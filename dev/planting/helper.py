"""Runs a demonstration in a scratch directory, without Inkscape."""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.getcwd()
sys.path.insert(0, REPO)
WORK = tempfile.mkdtemp(prefix="elsie-demo-")
atexit.register(shutil.rmtree, WORK, True)
os.chdir(WORK)

import elsie  # noqa
from elsie.render.backends.svg.backend import InkscapeBackend  # noqa
from elsie.render.inkscape import InkscapeShell  # noqa


class Shell(InkscapeShell):
    """A stand-in for Inkscape that measures nothing and exports the SVG itself."""

    def __init__(self):
        self.text_to_path = False
        self.exports = []

    def close(self):
        pass

    def get_version(self):
        return "Inkscape 1.0"

    def get_width(self, svg, id):
        return 100.0

    def get_height(self, svg, id):
        return 20.0

    def get_x(self, svg, id):
        return -10.0

    def convert_to_pdf(self, source, target, type):
        self.exports.append(source)
        with open(target, "wb") as f:
            f.write(source if isinstance(source, bytes) else source.encode())


def deck(cls=elsie.SlideDeck, **kw):
    kw.setdefault("cache_dir", os.path.join(WORK, "cache"))
    os.makedirs(kw["cache_dir"], exist_ok=True)
    if "backend" not in kw:
        kw["backend"] = InkscapeBackend(inkscape=Shell(), cache_dir=kw["cache_dir"])
    return cls(**kw)


def pages(d, **kw):
    """The SVG of every page."""
    return [u.get_svg() for u in d.render(None, return_units=True, **kw)]


def elements(svg, name):
    import lxml.etree as et
    return [e for e in et.fromstring(svg).iter() if isinstance(e.tag, str) and et.QName(e).localname == name]


def rects(svg):
    return [tuple(float(e.get(k)) for k in ("x", "y", "width", "height")) for e in elements(svg, "rect")]


def near(a, b, eps=1e-6):
    return len(a) == len(b) and all(abs(x - y) < eps for x, y in zip(a, b))


def expect(cond, what):
    if not cond:
        print("FAILED:", what)
        sys.exit(1)
