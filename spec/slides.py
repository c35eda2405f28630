"""Specification tables of decks, slides and their names (analysed, never executed)."""
import os

from elsie.boxtree.box import Box
from elsie.boxtree.layout import Layout
from elsie.render.backends import InkscapeBackend
from elsie.render.jupyter import is_inside_notebook
from elsie.slides.show import ShowInfo
from elsie.slides.slide import Slide
from elsie.text.highlight import make_highlight_styles
from elsie.text.textstyle import TextStyle
from elsie.utils.cache import FsCache
from elsie.version import VERSION


def deck_init(self, width=1024, height=768, debug=False, pygments_theme="default", bg_color=None, backend=None,
              cache_dir="./elsie-cache", name_policy="auto"):
    if name_policy not in ("auto", "unique", "ignore", "replace"):
        raise Exception
    if name_policy == "auto":
        name_policy = "replace" if is_inside_notebook() else "ignore"
    self.name_policy = name_policy
    self.width = width
    self.height = height
    self.debug = debug
    self.bg_color = bg_color
    self._slides = []
    styles = {
        "default": TextStyle(font="sans-serif", color="black", size=28, line_spacing=1.20, align="middle", variant_numeric="lining-nums"),
        "tt": TextStyle(font="monospace"),
        "emph": TextStyle(italic=True),
        "alert": TextStyle(bold=True, color="red"),
        "code": TextStyle(font="monospace", align="left", color="#222", line_spacing=1.20, size=20),
        "code_lineno": TextStyle(color="gray"),
    }
    styles.update(make_highlight_styles(pygments_theme))
    self._styles = styles
    self.temp_cache = {}
    cache_dir = os.path.abspath(cache_dir)
    if not os.path.isdir(cache_dir):
        os.makedirs(cache_dir)
    if backend is None:
        backend = InkscapeBackend(cache_dir=cache_dir)
    self.backend = backend
    backend.set_dimensions(width, height)
    self.fs_cache = FsCache(cache_dir, backend.get_version(VERSION))


def by_name(self, name):
    for slide in self._slides:
        if slide.name == name:
            return slide
    return None


class Unspecified(Exception):
    """Nothing is required for such states."""


def name_policy(self, name):
    if self.name_policy not in ("ignore", "unique", "replace"):
        raise Unspecified
    if self.name_policy != "ignore":
        if name is None:
            if self.name_policy != "unique":
                raise Exception
        else:
            if not isinstance(name, str):
                raise Exception
            slide = self.get_slide_by_name(name)
            if slide is not None:
                if self.name_policy == "replace":
                    self._slides.remove(slide)
                else:
                    raise Exception


def new_slide(self, name=None, bg_color=None, view_box=None, debug_boxes=False):
    if view_box is not None:
        if not isinstance(view_box, tuple) or len(view_box) != 4 or not all(isinstance(v, (int, float)) for v in view_box):
            raise Exception
    self._apply_name_policy(name)
    slide = Slide(self, len(self._slides), self.width, self.height, self._styles.copy(), self.fs_cache, self.temp_cache, view_box,
                  name, debug_boxes)
    self._slides.append(slide)
    box = slide.box()
    color = self.bg_color if bg_color is None else bg_color
    if color:
        box.box(x=0, y=0, width="100%", height="100%", z_level=-1000000).rect(bg_color=color)
    return box


def slide_decorator(self, name=None, bg_color=None, view_box=None, debug_boxes=False):
    def make(fn, *args, **kwargs):
        box = self.new_slide(name=fn.__name__ if name is None else name, bg_color=bg_color, view_box=view_box, debug_boxes=debug_boxes)
        fn(box, *args, **kwargs)
        return box.slide
    return make


def slide_init(self, slides, index, width, height, styles, fs_cache, temp_cache, view_box, name, debug_boxes):
    self.slides = slides
    self.name = name
    self.width = width
    self.height = height
    self.index = index
    self.view_box = view_box
    self.debug_boxes = debug_boxes
    self._box = Box(self, Layout(x=0, y=0, width=width, height=height), styles, ShowInfo(), name=name)
    self.max_step = 1
    self.temp_cache = temp_cache
    self.fs_cache = fs_cache


def root_box(self):
    return self._box


def current_fragment(self):
    return self.max_step


def box_current_fragment(self):
    return self.slide.max_step
