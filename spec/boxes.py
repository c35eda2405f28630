"""Specification tables of boxes, fragments and painting (analysed, never executed)."""
import re

from elsie.boxtree.box import Box
from elsie.boxtree.boxitem import BoxItem, SimpleBoxItem
from elsie.render.backends.svg.rcontext import SvgRenderingContext
from elsie.render.backends.cairo.rcontext import CairoRenderingContext
from elsie.render.backends.cairo.backend import CairoRenderUnit
from elsie.render.render import SvgRenderUnit
from elsie.slides.show import ShowInfo
from elsie.utils.cache import get_cache_file_path


def get_painters(self, ctx, depth):
    out = []
    if not self._show_info.is_visible(ctx.step):
        return out
    for child in self.children:
        if isinstance(child, Box):
            out.extend(child.get_painters(ctx, depth + 1))
        else:
            out.append(child)
    if ctx.debug_boxes:
        out.append(SimpleBoxItem(self, lambda c: self._debug_paint(c, depth)))
    return out


def add_child(self, obj, prepend=False, above=None, below=None):
    assert isinstance(obj, Box) or isinstance(obj, BoxItem)
    self.children.insert(child_index(self, prepend, above, below), obj)


def child_index(self, prepend=False, above=None, below=None):
    if above is not None:
        if below is not None:
            raise Exception("both")
        return self.children.index(above) + 1
    if below is not None:
        return self.children.index(below)
    if prepend:
        return 0
    return len(self.children)


def box_init(self, slide, layout, styles, show_info, z_level=0, name=None):
    self._styles = styles
    self.slide = slide
    self.layout = layout
    self.name = name
    self.children = []
    self._show_info = show_info
    self.z_level = z_level


def item_init(self, box):
    self._box = box
    self.z_level = box.z_level


def simple_item_init(self, box, render_fn):
    self._box = box
    self.z_level = box.z_level
    self.render = render_fn


def ensure_steps(self, steps):
    self._show_info = self._show_info.ensure_steps(steps)
    self.slide.max_step = max(self.slide.max_step, steps)


def traverse(self, fn):
    fn(self)
    for child in self.children:
        if isinstance(child, Box):
            child._traverse(fn)


def create_simple_box_item(self, render_fn):
    box = self._get_box()
    item = SimpleBoxItem(box, render_fn)
    box.add_child(item)
    return item


def svg_unit(self, slide, step, export_type):
    ctx = SvgRenderingContext(slide, step, slide.debug_boxes)
    for p in sorted(slide._box.get_painters(ctx, 0), key=lambda item: item.z_level):
        p.render(ctx)
    return SvgRenderUnit(slide, step, ctx.render(), self.inkscape)


def cairo_unit(self, slide, step, export_type):
    filename = get_cache_file_path(self.cache_dir, export_type)
    ctx = CairoRenderingContext(*self.dimensions, filename=filename, export_format=export_type, viewbox=slide.view_box,
                                step=step, debug_boxes=slide.debug_boxes)
    for p in sorted(slide._box.get_painters(ctx, 0), key=lambda item: item.z_level):
        p.render(ctx)
    return CairoRenderUnit(slide, step, ctx)


def context_init(self, step, debug_boxes):
    self.step = step
    self.debug_boxes = debug_boxes


def show_init(self, steps=None, open_step=None, min_steps=None):
    if steps is None:
        self.steps = ()
        self.open_step = 1 if open_step is None else open_step
    else:
        self.steps = tuple(steps)
        self.open_step = open_step
    if min_steps:
        self._min_steps = min_steps
    else:
        self._min_steps = self.max_step()


def max_step(self):
    listed = max(self.steps, default=1)
    return max(listed, self.open_step or 1)


def is_visible(self, step):
    if step in self.steps:
        return True
    if self.open_step is None:
        return False
    return step >= self.open_step


def show_ensure_steps(self, steps):
    return ShowInfo(self.steps, self.open_step, max(steps, self._min_steps))


def show_min_steps(self):
    return self._min_steps


def from_label(cls, label):
    if label is None:
        return None
    if "**" not in label:
        return None
    return cls.parse(label.split("**", 2)[1])


def box(self, *, x=None, y=None, width=None, height=None, show=None, p_left=None, p_right=None, p_top=None, p_bottom=None,
        p_x=None, p_y=None, padding=None, horizontal=False, z_level=None, prepend=False, above=None, below=None, name=None):
    parent = self._get_box()
    info = ShowInfo.parse(show, parent.slide.max_step)
    if above is not None and below is not None:
        raise Exception("both")
    layout = parent.layout.add(x=x, y=y, width=width, height=height, p_left=p_left, p_right=p_right, p_top=p_top,
                               p_bottom=p_bottom, p_x=p_x, p_y=p_y, padding=padding, horizontal=horizontal, prepend=prepend)
    parent.slide.max_step = max(info.max_step(), parent.slide.max_step)
    child = parent.__class__(parent.slide, layout, parent._styles, info, parent.z_level if z_level is None else z_level, name)
    if below is not None:
        at = parent.children.index(below)
    elif above is not None:
        at = parent.children.index(above) + 1
    elif prepend:
        at = 0
    else:
        at = len(parent.children)
    assert isinstance(child, Box) or isinstance(child, BoxItem)
    parent.children.insert(at, child)
    return child


ITEM = re.compile(r"^(?P<first>\d+|next|last)(?:(?P<open>\+)|-(?P<last>\d+))?$")


def show_parse(cls, obj, current_max=None):
    if obj is None:
        return ShowInfo()
    if isinstance(obj, int):
        return ShowInfo((obj,))
    if not isinstance(obj, str):
        raise Exception("type")
    listed = set()
    open_step = None
    for part in [i.strip() for i in obj.split(",")]:
        m = ITEM.match(part)
        if m is None:
            raise Exception("format")
        first = m.group("first")
        if first == "next":
            if current_max is None:
                raise Exception("relative")
            start = current_max + 1
        elif first == "last":
            if current_max is None:
                raise Exception("relative")
            start = current_max
        else:
            start = int(first)
        if m.group("open") is not None:
            if open_step is not None:
                raise Exception("two open items")
            open_step = start
            continue
        end = start if m.group("last") is None else int(m.group("last"))
        assert start <= end
        listed.update(range(start, end + 1))
    return ShowInfo(sorted(listed), open_step)
