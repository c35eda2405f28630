"""Specification tables of the calls that put content into boxes (analysed, never executed)."""
import io
import logging
import math

import lxml.etree as et
from PIL import Image

from elsie.boxtree.boxitem import SimpleBoxItem
from elsie.boxtree.lazy import LazyPoint, LazyValue, eval_pair, eval_value, unpack_point
from elsie.render.backends.svg.utils import svg_size_to_pixels
from elsie.render.image import create_image_data, get_image_steps, has_fragments
from elsie.render.ora import convert_ora_to_svg
from elsie.shapes.path import check_and_unpack_path_commands
from elsie.text.textparser import number_of_lines, extract_line
from elsie.utils.files import read_helper
from elsie.utils.geom import Rect


# ------------------------------------------------------------------ deferred values
def map_value(self, fn):
    return LazyValue(lambda: fn(self.fn()))


def add_value(self, value):
    return LazyValue(lambda: self.fn() + value)


def eval_lazy(self):
    return self.fn()


def lazy_init(self, fn):
    self.fn = fn


def point_init(self, x, y):
    assert isinstance(x, LazyValue)
    assert isinstance(y, LazyValue)
    self.x = x
    self.y = y


def add_point(self, x, y):
    return LazyPoint(LazyValue(lambda: self.x.fn() + x), LazyValue(lambda: self.y.fn() + y))


def eval_point(self):
    return (self.x.fn(), self.y.fn())


def unpack(obj, box):
    if isinstance(obj, LazyPoint):
        return (obj.x, obj.y)
    if not isinstance(obj, tuple) and not isinstance(obj, list):
        raise Exception("invalid")
    if len(obj) != 2:
        raise Exception("invalid")
    return (box.x(obj[0]), box.y(obj[1]))


def value_of(obj):
    if isinstance(obj, LazyValue):
        return obj.fn()
    return obj


def pair_of(pair):
    return (value_of(pair[0]), value_of(pair[1]))


def mixin_x(self, value):
    return self._get_box().layout.x(value)


def mixin_y(self, value):
    return self._get_box().layout.y(value)


def mixin_p(self, x, y):
    return self._get_box().layout.point(x, y)


def mid_point(self):
    return self.p("50%", "50%")


# ------------------------------------------------------------------ shortcuts
def overlay(self, **kwargs):
    if "x" not in kwargs:
        kwargs["x"] = 0
    if "y" not in kwargs:
        kwargs["y"] = 0
    if "width" not in kwargs:
        kwargs["width"] = "100%"
    if "height" not in kwargs:
        kwargs["height"] = "100%"
    return self.box(**kwargs)


def fbox(self, **kwargs):
    if "width" not in kwargs:
        kwargs["width"] = "fill"
    if "height" not in kwargs:
        kwargs["height"] = "fill"
    return self.box(**kwargs)


def sbox(self, **kwargs):
    side = "height" if self._get_box().layout.horizontal else "width"
    if side not in kwargs:
        kwargs[side] = "fill"
    return self.box(**kwargs)


# ------------------------------------------------------------------ shapes
def rect(self, color=None, bg_color=None, stroke_width=1, stroke_dasharray=None, rx=None, ry=None, rotation=None):
    def draw(ctx):
        ctx.draw_rect(self._get_box().layout.rect, rx=rx, ry=ry, color=color, bg_color=bg_color, stroke_width=stroke_width,
                      stroke_dasharray=stroke_dasharray, rotation=rotation)
    return self._create_simple_box_item(draw)


def ellipse(self, color=None, bg_color=None, stroke_width=1, stroke_dasharray=None, rotation=None):
    def draw(ctx):
        ctx.draw_ellipse(self._get_box().layout.rect, color=color, bg_color=bg_color, stroke_width=stroke_width,
                         stroke_dasharray=stroke_dasharray, rotation=rotation)
    return self._create_simple_box_item(draw)


def polygon(self, points, color=None, bg_color=None, stroke_width=1, stroke_dasharray=None, rotation=None):
    pairs = [unpack_point(q, self) for q in points]

    def draw(ctx):
        ctx.draw_polygon([(eval_value(q[0]), eval_value(q[1])) for q in pairs], color=color, bg_color=bg_color,
                         stroke_width=stroke_width, stroke_dasharray=stroke_dasharray, rotation=rotation)
    return self._create_simple_box_item(draw)


def line(self, points, color="black", stroke_width=1, stroke_dasharray=None, start_arrow=None, end_arrow=None):
    assert len(points) >= 2
    pairs = [unpack_point(q, self) for q in points]

    def draw(ctx):
        exact = [eval_pair(q) for q in pairs]
        drawn = list(exact)
        if start_arrow:
            drawn[0] = start_arrow.move_end_point(exact[1], exact[0])
        if end_arrow:
            drawn[-1] = end_arrow.move_end_point(exact[-2], exact[-1])
        ctx.draw_polyline(drawn, color=color, stroke_width=stroke_width, stroke_dasharray=stroke_dasharray)
        if start_arrow:
            start_arrow.render(ctx, exact[1], exact[0], color)
        if end_arrow:
            end_arrow.render(ctx, exact[-2], exact[-1], color)
    return self._create_simple_box_item(draw)


def path(self, commands, color="black", bg_color=None, stroke_width=1, stroke_dasharray=None, end_arrow=None):
    unpacked = check_and_unpack_path_commands(commands, self)
    if not unpacked:
        return self

    def draw(ctx):
        cmds = [(c[0], [eval_pair(q) for q in c[1]]) for c in unpacked]
        if end_arrow:
            name, pairs = cmds[-1]
            if name not in "CSQT":
                raise Exception("unsupported")
            if len(pairs) >= 2:
                before = pairs[-2]
                tip = pairs[-1]
            elif len(cmds) >= 2:
                before = cmds[-2][1][-1]
                tip = pairs[-1]
            else:
                raise Exception("unsupported")
            cmds[-1][1][-1] = end_arrow.move_end_point(before, tip)
        ctx.draw_path(cmds, color=color, bg_color=bg_color, stroke_width=stroke_width, stroke_dasharray=stroke_dasharray)
        if end_arrow:
            end_arrow.render(ctx, before, tip, color)
    return self._create_simple_box_item(draw)


ARGUMENTS = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}


def check_path(commands, box):
    out = []
    for command in commands:
        if not isinstance(command, tuple) and not isinstance(command, list):
            raise Exception("invalid")
        if not command:
            raise Exception("invalid")
        count = ARGUMENTS.get(command[0])
        if count is None:
            raise Exception("invalid")
        if (len(command) - 1) % count != 0:
            raise Exception("invalid")
        out.append((command[0], tuple(unpack_point(q, box) for q in command[1:])))
    return out


def eval_commands(commands):
    return [(c[0], [eval_pair(q) for q in c[1]]) for c in commands]


def end_arrow_points(commands):
    name, pairs = commands[-1]
    if name not in "CSQT":
        raise Exception("unsupported")
    if len(pairs) >= 2:
        return (pairs[-2], pairs[-1])
    if len(commands) >= 2:
        return (commands[-2][1][-1], pairs[-1])
    raise Exception("unsupported")


# ------------------------------------------------------------------ arrows
def arrow_init(self, size=10, angle=40, stroke_width=None, inner=None):
    self.size = size
    self.angle = angle * math.pi / 180
    self.stroke_width = stroke_width
    self.inner = inner


def along(p1, p2, change):
    """The end point of the segment p1-p2 moved along its direction."""
    length = math.sqrt((p2[0] - p1[0]) * (p2[0] - p1[0]) + (p2[1] - p1[1]) * (p2[1] - p1[1]))
    t = 1 + change / length
    return (p1[0] + (p2[0] - p1[0]) * t, p1[1] + (p2[1] - p1[1]) * t)


def arrow_move(self, p1, p2):
    if self.stroke_width:
        return along(p1, p2, -(self.stroke_width / 2))
    return along(p1, p2, -(math.cos(self.angle) * self.size / 2))


def arrow_render(self, ctx, p1, p2, color):
    back = math.atan2(p2[0] - p1[0], p2[1] - p1[1]) + math.pi
    wing1 = (p2[0] + self.size * math.sin(back - self.angle), p2[1] + self.size * math.cos(back - self.angle))
    wing2 = (p2[0] + self.size * math.sin(back + self.angle), p2[1] + self.size * math.cos(back + self.angle))
    if self.inner and not self.stroke_width:
        outline = [wing1, p2, wing2, along(p1, p2, -self.inner * self.size * math.cos(self.angle))]
    else:
        outline = [wing1, p2, wing2]
    if self.stroke_width is None:
        ctx.draw_polygon(outline, bg_color=color)
    else:
        ctx.draw_polyline(outline, color=color, stroke_width=self.stroke_width)


def delta(p1, p2):
    return (p2[0] - p1[0], p2[1] - p1[1])


def length(p1, p2):
    return math.sqrt((p2[0] - p1[0]) * (p2[0] - p1[0]) + (p2[1] - p1[1]) * (p2[1] - p1[1]))


def centroid(points):
    return (sum(q[0] for q in points) / len(points), sum(q[1] for q in points) / len(points))


# ------------------------------------------------------------------ images
def fitting_scale(rect, image_width, image_height):
    if rect.width:
        if rect.height:
            return min(rect.width / image_width, rect.height / image_height)
        return rect.width / image_width
    if rect.height:
        return rect.height / image_height
    return None


def image(self, source, *, image_type=None, scale=None, fragments=True, show_begin=1, select_fragments=None, rotation=None):
    kind = image_type
    if kind is None:
        if not isinstance(source, str):
            raise Exception("type")
        if source.endswith(".svg"):
            kind = "svg"
        elif source.endswith(".ora"):
            kind = "ora"
        elif source.endswith(".png"):
            kind = "png"
        elif source.endswith(".jpeg"):
            kind = "jpeg"
        elif source.endswith(".jpg"):
            kind = "jpeg"
        else:
            raise Exception("extension")
    if kind == "svg":
        if not isinstance(source, str):
            raise Exception("source")
        return self._image_svg(source, scale, fragments, show_begin, select_fragments, rotation)
    if kind == "ora":
        if not isinstance(source, str):
            raise Exception("source")
        return self._image_ora(source, scale, fragments, show_begin, select_fragments, rotation)
    if kind == "png" or kind == "jpeg":
        return self._image_bitmap(source, scale, rotation)
    raise Exception("type")


def image_bitmap(self, source, scale, rotation):
    cached = isinstance(source, str) or isinstance(source, bytes)
    entry = None
    if cached:
        entry = self._get_box().slide.temp_cache.get((source, "bitmap"))
    if entry is None:
        data = read_helper(source)
        img = Image.open(io.BytesIO(data))
        mime = Image.MIME[img.format]
        iw = img.size[0]
        ih = img.size[1]
        if cached:
            self._get_box().slide.temp_cache[(source, "bitmap")] = (iw, ih, mime, data)
    else:
        iw, ih, mime, data = entry
    self._get_box().layout.set_image_size_request(iw * (scale or 1), ih * (scale or 1))

    def draw(ctx):
        rect = self._get_box().layout.rect
        s = scale
        if scale is None:
            s = fitting_scale(rect, iw, ih)
            if s is None:
                s = 0
        ctx.draw_bitmap(x=rect.x + (rect.width - iw * s) / 2, y=rect.y + (rect.height - ih * s) / 2, width=iw * s, height=ih * s,
                        data=data, mime=mime, rotation=rotation)
    return self._create_simple_box_item(draw)


def image_ora(self, filename, scale, fragments, show_begin, select_fragments, rotation):
    slide = self._get_box().slide
    if (filename, "svg") not in slide.temp_cache:
        def constructor(content, output, data_type):
            svg = convert_ora_to_svg(filename)
            with open(output, "w", encoding="utf-8") as f:
                f.write(svg)
        name = slide.fs_cache.ensure_by_file(filename, "svg", constructor)
        self._get_box().slide.temp_cache[(filename, "svg")] = et.parse(name).getroot()
    return self._image_svg(filename, scale, fragments, show_begin, select_fragments, rotation)


def image_svg(self, filename, scale=None, fragments=True, show_begin=1, select_fragments=None, rotation=None):
    root = self._get_box().slide.temp_cache.get((filename, "svg"))
    if root is None:
        root = et.parse(filename).getroot()
        self._get_box().slide.temp_cache[(filename, "svg")] = root
    iw = svg_size_to_pixels(root.get("width"))
    ih = svg_size_to_pixels(root.get("height"))
    self._get_box().layout.set_image_size_request(iw * (scale or 1), ih * (scale or 1))
    if select_fragments is not None:
        count = len(select_fragments)
    elif fragments:
        count = get_image_steps(root)
    else:
        count = 1
    self._get_box()._ensure_steps(show_begin - 1 + count)
    fixed = None
    if select_fragments is None and not (fragments and has_fragments(root)):
        fixed = et.tostring(root).decode()

    def draw(ctx):
        rect = self._get_box().layout.rect
        if fixed is not None:
            if ctx.step < show_begin:
                return
            data = fixed
        else:
            step = ctx.step - show_begin + 1
            if select_fragments is not None:
                if step <= 0 or step > len(select_fragments):
                    return
                step = select_fragments[step - 1]
                if step is None:
                    return
            if step < 1:
                return
            data = create_image_data(root, step)
        s = scale
        if scale is None:
            s = fitting_scale(rect, iw, ih)
            if s is None:
                s = 0
        x = rect.x + (rect.width - iw * s) / 2
        y = rect.y + (rect.height - ih * s) / 2
        ctx.draw_svg(svg=data, x=x, y=y, width=iw * s, height=ih * s, scale=s, rotation=rotation,
                     rotation_center=(x + iw * s / 2, y + ih * s / 2))
    return self._create_simple_box_item(draw)


def image_size_request(self, image_width, image_height):
    if self.width_definition is None and self.height_definition is None:
        self.ensure_width(image_width)
        self.ensure_height(image_height)
    else:
        need = self.min_children_size()
        width = max(self._width.min_size, need[0])
        height = max(self._height.min_size, need[1])
        self.ensure_width(height * image_width / image_height)
        self.ensure_height(width * image_height / image_width)


def read_source(source):
    if isinstance(source, bytes):
        return source
    if isinstance(source, str):
        with open(source, "rb") as f:
            return f.read()
    return source.read()
