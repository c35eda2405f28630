"""What the Cairo backend draws."""
import contextlib
import io
import math

import cairocffi
import lxml.etree as et
import pangocairocffi
import webcolors
from PIL import Image

from elsie.render.backends.cairo.draw import fill_stroke_shape, rounded_rectangle
from elsie.render.backends.cairo.rcontext import RESOLUTION_SCALE, CairoRenderingContext
from elsie.render.backends.cairo.svg import render_svg
from elsie.render.backends.cairo.text import build_layout, compute_subtext_extents, from_pango_units, get_extents, to_pango_units
from elsie.render.backends.cairo.utils import get_rgb_color, normalize_svg
from elsie.shapes.path import COMMAND_NARGS
from elsie.text.textboxitem import text_x_in_rect
from elsie.utils.geom import Rect, find_centroid


@contextlib.contextmanager
def scope(ctx):
    """Everything that is changed in it is undone, also after an error."""
    try:
        ctx.save()
        yield ctx
    finally:
        ctx.restore()


def place(ctx, point, rotation=None, scale_x=1.0, scale_y=1.0):
    ctx.translate(point[0], point[1])
    if rotation is not None:
        ctx.rotate(math.radians(rotation))
    if scale_x != 1.0 or scale_y != 1.0:
        ctx.scale(sx=scale_x, sy=scale_y)
    ctx.translate(-point[0], -point[1])


def viewbox(ctx, width, height, viewbox):
    x, y, w, h = viewbox[0], viewbox[1], viewbox[2], viewbox[3]
    scale = min(width / w, height / h)
    ctx.translate(-x * scale, -y * scale)
    ctx.scale(scale, scale)
    ctx.translate((width / scale - w) / 2, (height / scale - h) / 2)
    return scale


def rgb(color):
    if isinstance(color, str):
        if color and color[0] == "#":
            values = webcolors.hex_to_rgb(webcolors.normalize_hex(color))
        else:
            values = webcolors.name_to_rgb(color)
        return tuple([v / 255 for v in values])
    assert len(color) == 3
    for v in color:
        assert isinstance(v, float)
    return tuple(color)


# -- painting


def fill(ctx, callback, bg_color):
    ctx.set_source_rgb(*get_rgb_color(bg_color))
    callback()
    ctx.fill()


def stroke(ctx, callback, color, stroke_width=None, stroke_dasharray=None):
    ctx.set_source_rgb(*get_rgb_color(color))
    if stroke_width:
        ctx.set_line_width(stroke_width)
    else:
        ctx.set_line_width(1)
    if stroke_dasharray:
        ctx.set_dash([float(v) for v in stroke_dasharray.split()])
    callback()
    ctx.stroke()


def fill_and_stroke(ctx, callback, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    if bg_color:
        fill(ctx, callback, bg_color)
    if color:
        stroke(ctx, callback, color, stroke_width, stroke_dasharray)


# -- shapes


def rounded(ctx, x, y, w, h, rx, ry):
    k = 0.55228475
    if rx > w - rx:
        rx = w / 2
    if ry > h - ry:
        ry = h / 2
    r, b = x + w, y + h
    ctx.new_path()
    ctx.move_to(x + rx, y)
    ctx.line_to(r - rx, y)
    ctx.curve_to(r - rx + k * rx, y, r, y + k * ry, r, y + ry)
    ctx.line_to(r, b - ry)
    ctx.curve_to(r, b - ry + k * ry, r - rx + k * rx, b, r - rx, b)
    ctx.line_to(x + rx, b)
    ctx.curve_to(x + rx - k * rx, b, x, b - k * ry, x, b - ry)
    ctx.line_to(x, y + ry)
    ctx.curve_to(x, y + ry - k * ry, x + rx - k * rx, y, x + rx, y)
    ctx.close_path()


def rect(self, rect, rx=None, ry=None, rotation=None, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    if rx is None:
        rx = ry
    if ry is None:
        ry = rx
    with scope(self.ctx):
        place(self.ctx, (rect.x + rect.width / 2, rect.y + rect.height / 2), rotation)

        def shape():
            if rx or ry:
                rounded_rectangle(self.ctx, rect.x, rect.y, rect.width, rect.height, rx, ry)
            else:
                self.ctx.rectangle(rect.x, rect.y, rect.width, rect.height)

        fill_and_stroke(self.ctx, shape, color, bg_color, stroke_width, stroke_dasharray)


def ellipse(self, rect, rotation=None, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    large, small = rect.width, rect.height
    if large < small:
        large, small = small, large
    sx, sy = small / large, small / large
    if large == rect.width:
        sx = 1.0
    if large == rect.height:
        sy = 1.0
    center = (rect.x + rect.width / 2, rect.y + rect.height / 2)
    with scope(self.ctx):
        with scope(self.ctx):
            place(self.ctx, center, rotation=rotation, scale_x=sx, scale_y=sy)
            if bg_color:
                self.ctx.set_source_rgb(*get_rgb_color(bg_color))
                self.ctx.arc(center[0], center[1], large / 2.0, 0, 2 * math.pi)
                self.ctx.fill()
            if color:
                self.ctx.arc(center[0], center[1], large / 2.0, 0, 2 * math.pi)
        if color:
            stroke(self.ctx, nothing, color, stroke_width, stroke_dasharray)


def nothing():
    pass


def polygon(self, points, rotation=None, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    with scope(self.ctx):
        place(self.ctx, find_centroid(points), rotation=rotation)

        def shape():
            self.ctx.move_to(*points[0])
            for p in points[1:] + [points[0]]:
                self.ctx.line_to(*p)

        fill_and_stroke(self.ctx, shape, color, bg_color, stroke_width, stroke_dasharray)


def polyline(self, points, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    with scope(self.ctx):
        def shape():
            self.ctx.move_to(*points[0])
            for p in points[1:]:
                self.ctx.line_to(*p)

        fill_and_stroke(self.ctx, shape, color, bg_color, stroke_width, stroke_dasharray)


def path(self, commands, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    from elsie.render.backends.cairo.shapes import draw_path
    with scope(self.ctx):
        def shape():
            draw_path(self.ctx, commands)

        fill_and_stroke(self.ctx, shape, color, bg_color, stroke_width, stroke_dasharray)


def segments(commands):
    """Commands with one group of arguments each."""
    for name, args in commands:
        n = COMMAND_NARGS[name]
        for i in range(0, len(args), n):
            if name == "M" and i:
                yield "L", args[i:i + n]
            else:
                yield name, args[i:i + n]


def quadratic(ctx, start, end, control):
    """The equivalent cubic curve."""
    ctx.curve_to(
        start[0] + 2 * (control[0] - start[0]) / 3, start[1] + 2 * (control[1] - start[1]) / 3,
        end[0] + 2 * (control[0] - end[0]) / 3, end[1] + 2 * (control[1] - end[1]) / 3,
        end[0], end[1])


def mirrored(point, center):
    return (2 * center[0] - point[0], 2 * center[1] - point[1])


def outline(ctx, commands):
    from elsie.render.backends.cairo.shapes import split_commands
    cubic = None
    quad = None
    for name, args in split_commands(commands):
        at = ctx.get_current_point()
        if name == "M":
            cubic = None
            quad = None
            ctx.move_to(*args[0])
        elif name == "L":
            cubic = None
            quad = None
            ctx.line_to(*args[0])
        elif name == "C":
            cubic = args[1]
            quad = None
            ctx.curve_to(*args[0], *args[1], *args[2])
        elif name == "S":
            first = mirrored(cubic or at, at)
            cubic = args[0]
            quad = None
            ctx.curve_to(*first, *args[0], *args[1])
        elif name == "Q":
            cubic = None
            quad = args[0]
            quadratic(ctx, at, args[1], quad)
        elif name == "T":
            cubic = None
            quad = mirrored(quad or at, at)
            quadratic(ctx, at, args[0], quad)


# -- texts and images


def text(self, rect, x, y, parsed_text, style, styles, rotation=None, scale=None):
    with scope(self.ctx):
        layout = build_layout(self.reference_ctx, self.pctx, parsed_text, style, styles, resolution_scale=RESOLUTION_SCALE,
                              spacing_scale=self.line_scaling, text_scale=scale)
        layout.set_width(to_pango_units(rect.width))
        baseline = from_pango_units(layout.get_baseline())
        if rotation is not None:
            place(self.ctx, (rect.x + rect.width / 2, rect.y + rect.height / 2), rotation=rotation)
        self.ctx.move_to(rect.x, y - baseline)
        pangocairocffi.show_layout(self.ctx, layout)
        self.ctx.new_path()


def bitmap(self, x, y, width, height, data, rotation=None):
    assert isinstance(data, bytes)
    if not width or not height:
        return
    image = Image.open(io.BytesIO(data))
    if image.mode != "RGBA":
        image = image.convert("RGBA")
    w, h = image.width, image.height
    pixels = bytearray(image.tobytes("raw", "BGRa"))
    surface = cairocffi.ImageSurface(cairocffi.FORMAT_ARGB32, width=w, height=h, data=pixels)
    surface.set_device_scale(w / width, h / height)
    with scope(self.ctx):
        place(self.ctx, (x + width / 2, y + height / 2), rotation=rotation)
        self.ctx.set_source_surface(surface, x, y)
        self.ctx.paint()


def svg(self, svg, x, y, width, height, rotation=None):
    if not width or not height:
        return
    tree = et.tostring(normalize_svg(et.fromstring(svg)), encoding="utf8")
    render_svg(self.surface, svg=tree.decode(), x=x, y=y, width=width, height=height, rotation=rotation, dpi=self.cairosvg_dpi,
               matrix=self.ctx.get_matrix())


def text_extents(self, parsed_text, style, styles):
    return get_extents(build_layout(self.ctx, self.pctx, parsed_text, style, styles, RESOLUTION_SCALE))


def part_extents(self, parsed_text, style, styles, id_index):
    layout = build_layout(self.ctx, self.pctx, parsed_text, style, styles, RESOLUTION_SCALE)
    whole = get_extents(layout)
    start = text_x_in_rect(Rect(x=0, width=whole.width), style)
    x, width = compute_subtext_extents(layout, parsed_text, id_index)
    return Rect(x=x - start, width=width)


def text_width(self, parsed_text, style, styles, id_index=None):
    return self._text_extents(parsed_text, style, styles, id_index=id_index).width


def text_height(self, parsed_text, style, styles, id_index=None):
    return self._text_extents(parsed_text, style, styles, id_index=id_index).height


def text_x(self, parsed_text, style, styles, id_index=None):
    return self._text_extents(parsed_text, style, styles, id_index=id_index).x


def extents(self, parsed_text, style, styles, id_index=None):
    ctx = CairoRenderingContext(*self.dimensions)
    if id_index is None:
        return ctx.compute_text_extents(parsed_text, style, styles)
    return ctx.compute_subtext_extents(parsed_text, style, styles, id_index)
