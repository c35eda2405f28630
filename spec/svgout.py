"""What the drawing functions write to an SVG document."""
import base64

from elsie.render.backends.svg.draw import draw_bitmap, draw_ellipse, draw_path, draw_polygon, draw_polyline, draw_rect, draw_text, set_font_from_style, set_paint_style
from elsie.render.backends.svg.utils import apply_rotation, svg_begin, svg_end
from elsie.utils.geom import find_centroid
from elsie.utils.sxml import Xml, escape_text


# -- documents


def xml_init(self):
    self.chunks = []
    self.stack = []
    self.is_open = False


def end_of_tag(self):
    if self.is_open:
        self.chunks.append(">")
        self.is_open = False


def raw_text(self, text):
    if self.is_open:
        self.chunks.append(">")
        self.is_open = False
    self.chunks.append(text)


def element(self, name):
    if self.is_open:
        self.chunks.append(">")
        self.is_open = False
    self.chunks.append("<")
    self.chunks.append(name)
    self.stack.append(name)
    self.is_open = True


def attribute(self, name, value, escape=True):
    assert self.is_open
    if escape:
        value = str(value).replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("'", "&#39;")
    self.chunks.append(" " + str(name) + "='" + str(value) + "'")


def text(self, text):
    if self.is_open:
        self.chunks.append(">")
        self.is_open = False
    self.chunks.append(str(text).replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace(" ", "&#160;"))


def escaped(text):
    return text.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def close(self, text=None):
    assert self.stack
    if text is not None and self.stack[-1] != text:
        raise Exception("other element")
    if self.is_open:
        self.is_open = False
        self.stack.pop()
        self.chunks.append(" />")
    else:
        self.chunks.append("</")
        self.chunks.append(self.stack.pop())
        self.chunks.append(">")


def to_string(self):
    assert len(self.stack) == 0
    return "".join(self.chunks)


def write(self, filename):
    assert len(self.stack) == 0
    with open(filename, "w", encoding="utf-8") as f:
        f.write("".join(self.chunks))


def begin(xml, width=None, height=None, view_box=None, inkscape_namespace=False):
    xml.element("svg")
    xml.set("xmlns", "http://www.w3.org/2000/svg")
    xml.set("xmlns:xlink", "http://www.w3.org/1999/xlink")
    if inkscape_namespace:
        xml.set("xmlns:inkscape", "http://www.inkscape.org/namespaces/inkscape")
    if width is not None:
        xml.set("width", width)
    if height is not None:
        xml.set("height", height)
    if view_box:
        xml.set("viewBox", " ".join([str(v) for v in view_box]))


def end(xml):
    xml.close("svg")


def rotation_around(xml, rotation, center):
    xml.set("transform", "rotate(" + str(rotation) + " " + str(center[0]) + " " + str(center[1]) + ")")


# -- styles


def font(xml, style):
    if style.font is not None:
        xml.set("font-family", style.font)
    if style.size is not None:
        xml.set("font-size", style.size)
    text = ""
    if style.color is not None:
        text = text + "fill:" + str(style.color) + ";"
    if style.opacity is not None:
        text = text + "fill-opacity:" + str(style.opacity) + ";"
    if style.bold:
        text = text + "font-weight: bold;"
    if style.italic:
        text = text + "font-style: italic;"
    if text:
        xml.set("style", text)


def paint(xml, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    parts = []
    if bg_color:
        parts.append("fill:" + str(bg_color))
    else:
        parts.append("fill:none")
    if color:
        width = stroke_width
        if not width:
            width = 1
        parts.append("stroke:" + str(color))
        parts.append("stroke-width:" + str(width))
        if stroke_dasharray:
            parts.append("stroke-dasharray:" + str(stroke_dasharray))
    else:
        parts.append("stroke:none")
    xml.set("style", ";".join(parts))


# -- shapes


def rect(xml, rect, rx=None, ry=None, rotation=None, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    xml.element("rect")
    xml.set("x", rect.x)
    xml.set("y", rect.y)
    xml.set("width", rect.width)
    xml.set("height", rect.height)
    if rx:
        xml.set("rx", rx)
    if ry:
        xml.set("ry", ry)
    if rotation:
        xml.set("transform", "rotate(" + str(rotation) + " " + str(rect.x + rect.width / 2) + " " + str(rect.y + rect.height / 2) + ")")
    set_paint_style(xml, color, bg_color, stroke_width, stroke_dasharray)
    xml.close("rect")


def ellipse(xml, rect, rotation=None, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    xml.element("ellipse")
    xml.set("cx", rect.x + rect.width / 2)
    xml.set("cy", rect.y + rect.height / 2)
    xml.set("rx", rect.width / 2)
    xml.set("ry", rect.height / 2)
    if rotation:
        xml.set("transform", "rotate(" + str(rotation) + " " + str(rect.x + rect.width / 2) + " " + str(rect.y + rect.height / 2) + ")")
    set_paint_style(xml, color, bg_color, stroke_width, stroke_dasharray)
    xml.close("ellipse")


def polygon(xml, points, rotation=None, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    xml.element("polygon")
    xml.set("points", " ".join([str(x) + "," + str(y) for x, y in points]))
    if rotation:
        center = find_centroid(points)
        xml.set("transform", "rotate(" + str(rotation) + " " + str(center[0]) + " " + str(center[1]) + ")")
    set_paint_style(xml, color, bg_color, stroke_width, stroke_dasharray)
    xml.close("polygon")


def polyline(xml, points, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    xml.element("polyline")
    xml.set("points", " ".join([str(x) + "," + str(y) for x, y in points]))
    set_paint_style(xml, color, bg_color, stroke_width, stroke_dasharray)
    xml.close("polyline")


def path(xml, commands, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    xml.element("path")
    xml.set("d", " ".join([name + " ".join([str(p[0]) + "," + str(p[1]) for p in pairs]) for name, pairs in commands]))
    set_paint_style(xml, color, bg_color, stroke_width, stroke_dasharray)
    xml.close("path")


def bitmap(xml, x, y, width, height, mime, data, rotation=None, extra_args=None):
    if not isinstance(data, str):
        data = base64.b64encode(data).decode("ascii")
    xml.element("image")
    xml.set("x", x)
    xml.set("y", y)
    if width is not None:
        xml.set("width", width)
    if height is not None:
        xml.set("height", height)
    if rotation:
        xml.set("transform", "rotate(" + str(rotation) + " " + str(x + width / 2) + " " + str(y + height / 2) + ")")
    if extra_args is not None:
        for name, value in extra_args:
            xml.set(name, value)
    xml.set("xlink:href", "data:" + str(mime) + ";base64," + str(data), escape=False)
    xml.close("image")


def text_element(xml, x, y, parsed_text, style, styles, id=None, id_index=None, transform=None):
    xml.element("text")
    if id is not None and id_index is None:
        xml.set("id", id)
    xml.set("x", x)
    xml.set("y", y)
    if transform is not None:
        xml.set("transform", transform)
    xml.set("text-anchor", {"left": "start", "middle": "middle", "right": "end"}[style.align])
    set_font_from_style(xml, style)
    active = [style]
    priority = style.priority
    xml.element("tspan")
    if style.variant_numeric:
        xml.set("font-variant-numeric", style.variant_numeric)
    for i, (kind, value) in enumerate(parsed_text):
        if kind == "text":
            xml.text(value)
        elif kind == "newline":
            for s in active:
                xml.close("tspan")
            for j, s in enumerate(active):
                xml.element("tspan")
                xml.set("xml:space", "preserve")
                if j == 0:
                    xml.set("x", x)
                    xml.set("dy", style.size * style.line_spacing * value)
                if s is not None:
                    set_font_from_style(xml, s)
        elif kind == "begin":
            s = styles.get(value, None)
            if s is None and not (value and value[0] == "#"):
                raise Exception("style")
            if s is not None:
                if priority > s.priority:
                    s = None
                else:
                    priority = s.priority
            active.append(s)
            xml.element("tspan")
            if id is not None and id_index == i:
                xml.set("id", id)
            xml.set("xml:space", "preserve")
            if s is not None:
                set_font_from_style(xml, s)
        elif kind == "end":
            xml.close("tspan")
            active.pop()
            priority = next(s.priority for s in reversed(active) if s is not None)
        else:
            raise Exception("token")
    for s in active:
        xml.close("tspan")
    xml.close("text")


# -- rendering context


def context_init(self, slide, step, debug_boxes):
    self.step = step
    self.debug_boxes = debug_boxes
    self.xml = Xml()
    svg_begin(self.xml, slide.width, slide.height, slide.view_box)


def context_text(self, rect, x, y, parsed_text, style, styles, rotation=None, scale=None, **kwargs):
    if scale is not None:
        x = x / scale
        y = y / scale
    parts = []
    if rotation:
        parts.append("rotate(" + str(rotation) + " " + str(rect.x + rect.width / 2) + " " + str(rect.y + rect.height / 2) + ")")
    if scale:
        parts.append("scale(" + str(scale) + ")")
    transform = None
    if parts:
        transform = " ".join(parts)
    draw_text(self.xml, x=x, y=y, parsed_text=parsed_text, style=style, styles=styles, transform=transform, **kwargs)


def context_svg(self, svg, x, y, scale, rotation=None, rotation_center=None, **kwargs):
    xml = Xml()
    xml.element("g")
    parts = []
    if rotation is not None:
        assert rotation_center is not None
        parts.append("rotate(" + str(rotation) + " " + str(rotation_center[0]) + " " + str(rotation_center[1]) + ")")
    parts.append("translate(" + str(x) + ", " + str(y) + ")")
    if scale != 1.0:
        parts.append("scale(" + str(scale) + ")")
    xml.set("transform", " ".join(parts))
    xml.raw_text(svg)
    xml.close("g")
    self.xml.raw_text(xml.to_string())


def context_svg_inplace(self, svg, x, y, scale, rotation=None, rotation_center=None, **kwargs):
    xml = self.xml
    xml.element("g")
    parts = []
    if rotation is not None:
        assert rotation_center is not None
        parts.append("rotate(" + str(rotation) + " " + str(rotation_center[0]) + " " + str(rotation_center[1]) + ")")
    parts.append("translate(" + str(x) + ", " + str(y) + ")")
    if scale != 1.0:
        parts.append("scale(" + str(scale) + ")")
    xml.set("transform", " ".join(parts))
    xml.raw_text(svg)
    xml.close("g")


def context_rect(self, rect, rx=None, ry=None, rotation=None, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    draw_rect(self.xml, rect, rx=rx, ry=ry, rotation=rotation, color=color, bg_color=bg_color, stroke_width=stroke_width,
              stroke_dasharray=stroke_dasharray)


def context_ellipse(self, rect, rotation=None, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    draw_ellipse(self.xml, rect, rotation=rotation, color=color, bg_color=bg_color, stroke_width=stroke_width, stroke_dasharray=stroke_dasharray)


def context_polygon(self, points, rotation=None, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    draw_polygon(self.xml, points, rotation=rotation, color=color, bg_color=bg_color, stroke_width=stroke_width, stroke_dasharray=stroke_dasharray)


def context_polyline(self, points, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    draw_polyline(self.xml, points, color=color, bg_color=bg_color, stroke_width=stroke_width, stroke_dasharray=stroke_dasharray)


def context_path(self, commands, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None):
    draw_path(self.xml, commands, color=color, bg_color=bg_color, stroke_width=stroke_width, stroke_dasharray=stroke_dasharray)


def context_bitmap(self, x, y, width, height, mime, data, rotation=None, extra_args=None):
    draw_bitmap(self.xml, x, y, width, height, mime, data, rotation=rotation, extra_args=extra_args)


def text_width(self, parsed_text, style, styles, id_index=None):
    return self._text_query("inkscape-w", parsed_text, style, styles, id_index)


def text_height(self, parsed_text, style, styles, id_index=None):
    return self._text_query("inkscape-h", parsed_text, style, styles, id_index)


def text_x(self, parsed_text, style, styles, id_index=None):
    return self._text_query("inkscape-x", parsed_text, style, styles, id_index)


def context_render(self):
    svg_end(self.xml)
    return self.xml.to_string()


def query_document(inkscape, method, data):
    xml = Xml()
    svg_begin(xml)
    xml.raw_text(data)
    svg_end(xml)
    if method == "inkscape-w":
        return inkscape.get_width(xml.to_string(), "target")
    if method == "inkscape-h":
        return inkscape.get_height(xml.to_string(), "target")
    if method == "inkscape-x":
        return inkscape.get_x(xml.to_string(), "target")
    raise Exception("method")


def text_query(self, query, parsed_text, style, styles, id_index):
    xml = Xml()
    draw_text(xml, 0, 0, parsed_text, style, styles, id="target", id_index=id_index)
    return self.process_query(query, xml.to_string())
