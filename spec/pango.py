"""How the Cairo backend gives a text and its styles to Pango."""
import pangocairocffi
import pangocffi
from pangocffi import Attribute, AttrList, FontDescription

from elsie.render.backends.cairo.text import (
    attr_from_scale, byte_length, from_pango_rect, from_pango_units, get_byte_range, get_pango_alignment, get_rgb_color, get_text_and_attributes,
    get_text_height, style_to_attributes, to_pango_color, to_pango_units)
from elsie.utils.geom import Rect

INVISIBLE_SPACE = "\u2800"


class Unspecified(Exception):
    pass


def to_units(size):
    return pangocffi.units_from_double(size)


def from_units(size):
    return pangocffi.units_to_double(size)


def color(color):
    return (int(color[0] * 65535), int(color[1] * 65535), int(color[2] * 65535))


def color_by_parts(color):
    return tuple(int(v * 65535) for v in color)


def bytes_of(text):
    return len(text.encode("utf-8"))


def relative_size(scale_factor, start_index, end_index):
    attr = Attribute._init_pointer(pangocffi.pango.pango_attr_scale_new(pangocffi.ffi.cast("double", scale_factor)))
    attr.start_index = start_index
    attr.end_index = end_index
    return attr


def attributes(style, text_scale, start_index, end_index):
    red, green, blue = to_pango_color(get_rgb_color(style.color))
    result = [
        Attribute.from_size_absolute(to_pango_units(style.size), start_index=start_index, end_index=end_index),
        Attribute.from_family(style.font, start_index=start_index, end_index=end_index),
        Attribute.from_foreground_color(red, green, blue, start_index=start_index, end_index=end_index),
    ]
    if text_scale is not None:
        result.append(attr_from_scale(text_scale, start_index=start_index, end_index=end_index))
    weight = pangocffi.Weight.NORMAL
    if style.bold:
        weight = pangocffi.Weight.BOLD
    result.append(Attribute.from_weight(weight, start_index=start_index, end_index=end_index))
    slant = pangocffi.Style.NORMAL
    if style.italic:
        slant = pangocffi.Style.ITALIC
    result.append(Attribute.from_style(slant, start_index=start_index, end_index=end_index))
    return result


def runs(parsed_text, style, styles, text_scale):
    attr_list = AttrList()
    # for each open style the one that it leads to, or None when it has no effect
    stack = [styles["default"].compose(style)]
    start = 0
    text = ""
    line = ""
    for token, value in parsed_text:
        if token == "text":
            line = line + value
            text = text + value
        elif token == "newline":
            for _ in range(value):
                if not line:
                    text = text + INVISIBLE_SPACE
                text = text + "\n"
                line = ""
        elif token == "begin":
            current = [s for s in reversed(stack) if s is not None][0]
            for attr in style_to_attributes(current, text_scale, start, byte_length(text)):
                attr_list.insert(attr)
            start = byte_length(text)
            if value.startswith("#"):
                stack.append(None)
            else:
                inner = styles.get(value)
                if inner is None:
                    raise Exception("Style '{}' not found".format(value))
                if current.priority > inner.priority:
                    stack.append(None)
                else:
                    stack.append(current.compose(inner))
        elif token == "end":
            current = [s for s in reversed(stack) if s is not None][0]
            for attr in style_to_attributes(current, text_scale, start, byte_length(text)):
                attr_list.insert(attr)
            start = byte_length(text)
            stack.pop()
    if start < byte_length(text):
        for attr in style_to_attributes(stack[0], text_scale, start, byte_length(text)):
            attr_list.insert(attr)
    assert len(stack) == 1
    assert stack[0] is not None
    return text, attr_list


def runs_by_flag(parsed_text, style, styles, text_scale):
    attr_list = AttrList()
    # for each open style the one that it leads to, or None when it has no effect
    stack = [styles["default"].compose(style)]
    start = 0
    text = ""
    empty = True
    for token, value in parsed_text:
        if token == "text":
            if value:
                empty = False
            text = text + value
        elif token == "newline":
            for _ in range(value):
                if empty:
                    text = text + INVISIBLE_SPACE
                text = text + "\n"
                empty = True
        elif token == "begin":
            current = [s for s in reversed(stack) if s is not None][0]
            for attr in style_to_attributes(current, text_scale, start, byte_length(text)):
                attr_list.insert(attr)
            start = byte_length(text)
            if value.startswith("#"):
                stack.append(None)
            else:
                inner = styles.get(value)
                if inner is None:
                    raise Exception("Style '{}' not found".format(value))
                if current.priority > inner.priority:
                    stack.append(None)
                else:
                    stack.append(current.compose(inner))
        elif token == "end":
            current = [s for s in reversed(stack) if s is not None][0]
            for attr in style_to_attributes(current, text_scale, start, byte_length(text)):
                attr_list.insert(attr)
            start = byte_length(text)
            stack.pop()
    if start < byte_length(text):
        for attr in style_to_attributes(stack[0], text_scale, start, byte_length(text)):
            attr_list.insert(attr)
    assert len(stack) == 1
    assert stack[0] is not None
    return text, attr_list


def height(pctx, style, resolution_scale):
    font = FontDescription()
    font.set_family(style.font)
    font.set_absolute_size(to_pango_units(style.size))
    metrics = pangocffi.pango.pango_context_get_metrics(pctx.get_pointer(), font.get_pointer(), pangocffi.ffi.NULL)
    ascent = from_pango_units(pangocffi.pango.pango_font_metrics_get_ascent(metrics))
    descent = from_pango_units(pangocffi.pango.pango_font_metrics_get_descent(metrics))
    return (ascent + descent) * resolution_scale


def layout(ctx, pctx, parsed_text, style, styles, resolution_scale, spacing_scale=1.0, text_scale=1.0):
    whole = styles["default"].compose(style)
    result = pangocairocffi.create_layout(ctx)
    result.set_ellipsize(pangocffi.EllipsizeMode.NONE)
    result.set_alignment(get_pango_alignment(whole))
    text, attributes = get_text_and_attributes(parsed_text, whole, styles, text_scale)
    result.set_text(text)
    result.set_attributes(attributes)
    assert whole.line_spacing >= 1.0
    spacing = whole.line_spacing * whole.size - get_text_height(pctx, whole, resolution_scale)
    result.set_spacing(to_pango_units(spacing * spacing_scale))
    return result


def alignment(style):
    align = style.align
    if align == "middle":
        return pangocffi.Alignment.CENTER
    if align == "left":
        return pangocffi.Alignment.LEFT
    if align == "right":
        return pangocffi.Alignment.RIGHT
    raise Unspecified


def rectangle(rect):
    return Rect(x=from_pango_units(rect.x), y=from_pango_units(rect.y), width=from_pango_units(rect.width), height=from_pango_units(rect.height))


def extents(layout, ink=True):
    logical, inked = layout.get_extents()
    if ink:
        return from_pango_rect(inked)
    return from_pango_rect(logical)


def part(parsed_text, id_index):
    stack = []
    count = 0
    start = None
    for i, (kind, value) in enumerate(parsed_text):
        if kind == "text":
            count = count + byte_length(value)
        elif kind == "newline":
            assert False
        elif kind == "begin":
            if i == id_index:
                start = count
            stack.append(i)
        elif kind == "end":
            if stack.pop() == id_index:
                return (start, count)
    assert False


def part_extents(layout, parsed_text, id_index):
    assert layout.get_line_count() == 1
    start, end = get_byte_range(parsed_text, id_index)
    characters = layout.get_iter()
    x = None
    width = 0
    while True:
        position = characters.get_index()
        if start <= position < end:
            extents = from_pango_rect(characters.get_char_extents())
            if x is None:
                assert start == position
                x = extents.x
            width = width + extents.width
        if position >= end or not characters.next_char():
            break
    assert x is not None
    return (x, width)
