"""Specification tables of text styles (analysed, never executed)."""
import copy

from pygments.styles import get_style_by_name

from elsie.text.highlight import highlight_code
from elsie.text.textparser import add_line_numbers, parse_text, tokens_merge, tokens_to_text_without_style
from elsie.text.textstyle import TextStyle, compose_style


# -- values
def check_string(name, value):
    if not (value is None or isinstance(value, str)):
        raise Exception
    return value


def check_number(name, value):
    if not (value is None or isinstance(value, int) or isinstance(value, float)):
        raise Exception
    return value


def check_bool(name, value):
    if not (value is None or isinstance(value, bool)):
        raise Exception
    return value


def check_choice(name, value, choices):
    if value not in choices:
        raise Exception
    return value


def init(self, font=None, size=None, align=None, line_spacing=None, color=None, bold=None, italic=None, variant_numeric=None,
         opacity=None, priority=0):
    self.font = font
    self.size = size
    self.align = align
    self.line_spacing = line_spacing
    self.color = color
    self.bold = bold
    self.italic = italic
    self.variant_numeric = variant_numeric
    self.opacity = opacity
    self.priority = priority


def set_font(self, value):
    check_string("font", value)
    self._font = value


def set_size(self, value):
    check_number("size", value)
    self._size = value


def set_align(self, value):
    if value not in (None, "left", "middle", "right"):
        raise Exception
    self._align = value


def set_line_spacing(self, value):
    check_number("line_spacing", value)
    self._line_spacing = value


def set_color(self, value):
    check_string("color", value)
    self._color = value


def set_bold(self, value):
    check_bool("bold", value)
    self._bold = value


def set_italic(self, value):
    check_bool("italic", value)
    self._italic = value


def set_variant_numeric(self, value):
    if value not in (None, "normal", "ordinal", "slashed-zero", "lining-nums", "oldstyle-nums", "proportinal-nums", "tabular-nums",
                     "diagonal-fractions", "stacked-fractions"):
        raise Exception
    self._variant_numeric = value


def set_opacity(self, value):
    check_number("opacity", value)
    self._opacity = value


def set_priority(self, value):
    if value is None:
        raise Exception
    check_number("priority", value)
    self._priority = value


def get_font(self):
    return self._font


def get_size(self):
    return self._size


def get_align(self):
    return self._align


def get_line_spacing(self):
    return self._line_spacing


def get_color(self):
    return self._color


def get_bold(self):
    return self._bold


def get_italic(self):
    return self._italic


def get_variant_numeric(self):
    return self._variant_numeric


def get_opacity(self):
    return self._opacity


def get_priority(self):
    return self._priority


# -- combination
def copied(self):
    return copy.copy(self)


def update(self, style):
    assert isinstance(style, TextStyle)
    for slot in ("_font", "_size", "_align", "_line_spacing", "_color", "_bold", "_italic", "_variant_numeric", "_opacity", "_priority"):
        value = getattr(style, slot)
        if value is not None:
            setattr(self, slot, value)


def compose(self, style):
    result = copy.copy(self)
    result.update(style)
    return result


def composed(styles, style, full_style):
    if isinstance(style, str):
        found = styles.get(style)
        if found is None:
            raise Exception
        if full_style and style != "default":
            return styles["default"].compose(found)
        return found.copy()
    if not isinstance(style, TextStyle):
        raise Exception
    if full_style:
        return styles["default"].compose(style)
    return style.copy()


# -- named styles
def container_init(self, styles):
    self._styles = styles


def has_style(self, style_name):
    return style_name in self._styles


def update_style(self, style_name, style):
    assert isinstance(style_name, str)
    result = compose_style(self._styles, style_name, False)
    result.update(style)
    styles = self._styles.copy()
    styles[style_name] = result
    self._styles = styles
    return result


def set_style(self, style_name, style, base="default"):
    assert isinstance(style_name, str)
    assert isinstance(style, TextStyle)
    if base != "default":
        result = compose_style(self._styles, base, False)
        result.update(style)
        style = result
    styles = self._styles.copy()
    styles[style_name] = style
    self._styles = styles
    return style


def get_style(self, style, full_style=False):
    return compose_style(self._styles, style, full_style)


# -- users of styles
def text_helper(self, parsed_text, style, scale_to_fit, rotation=None):
    from elsie.text.textboxitem import TextBoxItem
    box = self._get_box()
    item = TextBoxItem(box, parsed_text, style, box._styles, scale_to_fit, rotation)
    box.add_child(item)
    return item


def text_init(self, box, parsed_text, style, styles, scale_to_fit, rotation):
    self._box = box
    self.z_level = box.z_level
    self._text_size = None
    self._text_scale = 1
    self._scale_to_fit = scale_to_fit
    self.rotation = rotation
    self._style = style
    self._styles = styles
    self._parsed_text = parsed_text
    self._make_query(box.slide.slides.backend)
    if scale_to_fit:
        width, height = self._text_size

        def callback(rect):
            if width > 0.00001 and height > 0.00001:
                scale = min(rect.width / width, rect.height / height)
                self._text_size = (width * scale, height * scale)
                self._text_scale = scale

        box.layout.add_callback(callback)


def characters(escape_char):
    if len(escape_char) == 3:
        escape, begin, end = escape_char
        return escape, begin, end
    if len(escape_char) != 1:
        raise Exception
    return escape_char, "{", "}"


def text(self, text, style="default", escape_char="~", scale_to_fit=False, rotation=None):
    escape, begin, end = characters(escape_char)
    full = self._get_box().get_style(style, full_style=True)
    tokens = parse_text(text, escape_char=escape, begin_char=begin, end_char=end)
    return self._text_helper(tokens, full, scale_to_fit, rotation)


def code(self, language, text, tabsize=4, line_numbers=False, style="code", use_styles=False, escape_char="~", scale_to_fit=False,
         rotation=None):
    text = text.replace("\t", " " * tabsize)
    escape, begin, end = characters(escape_char)
    if not language:
        tokens = parse_text(text, escape_char=escape if use_styles else None, begin_char=begin, end_char=end)
    elif use_styles:
        newlines = 0
        while text.startswith("\n"):
            newlines += 1
            text = text[1:]
        styled = parse_text(text, escape, begin_char=begin, end_char=end)
        tokens = tokens_merge(highlight_code(tokens_to_text_without_style(styled), language), styled)
        if newlines:
            tokens.insert(0, ("newline", newlines))
    else:
        tokens = highlight_code(text, language)
    if line_numbers:
        tokens = add_line_numbers(tokens)
    full = self._get_box().get_style(style, full_style=True)
    return self._text_helper(tokens, full, scale_to_fit, rotation)


def theme_styles(pygments_theme):
    results = {}
    for token, s in get_style_by_name(pygments_theme):
        style = TextStyle()
        if s["color"]:
            style.color = "#" + s["color"]
        if s["bold"]:
            style.bold = True
        if s["italic"]:
            style.italic = True
        results["pygments-" + str(token)] = style
    return results
