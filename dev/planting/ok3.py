P='elsie/text/textparser.py'; I='elsie/text/textboxitem.py'; Y='elsie/text/textstyle.py'; C='elsie/text/stylecontainer.py'
TP="T01 T02 K01 M01 X01 R01 E02"
IP="T02 L02 L04 I01 R01 E02 S01"
YP="S01 S02 R01 E02"
EDITS=[
("ok-lines",TP,[(P,'''    lines = 1
    for (token, value) in parsed_text:
        if token == "newline":
            lines += value
    return lines
''','''    return 1 + sum(value for token, value in parsed_text if token == "newline")
''')]),
("ok-normalize-elif",TP,[(P,'''        if key == "newline" and result and result[-1][0] == "newline":
            result[-1] = ("newline", result[-1][1] + value)
            continue

        if key == "end" and result[-1][0] == "newline":
            last = result[-1]
            result[-1] = token
            result.append(last)
            continue

        result.append(token)
''','''        after_newline = bool(result) and result[-1][0] == "newline"
        if key == "newline" and after_newline:
            count = result.pop()[1]
            result.append(("newline", count + value))
        elif key == "end" and after_newline:
            result.insert(len(result) - 1, token)
        else:
            result.append(token)
''')]),
("ok-normalize2",TP,[(P,'''    for token in tokens:
        key, value = token
        if key == "text" and not value:
            continue  # Remove empty texts
''','''    for key, value in tokens:
        token = (key, value)
        if key == "text" and value == "":
            continue  # Remove empty texts
''')]),
("ok-linenos",TP,[(P,'''    lines_len = len(str(number_of_lines(tokens)))
    begin = ("begin", "code_lineno")
    result = [begin, ("text", "1".zfill(lines_len) + " "), END_MARKER]
    line = 1
    for token in tokens:
        if token[0] != "newline":
            result.append(token)
            continue
        for i in range(token[1]):
            line += 1
            result.append(NEWLINE_1)
            result.append(begin)
            result.append(("text", str(line).zfill(lines_len) + " "))
            result.append(END_MARKER)
    return result
''','''    lines_len = len(str(number_of_lines(tokens)))

    def number(line):
        return [
            ("begin", "code_lineno"),
            ("text", str(line).zfill(lines_len) + " "),
            END_MARKER,
        ]

    line = 1
    result = number(line)
    for token in tokens:
        if token[0] == "newline":
            for _ in range(token[1]):
                line += 1
                result.append(NEWLINE_1)
                result.extend(number(line))
        else:
            result.append(token)
    return result
''')]),
("ok-parse-final",TP,[(P,'''    final_result = []
    for r in result:
        if r[0] != "text":
            final_result.append(r)
            continue
        lines = r[1].split("\\n")
        final_result.append(("text", lines[0]))
        for line in lines[1:]:
            final_result.append(NEWLINE_1)
            final_result.append(("text", line))
    if counter > 0:
        raise Exception("Invalid format, unclosed command")

    return normalize_tokens(final_result)
''','''    if counter > 0:
        raise Exception("Invalid format, unclosed command")

    return normalize_tokens(_split_lines(result))


def _split_lines(tokens):
    result = []
    for token in tokens:
        if token[0] == "text":
            for i, line in enumerate(token[1].split("\\n")):
                if i:
                    result.append(NEWLINE_1)
                result.append(("text", line))
        else:
            result.append(token)
    return result
''')]),
("ok-parse-loop",TP,[(P,'''        if c == escape_char and text[i + 1 : i + 2] == escape_char:
            result.append(("text", text[start : i + 1]))
            i += 2
            start = i
        elif c == escape_char:
            result''','''        if c == escape_char:
            if text[i + 1 : i + 2] == escape_char:
                result.append(("text", text[start : i + 1]))
                i += 2
                start = i
                continue
            result''')]),
("ok-parse-find",TP,[(P,'''            while i < len(text) and text[i] != begin_char:
                i += 1
            result''','''            i = text.find(begin_char, i)
            if i < 0:
                i = len(text)
            result''')]),
("ok-open-blocks",TP,[(P,'''    count = 0
    for token in tokens:
        if token[0] == "begin":
            count += 1
        elif token[0] == "end":
            count -= 1
    return count
''','''    return len(_open_blocks(tokens))
''')]),
("ok-block-end",TP,[(P,'''    index += 1
    count = 0

    while index < len(tokens):
        name, value = tokens[index]
        if name == "begin":
            count += 1
        elif name == "end":
            count -= 1
            if count < 0:
                return index
        index += 1
''','''    depth = 0
    for position in range(index, len(tokens)):
        name = tokens[position][0]
        if name == "begin":
            depth += 1
        elif name == "end":
            depth -= 1
            if depth == 0:
                return position
''')]),
("ok-extract",TP+" L02",[(P,'''    b = index
    while b >= 0 and tokens[b][0] != "newline":
        b -= 1
    b += 1

    e = index
    while e < len(tokens) and tokens[e][0] != "newline":
        e += 1

    open_blocks = _open_blocks(tokens[:b])
    result = open_blocks + tokens[b:e]
    result += [END_MARKER] * _open_blocks_count(result)
    return result, index - b + len(open_blocks)
''','''    start = index
    while start > 0 and tokens[start - 1][0] != "newline":
        start -= 1

    end = index
    while end < len(tokens) and tokens[end][0] != "newline":
        end += 1

    open_blocks = _open_blocks(tokens[:start])
    line = open_blocks + tokens[start:end]
    line.extend([END_MARKER] * _open_blocks_count(line))
    return line, len(open_blocks) + index - start
''')]),
("ok-plain",TP,[(P,'''    result = []
    for name, value in tokens:
        if name == "text":
            result.append(value)
        elif name == "newline":
            result.append("\\n" * value)
    return "".join(result)
''','''    result = ""
    for name, value in tokens:
        if name == "text":
            result += value
        elif name == "newline":
            result += value * "\\n"
    return result
''')]),
("ok-merge-reopen",TP,[(P,'''        assert t[0] == "end"
        reopen = []
        pos = -1
        for _, i2, t2 in reversed(opened):
            result.append(END_MARKER)
            if i2 != index:
                pos -= 1
                reopen.append(t2)
            else:
                break
        del opened[pos]
        result.extend(reversed(reopen))
''','''        assert t[0] == "end"
        pos = len(opened) - 1
        while opened[pos][1] != index:
            pos -= 1
        result.extend([END_MARKER] * (len(opened) - pos))
        del opened[pos]
        result.extend(t2 for _, _, t2 in opened[pos:])
''')]),
("ok-trim",TP,[(P,'''    lines = text.splitlines(keepends=False)
    min_indent = min(
        (len(line) - len(line.lstrip()) for line in lines if line.strip()), default=0
    )
    return "\\n".join(line[min_indent:] for line in lines)''','''    lines = text.splitlines()
    indents = [len(line) - len(line.lstrip()) for line in lines if line.strip()]
    min_indent = min(indents) if indents else 0
    result = []
    for line in lines:
        result.append(line[min_indent:])
    return "\\n".join(result)''')]),
("ok-xinrect",IP,[(I,'''    align = style.align
    if align == "left":
        return rect.x
    elif align == "middle":
        return rect.x + rect.width / 2
    elif align == "right":
        return rect.x + rect.width
    else:
        raise Exception("Invalid value of align: " + repr(align))
''','''    factors = {"left": 0, "middle": 0.5, "right": 1}
    if style.align not in factors:
        raise Exception("Invalid value of align: " + repr(style.align))
    return rect.x + rect.width * factors[style.align]
''')]),
("ok-lineheight",IP,[(I,'''    def render(self, ctx):
''','''    def _line_position(self, line):
        lines = number_of_lines(self._parsed_text)
        height = self._text_size[1]
        rect = self._box.layout.rect
        return rect.y + (rect.height - height) / 2 + line * height / lines

    def _line_height(self, n_lines):
        return n_lines * self._text_size[1] / number_of_lines(self._parsed_text) + 1

    def render(self, ctx):
'''),(I,'''        def compute_y():
            text_lines = number_of_lines(self._parsed_text)
            line_height = self._text_size[1] / text_lines
            rect = self._box.layout.rect
            y = rect.y + (rect.height - self._text_size[1]) / 2
            return y + line_height * index

        def compute_height():
            text_lines = number_of_lines(self._parsed_text)
            return n_lines * self._text_size[1] / text_lines + 1

''',''''''),(I,'''        box_args.setdefault("y", LazyValue(compute_y))
        box_args.setdefault("height", LazyValue(compute_height))
        return''','''        box_args.setdefault("y", LazyValue(lambda: self._line_position(index)))
        box_args.setdefault("height", LazyValue(lambda: self._line_height(n_lines)))
        return'''),(I,'''        def compute_y():
            line_number = number_of_lines(self._parsed_text[:index]) - 1
            text_lines = number_of_lines(self._parsed_text)
            line_height = self._text_size[1] / text_lines
            rect = self._box.layout.rect
            y = rect.y + (rect.height - self._text_size[1]) / 2
            return y + line_height * line_number

        def compute_height():
            text_lines = number_of_lines(self._parsed_text)
            return self._text_size[1] / text_lines + 1

        line,''','''        line_number = number_of_lines(self._parsed_text[:index]) - 1
        line,'''),(I,'''        box_args.setdefault("y", LazyValue(compute_y))
        box_args.setdefault("width"''','''        box_args.setdefault("y", LazyValue(lambda: self._line_position(line_number)))
        box_args.setdefault("width"'''),(I,'''        box_args.setdefault("height", LazyValue(compute_height))

        return''','''        box_args.setdefault("height", LazyValue(lambda: self._line_height(1)))

        return''')]),
("ok-inline",IP,[(I,'''        count = n_th
        for (i, token) in enumerate(self._parsed_text):
            if token[0] == "begin" and token[1] == style_name:
                count -= 1
                if count == 0:
                    return self._text_box_helper(i, box_args)
''','''        found = 0
        for i, (kind, value) in enumerate(self._parsed_text):
            if kind != "begin" or value != style_name:
                continue
            found += 1
            if found == n_th:
                return self._text_box_helper(i, box_args)
''')]),
("ok-inline2",IP,[(I,'''        count = n_th
        for (i, token) in enumerate(self._parsed_text):
            if token[0] == "begin" and token[1] == style_name:
                count -= 1
                if count == 0:
                    return self._text_box_helper(i, box_args)
''','''        indices = [
            i
            for i, token in enumerate(self._parsed_text)
            if token[0] == "begin" and token[1] == style_name
        ]
        if n_th <= len(indices):
            return self._text_box_helper(indices[n_th - 1], box_args)
''')]),
("ok-inline3",IP,[(I,'''            if token[0] == "begin" and token[1] == style_name:
                count''','''            if token == ("begin", style_name):
                count''')]),
("ok-query-sizes",IP,[(I,'''        if not self._scale_to_fit:
            layout.ensure_width(width)
            layout.ensure_height(height)
        else:
            if layout.width_definition is None:
                layout.ensure_width(width)
            if layout.height_definition is None:
                layout.ensure_height(height)
        self._text_size = (width, height)
''','''        self._text_size = (width, height)
        fits = self._scale_to_fit
        if not fits or layout.width_definition is None:
            layout.ensure_width(width)
        if not fits or layout.height_definition is None:
            layout.ensure_height(height)
''')]),
("ok-render-order",IP,[(I,'''        rect = self._box.layout.rect
        scale = self._text_scale
        style = self._style
        x = text_x_in_rect(rect, style)
        y = rect.y + (rect.height - self._text_size[1]) / 2 + style.size * scale

        if scale > 0.00001:
            ctx.draw_text(
                rect=rect,
                x=x,
                y=y,
                parsed_text=self._parsed_text,
                style=style,
                styles=self._styles,
                scale=scale if self._scale_to_fit else None,
                rotation=self.rotation,
            )
''','''        scale = self._text_scale
        if scale <= 0.00001:
            return
        style = self._style
        rect = self._box.layout.rect
        top = rect.y + (rect.height - self._text_size[1]) / 2
        ctx.draw_text(
            rect,
            text_x_in_rect(rect, style),
            top + scale * style.size,
            self._parsed_text,
            style,
            self._styles,
            rotation=self.rotation,
            scale=scale if self._scale_to_fit else None,
        )
''')]),
("ok-checknum",YP,[(Y,'''    if (
        value is not None
        and not isinstance(value, int)
        and not isinstance(value, float)
    ):
        raise''','''    if not (value is None or isinstance(value, (int, float))):
        raise''')]),
("ok-update",YP,[(Y,'''        for slot in self.__slots__:
            value = getattr(style, slot)
            if value is not None:
                setattr(self, slot, value)
''','''        for name in self.__slots__:
            new = getattr(style, name)
            if new is None:
                continue
            setattr(self, name, new)
''')]),
("ok-copy",YP,[(Y,'''        copy = self.copy()
        copy.update(style)
        return copy
''','''        result = copy.copy(self)
        result.update(style)
        return result
''')]),
("ok-compose",YP,[(Y,'''    if isinstance(style, str):
        style_name = style
        style = styles.get(style_name)
        if style is None:
            raise Exception("Style '{}' not found".format(style_name))
        if style_name == "default":
            return style.copy()
    elif not isinstance(style, TextStyle):
        raise Exception("Invalid type used as a style: {}".format(repr(type(style))))

    if not full_style:
        return style.copy()

    return styles["default"].compose(style)
''','''    name = None
    if isinstance(style, str):
        name = style
        if name not in styles:
            raise Exception(f"Style '{name}' not found")
        style = styles[name]
    elif not isinstance(style, TextStyle):
        raise Exception("Invalid type used as a style: {!r}".format(type(style)))

    if full_style and name != "default":
        return styles["default"].compose(style)
    return style.copy()
''')]),
("ok-setstyle",YP,[(C,'''        if base != "default":
            base_style = self.get_style(base)
            base_style.update(style)
            style = base_style
        self._styles = self._styles.copy()
        self._styles[style_name] = style
        return style
''','''        if base != "default":
            style = self.get_style(base).compose(style)
        self._replace_style(style_name, style)
        return style

    def _replace_style(self, name, style):
        styles = dict(self._styles)
        styles[name] = style
        self._styles = styles
'''),(C,'''        old_style.update(style)
        self._styles = self._styles.copy()
        self._styles[style_name] = old_style
        return old_style
''','''        old_style.update(style)
        self._replace_style(style_name, old_style)
        return old_style
''')]),
("ok-setstyle2",YP,[(C,'''        self._styles = self._styles.copy()
        self._styles[style_name] = style
        return style
''','''        self._styles = {**self._styles, style_name: style}
        return style
''')]),
]
