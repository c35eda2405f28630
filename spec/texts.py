"""Placement of texts, line boxes and inline boxes (spec of T02), and of inline markup (T01)."""
from pygments import highlight
from pygments.lexers import get_lexer_by_name

from elsie.boxtree.lazy import LazyValue
from elsie.text.highlight import MyFormatter
from elsie.text.textboxitem import text_x_in_rect
from elsie.text.textparser import (
    _get_block_end_index, _open_blocks, _open_blocks_count, _tokens_merge_helper, extract_line, normalize_tokens, number_of_lines,
    tokens_to_text_without_style)


def anchor(rect, style):
    if style.align == "left":
        return rect.x
    if style.align == "middle":
        return rect.x + rect.width / 2
    if style.align == "right":
        return rect.x + rect.width
    raise Exception


def lines(parsed_text):
    n = 1
    for kind, value in parsed_text:
        if kind == "newline":
            n += value
    return n


def measure(self, backend):
    layout = self._box.layout
    style = self._style
    width = backend.compute_text_width(self._parsed_text, style, self._styles)
    height = lines(self._parsed_text) * style.size * style.line_spacing
    if not self._scale_to_fit or layout.width_definition is None:
        layout.ensure_width(width)
    if not self._scale_to_fit or layout.height_definition is None:
        layout.ensure_height(height)
    self._text_size = (width, height)


def render(self, ctx):
    rect = self._box.layout.rect
    x = text_x_in_rect(rect, self._style)
    if self._text_scale > 0.00001:
        ctx.draw_text(
            rect=rect,
            x=x,
            y=rect.y + rect.height / 2 - self._text_size[1] / 2 + self._style.size * self._text_scale,
            parsed_text=self._parsed_text,
            style=self._style,
            styles=self._styles,
            scale=self._text_scale if self._scale_to_fit else None,
            rotation=self.rotation,
        )


def line_top(self, n):
    rect = self._box.layout.rect
    return rect.y + (rect.height - self._text_size[1]) / 2 + n * self._text_size[1] / lines(self._parsed_text)


def line_box(self, index, n_lines=1, **box_args):
    box_args.setdefault("width", "fill")
    box_args.setdefault("x", 0)
    box_args.setdefault("y", LazyValue(lambda: line_top(self, index)))
    box_args.setdefault("height", LazyValue(lambda: n_lines * self._text_size[1] / lines(self._parsed_text) + 1))
    return self._box.box(**box_args)


def styled_part(self, index, box_args):
    line, position = extract_line(self._parsed_text, index)
    backend = self._box.slide.slides.backend
    left = backend.compute_text_x(line, self._style, self._styles, id_index=position)
    width = backend.compute_text_width(line, self._style, self._styles, id_index=position)
    box_args.setdefault("x", LazyValue(lambda: anchor(self._box.layout.rect, self._style) + left * self._text_scale))
    box_args.setdefault("y", LazyValue(lambda: line_top(self, lines(self._parsed_text[:index]) - 1)))
    box_args.setdefault("width", LazyValue(lambda: width * self._text_scale))
    box_args.setdefault("height", LazyValue(lambda: self._text_size[1] / lines(self._parsed_text) + 1))
    return self._box.box(**box_args)


def inline_box(self, style_name, n_th=1, **box_args):
    assert n_th > 0
    remaining = n_th
    for i, token in enumerate(self._parsed_text):
        if token[0] == "begin" and token[1] == style_name:
            remaining -= 1
            if remaining == 0:
                return self._text_box_helper(i, box_args)
    raise Exception


class Unspecified(Exception):
    """Inputs for which nothing is required."""


def line_of(tokens, index):
    if not 0 <= index < len(tokens):
        raise Unspecified
    if tokens[index][0] == "newline":
        raise Unspecified
    first = index
    while first >= 0 and tokens[first][0] != "newline":
        first -= 1
    first += 1
    end = index
    while end < len(tokens) and tokens[end][0] != "newline":
        end += 1
    opened = _open_blocks(tokens[:first])
    line = opened + tokens[first:end]
    return line + [("end", None)] * _open_blocks_count(line), index - first + len(opened)


def open_blocks(tokens):
    stack = []
    for token in tokens:
        if token[0] == "begin":
            stack.append(token)
        elif token[0] == "end":
            stack.pop()
    return stack


def open_count(tokens):
    n = 0
    for token in tokens:
        if token[0] == "begin":
            n += 1
        elif token[0] == "end":
            n -= 1
    return n


# -- inline markup
def parse(text, escape_char="~", begin_char="{", end_char="}"):
    tokens = []
    begin = 0
    i = 0
    depth = 0
    while i < len(text):
        c = text[i]
        if c == escape_char and text[i + 1:i + 2] == escape_char:
            tokens.append(("text", text[begin:i + 1]))
            i += 2
            begin = i
        elif c == escape_char:
            tokens.append(("text", text[begin:i]))
            i += 1
            begin = i
            while i < len(text) and text[i] != begin_char:
                i += 1
            tokens.append(("begin", text[begin:i]))
            i += 1
            begin = i
            depth += 1
        elif c == end_char and depth >= 1:
            tokens.append(("text", text[begin:i]))
            tokens.append(("end", None))
            i += 1
            begin = i
            depth -= 1
        else:
            i += 1
    if i != begin:
        tokens.append(("text", text[begin:i]))
    result = []
    for token in tokens:
        if token[0] == "text":
            rows = token[1].split("\n")
            result.append(("text", rows[0]))
            for row in rows[1:]:
                result.append(("newline", 1))
                result.append(("text", row))
        else:
            result.append(token)
    if depth > 0:
        raise Exception
    return normalize_tokens(result)


def normalized(tokens):
    result = []
    for token in tokens:
        kind, value = token
        if kind == "text" and not value:
            continue
        if kind == "newline" and result and result[-1][0] == "newline":
            result[-1] = ("newline", result[-1][1] + value)
            continue
        if kind == "end" and result[-1][0] == "newline":
            newline = result[-1]
            result[-1] = token
            result.append(newline)
            continue
        result.append(token)
    if result and result[-1][0] == "newline":
        result.pop()
    return result


def numbered(tokens):
    width = len(str(number_of_lines(tokens)))
    result = [("begin", "code_lineno"), ("text", "1".zfill(width) + " "), ("end", None)]
    n = 1
    for token in tokens:
        if token[0] != "newline":
            result.append(token)
            continue
        for i in range(token[1]):
            n += 1
            result.append(("newline", 1))
            result.append(("begin", "code_lineno"))
            result.append(("text", str(n).zfill(width) + " "))
            result.append(("end", None))
    return result


def block_end(tokens, index):
    assert tokens[index][0] == "begin"
    index += 1
    depth = 0
    while index < len(tokens):
        kind, value = tokens[index]
        if kind == "begin":
            depth += 1
        elif kind == "end":
            depth -= 1
            if depth < 0:
                return index
        index += 1


def plain(tokens):
    result = []
    for kind, value in tokens:
        if kind == "text":
            result.append(value)
        elif kind == "newline":
            result.append("\n" * value)
    return "".join(result)


def merged(tokens1, tokens2):
    tokens = _tokens_merge_helper(tokens1, tokens2)
    result = []
    opened = []
    for token in tokens:
        if token[0] != "_block":
            result.append(token)
            continue
        _, stream, t = token
        if t[0] == "begin":
            opened.append(token)
            result.append(t)
            continue
        assert t[0] == "end"
        again = []
        position = -1
        for _, other, t2 in reversed(opened):
            result.append(("end", None))
            if other == stream:
                break
            position -= 1
            again.append(t2)
        del opened[position]
        result.extend(reversed(again))
    assert not opened
    return normalize_tokens(result)


def interleaved(tokens1, tokens2):
    result = []
    tokens = (tokens1, tokens2)
    current = [None, None]
    indices = [0, 0]
    stacks = ([], [])

    def read(i):
        k = indices[i]
        if k >= len(tokens[i]):
            current[i] = ("<END>", None)
        else:
            current[i] = tokens[i][k]
        indices[i] += 1
        return current[i]

    def block(i):
        result.append(("_block", i, current[i]))
        read(i)

    read(0)
    read(1)
    while True:
        ((n1, v1), (n2, v2)) = current
        if n1 == "end" and (n2 != "end" or stacks[0] > stacks[1]):
            stacks[0].pop()
            block(0)
            continue
        if n2 == "end":
            stacks[1].pop()
            block(1)
            continue
        if n1 == "begin":
            i1 = indices[0] - 1
            if n2 == "begin":
                i2 = indices[1] - 1
                t1 = tokens_to_text_without_style(tokens[0][i1:_get_block_end_index(tokens[0], i1)])
                t2 = tokens_to_text_without_style(tokens[1][i2:_get_block_end_index(tokens[1], i2)])
                if len(t1) > len(t2):
                    stacks[0].append(i1)
                    block(0)
                    continue
            else:
                stacks[0].append(i1)
                block(0)
                continue
        if n2 == "begin":
            stacks[1].append(indices[0] - 1)
            block(1)
            continue
        if n1 == "<END>" or n2 == "<END>":
            assert n1 == "<END>" and n2 == "<END>"
            break
        if n1 == "newline" or n2 == "newline":
            assert n1 == "newline" and n2 == "newline"
            if v1 == v2:
                result.append(current[0])
                read(0)
                read(1)
            elif v1 < v2:
                result.append(current[0])
                current[1] = ("newline", v2 - v1)
                read(0)
            else:
                result.append(current[1])
                current[0] = ("newline", v1 - v2)
                read(1)
            continue
        assert n1 == "text" and n2 == "text"
        if len(v1) == len(v2):
            result.append(current[0])
            read(0)
            read(1)
        elif len(v1) < len(v2):
            result.append(current[0])
            read(0)
            current[1] = ("text", v2[len(v1):])
        else:
            result.append(current[1])
            read(1)
            current[0] = ("text", v1[len(v2):])
    return result


def without_indent(text):
    rows = text.splitlines(keepends=False)
    indent = min((len(row) - len(row.lstrip()) for row in rows if row.strip()), default=0)
    return "\n".join(row[indent:] for row in rows)


def formatted(self, tokensource, outfile):
    stream = self.stream
    for kind, value in tokensource:
        if value == "\n":
            stream.append(("newline", 1))
        else:
            stream.append(("begin", "pygments-" + str(kind)))
            if "\n" in value:
                for row in value.split("\n"):
                    if row:
                        stream.append(("text", row))
                    stream.append(("newline", 1))
                stream.pop()
            else:
                stream.append(("text", value))
            stream.append(("end", None))


def highlighted(code, language):
    lexer = get_lexer_by_name(language)
    formatter = MyFormatter()
    highlight(code, lexer, formatter)
    return normalize_tokens(formatter.stream)
