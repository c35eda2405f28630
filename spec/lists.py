"""Specification tables of lists and Markdown (analysed, never executed)."""
import marko
from marko.block import BlankLine, FencedCode, Heading, List, ListItem, Paragraph, Quote
from marko.inline import Emphasis, LineBreak, Link, RawText, StrongEmphasis

from elsie.ext.list import ListBuilder, default_ol_label, default_ul_label, arabic_digit_render_fn
from elsie.ext.list import ordered_list, unordered_list
from elsie.ext.markdown import MarkdownContext, build, build_children, create_root_md_box, get_raw_text
from elsie.ext.markdown import build_blank_line, build_fenced_code, build_heading, build_list_top, build_paragraph, build_quote
from elsie.text.textparser import trim_indent
from elsie.text.textstyle import TextStyle


def list_init(self, parent, label, default_indent, label_padding, level=None, start=1, total_indent=0, **box_args):
    self.parent = parent
    self.label = label
    self.default_indent = default_indent
    self.label_padding = label_padding
    self.total_indent = total_indent
    self.level = (list(level) if level is not None else []) + [start - 1]
    args = dict(box_args)
    if "show" not in args:
        args["show"] = "last+"
    self.box_args = args


def enter(self):
    return self


def leave(self, exc_type, exc_val, exc_tb):
    return None


def item(self, label=None, label_padding=None, **box_args):
    self.level[-1] += 1
    gap = self.label_padding if label_padding is None else label_padding
    args = dict(self.box_args)
    args.update(box_args)
    args["horizontal"] = True
    row = self.parent.box(x="[0%]", p_left=self.total_indent, **args)
    row.update_style("default", TextStyle(align="left"))
    shown = self.label if label is None else label
    if shown is not None:
        place = row.box(y="[0%]")
        if callable(shown):
            shown(place, self.level)
        elif isinstance(shown, str):
            place.text(shown)
        else:
            raise Exception("label")
    return row.box(p_left=gap, width="fill")


def sublist(self, default_label, start=None, indent=None, label=None, level=None, **box_args):
    first = 1 if start is None else start
    assert first >= 1
    step = self.default_indent if indent is None else indent
    total = self.total_indent + step
    args = dict(self.box_args)
    args.update(box_args)
    box = self.parent.box(x="[0%]", p_left=total, **args)
    return ListBuilder(box, label or default_label, step, level=self.level if level is None else level, total_indent=total,
                       start=first, label_padding=self.label_padding, **args)


def make_ul(self, indent=None, label=None, **box_args):
    return self._create_sublist(default_ul_label, indent=indent, label=label, **box_args)


def make_ol(self, level=None, *, start=1, indent=None, label=None, **box_args):
    return self._create_sublist(default_ol_label, start, indent, label, level, **box_args)


def new_ul(parent, indent=10, label_padding=25, label=None, **default_box_args):
    return ListBuilder(parent.sbox(), label or default_ul_label, indent, label_padding, **default_box_args)


def new_ol(parent, indent=10, start=1, label_padding=25, label=None, **default_box_args):
    return ListBuilder(parent.sbox(), label or default_ol_label, indent, label_padding, start=start, **default_box_args)


def digits(box, level):
    box.text(".".join(str(i) for i in level) + ".")


# ------------------------------------------------------------------ Markdown
def md_context(self, box, escape_char, active_list=None):
    self.box = box
    self.escape_char = escape_char
    self.text_kwargs = {"escape_char": escape_char}
    self.active_list = active_list


def md_copy(self, **kwargs):
    args = {"box": self.box, "escape_char": self.escape_char, "active_list": self.active_list}
    args.update(kwargs)
    return MarkdownContext(**args)


def wrap(self, text, style):
    return self.escape_char + style + "{" + text + "}"


def raw_text(ctx, node):
    out = ""
    for child in node.children:
        if isinstance(child, RawText):
            out += child.children
        elif isinstance(child, Emphasis):
            out += ctx.escape_char + "md-italic" + "{" + get_raw_text(ctx, child) + "}"
        elif isinstance(child, StrongEmphasis):
            out += ctx.escape_char + "md-bold" + "{" + get_raw_text(ctx, child) + "}"
        elif isinstance(child, Link):
            out += ctx.escape_char + "md-link" + "{" + get_raw_text(ctx, child) + "}"
        elif isinstance(child, LineBreak):
            out += "\n"
    return out


def root_box(box):
    inner = box.box()
    table = {
        "md-paragraph": TextStyle(align="left"),
        "md-bold": TextStyle(align="left", bold=True),
        "md-italic": TextStyle(align="left", italic=True),
        "md-link": TextStyle(align="left", color="#0EBFE9"),
        "md-blockquote": TextStyle(align="left", color="#A9A9A9"),
        "md-h1": TextStyle(align="left", size=40),
        "md-h2": TextStyle(align="left", size=38),
        "md-h3": TextStyle(align="left", size=36),
        "md-h4": TextStyle(align="left", size=34),
        "md-h5": TextStyle(align="left", size=32),
        "md-h6": TextStyle(align="left", size=30),
    }
    for name, style in table.items():
        if not inner.has_style(name):
            inner.set_style(name, style)
    return inner


def put_text(ctx, text, style):
    ctx.box.sbox().text(text, style=style, **ctx.text_kwargs)


def heading(ctx, heading):
    assert 1 <= heading.level <= 6
    put_text(ctx, get_raw_text(ctx, heading), "md-h" + str(heading.level))


def paragraph(ctx, paragraph):
    put_text(ctx, get_raw_text(ctx, paragraph), "md-paragraph")


def blank_line(ctx, blank_line):
    put_text(ctx, "\n", "md-paragraph")


def quote(ctx, quote):
    container = ctx.box.sbox()
    container.update_style("default", container.get_style("md-blockquote"))
    inner = ctx.copy(box=container)
    for child in quote.children:
        build(inner, child)


def fenced(ctx, fenced_code):
    ctx.box.sbox().code(fenced_code.lang, get_raw_text(ctx, fenced_code))


def list_top(ctx, list_node):
    container = ctx.box.sbox()
    if list_node.ordered:
        if ctx.active_list:
            new = ctx.active_list.ol(start=list_node.start, level=())
        else:
            new = ordered_list(container, start=list_node.start)
    elif ctx.active_list:
        new = ctx.active_list.ul(label=list_node.bullet)
    else:
        new = unordered_list(container, label=list_node.bullet)
    for child in list_node.children:
        assert isinstance(child, ListItem)
        box = new.item()
        build_children(ctx.copy(box=box, active_list=new), child)


def build_node(ctx, node):
    cls = node.__class__
    if cls is Heading:
        build_heading(ctx, node)
    elif cls is Paragraph:
        build_paragraph(ctx, node)
    elif cls is BlankLine:
        build_blank_line(ctx, node)
    elif cls is Quote:
        build_quote(ctx, node)
    elif cls is FencedCode:
        build_fenced_code(ctx, node)
    elif cls is List:
        build_list_top(ctx, node)
    else:
        print("ignored")


def all_children(ctx, parent):
    for node in parent.children:
        build(ctx, node)


def md(root, markup, escape_char="~"):
    document = marko.parse(trim_indent(markup).strip())
    build_children(MarkdownContext(create_root_md_box(root), escape_char), document)
    return root
