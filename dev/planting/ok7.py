LI='elsie/ext/list.py'; MD='elsie/ext/markdown.py'; LA='elsie/ext/latex.py'; EX='elsie/ext/export.py'; TD='elsie/ext/todo.py'
LZ='elsie/boxtree/lazy.py'; GE='elsie/utils/geom.py'; AR='elsie/shapes/arrow.py'; PA='elsie/shapes/path.py'; HL='elsie/text/highlight.py'
SC='elsie/text/stylecontainer.py'; OR='elsie/render/ora.py'; IM='elsie/render/image.py'; PM='elsie/render/pdfmerge.py'; SX='elsie/utils/sxml.py'; CA='elsie/utils/cache.py'
ML="U01 M01 E02 P01"
EDITS=[
("ok-list-level",ML,[(LI,'''        self.level = [] if level is None else list(level)
        self.level.append(start - 1)
''','''        parents = list(level) if level is not None else []
        self.level = parents + [start - 1]
''')]),
("ok-list-args",ML,[(LI,'''        args = dict(self.box_args)
        args.update(box_args)
        return parent.box(x="[0%]", p_left=total_indent, **args), total_indent
''','''        args = {**self.box_args, **box_args}
        box = parent.box(x="[0%]", p_left=total_indent, **args)
        return box, total_indent
'''),(LI,'''        args = dict(self.box_args)
        args.update(box_args)
        box_args["horizontal"] = True
        box, _ = self._create_box(self.parent, indent=0, **box_args)
''','''        box, _ = self._create_box(self.parent, 0, **dict(box_args, horizontal=True))
''')]),
("ok-list-show",ML,[(LI,'''        self.box_args = dict(box_args)
        if "show" not in self.box_args:
            self.box_args["show"] = "last+"
''','''        box_args.setdefault("show", "last+")
        self.box_args = box_args
''')]),
("ok-list-show2",ML,[(LI,'''        self.box_args = dict(box_args)
        if "show" not in self.box_args:
            self.box_args["show"] = "last+"
''','''        self.box_args = {"show": "last+", **box_args}
''')]),
("ok-list-label",ML,[(LI,'''        actual_label = label if label is not None else self.label
        if actual_label is not None:
            label_box = box.box(y="[0%]")
            if callable(actual_label):
                actual_label(label_box, self.level)
            elif isinstance(actual_label, str):
                label_box.text(actual_label)
            else:
                raise Exception("Label must be either a string or a function")
        return''','''        self._render_label(box, self.label if label is None else label)
        return'''),(LI,'''    def _create_sublist(
''','''    def _render_label(self, box, label):
        if label is None:
            return
        label_box = box.box(y="[0%]")
        if callable(label):
            label(label_box, self.level)
            return
        if not isinstance(label, str):
            raise Exception("Label must be either a string or a function")
        label_box.text(label)

    def _create_sublist(
''')]),
("x-list-digits",ML,[(LI,'''    label = ".".join(str(item) for item in level) + "."
    box.text(label)
''','''    label = ""
    for item in level:
        label += "{}.".format(item)
    box.text(label)
''')]),
("ok-list-digits2",ML,[(LI,'''    label = ".".join(str(item) for item in level) + "."
    box.text(label)
''','''    numbers = map(str, level)
    box.text("{}.".format(".".join(numbers)))
''')]),
("ok-list-indent",ML,[(LI,'''        new_indent = self.default_indent if indent is None else indent
        total_indent = self.total_indent + new_indent
''','''        if indent is None:
            indent = self.default_indent
        total_indent = self.total_indent + indent
''')]),
("ok-md-raw",ML,[(MD,'''    text = ""
    for child in node.children:
        if isinstance(child, RawText):
            text += child.children
        elif isinstance(child, Emphasis):
            text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_ITALIC_STYLE)
        elif isinstance(child, StrongEmphasis):
            text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_BOLD_STYLE)
        elif isinstance(child, Link):
            text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_LINK_STYLE)
        elif isinstance(child, LineBreak):
            text += "\\n"
    return text
''','''    parts = []
    for child in node.children:
        if isinstance(child, RawText):
            parts.append(child.children)
        elif isinstance(child, LineBreak):
            parts.append("\\n")
        else:
            for cls, style in INLINE_STYLES:
                if isinstance(child, cls):
                    parts.append(ctx.wrap_text_with_style(get_raw_text(ctx, child), style))
                    break
    return "".join(parts)
'''),(MD,'''def get_raw_text(''','''INLINE_STYLES = (
    (Emphasis, MD_ITALIC_STYLE),
    (StrongEmphasis, MD_BOLD_STYLE),
    (Link, MD_LINK_STYLE),
)


def get_raw_text(''')]),
("ok-md-dispatch",ML,[(MD,'''    cls = node.__class__
    if cls in MD_BUILD_FNS:
        MD_BUILD_FNS[cls](ctx, node)
    else:
        print(f"Warning: ignoring markdown node {node}")
''','''    build_fn = MD_BUILD_FNS.get(type(node))
    if build_fn is None:
        print(f"Warning: ignoring markdown node {node}")
        return
    build_fn(ctx, node)
''')]),
("ok-md-copy",ML,[(MD,'''        args = dict(
            box=self.box, escape_char=self.escape_char, active_list=self.active_list
        )
        args.update(kwargs)
        return MarkdownContext(**args)
''','''        return MarkdownContext(
            kwargs.get("box", self.box),
            kwargs.get("escape_char", self.escape_char),
            kwargs.get("active_list", self.active_list),
        )
''')]),
("ok-md-list",ML,[(MD,'''    if list_node.ordered:
        if ctx.active_list:
            new_list = ctx.active_list.ol(start=list_node.start, level=())
        else:
            new_list = ordered_list(container, start=list_node.start)
    else:
        if ctx.active_list:
            new_list = ctx.active_list.ul(label=list_node.bullet)
        else:
            new_list = unordered_list(container, label=list_node.bullet)
''','''    active = ctx.active_list
    if active and list_node.ordered:
        new_list = active.ol(level=(), start=list_node.start)
    elif active:
        new_list = active.ul(label=list_node.bullet)
    elif list_node.ordered:
        new_list = ordered_list(container, start=list_node.start)
    else:
        new_list = unordered_list(container, label=list_node.bullet)
''')]),
("ok-md-styles",ML,[(MD,'''    for i in range(6):
        styles[md_heading_style_name(i + 1)] = default.compose(s(size=40 - i * 2))

    for (name, style) in styles.items():
        if not box.has_style(name):
            box.set_style(name, style)
''','''    for level in range(1, 7):
        styles[md_heading_style_name(level)] = default.compose(s(size=42 - level * 2))

    for name in styles:
        if box.has_style(name):
            continue
        box.set_style(name, styles[name])
''')]),
("ok-md-strip",ML,[(MD,'''    markup = trim_indent(markup).strip()
    document = marko.parse(markup)

    wrapper = create_root_md_box(root)

    ctx = MarkdownContext(wrapper, escape_char)
    build_children(ctx, document)
''','''    document = marko.parse(trim_indent(markup).strip())
    ctx = MarkdownContext(create_root_md_box(root), escape_char=escape_char)
    for node in document.children:
        build(ctx, node)
''')]),
("ok-latex-run",ML,[(LA,'''        p = subprocess.Popen(
            args,
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            cwd=wdir,
        )

        _stdout, _stderr = p.communicate()
        if p.returncode != 0:
            with''','''        if run_tool(args, wdir).returncode != 0:
            with'''),(LA,'''        p = subprocess.Popen(
            args,
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            cwd=wdir,
        )

        _stdout, stderr = p.communicate()
        if p.returncode != 0:
            raise Exception("pdf2svg failed:\\n" + stderr.decode())
''','''        p = run_tool(args, wdir)
        if p.returncode != 0:
            raise Exception("pdf2svg failed:\\n" + p.stderr.decode())
'''),(LA,'''def _render_latex(text):
''','''def run_tool(args, wdir):
    return subprocess.run(
        args,
        stdin=subprocess.PIPE,
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        cwd=wdir,
    )


def _render_latex(text):
''')]),
("ok-latex-run2",ML,[(LA,'''        p = subprocess.Popen(
            args,
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            cwd=wdir,
        )

        _stdout, _stderr = p.communicate()
        if p.returncode != 0:
            with''','''        returncode, _ = run_tool(args, wdir)
        if returncode != 0:
            with'''),(LA,'''        p = subprocess.Popen(
            args,
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            cwd=wdir,
        )

        _stdout, stderr = p.communicate()
        if p.returncode != 0:
            raise Exception("pdf2svg failed:\\n" + stderr.decode())
''','''        returncode, stderr = run_tool(args, wdir)
        if returncode != 0:
            raise Exception("pdf2svg failed:\\n" + stderr.decode())
'''),(LA,'''def _render_latex(text):
''','''def run_tool(args, wdir):
    p = subprocess.Popen(
        args,
        stdin=subprocess.PIPE,
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        cwd=wdir,
    )
    _stdout, stderr = p.communicate()
    return p.returncode, stderr


def _render_latex(text):
''')]),
("ok-latex-hash",ML,[(LA,'''    h = hashlib.md5()
    h.update(text.encode())
    suffix = "-" + h.hexdigest()
    rename_ids(root, suffix)
''','''    rename_ids(root, "-" + hashlib.md5(text.encode()).hexdigest())
''')]),
("ok-latex-join",ML,[(LA,'''    tex_text = "{}\\n{}\\n{}".format(header, text, tail)
''','''    tex_text = "\\n".join((header, text, tail))
''')]),
("ok-latex-header",ML,[(LA,'''    if header is None:
        header = """
''','''    if header is None:
        header = DEFAULT_HEADER
    if tail is None:
        tail = "\\\\end{document}"

    tex_text = f"{header}\\n{text}\\n{tail}"
    box = parent._get_box()
    svg = box.slide.fs_cache.get(tex_text, "svg", _render_latex)
    root = et.fromstring(svg)
    width, height = (svg_size_to_pixels(root.get(k)) * scale for k in ("width", "height"))

    box.layout.ensure_width(width)
    box.layout.ensure_height(height)

    def draw(ctx):
        _draw(parent, svg, width, height, scale, ctx)

    item = SimpleBoxItem(box, draw)
    box.add_child(item)
    return item


DEFAULT_HEADER = """
'''),(LA,'''\\\\begin{document}"""

    if tail is None:
        tail = "\\\\end{document}"

    tex_text = "{}\\n{}\\n{}".format(header, text, tail)

    box = parent._get_box()
    svg = box.slide.fs_cache.get(tex_text, "svg", _render_latex)
    root = et.fromstring(svg)
    svg_width = svg_size_to_pixels(root.get("width")) * scale
    svg_height = svg_size_to_pixels(root.get("height")) * scale

    box.layout.ensure_width(svg_width)
    box.layout.ensure_height(svg_height)

    draw = functools.partial(_draw, parent, svg, svg_width, svg_height, scale)
    item = SimpleBoxItem(box, draw)
    box.add_child(item)
    return item
''','''\\\\begin{document}"""
''')]),
("ok-export",  "E02 K01 F01 U01",[(EX,'''    for layout in pr.slide_layouts:
        if layout.name == "Blank":
            break
    else:
        raise Exception("Blank layout not found")
''','''    layout = next((x for x in pr.slide_layouts if x.name == "Blank"), None)
    if layout is None:
        raise Exception("Blank layout not found")
''')]),
("ok-export2",  "E02 K01 F01 U01",[(EX,'''    images = slide_deck.render(None, export_type="png", **render_args)
    for image in images:
        slide = pr.slides.add_slide(layout)
        slide.shapes.add_picture(image, 0, 0, pr.slide_width, pr.slide_height)
''','''    width, height = pr.slide_width, pr.slide_height
    for image in slide_deck.render(None, export_type="png", **render_args):
        pr.slides.add_slide(layout).shapes.add_picture(image, 0, 0, width, height)
''')]),
("ok-todo","U01 E02",[(TD,'''    if name:
        text = f"TODO\\n{name}"
    else:
        text = "TODO"
''','''    text = "TODO" if not name else "TODO\\n" + str(name)
''')]),
("ok-lazy","L04 G01 L03 L02",[(LZ,'''        return self.map(lambda v: v + value)
''','''        return LazyValue(lambda: self.eval() + value)
'''),(LZ,'''        return LazyPoint(self.x.map(lambda v: v + x), self.y.map(lambda v: v + y))
''','''        return LazyPoint(self.x.add(x), self.y.add(y))
''')]),
("ok-lazy2","L04 G01 G02 L03 B01",[(LZ,'''    if isinstance(obj, LazyValue):
        return obj.eval()
    else:
        return obj
''','''    return obj.eval() if isinstance(obj, LazyValue) else obj
'''),(LZ,'''    return eval_value(pair[0]), eval_value(pair[1])
''','''    x, y = pair
    return eval_value(x), eval_value(y)
'''),(LZ,'''    if (isinstance(obj, tuple) or isinstance(obj, list)) and len(obj) == 2:
        return box.x(obj[0]), box.y(obj[1])
    raise Exception("Invalid point: {!r}".format(obj))
''','''    if not isinstance(obj, (tuple, list)) or len(obj) != 2:
        raise Exception("Invalid point: {!r}".format(obj))
    x, y = obj
    return box.x(x), box.y(y)
''')]),
("ok-geom","G01 G02 L01 L04",[(GE,'''    return math.sqrt(dx * dx + dy * dy)
''','''    return math.sqrt(dx ** 2 + dy ** 2)
'''),(GE,'''    xs = sum([p[0] for p in points])
    ys = sum([p[1] for p in points])
    return (xs / len(points), ys / len(points))
''','''    count = len(points)
    return sum(p[0] for p in points) / count, sum(p[1] for p in points) / count
''')]),
("ok-geom-hypot","G01 G02 L01 L04",[(GE,'''    dx, dy = segment_delta(p1, p2)
    return math.sqrt(dx * dx + dy * dy)
''','''    return math.hypot(*segment_delta(p1, p2))
''')]),
("ok-geom-centroid","G01 G02 L01 L04 B02 B03",[(GE,'''    xs = sum([p[0] for p in points])
    ys = sum([p[1] for p in points])
    return (xs / len(points), ys / len(points))
''','''    xs = ys = 0
    for x, y in points:
        xs += x
        ys += y
    return xs / len(points), ys / len(points)
''')]),
("ok-geom-resize","G01 G02 L01 L04 B02 B03",[(GE,'''    dx, dy = segment_delta(p1, p2)
    ln = segment_len(p1, p2)
    t = 1 + (len_change / ln)
    return p1[0] + dx * t, p1[1] + dy * t
''','''    x, y = p1
    dx, dy = segment_delta(p1, p2)
    length = segment_len(p1, p2)
    factor = (length + len_change) / length
    return x + dx * factor, y + dy * factor
''')]),
("ok-rect","G01 G02 L01 L04",[(GE,'''        return Rect(position=self.position, size=self.size)
''','''        return Rect(self.x, self.y, self.width, self.height)
'''),(GE,'''        return (
            self.x == other.x
            and self.y == other.y
            and self.width == other.width
            and self.height == other.height
        )
''','''        return self.position == other.position and self.size == other.size
'''),(GE,'''        return self.mid_x, self.mid_y
''','''        return self.x + self.width / 2, self.y + self.height / 2
''')]),
("ok-rect2","G01 G02 L01 L04",[(GE,'''            self.width - left - right,
            self.height - top - bottom,
''','''            self.width - (left + right),
            self.height - (top + bottom),
''')]),
("ok-arrow","G01 G02 B01 B02 B03",[(AR,'''        points = [(x1, y1), p2, (x2, y2)]
''','''        points = [(x1, y1), (px, py), (x2, y2)]
'''),(AR,'''        if not self.stroke_width:
            shift = math.cos(self.angle) * self.size / 2
        else:
            shift = self.stroke_width / 2
        return segment_resize(p1, p2, -shift)
''','''        if self.stroke_width:
            return segment_resize(p1, p2, -self.stroke_width / 2)
        return segment_resize(p1, p2, -(math.cos(self.angle) * self.size) / 2)
''')]),
("ok-arrow2","G01 G02 B01 B02 B03",[(AR,'''        x1 = px + self.size * math.sin(a - self.angle)
        y1 = py + self.size * math.cos(a - self.angle)
        x2 = px + self.size * math.sin(a + self.angle)
        y2 = py + self.size * math.cos(a + self.angle)

        points = [(x1, y1), p2, (x2, y2)]
''','''        def corner(angle):
            return px + self.size * math.sin(angle), py + self.size * math.cos(angle)

        points = [corner(a - self.angle), p2, corner(a + self.angle)]
''')]),
("ok-arrow-radians","G01 G02 B01 B02 B03",[(AR,'''        self.angle = angle * math.pi / 180
''','''        self.angle = math.radians(angle)
''')]),
("ok-path","G01 G02 B01 B02 B03 L04",[(PA,'''        if (
            not isinstance(command, tuple) and not isinstance(command, list)
        ) or not command:
            raise Exception("Invalid command: '{!r}'".format(command))
        name = command[0]
        nargs = COMMAND_NARGS.get(name)
        if nargs is None:
            raise Exception("Invalid command name: '{}'".format(name))
        if (len(command) - 1) % nargs != 0:
''','''        if not isinstance(command, (tuple, list)) or len(command) == 0:
            raise Exception("Invalid command: '{!r}'".format(command))
        name, *points = command
        if name not in COMMAND_NARGS:
            raise Exception("Invalid command name: '{}'".format(name))
        nargs = COMMAND_NARGS[name]
        if len(points) % nargs:
'''),(PA,'''        unpacked = tuple(unpack_point(p, box) for p in command[1:])
        result.append((name, unpacked))
''','''        result.append((name, tuple(unpack_point(p, box) for p in points)))
''')]),
("ok-path-eval","G01 G02 B01 B02 B03 L04",[(PA,'''    result = []
    for name, pairs in commands:
        result.append((name, [eval_pair(p) for p in pairs]))
    return result
''','''    return [(name, list(map(eval_pair, pairs))) for name, pairs in commands]
''')]),
("ok-path-arrow","G01 G02 B01 B02 B03 L04",[(PA,'''    if len(pairs) >= 2:
        return pairs[-2], pairs[-1]
    if len(commands) >= 2:
        return commands[-2][1][-1], pairs[-1]
    else:
        raise Exception("Unsuported commands for end errow")
''','''    end = pairs[-1]
    if len(pairs) > 1:
        return pairs[-2], end
    if len(commands) < 2:
        raise Exception("Unsuported commands for end errow")
    _, previous = commands[-2]
    return previous[-1], end
''')]),
("ok-highlight","T01 T02 S01 S02",[(HL,'''                if "\\n" in value:
                    for t in value.split("\\n"):
                        if t:
                            stream.append(("text", t))
                        stream.append(NEWLINE_1)
                    stream.pop()
                else:
                    stream.append(("text", value))
''','''                for i, t in enumerate(value.split("\\n")):
                    if i:
                        stream.append(NEWLINE_1)
                    if t:
                        stream.append(("text", t))
''')]),
("ok-highlight2","T01 T02 S01 S02",[(HL,'''            if value == "\\n":
                stream.append(NEWLINE_1)
            else:
                stream.append(("begin", "pygments-" + str(ttype)))
                if''','''            if value == "\\n":
                stream.append(NEWLINE_1)
                continue
            if True:
                stream.append(("begin", f"pygments-{ttype}"))
                if''')]),
("ok-hl-styles","T01 T02 S01 S02",[(HL,'''        style = TextStyle()
        if s["color"]:
            style.color = "#" + s["color"]
        if s["bold"]:
            style.bold = True
        if s["italic"]:
            style.italic = True
        results["pygments-" + str(token)] = style
    return results
''','''        results["pygments-" + str(token)] = TextStyle(
            color="#" + s["color"] if s["color"] else None,
            bold=True if s["bold"] else None,
            italic=True if s["italic"] else None,
        )
    return results
''')]),
("ok-styles","S01 S02",[(SC,'''        self._styles = self._styles.copy()
        self._styles[style_name] = old_style
        return old_style
''','''        self._styles = {**self._styles, style_name: old_style}
        return old_style
'''),(SC,'''        if base != "default":
            base_style = self.get_style(base)
            base_style.update(style)
            style = base_style
        self._styles = self._styles.copy()
        self._styles[style_name] = style
''','''        if base != "default":
            composed = self.get_style(base)
            composed.update(style)
        else:
            composed = style
        style = composed
        styles = dict(self._styles)
        styles[style_name] = style
        self._styles = styles
''')]),
("ok-ora","F04 X01 X02 I01 N01 M01 E01",[(OR,'''    source = sources[element.get("src")]
    if source is None:
        return
    data, mime, x, y, image_width, image_height = source
    extra_args = [("inkscape:label", element.get("name"))]
    opacity = float(element.get("opacity"))
    if opacity is not None and opacity < 0.9999:
        extra_args.append(("opacity", opacity))
''','''    source = sources[element.get("src")]
    if source is None:
        return
    data, mime, x, y, image_width, image_height = source

    opacity = float(element.get("opacity"))
    extra_args = [("inkscape:label", element.get("name"))]
    if opacity < 0.9999:
        extra_args += [("opacity", opacity)]
''')]),
("ok-ora-visible","F04 X01 X02 I01 N01 M01 E01",[(OR,'''def _stack_to_svg(element, xml, sources):
    if not _check_visibility(element):
        return
''','''def _stack_to_svg(element, xml, sources):
'''),(OR,'''def _layer_to_svg(element, xml, sources):
    if not _check_visibility(element):
        return
''','''def _layer_to_svg(element, xml, sources):
'''),(OR,'''    for e in reversed(element):
        if e.tag == "stack":
''','''    for e in reversed(element):
        if not _check_visibility(e):
            continue
        if e.tag == "stack":
''')]),
("ok-image","F04 F03 I01 M01",[(IM,'''    steps = 1
    for element in root.iter():
        show_info = parse_show_info_from_label(element)
        if show_info is not None:
            steps = max(steps, show_info.min_steps())
    return steps
''','''    infos = (parse_show_info_from_label(element) for element in root.iter())
    return max([1] + [info.min_steps() for info in infos if info is not None])
''')]),
("ok-image2","F04 F03 I01 M01",[(IM,'''            show_info = parse_show_info_from_label(child)
            if show_info is not None and not show_info.is_visible(step):
                hidden.append((element, child))
                continue
            find_hidden_elements(child)
''','''            show_info = parse_show_info_from_label(child)
            if show_info is None or show_info.is_visible(step):
                find_hidden_elements(child)
            else:
                hidden.append((element, child))
'''),(IM,'''    return any(parse_show_info_from_label(e) is not None for e in root.iter())
''','''    for e in root.iter():
        if parse_show_info_from_label(e) is not None:
            return True
    return False
''')]),
("ok-merge","E02 U01 N01 W01",[(PM,'''        args = []
        for c in self.command:
            if c == "INPUTS":
                args += self.filenames
            elif c == "OUTPUT":
                args.append(output)
            else:
                args.append(c)
''','''        args = []
        for c in self.command:
            if c == "INPUTS":
                args.extend(self.filenames)
            else:
                args.append(output if c == "OUTPUT" else c)
'''),(PM,'''        if not debug:
            stdout = stderr = subprocess.DEVNULL
        else:
            stdout = stderr = None
        subprocess.check_call(args, stdout=stdout, stderr=stderr)
''','''        target = None if debug else subprocess.DEVNULL
        subprocess.check_call(args, stdout=target, stderr=target)
''')]),
("ok-merge2","E02 U01 N01 W01",[(PM,'''        subprocess.check_call(args, stdout=stdout, stderr=stderr)
''','''        subprocess.run(args, stdout=stdout, stderr=stderr, check=True)
''')]),
("ok-sxml","X01 X02 N01 B02 W01",[(SX,'''        if self.is_open:
            self.is_open = False
            self.stack.pop()
            self.chunks.append(" />")
        else:
            self.chunks.append("</")
            self.chunks.append(self.stack.pop())
            self.chunks.append(">")
''','''        name = self.stack.pop()
        if self.is_open:
            self.is_open = False
            self.chunks.append(" />")
            return
        self.chunks.append("</{}>".format(name))
'''),(SX,'''        self.chunks.append("<")
        self.chunks.append(name)
        self.stack.append(name)
''','''        self.chunks.append("<" + name)
        self.stack.append(name)
'''),(SX,'''            for chunk in self.chunks:
                f.write(chunk)
''','''            f.writelines(self.chunks)
''')]),
("ok-sxml2","X01 X02 N01 B02 W01",[(SX,'''    text = text.replace("&", "&amp;")
    text = text.replace("<", "&lt;")
    text = text.replace(">", "&gt;")
    return text
''','''    for char, entity in (("&", "&amp;"), ("<", "&lt;"), (">", "&gt;")):
        text = text.replace(char, entity)
    return text
''')]),
("ok-sxml3","X01 X02 N01 B02 W01",[(SX,'''        with open(filename, "w", encoding="utf-8") as f:
            for chunk in self.chunks:
                f.write(chunk)
''','''        with open(filename, "w", encoding="utf-8") as f:
            f.write(self.to_string())
''')]),
("ok-cache","C01 C02 C03 C04 C05 W01",[(CA,'''        self.hasher = hashlib.sha1()
        self.hasher.update(start)
''','''        self.hasher = hashlib.sha1(start)
'''),(CA,'''        self.cache_files = {
            filename
            for filename in os.listdir(cache_dir)
            if filename.startswith("cache.")
        }
''','''        self.cache_files = set()
        for filename in os.listdir(cache_dir):
            if filename.startswith("cache."):
                self.cache_files.add(filename)
'''),(CA,'''            for filename in self.cache_files.difference(self.touched_files):
                full_path = self._full_path(filename)
                if os.path.exists(full_path):
                    os.remove(full_path)
                self.cache_files.remove(filename)
''','''            unused = self.cache_files - self.touched_files
            for filename in unused:
                full_path = self._full_path(filename)
                if os.path.exists(full_path):
                    os.remove(full_path)
            self.cache_files -= unused
''')]),
("ok-cache2","C01 C02 C03 C04 C05 W01",[(CA,'''        data = None''','''        data = None''')] if False else [(CA,'''            condition = self.in_progress.get(cache_file)
            while condition is not None:
                if not wait_on_collision:
                    return full_path
                condition.wait()
                condition = self.in_progress.get(cache_file)
''','''            while cache_file in self.in_progress:
                if not wait_on_collision:
                    return full_path
                self.in_progress[cache_file].wait()
''')]),
("ok-cache3","C01 C02 C03 C04 C05 W01",[(CA,'''            if cache_file in self.cache_files and os.path.exists(full_path):
                return full_path
            condition = threading.Condition(self.lock)
            self.in_progress[cache_file] = condition
''','''            if self._is_ready(cache_file):
                return full_path
            condition = self.in_progress[cache_file] = threading.Condition(self.lock)
'''),(CA,'''    def _build(self''','''    def _is_ready(self, cache_file):
        return cache_file in self.cache_files and os.path.exists(
            self._full_path(cache_file)
        )

    def _build(self''')]),
]
