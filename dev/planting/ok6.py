C="elsie/render/backends/cairo/"; T=C+"text.py"; R=C+"rcontext.py"; D=C+"draw.py"; S=C+"shapes.py"; V=C+"svg.py"; U=C+"utils.py"; B=C+"backend.py"
TP="B04 B01 B02 T02 L02 X02"
DP="B02 B03 B05 L02 B01 G02 E02 R01"
EDITS=[
("ok-color",TP,[(T,'''    r, g, b = color
    max = 2**16 - 1
    return (int(r * max), int(g * max), int(b * max))
''','''    limit = 65535
    return tuple(int(v * limit) for v in color)
''')]),
("ok-attrs",TP,[(T,'''    attrs = [
        Attribute.from_size_absolute(to_pango_units(style.size), **kwargs),
        Attribute.from_family(style.font, **kwargs),
        Attribute.from_foreground_color(
            *to_pango_color(get_rgb_color(style.color)), **kwargs
        ),
    ]
''','''    color = to_pango_color(get_rgb_color(style.color))
    attrs = []
    attrs.append(Attribute.from_size_absolute(to_pango_units(style.size), **kwargs))
    attrs.append(Attribute.from_family(style.font, **kwargs))
    attrs.append(Attribute.from_foreground_color(*color, **kwargs))
''')]),
("ok-attrs2",TP,[(T,'''    weight = pangocffi.Weight.BOLD if style.bold else pangocffi.Weight.NORMAL
    attrs.append(Attribute.from_weight(weight, **kwargs))

    style = pangocffi.Style.ITALIC if style.italic else pangocffi.Style.NORMAL
    attrs.append(Attribute.from_style(style, **kwargs))
    return attrs
''','''    if style.bold:
        weight = pangocffi.Weight.BOLD
    else:
        weight = pangocffi.Weight.NORMAL
    slant = pangocffi.Style.ITALIC if style.italic else pangocffi.Style.NORMAL
    return attrs + [
        Attribute.from_weight(weight, **kwargs),
        Attribute.from_style(slant, **kwargs),
    ]
''')]),
("ok-push",TP,[(T,'''    def push_attrs(style, start_index, end_index):
        for attr in style_to_attributes(style, text_scale, start_index, end_index):
            attr_list.insert(attr)

    def active_style():
        return [style for style in reversed(base_style) if style is not None][0]
''','''    def push_attrs(style, start_index, end_index):
        attributes = style_to_attributes(style, text_scale, start_index, end_index)
        for attribute in attributes:
            attr_list.insert(attribute)

    def active_style():
        return next(s for s in reversed(base_style) if s is not None)
''')]),
("ok-push2",TP,[(T,'''            push_attrs(active_style(), start, byte_length(text))
            start = byte_length(text)
            base_style.pop()
''','''            end = byte_length(text)
            push_attrs(active_style(), start, end)
            start = end
            base_style.pop()
''')]),
("ok-begin",TP,[(T,'''            if value.startswith("#"):
                base_style.append(None)
            else:
                current_style = active_style()
                this_style = styles.get(value)
                if this_style is None:
                    raise Exception("Style '{}' not found".format(value))
                if current_style.priority > this_style.priority:
                    base_style.append(None)
                else:
                    base_style.append(current_style.compose(this_style))
''','''            new_style = None
            if not value.startswith("#"):
                current_style = active_style()
                if value not in styles:
                    raise Exception(f"Style '{value}' not found")
                this_style = styles[value]
                if this_style.priority >= current_style.priority:
                    new_style = current_style.compose(this_style)
            base_style.append(new_style)
''')]),
("ok-newline",TP,[(T,'''            for _ in range(value):
                if not line:
                    # This fixes the height of empty lines
                    text += INVISIBLE_SPACE
                text += "\\n"
                line = ""
''','''            for _ in range(value):
                text += "\\n" if line else INVISIBLE_SPACE + "\\n"
                line = ""
''')]),
("ok-newline2",TP,[(T,'''            for _ in range(value):
                if not line:
                    # This fixes the height of empty lines
                    text += INVISIBLE_SPACE
                text += "\\n"
                line = ""
''','''            if not line:
                # This fixes the height of empty lines
                text += INVISIBLE_SPACE
            text += (INVISIBLE_SPACE).join(["\\n"] * value)
            line = ""
''')]),
("ok-lineflag",TP,[(T,'''    line = ""
    for (token''','''    empty_line = True
    for (token'''),(T,'''            line += value
            text += value
''','''            if value:
                empty_line = False
            text += value
'''),(T,'''                if not line:
''','''                if empty_line:
'''),(T,'''                line = ""
''','''                empty_line = True
''')]),
("ok-layout",TP,[(T,'''    height = get_text_height(pctx, style, resolution_scale)

    assert style.line_spacing >= 1.0
    spacing = (style.line_spacing * style.size) - height
    layout.set_spacing(to_pango_units(spacing * spacing_scale))

    return layout
''','''    assert style.line_spacing >= 1.0
    text_height = get_text_height(pctx, style, resolution_scale)
    line_height = style.size * style.line_spacing
    layout.set_spacing(to_pango_units(spacing_scale * (line_height - text_height)))
    return layout
''')]),
("ok-layout2",TP,[(T,'''    layout.set_alignment(get_pango_alignment(style))
    text, attributes = get_text_and_attributes(parsed_text, style, styles, text_scale)
    layout.set_text(text)
    layout.set_attributes(attributes)
''','''    text, attributes = get_text_and_attributes(parsed_text, style, styles, text_scale)
    layout.set_text(text)
    layout.set_attributes(attributes)
    layout.set_alignment(get_pango_alignment(style))
''')]),
("ok-height",TP,[(T,'''    descent = from_pango_units(pangocffi.pango.pango_font_metrics_get_descent(ret))
    ascent = from_pango_units(pangocffi.pango.pango_font_metrics_get_ascent(ret))
    return (ascent + descent) * resolution_scale
''','''    ascent = from_pango_units(pangocffi.pango.pango_font_metrics_get_ascent(ret))
    descent = from_pango_units(pangocffi.pango.pango_font_metrics_get_descent(ret))
    return resolution_scale * (descent + ascent)
''')]),
("ok-rect",TP,[(T,'''    return Rect(
        x=from_pango_units(rect.x),
        y=from_pango_units(rect.y),
        width=from_pango_units(rect.width),
        height=from_pango_units(rect.height),
    )
''','''    values = [from_pango_units(v) for v in (rect.x, rect.y, rect.width, rect.height)]
    return Rect(*values)
''')]),
("ok-extents",TP,[(T,'''    rect_logical, rect_ink = layout.get_extents()
    return from_pango_rect(rect_ink if ink else rect_logical)
''','''    extents = layout.get_extents()
    return from_pango_rect(extents[1 if ink else 0])
''')]),
("ok-range",TP,[(T,'''            if stack.pop() == id_index:
                return (start, byte_count)
''','''            opened = stack.pop()
            if opened == id_index:
                return start, byte_count
''')]),
("ok-sub",TP,[(T,'''        if byte_offset >= end or not iter.next_char():
            break
''','''        if byte_offset >= end:
            break
        if not iter.next_char():
            break
''')]),
("ok-sub2",TP,[(T,'''    while True:
        byte_offset = iter.get_index()
        if start <= byte_offset < end:
            extents = from_pango_rect(iter.get_char_extents())
            if x is None:
                assert start == byte_offset
                x = extents.x
            width += extents.width

        if byte_offset >= end or not iter.next_char():
            break
''','''    while True:
        byte_offset = iter.get_index()
        if byte_offset >= end:
            break
        if byte_offset >= start:
            extents = from_pango_rect(iter.get_char_extents())
            if x is None:
                assert start == byte_offset
                x = extents.x
            width += extents.width
        if not iter.next_char():
            break
''')]),
("ok-align",TP,[(T,'''    return PANGO_ALIGNMENTS[style.align]
''','''    align = style.align
    if align == "middle":
        return pangocffi.Alignment.CENTER
    if align == "left":
        return pangocffi.Alignment.LEFT
    return pangocffi.Alignment.RIGHT
''')]),
("ok-ctx",DP,[(R,'''        self.device_width = width * RESOLUTION_SCALE
        self.device_height = height * RESOLUTION_SCALE
''','''        self.device_width = width * CAIRO_DPI / TARGET_DPI
        self.device_height = height * CAIRO_DPI / TARGET_DPI
''')]),
("ok-ctx2",DP,[(R,'''            self.surface = cairo.PDFSurface(
                self.filename, self.device_width, self.device_height
            )
            self.reference_ctx = self.ctx = cairo.Context(self.surface)
            self.ctx.scale(RESOLUTION_SCALE, RESOLUTION_SCALE)
''','''            self.surface = self._pdf_surface(self.filename)
            self.ctx = self._scaled_context(self.surface)
            self.reference_ctx = self.ctx
'''),(R,'''            reference_surface = cairo.PDFSurface(
                None, self.device_width, self.device_height
            )
            self.reference_ctx = cairo.Context(reference_surface)
            self.reference_ctx.scale(RESOLUTION_SCALE, RESOLUTION_SCALE)
''','''            self.reference_ctx = self._scaled_context(self._pdf_surface(None))
'''),(R,'''    def draw_rect(
        self,
        rect: Rect,''','''    def _pdf_surface(self, filename):
        return cairo.PDFSurface(filename, self.device_width, self.device_height)

    def _scaled_context(self, surface):
        ctx = cairo.Context(surface)
        ctx.scale(RESOLUTION_SCALE, RESOLUTION_SCALE)
        return ctx

    def draw_rect(
        self,
        rect: Rect,''')]),
("ok-rect2",DP,[(R,'''            def draw():
                self.ctx.rectangle(rect.x, rect.y, rect.width, rect.height)

            def draw_rounded():
                rounded_rectangle(
                    self.ctx, rect.x, rect.y, rect.width, rect.height, rx, ry
                )

            draw_fn = draw_rounded if rx or ry else draw
            fill_stroke_shape(self.ctx, draw_fn, **kwargs)
''','''            def draw():
                args = (self.ctx, rect.x, rect.y, rect.width, rect.height)
                if rx or ry:
                    rounded_rectangle(*args, rx, ry)
                else:
                    self.ctx.rectangle(*args[1:])

            fill_stroke_shape(self.ctx, draw, **kwargs)
''')]),
("ok-rect3",DP,[(R,'''        if rx is None:
            rx = ry
        if ry is None:
            ry = rx

        with''','''        if rx is None:
            rx = ry
        elif ry is None:
            ry = rx

        with''')]),
("ok-ellipse",DP,[(R,'''        dim_larger = rect.width
        dim_smaller = rect.height
        if dim_larger < dim_smaller:
            dim_larger, dim_smaller = dim_smaller, dim_larger
        scale_x = 1.0 if dim_larger == rect.width else dim_smaller / dim_larger
        scale_y = 1.0 if dim_larger == rect.height else dim_smaller / dim_larger
''','''        dim_larger = max(rect.width, rect.height)
        scale_x = 1.0 if dim_larger == rect.width else rect.width / dim_larger
        scale_y = 1.0 if dim_larger == rect.height else rect.height / dim_larger
''')]),
("ok-polygon",DP,[(R,'''                self.ctx.move_to(*points[0])
                for p in points[1:] + [points[0]]:
                    self.ctx.line_to(*p)
''','''                first = points[0]
                self.ctx.move_to(*first)
                for p in points[1:]:
                    self.ctx.line_to(*p)
                self.ctx.line_to(*first)
''')]),
("ok-polygon2",DP,[(R,'''        with ctx_scope(self.ctx):
            transform(self.ctx, find_centroid(points), rotation=rotation)

            def draw():
                self.ctx.move_to(*points[0])
                for p in points[1:] + [points[0]]:
                    self.ctx.line_to(*p)

            fill_stroke_shape(self.ctx, draw, **kwargs)
''','''        def draw():
            self.ctx.move_to(*points[0])
            for x, y in points[1:] + [points[0]]:
                self.ctx.line_to(x, y)

        with ctx_scope(self.ctx):
            transform(self.ctx, find_centroid(points), rotation=rotation)
            fill_stroke_shape(self.ctx, draw, **kwargs)
''')]),
("ok-path",DP,[(R,'''        with ctx_scope(self.ctx):

            def draw():
                draw_path(self.ctx, commands)

            fill_stroke_shape(self.ctx, draw, **kwargs)
''','''        with ctx_scope(self.ctx):
            fill_stroke_shape(self.ctx, lambda: draw_path(self.ctx, commands), **kwargs)
''')]),
("ok-text",DP+" T02",[(R,'''            baseline = from_pango_units(layout.get_baseline())

            if rotation is not None:
                transform(self.ctx, rect.mid_point, rotation=rotation)
            self.ctx.move_to(rect.x, y - baseline)
''','''            if rotation is not None:
                transform(self.ctx, rect.mid_point, rotation=rotation)
            top = y - from_pango_units(layout.get_baseline())
            self.ctx.move_to(rect.x, top)
''')]),
("ok-bitmap",DP,[(R,'''        image = Image.open(io.BytesIO(data))
        if image.mode != "RGBA":
            image = image.convert("RGBA")
        img_width, img_height = image.width, image.height

        data = bytearray(image.tobytes("raw", "BGRa"))
        surface = cairo.ImageSurface(
            cairo.FORMAT_ARGB32, width=img_width, height=img_height, data=data
        )
        surface.set_device_scale(img_width / width, img_height / height)
''','''        image = Image.open(io.BytesIO(data))
        if image.mode != "RGBA":
            image = image.convert("RGBA")

        pixels = bytearray(image.tobytes("raw", "BGRa"))
        surface = cairo.ImageSurface(
            cairo.FORMAT_ARGB32, width=image.width, height=image.height, data=pixels
        )
        surface.set_device_scale(image.width / width, image.height / height)
''')]),
("ok-svg",DP,[(R,'''        root = et.fromstring(svg)
        normalized = normalize_svg(root)
        normalized_svg = et.tostring(normalized, encoding="utf8")
        render_svg(
            self.surface,
            svg=normalized_svg.decode(),
''','''        root = normalize_svg(et.fromstring(svg))
        render_svg(
            self.surface,
            svg=et.tostring(root, encoding="utf8").decode("utf-8"),
''')]),
("ok-rounded",DP,[(D,'''    if rx > w - rx:
        rx = w / 2
    if ry > h - ry:
        ry = h / 2
''','''    rx = min(rx, w / 2)
    ry = min(ry, h / 2)
''')]),
("ok-fillstroke",DP,[(D,'''    if color:
        stroke_shape(
            ctx,
            callback,
            color=color,
            stroke_width=stroke_width,
            stroke_dasharray=stroke_dasharray,
        )
''','''    if not color:
        return
    stroke_shape(ctx, callback, color, stroke_width, stroke_dasharray)
''')]),
("ok-stroke",DP,[(D,'''    stroke_width = stroke_width or 1
    ctx.set_line_width(stroke_width)
    if stroke_dasharray:
        ctx.set_dash([float(v) for v in stroke_dasharray.split()])
''','''    ctx.set_line_width(stroke_width if stroke_width else 1)
    if stroke_dasharray:
        ctx.set_dash(list(map(float, stroke_dasharray.split())))
''')]),
("ok-transform",DP,[(D,'''    ctx.translate(point[0], point[1])
    if rotation''','''    x, y = point
    ctx.translate(x, y)
    if rotation'''),(D,'''    ctx.translate(-point[0], -point[1])


def apply''','''    ctx.translate(-x, -y)


def apply''')]),
("ok-viewbox",DP,[(D,'''    viewbox_width = viewbox[2]
    viewbox_height = viewbox[3]
    scale = min(width / viewbox_width, height / viewbox_height)
    ctx.translate(-viewbox[0] * scale, -viewbox[1] * scale)
''','''    x, y, viewbox_width, viewbox_height = viewbox
    scale = min(width / viewbox_width, height / viewbox_height)
    ctx.translate(-x * scale, -y * scale)
''')]),
("ok-reflect",DP,[(S,'''    vec = (cp[0] - anchor[0], cp[1] - anchor[1])
    neg = (-vec[0], -vec[1])
    return (anchor[0] + neg[0], anchor[1] + neg[1])
''','''    return (2 * anchor[0] - cp[0], 2 * anchor[1] - cp[1])
''')]),
("ok-quad",DP,[(S,'''    c1 = ((2 * cp[0] + p1[0]) / 3, (2 * cp[1] + p1[1]) / 3)
    c2 = ((2 * cp[0] + p2[0]) / 3, (2 * cp[1] + p2[1]) / 3)
    ctx.curve_to(*c1, *c2, *p2)
''','''    def control(p):
        return tuple((2 * c + v) / 3 for c, v in zip(cp, p))

    ctx.curve_to(*control(p1), *control(p2), *p2)
''')]),
("ok-draw-path",DP,[(S,'''        if name == "M":
            last_cubic_cp = None
            last_quadratic_cp = None
            ctx.move_to(*args[0])
        elif name == "L":
            last_cubic_cp = None
            last_quadratic_cp = None
            ctx.line_to(*args[0])
        elif name == "C":
            last_cubic_cp = args[1]
            last_quadratic_cp = None
            ctx.curve_to(*args[0], *args[1], *args[2])
        elif name == "S":
            first_cp = reflect(last_cubic_cp or location, location)
            last_cubic_cp = args[0]
            last_quadratic_cp = None
            ctx.curve_to(*first_cp, *args[0], *args[1])
        elif name == "Q":
            last_cubic_cp = None
            last_quadratic_cp = args[0]
            draw_quadratic_bezier(ctx, location, args[1], last_quadratic_cp)
        elif name == "T":
            last_cubic_cp = None
            last_quadratic_cp = reflect(last_quadratic_cp or location, location)
            draw_quadratic_bezier(ctx, location, args[0], last_quadratic_cp)
''','''        cubic_cp = quadratic_cp = None
        if name == "M":
            ctx.move_to(*args[0])
        elif name == "L":
            ctx.line_to(*args[0])
        elif name == "C":
            cubic_cp = args[1]
            ctx.curve_to(*args[0], *args[1], *args[2])
        elif name == "S":
            first_cp = reflect(last_cubic_cp or location, location)
            cubic_cp = args[0]
            ctx.curve_to(*first_cp, *args[0], *args[1])
        elif name == "Q":
            quadratic_cp = args[0]
            draw_quadratic_bezier(ctx, location, args[1], quadratic_cp)
        elif name == "T":
            quadratic_cp = reflect(last_quadratic_cp or location, location)
            draw_quadratic_bezier(ctx, location, args[0], quadratic_cp)
        last_cubic_cp = cubic_cp
        last_quadratic_cp = quadratic_cp
''')]),
("ok-surface",DP,[(V,'''        if parent_surface:
            self.markers = parent_surface.markers
            self.gradients = parent_surface.gradients
            self.patterns = parent_surface.patterns
            self.masks = parent_surface.masks
            self.paths = parent_surface.paths
            self.filters = parent_surface.filters
            self.images = parent_surface.images
        else:
            self.markers = {}
            self.gradients = {}
            self.patterns = {}
            self.masks = {}
            self.paths = {}
            self.filters = {}
            self.images = {}
''','''        for name in (
            "markers",
            "gradients",
            "patterns",
            "masks",
            "paths",
            "filters",
            "images",
        ):
            setattr(self, name, getattr(parent_surface, name) if parent_surface else {})
''')]),
("ok-surface2",DP,[(V,'''        center = (x + width / 2, y + height / 2)
        transform(self.context, center, rotation=rotation)
''','''        transform(self.context, (x + width * 0.5, y + height * 0.5), rotation)
''')]),
("ok-surface3",DP,[(V,'''                height *= output_width / width
''','''                height = height * output_width / width
''')]),
("ok-export",DP+" W01 C02",[(B,'''        if export_type == "pdf":
            self.ctx.surface.finish()
            return self.ctx.filename
        elif export_type == "png":
            self.ctx.surface.flush()
            # Force the image to be saved as RGBA
            image = Image.frombuffer(
                "RGBA",
                (self.ctx.width, self.ctx.height),
                self.ctx.surface.get_data(),
                "raw",
                "BGRA",
                0,
                1,
            )
            image.save(self.ctx.filename)
            return self.ctx.filename
''','''        ctx = self.ctx
        if export_type == "png":
            ctx.surface.flush()
            # Force the image to be saved as RGBA
            size = (ctx.width, ctx.height)
            data = ctx.surface.get_data()
            Image.frombuffer("RGBA", size, data, "raw", "BGRA", 0, 1).save(ctx.filename)
            return ctx.filename
        if export_type == "pdf":
            ctx.surface.finish()
            return ctx.filename
''')]),
("ok-widths",TP+" C04",[(B,'''        ctx = CairoRenderingContext(*self.dimensions)
        if id_index is None:
            return ctx.compute_text_extents(parsed_text, style, styles)
        return ctx.compute_subtext_extents(parsed_text, style, styles, id_index)
''','''        width, height = self.dimensions
        ctx = CairoRenderingContext(width, height)
        if id_index is not None:
            return ctx.compute_subtext_extents(parsed_text, style, styles, id_index)
        return ctx.compute_text_extents(parsed_text, style, styles)
''')]),
# bugs
("b04-chars","B04",[(T,'''    return len(text.encode("utf8"))
''','''    return len(text)
''')]),
("b04-start","B04",[(T,'''        elif token == "end":
            push_attrs(active_style(), start, byte_length(text))
            start = byte_length(text)
            base_style.pop()
''','''        elif token == "end":
            push_attrs(active_style(), start, byte_length(text))
            base_style.pop()
''')]),
("b04-prio","B04",[(T,"current_style.priority > this_style.priority","current_style.priority >= this_style.priority")]),
("b04-compose","B04",[(T,"base_style.append(current_style.compose(this_style))","base_style.append(base_style[0].compose(this_style))")]),
("b04-line","B04",[(T,'''                text += "\\n"
                line = ""
''','''                text += "\\n"
            line = ""
''')]),
("b04-incl","B04",[(T,"if start <= byte_offset < end:","if start <= byte_offset <= end:")]),
("b04-scale","B04",[(T,"    if text_scale is not None:\n","    if text_scale:\n")]),
("b04-spacing","B04",[(T,"style.line_spacing * style.size) - height","style.line_spacing * style.size - height) * resolution_scale")]),
("b05-viewbox","B05",[(D,"translate_x = (width / scale - viewbox_width) / 2","translate_x = (width - viewbox_width * scale) / 2")]),
("b05-center","B05",[(V,"center = (x + width / 2, y + height / 2)","center = (x + self.width / 2, y + self.height / 2)"),(V,"width * self.device_units_per_user_units,","width * self.device_units_per_user_units,")]),
("b05-aspect","B05",[(V,"height *= output_width / width","height *= width / output_width")]),
("b05-mode","B05",[(B,'"BGRA",','"BGRa",')]),
]
