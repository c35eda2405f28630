V="elsie/render/backends/svg/"; D=V+"draw.py"; R=V+"rcontext.py"; B=V+"backend.py"; U=V+"utils.py"; Q=V+"query.py"; X="elsie/utils/sxml.py"; J="elsie/render/jupyter.py"
DP="X01 X02 B01 B02 B03 S01 S02 T02 R01 E01 E02 G01 G02 Z01 C04"
BP="C04 C05 C01 I01 R01 E01 E02 W01 Z01 B01 C02"
JP="J01 W01 E01 R01 F03 E02"
EDITS=[
("ok-font",DP,[(D,'''    s = ""
    if style.color is not None:
        s += "fill:{};".format(style.color)
    if style.opacity is not None:
        s += f"fill-opacity:{style.opacity};"
    if style.bold:
        s += "font-weight: bold;"
    if style.italic:
        s += "font-style: italic;"
    if s:
        xml.set("style", s)
''','''    parts = []
    if style.color is not None:
        parts.append(f"fill:{style.color};")
    if style.opacity is not None:
        parts.append(f"fill-opacity:{style.opacity};")
    if style.bold:
        parts.append("font-weight: bold;")
    if style.italic:
        parts.append("font-style: italic;")
    if parts:
        xml.set("style", "".join(parts))
''')]),
("ok-paint",DP,[(D,'''    styles = []
    if bg_color:
        styles.append(f"fill:{bg_color}")
    else:
        styles.append("fill:none")

    if color:
        stroke_width = stroke_width or 1
        styles.append(f"stroke:{color}")
        styles.append(f"stroke-width:{stroke_width}")
        if stroke_dasharray:
            styles.append(f"stroke-dasharray:{stroke_dasharray}")
    else:
        styles.append("stroke:none")
''','''    styles = ["fill:{}".format(bg_color if bg_color else "none")]

    if not color:
        styles.append("stroke:none")
    else:
        if not stroke_width:
            stroke_width = 1
        styles += [f"stroke:{color}", f"stroke-width:{stroke_width}"]
        if stroke_dasharray:
            styles.append(f"stroke-dasharray:{stroke_dasharray}")
''')]),
("ok-anchor",DP,[(D,'''    anchor = {"left": "start", "middle": "middle", "right": "end"}

    xml.set("text-anchor", anchor[style.align])
''','''    xml.set("text-anchor", TEXT_ANCHORS[style.align])
'''),(D,'''def set_font_from_style''','''TEXT_ANCHORS = {"left": "start", "middle": "middle", "right": "end"}


def set_font_from_style''')]),
("ok-newline",DP,[(D,'''            for j, s in enumerate(active_styles):
                xml.element("tspan")
                xml.set("xml:space", "preserve")
                if j == 0:
                    xml.set("x", x)
                    xml.set("dy", line_size * value)
                if s is not None:
                    set_font_from_style(xml, s)
''','''            first = True
            for s in active_styles:
                xml.element("tspan")
                xml.set("xml:space", "preserve")
                if first:
                    xml.set("x", x)
                    xml.set("dy", value * line_size)
                    first = False
                if s is not None:
                    set_font_from_style(xml, s)
''')]),
("ok-closeall",DP,[(D,'''            for _ in active_styles:
                xml.close("tspan")  # tspan
            for j''','''            for _ in range(len(active_styles)):
                xml.close("tspan")  # tspan
            for j''')]),
("ok-begin",DP,[(D,'''            is_dummy = value and value[0] == "#"
            s = styles.get(value, None)
            if s is None and not is_dummy:
                raise Exception("Style '{}' not found".format(value))
            if s is not None:
                if current_priority > s.priority:
                    s = None
                else:
                    current_priority = s.priority
''','''            s = styles.get(value)
            if s is None:
                if not value.startswith("#"):
                    raise Exception(f"Style '{value}' not found")
            elif s.priority >= current_priority:
                current_priority = s.priority
            else:
                s = None
''')]),
("ok-end",DP,[(D,'''            current_priority = next(
                s.priority for s in reversed(active_styles) if s is not None
            )
''','''            for s in reversed(active_styles):
                if s is not None:
                    current_priority = s.priority
                    break
''')]),
("ok-tokens-order",DP,[(D,'''    for i, (token_type, value) in enumerate(parsed_text):
        if token_type == "text":
            xml.text(value)
        elif''','''    for i, token in enumerate(parsed_text):
        token_type, value = token
        if token_type == "text":
            xml.text(value)
        elif''')]),
("ok-bitmap",DP,[(D,'''    if not isinstance(data, str):
        data = base64.b64encode(data).decode("ascii")
    xml.element("image")
''','''    encoded = data if isinstance(data, str) else base64.b64encode(data).decode("ascii")
    xml.element("image")
'''),(D,'''"data:{};base64,{}".format(mime, data)''','''f"data:{mime};base64,{encoded}"''')]),
("ok-rect-helper",DP,[(D,'''    xml.element("rect")
    xml.set("x", rect.x)
    xml.set("y", rect.y)
    xml.set("width", rect.width)
    xml.set("height", rect.height)
''','''    xml.element("rect")
    for name in ("x", "y", "width", "height"):
        xml.set(name, getattr(rect, name))
''')]),
("ok-points",DP,[(D,'''    xml.element("polygon")
    xml.set(
        "points",
        " ".join(f"{x},{y}" for x, y in points),
    )
''','''    xml.element("polygon")
    xml.set("points", points_to_str(points))
'''),(D,'''    xml.element("polyline")
    xml.set(
        "points",
        " ".join(f"{x},{y}" for x, y in points),
    )
''','''    xml.element("polyline")
    xml.set("points", points_to_str(points))
'''),(D,'''def draw_polygon''','''def points_to_str(points):
    return " ".join("{},{}".format(p[0], p[1]) for p in points)


def draw_polygon''')]),
("ok-cmd",DP,[(D,'''    name, pairs = command
    return name + " ".join("{},{}".format(p[0], p[1]) for p in pairs)
''','''    name, pairs = command
    coordinates = [f"{x},{y}" for x, y in pairs]
    return "{}{}".format(name, " ".join(coordinates))
''')]),
("ok-rc-text",DP,[(R,'''        transforms = []
        if rotation:
            transforms.append(
                f"rotate({rotation} {rect.mid_point[0]} {rect.mid_point[1]})"
            )
        if scale:
            transforms.append(f"scale({scale})")
        transform = " ".join(transforms) if transforms else None
''','''        transforms = []
        if rotation:
            center_x, center_y = rect.mid_point
            transforms.append("rotate({} {} {})".format(rotation, center_x, center_y))
        if scale:
            transforms.append("scale({})".format(scale))
        transform = " ".join(transforms) or None
''')]),
("ok-rc-text2",DP,[(R,'''        if scale is not None:
            x /= scale
            y /= scale
''','''        if scale is not None:
            x, y = x / scale, y / scale
''')]),
("ok-rc-svg",DP,[(R,'''        xml = Xml()
        xml.element("g")
        transform = []
''','''        transform = []
'''),(R,'''        xml.set("transform", " ".join(transform))
        xml.raw_text(svg)
        xml.close("g")
        xml_string = xml.to_string()
        self.xml.raw_text(xml_string)
''','''
        self.xml.element("g")
        self.xml.set("transform", " ".join(transform))
        self.xml.raw_text(svg)
        self.xml.close("g")
''')]),
("ok-rc-svg2",DP,[(R,'''        if rotation is not None:
            assert rotation_center is not None
            transform.append(
                f"rotate({rotation} {rotation_center[0]} {rotation_center[1]})"
            )
''','''        if rotation is not None:
            assert rotation_center is not None
            x0, y0 = rotation_center
            transform.append(f"rotate({rotation} {x0} {y0})")
''')]),
("ok-rc-bitmap",DP,[(R,'''    def draw_bitmap(self, *args, **kwargs):
        draw_bitmap(self.xml, *args, **kwargs)
''','''    def draw_bitmap(
        self, x, y, width, height, mime, data, rotation=None, extra_args=None
    ):
        draw_bitmap(
            self.xml,
            x,
            y,
            width,
            height,
            mime,
            data,
            rotation=rotation,
            extra_args=extra_args,
        )
''')]),
("ok-be-init",BP,[(B,'''        if isinstance(inkscape, InkscapeShell):
            self.inkscape = inkscape
        else:
            inkscape_bin = (
                inkscape or os.environ.get("ELSIE_INKSCAPE") or detect_inkscape_bin()
            )
            self.inkscape = InkscapeShell(inkscape_bin)
''','''        if not isinstance(inkscape, InkscapeShell):
            if not inkscape:
                inkscape = os.environ.get("ELSIE_INKSCAPE") or detect_inkscape_bin()
            inkscape = InkscapeShell(inkscape)
        self.inkscape = inkscape
''')]),
("ok-be-version",BP,[(B,'''        version = f"{elsie_version}/{self.inkscape_version}"
        if self.inkscape.text_to_path:
            version += "/text-to-path"
        return version
''','''        suffix = "/text-to-path" if self.inkscape.text_to_path else ""
        return "{}/{}{}".format(elsie_version, self.inkscape_version, suffix)
''')]),
("ok-be-create",BP,[(B,'''        painters = slide._box.get_painters(ctx, 0)
        painters.sort(key=lambda painter: painter.z_level)
        for p in painters:
            p.render(ctx)
''','''        painters = slide._box.get_painters(ctx, 0)
        for painter in sorted(painters, key=lambda p: p.z_level):
            painter.render(ctx)
''')]),
("ok-be-query",BP,[(B,'''        key = (method, data)
        value = self.query_cache.get(key)
        if value is None:
            value = compute_query(self.inkscape, method, data)
            self.query_cache[key] = value
        self.used_query_cache[key] = value
        return value
''','''        key = (method, data)
        if key in self.query_cache:
            value = self.query_cache[key]
        else:
            value = self.query_cache[key] = compute_query(self.inkscape, method, data)
        self.used_query_cache[key] = value
        return value
''')]),
("ok-be-query2",BP,[(B,'''        if value is None:
            value = compute_query(self.inkscape, method, data)
            self.query_cache[key] = value
        self.used_query_cache[key] = value
        return value
''','''        if value is not None:
            self.used_query_cache[key] = value
            return value
        value = compute_query(self.inkscape, method, data)
        self.query_cache[key] = value
        self.used_query_cache[key] = value
        return value
''')]),
("ok-be-prune",BP,[(B,'''        self.query_cache = dict(self.used_query_cache)
''','''        self.query_cache = self.used_query_cache.copy()
''')]),
("ok-be-prune2",BP,[(B,'''        self.query_cache = dict(self.used_query_cache)
''','''        self.query_cache = {
            key: value
            for key, value in self.query_cache.items()
            if key in self.used_query_cache
        }
''')]),
("ok-be-load",BP,[(B,'''        if os.path.isfile(cache_file):
            with open(cache_file) as f:
                cache_config = json.load(f)
            if cache_config.get("version") != VERSION:
                print("Elsie version changed; cache dropped")
                return {}
            if cache_config.get("inkscape") != self.inkscape_version:
                print("Inkscape version changed; cache dropped")
                return {}
            return dict(
                (tuple(key), value) for key, value in cache_config.get("queries", ())
            )
        else:
            return {}
''','''        if not os.path.isfile(cache_file):
            return {}
        with open(cache_file) as f:
            config = json.loads(f.read())
        if config.get("version") != VERSION:
            print("Elsie version changed; cache dropped")
            return {}
        if config.get("inkscape") != self.inkscape_version:
            print("Inkscape version changed; cache dropped")
            return {}
        queries = {}
        for key, value in config.get("queries", ()):
            queries[tuple(key)] = value
        return queries
''')]),
("ok-be-load2",BP,[(B,'''            return dict(
                (tuple(key), value) for key, value in cache_config.get("queries", ())
            )
''','''            queries = cache_config.get("queries", [])
            return {tuple(key): value for key, value in queries}
''')]),
("ok-be-save",BP,[(B,'''        temp_file = cache_file + ".tmp"
        with open(temp_file, "w") as f:
            json.dump(cache_config, f)
        os.replace(temp_file, cache_file)
''','''        temp_file = f"{cache_file}.tmp"
        with open(temp_file, "w") as f:
            f.write(json.dumps(cache_config))
        os.replace(temp_file, cache_file)
''')]),
("ok-be-save2",BP,[(B,'''        cache_config = {
            "version": VERSION,
            "inkscape": self.inkscape_version,
            "queries": list(cache.items()),
        }
''','''        queries = [(key, value) for key, value in cache.items()]
        cache_config = dict(
            version=VERSION, inkscape=self.inkscape_version, queries=queries
        )
''')]),
("ok-textq",BP,[(B,'''        draw_text(xml, 0, 0, parsed_text, style, styles, id="target", id_index=id_index)
        key = xml.to_string()
        return self.process_query(query, key)
''','''        draw_text(
            xml,
            x=0,
            y=0,
            parsed_text=parsed_text,
            style=style,
            styles=styles,
            id="target",
            id_index=id_index,
        )
        return self.process_query(query, xml.to_string())
''')]),
("ok-svgbegin",DP,[(U,'''    if width is not None:
        xml.set("width", width)
    if height is not None:
        xml.set("height", height)
    if view_box:
        xml.set("viewBox", " ".join(str(v) for v in view_box))
''','''    for name, value in (("width", width), ("height", height)):
        if value is not None:
            xml.set(name, value)
    if view_box:
        xml.set("viewBox", " ".join(map(str, view_box)))
''')]),
("ok-size",DP,[(U,'''    if suffix == "mm":
        factor = 3.77953
    elif suffix == "cm":
        factor = 37.7953
    elif suffix == "pt":
        factor = 1.33333
    else:
        factor = 1.0
    return float(text) * factor
''','''    factors = {"mm": 3.77953, "cm": 37.7953, "pt": 1.33333}
    return factors.get(suffix, 1.0) * float(text)
''')]),
("ok-xml-close",DP,[(X,'''        if self.is_open:
            self.chunks.append(">")
            self.is_open = False
''','''        if not self.is_open:
            return
        self.is_open = False
        self.chunks.append(">")
''')]),
("ok-xml-element",DP,[(X,'''        self.chunks.append("<")
        self.chunks.append(name)
        self.stack.append(name)
''','''        self.stack.append(name)
        self.chunks.append("<" + name)
''')]),
("ok-js-repr",JP,[(J,'''    return_units = format == "svg"
    units = slide.slides.render(
        output=None,
        return_units=return_units,
        select_slides=[slide],
        export_type=format,
        prune_cache=False,
    )
    if format == "svg":
        return [unit.svg for unit in units]
    elif format == "png":
        images = []
        for png in units:
            with open(png, "rb") as f:
                data = base64.encodebytes(f.read())
                images.append(
                    f"""<img src="data:image/png;base64, {data.decode()}" />"""
                )
        return images
    else:
        assert False
''','''    as_svg = format == "svg"
    units = slide.slides.render(
        None,
        return_units=as_svg,
        export_type=format,
        prune_cache=False,
        select_slides=[slide],
    )
    if as_svg:
        return [unit.svg for unit in units]

    images = []
    for filename in units:
        with open(filename, "rb") as f:
            content = f.read()
        data = base64.encodebytes(content).decode()
        images.append(f"""<img src="data:image/png;base64, {data}" />""")
    return images
''')]),
("ok-js-frag",JP,[(J,'''    fragments = tuple(
        f"<div class='elsie-step step-{index + 1}'>{content}</div>"
        for (index, content) in enumerate(step_items)
    )
''','''    fragments = []
    for step, item in enumerate(step_items, start=1):
        fragments.append(f"<div class='elsie-step step-{step}'>{item}</div>")
''')]),
("ok-js-nb",JP,[(J,'''        ipython = get_ipython()
        if not ipython:
            return False
        if "IPKernelApp" not in ipython.config:
            return False
    except ImportError:
        return False
    return True
''','''        ipython = get_ipython()
        if not ipython or "IPKernelApp" not in ipython.config:
            return False
        return True
    except ImportError:
        return False
''')]),
("ok-js-content",JP,[(J,'''    content += "</div>"
    return content + f"<style>{CSS}</style>"
''','''    return f"{content}</div><style>{CSS}</style>"
''')]),
]
