S='elsie/slides/show.py'; X='elsie/boxtree/box.py'; M='elsie/boxtree/boxmixin.py'; SL='elsie/slides/slide.py'
FP="F01 F02 F03 F04 R01 E02"
MP="M01 L04 I01 F03 F04 B01 X01 R01 E02 L02"
EDITS=[
("ok-replace-rel",FP,[(S,'''    item = match.get("from")
    if item:
        if item in ("next", "last") and current_max is None:
            raise Exception(
                "You have to pass the current maximum fragment if you use relative values"
            )

        if item == "next":
            match["from"] = str(current_max + 1)
        if item == "last":
            match["from"] = str(current_max)
''','''    item = match.get("from")
    if item not in ("next", "last"):
        return
    if current_max is None:
        raise Exception(
            "You have to pass the current maximum fragment if you use relative values"
        )
    value = current_max
    if item == "next":
        value += 1
    match["from"] = str(value)
''')]),
("ok-interval-helper",FP,[(S,'''                m = cls.parser.match(interval)
                if m is None:
                    raise Exception("Invalid format of 'show' string: {!r}".format(obj))
                m = m.groupdict()
                replace_relative_steps(m, current_max)
''','''                m = cls._match_interval(interval, obj)
                replace_relative_steps(m, current_max)
'''),(S,'''    def min_steps(self):''','''    @classmethod
    def _match_interval(cls, interval, source):
        found = cls.parser.match(interval)
        if not found:
            raise Exception(f"Invalid format of 'show' string: {source!r}")
        return found.groupdict()

    def min_steps(self):''')]),
("ok-parse-else",FP,[(S,'''                    open_step = int(m["from"])
                    continue

                start = int(m["from"])
                end = start
                if m["end"] is not None:
                    end = int(m["end"])
                assert start <= end
                steps.update(range(start, end + 1))
''','''                    open_step = int(m["from"])
                else:
                    start = int(m["from"])
                    end = start if m["end"] is None else int(m["end"])
                    assert start <= end
                    for step in range(start, end + 1):
                        steps.add(step)
''')]),
("ok-parse-order",FP,[(S,'''        if obj is None:
            return ShowInfo()
        if isinstance(obj, int):
            return ShowInfo((obj,))
        if isinstance(obj, str):
''','''        if isinstance(obj, int):
            return cls(steps=(obj,))
        if obj is None:
            return cls()
        if isinstance(obj, str):
''')]),
("ok-maxstep",FP,[(S,'''        return max(max(self.steps, default=1), self.open_step if self.open_step else 1)
''','''        candidates = [1]
        candidates.extend(self.steps)
        if self.open_step:
            candidates.append(self.open_step)
        return max(candidates)
''')]),
("ok-maxstep2",FP,[(S,'''        return max(max(self.steps, default=1), self.open_step if self.open_step else 1)
''','''        last = max(self.steps) if self.steps else 1
        if self.open_step is None:
            return max(last, 1)
        return max(last, self.open_step, 1)
''')]),
("ok-visible",FP,[(S,'''        return step in self.steps or (
            self.open_step is not None and self.open_step <= step
        )
''','''        if step in self.steps:
            return True
        if self.open_step is None:
            return False
        return step >= self.open_step
''')]),
("ok-visible-any",FP,[(S,'''        return step in self.steps or (
            self.open_step is not None and self.open_step <= step
        )
''','''        if self.open_step is not None and self.open_step <= step:
            return True
        return any(s == step for s in self.steps)
''')]),
("ok-ensure2",FP,[(S,'''        min_steps = max(self._min_steps, steps)
        return ShowInfo(self.steps, self.open_step, min_steps)
''','''        if steps <= self._min_steps:
            return self
        return ShowInfo(self.steps, self.open_step, steps)
''')]),
("ok-slide-steps",FP,[(SL,'''        shows = [1]
        self._box._traverse(lambda box: shows.append(box._min_steps()))
        return max(value for value in shows if value)
''','''        result = 1

        def visit(box):
            nonlocal result
            value = box._min_steps()
            if value:
                result = max(result, value)

        self._box._traverse(visit)
        return result
''')]),
("ok-slide-steps2",FP,[(SL,'''        shows = [1]
        self._box._traverse(lambda box: shows.append(box._min_steps()))
        return max(value for value in shows if value)
''','''        steps = []
        self._box._traverse(lambda box: steps.append(box._min_steps()))
        steps = [value for value in steps if value]
        return max(steps + [1])
''')]),
("ok-traverse",FP,[(X,'''        fn(self)
        for child in self._box_children:
            child._traverse(fn)
''','''        stack = [self]
        while stack:
            box = stack.pop()
            fn(box)
            stack.extend(reversed(box._box_children))
''')]),
("ok-painters","Z01 F01 F02 R01 L02",[(X,'''        painters = []
        if not self._show_info.is_visible(ctx.step):
            return painters
        depth += 1
        for child in self.children:
            if not isinstance(child, Box):
                painters.append(child)
            else:
                painters += child.get_painters(ctx, depth)
''','''        if not self._show_info.is_visible(ctx.step):
            return []
        depth += 1
        painters = []
        for child in self.children:
            if isinstance(child, Box):
                painters.extend(child.get_painters(ctx, depth))
            else:
                painters.append(child)
''')]),
("ok-childindex","Z01 L01 E02 R01",[(X,'''        if below is not None:
            return self.children.index(below)
        if above is not None:
            return self.children.index(above) + 1
        return 0 if prepend else len(self.children)
''','''        if above is not None:
            return self.children.index(above) + 1
        elif below is not None:
            return self.children.index(below)
        elif prepend:
            return 0
        return len(self.children)
''')]),
("ok-box-order",MP+" Z01 L01",[(M,'''        if z_level is None:
            z_level = box.z_level

        box.slide.max_step = max(box.slide.max_step, show.max_step())

        new_box = box.__class__(box.slide, layout, box._styles, show, z_level, name)
        box.add_child(new_box, prepend, above, below)
        return new_box
''','''        new_box = Box(
            box.slide,
            layout,
            box._styles,
            show,
            z_level=box.z_level if z_level is None else z_level,
            name=name,
        )
        box.add_child(new_box, prepend=prepend, above=above, below=below)
        slide = box.slide
        slide.max_step = max(show.max_step(), slide.max_step)
        return new_box
'''),(M,'''from .boxitem import SimpleBoxItem  # noqa''','''from .box import Box  # noqa
from .boxitem import SimpleBoxItem  # noqa''')]),
("ok-overlay",MP+" L01",[(M,'''        kwargs.setdefault("x", 0)
        kwargs.setdefault("y", 0)
        kwargs.setdefault("width", "100%")
        kwargs.setdefault("height", "100%")
        return self.box(**kwargs)
''','''        for key, value in (("x", 0), ("y", 0), ("width", "100%"), ("height", "100%")):
            kwargs.setdefault(key, value)
        return self.box(**kwargs)
''')]),
("ok-overlay2",MP+" L01",[(M,'''        kwargs.setdefault("x", 0)
        kwargs.setdefault("y", 0)
        kwargs.setdefault("width", "100%")
        kwargs.setdefault("height", "100%")
        return self.box(**kwargs)
''','''        arguments = {"x": 0, "y": 0, "width": "100%", "height": "100%"}
        arguments.update(kwargs)
        return self.box(**arguments)
''')]),
("ok-sbox",MP+" L01",[(M,'''        if self._get_box().layout.horizontal:
            kwargs.setdefault("height", "fill")
        else:
            kwargs.setdefault("width", "fill")
        return self.box(**kwargs)
''','''        horizontal = self._get_box().layout.horizontal
        kwargs.setdefault("height" if horizontal else "width", "fill")
        return self.box(**kwargs)
''')]),
("ok-image-place",MP,[(M,'''            w = image_width * s
            h = image_height * s
            x = rect.x + (rect.width - w) / 2
            y = rect.y + (rect.height - h) / 2
            ctx.draw_bitmap(
''','''            x, y, w, h = place_image(rect, image_width * s, image_height * s)
            ctx.draw_bitmap(
'''),(M,'''            w = image_width * s
            h = image_height * s
            x = rect.x + (rect.width - w) / 2
            y = rect.y + (rect.height - h) / 2
            ctx.draw_svg(
''','''            x, y, w, h = place_image(rect, image_width * s, image_height * s)
            ctx.draw_svg(
'''),(M,'''class BoxMixin:
''','''def place_image(rect, width, height):
    return (
        rect.x + (rect.width - width) / 2,
        rect.y + (rect.height - height) / 2,
        width,
        height,
    )


class BoxMixin:
''')]),
("ok-image-scale",MP,[(M,'''            if scale is None:
                s = scaler(rect, image_width, image_height)
                if s is None:
                    s = 0
                    logging.warning(
                        "Scale of image {} is 0, set scale explicitly or set at least one "
                        "dimension for the parent box".format(source)
                    )
            else:
                s = scale
''','''            s = self._image_scale(rect, image_width, image_height, scale, source)
'''),(M,'''            if scale is None:
                s = scaler(rect, image_width, image_height)
                if s is None:
                    s = 0
                    logging.warning(
                        "Scale of image {} is 0, set scale explicitly or set at least one "
                        "dimension for the parent box".format(filename)
                    )
            else:
                s = scale
''','''            s = self._image_scale(rect, image_width, image_height, scale, filename)
'''),(M,'''    def _image_ora(
''','''    @staticmethod
    def _image_scale(rect, width, height, scale, name):
        if scale is not None:
            return scale
        result = scaler(rect, width, height)
        if result is not None:
            return result
        logging.warning(
            "Scale of image %s is 0, set scale explicitly or set at least one "
            "dimension for the parent box", name
        )
        return 0

    def _image_ora(
''')]),
("ok-image-step",MP,[(M,'''            if image_data is None:
                step = ctx.step - show_begin + 1
                if select_fragments is not None:
                    if 0 < step <= len(select_fragments):
                        step = select_fragments[step - 1]
                    else:
                        return
                    if step is None:
                        return
                if step < 1:
                    return
                data = create_image_data(root, step)
            else:
                if ctx.step < show_begin:
                    return
                data = image_data
''','''            step = ctx.step - show_begin + 1
            if step < 1:
                return
            if image_data is not None:
                data = image_data
            else:
                if select_fragments is not None:
                    if step > len(select_fragments):
                        return
                    step = select_fragments[step - 1]
                if step is None or step < 1:
                    return
                data = create_image_data(root, step)
''')]),
("ok-image-type",MP,[(M,'''            if source.endswith(".svg"):
                image_type = "svg"
            elif source.endswith(".ora"):
                image_type = "ora"
            elif source.endswith(".png"):
                image_type = "png"
            elif source.endswith(".jpeg") or source.endswith(".jpg"):
                image_type = "jpeg"
            else:
                raise Exception("Cannot detect image type from extension")
''','''            for extension, kind in IMAGE_EXTENSIONS:
                if source.endswith(extension):
                    image_type = kind
                    break
            else:
                raise Exception("Cannot detect image type from extension")
'''),(M,'''class BoxMixin:
''','''IMAGE_EXTENSIONS = (
    (".svg", "svg"),
    (".ora", "ora"),
    (".png", "png"),
    (".jpeg", "jpeg"),
    (".jpg", "jpeg"),
)


class BoxMixin:
''')]),
("ok-image-steps",MP,[(M,'''        if select_fragments is not None:
            image_steps = len(select_fragments)
        else:
            if fragments:
                image_steps = get_image_steps(root)
            else:
                image_steps = 1

        image_data = None

        if select_fragments is None and not (fragments and has_fragments(root)):
            image_data = et.tostring(root).decode()
''','''        image_data = None
        image_steps = 1
        if select_fragments is not None:
            image_steps = len(select_fragments)
        elif fragments and has_fragments(root):
            image_steps = get_image_steps(root)
        else:
            image_data = et.tostring(root).decode()
''')]),
("ok-bitmap-cache",MP,[(M,'''        if isinstance(source, str) or isinstance(source, bytes):
            key = (source, "bitmap")
            entry = self._get_box().slide.temp_cache.get(key)
        else:
            key = None
            entry = None
''','''        cache = self._get_box().slide.temp_cache
        key = (source, "bitmap") if isinstance(source, (str, bytes)) else None
        entry = cache.get(key) if key is not None else None
'''),(M,'''            if key is not None:
                self._get_box().slide.temp_cache[key] = (
                    image_width,
                    image_height,
                    mime,
                    data,
                )
''','''            if key is not None:
                cache[key] = (image_width, image_height, mime, data)
''')]),
("ok-line",MP,[(M,'''            p = [eval_pair(p) for p in points]
            p2 = p[:]

            if start_arrow:
                p2[0] = start_arrow.move_end_point(p[1], p[0])
            if end_arrow:
                p2[-1] = end_arrow.move_end_point(p[-2], p[-1])

            ctx.draw_polyline(
                p2,
''','''            p = [eval_pair(point) for point in points]
            first, last = p[0], p[-1]

            if start_arrow:
                first = start_arrow.move_end_point(p[1], p[0])
            if end_arrow:
                last = end_arrow.move_end_point(p[-2], p[-1])

            ctx.draw_polyline(
                [first] + p[1:-1] + [last],
''')]),
("ok-escape-helper",MP+" T01 W01",[(M,'''        if len(escape_char) == 3:
            escape_char, begin_char, end_char = escape_char
        elif len(escape_char) == 1:
            begin_char = "{"
            end_char = "}"
        else:
            raise Exception("Length of escape char has to be 1 or 3")

        result_style''','''        escape_char, begin_char, end_char = unpack_escape(escape_char)
        result_style'''),(M,'''        if len(escape_char) == 3:
            escape_char, begin_char, end_char = escape_char
        elif len(escape_char) == 1:
            begin_char = "{"
            end_char = "}"
        else:
            raise Exception("Length of escape char has to be 1 or 3")

        if language''','''        escape_char, begin_char, end_char = unpack_escape(escape_char)

        if language'''),(M,'''class BoxMixin:
''','''def unpack_escape(escape_char):
    if len(escape_char) == 1:
        return escape_char, "{", "}"
    if len(escape_char) == 3:
        return tuple(escape_char)
    raise Exception("Length of escape char has to be 1 or 3")


class BoxMixin:
''')]),
("ok-code-newlines",MP+" T01 K01 W01",[(M,'''                start_newlines = 0
                while text.startswith("\\n"):
                    start_newlines += 1
                    text = text[1:]
''','''                stripped = text.lstrip("\\n")
                start_newlines = len(text) - len(stripped)
                text = stripped
''')]),
]
