L='elsie/boxtree/layout.py'; V='elsie/boxtree/value.py'; B='elsie/boxtree/box.py'; M='elsie/boxtree/boxmixin.py'; S='elsie/slides/show.py'; D='elsie/slides/slidedeck.py'; I='elsie/boxtree/boxitem.py'; G='elsie/utils/geom.py'; SL='elsie/slides/slide.py'
LP="L01 L02 L03 R01 T02"
EDITS=[
("ok-setrect-helpers",LP,[(L,'''        fills = 0
        free = rect_size

        for child in self.managed_children():
            rq = child.compute_size_request()[axis]
            if rq.fill:
                fills += rq.fill
            elif rq.ratio:
                free -= max(rq.min_size, rq.ratio * rect_size)
            else:
                free -= rq.min_size

        if fills:
            fill_unit = free / fills
            free = 0
        else:
            fill_unit = 0
''','''        free, fill_unit = self._distribute(axis, rect_size)
'''),(L,'''    def compute_size_request(self):
''','''    def _distribute(self, axis, total):
        """Divides the space between the managed children."""
        requests = [c.compute_size_request()[axis] for c in self.managed_children()]
        fills = sum(rq.fill for rq in requests if rq.fill)
        used = 0
        for rq in requests:
            if rq.fill:
                continue
            size = rq.min_size
            if rq.ratio:
                size = max(size, rq.ratio * total)
            used += size
        free = total - used
        if not fills:
            return free, 0
        return 0, free / fills

    def compute_size_request(self):
''')]),
("ok-child-helper",LP,[(L,'''                if child._x is not None:
                    x = child._x.compute(rect.x, rect.width, w)
                else:
                    x = rect.x + (rect.width - w) / 2
                if child._y is None:''','''                x = self._centered(child._x, rect.x, rect.width, w)
                if child._y is None:'''),(L,'''                if child._y is not None:
                    y = child._y.compute(rect.y, rect.height, h)
                else:
                    y = rect.y + (rect.height - h) / 2
                if child._x is None:''','''                y = self._centered(child._y, rect.y, rect.height, h)
                if child._x is None:'''),(L,'''    def compute_size_request(self):
''','''    @staticmethod
    def _centered(pos, start, full, size):
        if pos is None:
            return start + (full - size) / 2
        return pos.compute(start, full, size)

    def compute_size_request(self):
''')]),
("ok-swap-branches",LP,[(L,'''        if not self.horizontal:
            axis = 1
            rect_size = rect.height
            rect_start = rect.y
        else:
            axis = 0
            rect_size = rect.width
            rect_start = rect.x
''','''        axis = 0 if self.horizontal else 1
        rect_start, rect_size = [(rect.x, rect.width), (rect.y, rect.height)][axis]
''')]),
("ok-minchildren",LP,[(L,'''        rqs = [c.compute_size_request() for c in managed_children]
        if not self.horizontal:
            return (
                max(rq[0].min_size for rq in rqs),
                sum(rq[1].min_size for rq in rqs),
            )
        else:
            return (
                sum(rq[0].min_size for rq in rqs),
                max(rq[1].min_size for rq in rqs),
            )''','''        widths = []
        heights = []
        for c in managed_children:
            w, h = c.compute_size_request()
            widths.append(w.min_size)
            heights.append(h.min_size)
        if self.horizontal:
            return sum(widths), max(heights)
        return max(widths), sum(heights)''')]),
("ok-managed-loop",LP,[(L,'''        return [child for child in self.children if child.is_managed(self.horizontal)]''','''        result = []
        for child in self.children:
            position = child._x if self.horizontal else child._y
            if position is None:
                result.append(child)
        return result''')]),
("ok-is-managed",LP,[(L,'''        if horizontal:
            return self._x is None
        else:
            return self._y is None''','''        return (self._x if horizontal else self._y) is None''')]),
("ok-setpad",LP,[(L,'''    if a is not None:
        return a
    if b is not None:
        return b
    return c or 0''','''    for value in (a, b):
        if value is not None:
            return value
    return c or 0''')]),
("ok-setpad2",LP,[(L,'''    if a is not None:
        return a
    if b is not None:
        return b
    return c or 0''','''    if a is None:
        a = b
    if a is None:
        a = c or 0
    return a''')]),
("ok-init-helper",LP,[(L,'''        if x is not None:
            self._x = PosValue.parse(x)
        else:
            self._x = None

        if y is not None:
            self._y = PosValue.parse(y)
        else:
            self._y = None
''','''        self._x = None if x is None else PosValue.parse(x)
        self._y = None if y is None else PosValue.parse(y)
''')]),
("ok-size-compute",LP,[(V,'''        if self.lazy_value:
            return self.lazy_value.eval()
        if self.fill:
            if fill_unit is None:
                return full_size
            else:
                return fill_unit * self.fill
        if self.ratio:
            return max(full_size * self.ratio, self.min_size)
        return self.min_size

''','''        if self.lazy_value:
            result = self.lazy_value.eval()
        elif self.fill:
            result = full_size if fill_unit is None else self.fill * fill_unit
        elif self.ratio:
            scaled = self.ratio * full_size
            result = scaled if scaled > self.min_size else self.min_size
        else:
            result = self.min_size
        return result

''')]),
("ok-size-parse",LP,[(V,'''        m = m.groupdict()

        if m["min_size"] is not None:
            return SizeValue(min_size=float(m["min_size"]))

        if m["ratio"] is not None:
            ratio = float(m["ratio"]) / 100
            return SizeValue(ratio=ratio)

        if m["fill_1"] is not None:
            return SizeValue(fill=1)

        if m["fill"] is not None:
            return SizeValue(fill=int(m["fill"]))
''','''        min_size, ratio, fill_1, fill = m.group("min_size", "ratio", "fill_1", "fill")

        if min_size is not None:
            return cls(min_size=float(min_size))

        if ratio is not None:
            return cls(ratio=float(ratio) / 100)

        if fill_1 is not None or fill is not None:
            return cls(fill=int(fill) if fill is not None else 1)
''')]),
("ok-size-parse2",LP,[(V,'''        m = cls.parser.match(obj)
        if m is None:
            raise Exception("Invalid format of size string")
        m = m.groupdict()
''','''        match = cls.parser.match(obj)
        if not match:
            raise Exception("Invalid format of size string {!r}".format(obj))
        m = {name: match.group(name) for name in ("min_size", "ratio", "fill_1", "fill")}
''')]),
("ok-isinst",LP,[(V,'''        if isinstance(obj, int) or isinstance(obj, float):
            return SizeValue(min_size=obj)
''','''        if isinstance(obj, (int, float)):
            return SizeValue(obj)
''')]),
("ok-shrink",LP,[(G,'''        return Rect(
            self.x + left,
            self.y + top,
            self.width - left - right,
            self.height - top - bottom,
        )''','''        x, y = self.x + left, self.y + top
        return Rect(x, y, self.x2 - right - x, self.y2 - bottom - y)''')]),
("ok-ensure",LP,[(V,'''        if size <= self.min_size:
            return self
        s = copy(self)
        s.min_size = size
        return s''','''        if size > self.min_size:
            return SizeValue(size, self.ratio, self.fill, self.lazy_value)
        return self''')]),
("ok-image-request",LP+" G02",[(L,'''        minx, miny = self.min_children_size()
        size_x = max(self._width.min_size, minx)
        size_y = max(self._height.min_size, miny)
        self.ensure_width(size_y * image_width / image_height)
        self.ensure_height(size_x * image_height / image_width)''','''        minx, miny = self.min_children_size()
        aspect = image_width / image_height
        size_x = max(minx, self._width.min_size)
        size_y = max(miny, self._height.min_size)
        self.ensure_width(size_y * aspect)
        self.ensure_height(size_x / aspect)''')]),
("ok-callbacks",LP,[(L,'''        self.callbacks = None
''','''        self.callbacks = []
'''),(L,'''        if self.callbacks is None:
            self.callbacks = []
        self.callbacks''','''        self.callbacks'''),(L,'''        if self.callbacks:
            for callback in self.callbacks:
                callback(rect)
''','''        for callback in self.callbacks:
            callback(rect)
''')]),
("ok-point",LP+" L04",[(L,'''        value = PosValue.parse(value)
        return LazyValue(lambda: value.compute(self.rect.x, self.rect.width, 0))''','''        position = PosValue.parse(value)

        def compute():
            rect = self.rect
            return position.compute(rect.x, rect.width, 0)

        return LazyValue(compute)''')]),
("ok-rect-loop",LP,[(L,'''            child.set_rect(Rect(x, y, w, h))''','''            placed = Rect(position=(x, y), size=(w, h))
            child.set_rect(placed)''')]),
]
