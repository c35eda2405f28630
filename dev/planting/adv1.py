L='elsie/boxtree/layout.py'; V='elsie/boxtree/value.py'; B='elsie/boxtree/box.py'; M='elsie/boxtree/boxmixin.py'; S='elsie/slides/show.py'; D='elsie/slides/slidedeck.py'; I='elsie/boxtree/boxitem.py'
EDITS=[
("ratio-free","L01",[(L,"free -= max(rq.min_size, rq.ratio * rect_size)","free -= rq.ratio * rect_size")]),
("hidden-children","F02 L01",[(L,"return [child for child in self.children if child.is_managed(self.horizontal)]","return [c for c in self.children if c.is_managed(self.horizontal) and not getattr(c, 'hidden', False)]")]),
("managed-cache","L01 R01",[(L,"        self.callbacks = None\n        self.children = []","        self._managed = None\n        self.callbacks = None\n        self.children = []"),(L,"        return [child for child in self.children if child.is_managed(self.horizontal)]","        if self._managed is None:\n            self._managed = [c for c in self.children if c.is_managed(self.horizontal)]\n        return self._managed")]),
("padding-ensure","L01",[(L,"self._width = self._width.ensure(width + self.p_left + self.p_right)","self._width = self._width.ensure(width + 2 * self.p_left)")]),
("neg-free","L01",[(L,"dd = rect_start + free / 2","dd = rect_start + max(free, 0) / 2")]),
("fill-cross","L01",[(V,"            if fill_unit is None:\n                return full_size","            if not fill_unit:\n                return full_size")]),
("fill-min","L01 L03",[(V,"                return fill_unit * self.fill","                return max(fill_unit * self.fill, self.min_size)")]),
("ensure-share","L01",[(V,"        s = copy(self)\n","        s = self\n")]),
("prepend-layout","L01 Z01",[(L,"            self.children.insert(0, layout)","            self.children.append(layout)")]),
("pad-zero","L01",[(L,"    if a is not None:\n        return a\n    if b is not None:\n        return b\n    return c or 0","    return a or b or c or 0")]),
("align-lazy","L03",[(V,"            return origin + (full_size - self_size) * self.align","            return origin + max(full_size - self_size, 0) * self.align")]),
("show-empty","F01",[(S,"        return max(max(self.steps, default=1), self.open_step if self.open_step else 1)","        return max(self.steps[-1] if self.steps else 1, self.open_step or 1)")]),
("show-unsorted","F01",[(S,"ShowInfo(sorted(steps), open_step)","ShowInfo(steps, open_step)"),(S,"        return max(max(self.steps, default=1), self.open_step if self.open_step else 1)","        return max(self.steps[-1] if self.steps else 1, self.open_step or 1)")]),
("show-last-open","F01",[(S,'''                match["from"] = str(current_max + 1)''','''                match["from"] = str(current_max + 1)
            current_max += 1''')]),
("show-min","F01 F03",[(S,"        return ShowInfo(self.steps, self.open_step, min_steps)","        return ShowInfo(self.steps, self.open_step, steps)")]),
("show-parse-cache","F01",[(S,"    @classmethod\n    def parse(cls, obj, current_max=None):\n","    _cache = {}\n\n    @classmethod\n    def parse(cls, obj, current_max=None):\n        if obj not in cls._cache:\n            cls._cache[obj] = cls._parse(obj, current_max)\n        return cls._cache[obj]\n\n    @classmethod\n    def _parse(cls, obj, current_max=None):\n")]),
("z-none","Z01",[(M,"        if z_level is None:\n            z_level = box.z_level\n","        z_level = z_level or box.z_level\n")]),
("z-max","Z01",[(M,"            z_level = box.z_level\n","            z_level = max(box.z_level, 0)\n")]),
("painters-order","Z01 F02",[(B,'''            if not isinstance(child, Box):
                painters.append(child)
            else:
                painters += child.get_painters(ctx, depth)''','''            if not isinstance(child, Box):
                painters.insert(0, child)
            else:
                painters += child.get_painters(ctx, depth)''')]),
("painters-vis","F02",[(B,'''        if not self._show_info.is_visible(ctx.step):
            return painters
        depth += 1''','''        if not self._show_info.is_visible(ctx.step):
            return [p for c in self._box_children if c._show_info.steps for p in c.get_painters(ctx, depth)]
        depth += 1''')]),
("above-self","Z01",[(B,"            return self.children.index(above) + 1","            return min(self.children.index(above) + 1, len(self.children) - 1)")]),
("index-eq","Z01",[(B,"return 0 if prepend else len(self.children)","return 0 if prepend else len(self._box_children)")]),
("max-step","F01 F03",[(M,"box.slide.max_step = max(box.slide.max_step, show.max_step())","box.slide.max_step = show.max_step()")]),
("ensure-steps","F03 F04",[(B,"self.slide.max_step = max(self.slide.max_step, steps)","self.slide.max_step = max(self.slide.max_step, self._show_info.max_step())")]),
("slide-steps","F03",[("elsie/slides/slide.py","shows.append(box._min_steps())","shows.append(box._show_info.max_step())")]),
("traverse","F03",[(B,"        for child in self._box_children:","        for child in self._box_children[:1] + [c for c in self._box_children[1:] if c.children]:")]),
("painter-zitem","Z01",[(I,"self.z_level = box.z_level","self.z_level = box.z_level if box.z_level else 0")]),
]
