M='elsie/boxtree/boxmixin.py'; D='elsie/slides/slidedeck.py'; S='elsie/text/stylecontainer.py'; L='elsie/boxtree/layout.py'; T='elsie/text/textboxitem.py'; X='elsie/boxtree/box.py'
POL='''        self._apply_name_policy(name)

'''
CHK='''        if view_box is not None and not (
            isinstance(view_box, tuple)
'''
EDITS=[
("policy-first",[(D,POL,''),(D,CHK,POL+CHK)]),
("layout-first",[(M,'''        show = ShowInfo.parse(show, box.slide.max_step)
        box._child_index(prepend, above, below)

        layout = box.layout.add(''','''        layout = box.layout.add('''),(M,'''        if z_level is None:
            z_level = box.z_level
''','''        show = ShowInfo.parse(show, box.slide.max_step)
        if z_level is None:
            z_level = box.z_level
''')]),
("no-index",M,'''        box._child_index(prepend, above, below)

''',''),
("maxstep",M,'''        show = ShowInfo.parse(show, box.slide.max_step)
''','''        parsed = ShowInfo.parse(show, box.slide.max_step)
        box.slide.max_step = max(box.slide.max_step, parsed.max_step())
        show = parsed
'''),
("set-style",S,'''        if base != "default":
            base_style = self.get_style(base)
            base_style.update(style)
            style = base_style
        self._styles = self._styles.copy()
        self._styles[style_name] = style
''','''        self._styles = self._styles.copy()
        self._styles[style_name] = style
        if base != "default":
            base_style = self.get_style(base)
            base_style.update(style)
            style = base_style
            self._styles[style_name] = style
'''),
("layout-insert",L,'''        layout = Layout(
            x=x,
            y=y,
            width=width,
            height=height,
            p_left=p_left,
            p_right=p_right,
            p_top=p_top,
            p_bottom=p_bottom,
            horizontal=horizontal,
        )

        if prepend:
            self.children.insert(0, layout)
        else:
            self.children.append(layout)
''','''        layout = Layout()
        if prepend:
            self.children.insert(0, layout)
        else:
            self.children.append(layout)
        layout.__init__(
            x=x,
            y=y,
            width=width,
            height=height,
            p_left=p_left,
            p_right=p_right,
            p_top=p_top,
            p_bottom=p_bottom,
            horizontal=horizontal,
        )
'''),
("text-order",M,'''        result_style = self._get_box().get_style(style, full_style=True)
        parsed_text = parse_text(
            text, escape_char=escape_char, begin_char=begin_char, end_char=end_char
        )
        return self._text_helper(parsed_text, result_style, scale_to_fit, rotation)
''','''        item = self._text_helper([], self._get_box().get_style("default", full_style=True), scale_to_fit, rotation)
        item._style = self._get_box().get_style(style, full_style=True)
        item._parsed_text = parse_text(
            text, escape_char=escape_char, begin_char=begin_char, end_char=end_char
        )
        return item
'''),
("poly",M,'''        assert len(points) >= 2
        points = [unpack_point(p, self) for p in points]
        return self._create_simple_box_item(draw)
''','''        item = self._create_simple_box_item(draw)
        assert len(points) >= 2
        points = [unpack_point(p, self) for p in points]
        return item
'''),
("img-size",M,'''            image_data = et.tostring(root).decode()

        self._get_box().layout.set_image_size_request(
            image_width * (scale or 1), image_height * (scale or 1)
        )
''','''            image_data = et.tostring(root).decode()
'''),
("img-size2",[(M,'''        image_data = None

        if select''','''        image_data = None
        self._get_box()._ensure_steps(show_begin)

        if select''')]),
("update-style",S,'''        old_style = self.get_style(style_name, full_style=False)
        old_style.update(style)
        self._styles = self._styles.copy()
        self._styles[style_name] = old_style
        return old_style''','''        old_style = self.get_style(style_name, full_style=False)
        self._styles = self._styles.copy()
        self._styles[style_name] = old_style
        old_style.update(style)
        return old_style'''),
("ok-policy-helper",[(D,CHK,'''        self._check(view_box)
        if False and not (
            isinstance(view_box, tuple)
'''),(D,'''    def new_slide(''','''    @staticmethod
    def _check(view_box):
        if view_box is not None and not (
            isinstance(view_box, tuple)
            and len(view_box) == 4
            and all(isinstance(v, (int, float)) for v in view_box)
        ):
            raise Exception("view_box")

    def new_slide(''')]),
("ok-order",M,'''        show = ShowInfo.parse(show, box.slide.max_step)
        box._child_index(prepend, above, below)
''','''        box._child_index(prepend, above, below)
        show = ShowInfo.parse(show, box.slide.max_step)
'''),
("ok-index-var",[(M,'''        box._child_index(prepend, above, below)
''','''        index = box._child_index(prepend, above, below)
'''),(M,'''        box.add_child(new_box, prepend, above, below)''','''        box.children.insert(index, new_box)''')]),
("ok-check-helper",[(M,'''        show = ShowInfo.parse(show, box.slide.max_step)
        box._child_index(prepend, above, below)
''','''        show = self._check_box(box, show, prepend, above, below)
'''),(M,'''    def overlay(self''','''    def _check_box(self, box, show, prepend, above, below):
        show = ShowInfo.parse(show, box.slide.max_step)
        box._child_index(prepend, above, below)
        return show

    def overlay(self''')]),
("ok-layout-last",[(M,'''        if z_level is None:
            z_level = box.z_level

        box.slide.max_step = max(box.slide.max_step, show.max_step())

        new_box''','''        box.slide.max_step = max(box.slide.max_step, show.max_step())
        if z_level is None:
            z_level = box.z_level

        new_box''')]),
("ok-style-local",S,'''        self._styles = self._styles.copy()
        self._styles[style_name] = style
        return style''','''        styles = self._styles.copy()
        styles[style_name] = style
        self._styles = styles
        return style'''),
("ok-add-child",X,'''        self.children.insert(self._child_index(prepend, above, below), obj)''','''        i = self._child_index(prepend, above, below)
        self.children.insert(i, obj)'''),
("ok-index-inline",M,'''        box._child_index(prepend, above, below)

''','''        position = box._child_index(prepend=prepend, above=above, below=below)
        assert position >= 0

'''),
]
EDITS+=[("ok-inline-index",[(M,'''        box._child_index(prepend, above, below)

''','''        if above is not None and below is not None:
            raise Exception("'above' and 'below' cannot be both set")
        if below is not None:
            index = box.children.index(below)
        elif above is not None:
            index = box.children.index(above) + 1
        else:
            index = 0 if prepend else len(box.children)

''')])]
