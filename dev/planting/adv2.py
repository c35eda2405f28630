L='elsie/boxtree/layout.py'; B='elsie/boxtree/box.py'; V='elsie/boxtree/value.py'; TB='elsie/text/textboxitem.py'; TS='elsie/text/textstyle.py'
LI='elsie/ext/list.py'; MD='elsie/ext/markdown.py'; SH='elsie/slides/show.py'; SL='elsie/slides/slide.py'; SD='elsie/slides/slidedeck.py'; JU='elsie/render/jupyter.py'
RE='elsie/render/render.py'; IK='elsie/render/inkscape.py'; CR='elsie/render/backends/cairo/rcontext.py'; CB='elsie/render/backends/cairo/backend.py'; SB='elsie/render/backends/svg/backend.py'
TP='elsie/text/textparser.py'; CA='elsie/utils/cache.py'; LZ='elsie/boxtree/lazy.py'; GE='elsie/utils/geom.py'; AR='elsie/shapes/arrow.py'; CS='elsie/render/backends/cairo/svg.py'
EDITS=[
("a-free","L01",[(L,"        if fills:\n            fill_unit = free / fills","        if fills and free > 0:\n            fill_unit = free / fills")]),
("a-ratio-min","L01",[(L,"free -= max(rq.min_size, rq.ratio * rect_size)","free -= rq.ratio * rect_size")]),
("a-lazy-pad","L01",[(L,"self._width = self._width.ensure(width + self.p_left + self.p_right)","self._width = self._width.ensure(width + self.p_left * 2)")]),
("a-ensure","L01 L03",[(V,"        s = copy(self)\n        s.min_size = size\n        return s","        if self.ratio:\n            return SizeValue(min_size=size, ratio=self.ratio)\n        s = copy(self)\n        s.min_size = size\n        s.lazy_value = None\n        return s")]),
("a-fill2","L03",[(V,"return SizeValue(fill=int(m[\"fill\"]))","return SizeValue(fill=int(m[\"fill\"]) or 1)")]),
("a-align","L03",[(V,"return origin + (full_size - self_size) * self.align","return origin + max(full_size - self_size, 0) * self.align")]),
("a-pos-zero","L03",[(V,"        if self.fix_pos is not None:","        if self.fix_pos:")]),
("a-depth","Z01 L04",[(B,"                painters += child.get_painters(ctx, depth)","                painters += child.get_painters(ctx, depth + child.z_level)")]),
("a-prepend","Z01",[(B,"return 0 if prepend else len(self.children)","return 0 if prepend else max(len(self.children), 1) if False else len(self._box_children)")]),
("a-steps-hidden","F03",[(B,"        for child in self._box_children:\n            child._traverse(fn)","        for child in self._box_children:\n            if child.children:\n                child._traverse(fn)")]),
("a-visible-min","F01",[(SH,"        if min_steps:\n            self._min_steps = min_steps","        if min_steps and open_step is None:\n            self._min_steps = min_steps")]),
("a-last","F01",[(SH,'''            match["from"] = str(current_max)
''','''            match["from"] = str(max(current_max, 2) - 1 if match.get("end") else current_max)
''')]),
("a-open","F01",[(SH,'''self.open_step is not None and self.open_step <= step''','''self.open_step is not None and self.open_step <= step and (not self.steps or step > self.steps[0])''')]),
("a-sorted","F01",[(SH,"return ShowInfo(sorted(steps), open_step)","return ShowInfo(sorted(steps)[:100], open_step)")]),
("a-label-split","F04",[(SH,'''show = label.split("**", 2)[1]''','''show = label.split("**")[-1] if label.count("**") == 1 else label.split("**")[-2]''')]),
("a-select","F03",[(SD,"        if select_slides is None:\n            select_slides = self._slides","        if select_slides is None:\n            select_slides = self._slides\n        else:\n            select_slides = [s for s in self._slides if s in select_slides]")]),
("a-progress","F03 E02",[(SD,"            if unit_output is not None:\n                merger.append(unit_output)","            if unit_output is not None and unit_output not in getattr(merger, 'filenames', ()):\n                merger.append(unit_output)")]),
("a-pages","F03",[(RE,"        if idx == limit:\n            close()","        if idx == limit or idx and unit.slide is not None and unit.slide.view_box:\n            close()")]),
("a-pages-pdf","K01 F03",[(RE,"            close()\n            xml = new()\n            idx = 0\n            new_units.append(unit)","            new_units.append(unit)")]),
("a-pages-xy","F03 L02",[(RE,"        y = (idx // count_x) * height","        y = (idx // count_y) * height")]),
("a-pdf-abs","K01",[(SL,"self.filename = os.path.abspath(filename)","self.filename = os.path.normpath(filename)")]),
("a-pdf-type","K01",[(RE,"        if export_type == self.export_type:\n            return self.filename","        return self.filename")]),
("a-jup-index","J01",[(JU,"step-{index + 1}'","step-{index if index > 9 else index + 1}'")]),
("a-jup-prune","J01",[(JU,"        prune_cache=False,\n","        prune_cache=len(slide.slides._slides) == 1,\n")]),
("a-jup-close","J01",[(JU,"if len(fragments) > 1:","if len(fragments) > 2:")]),
("a-inside","J01",[(JU,'if "IPKernelApp" not in ipython.config:','if "IPKernelApp" not in ipython.config and "TerminalIPythonApp" not in ipython.config:')]),
("a-replace","N01",[(SD,"        for slide in self._slides:\n            if slide.name == name:\n                return slide","        for slide in reversed(self._slides):\n            if slide.name is not None and slide.name.strip() == name:\n                return slide")]),
("a-name-empty","N01",[(SD,"        if name is None:\n            if self.name_policy == \"unique\":","        if not name:\n            if self.name_policy == \"unique\":")]),
("a-styles-shared","S01",[(SD,"            self._styles.copy(),","            self._styles,")]),
("a-fetch","S01",[(TS,"        if style_name == \"default\":\n            return style.copy()","        if style_name == \"default\":\n            return style.copy() if full_style else style")]),
("a-update-prio","S02",[(TS,"            if value is not None:\n                setattr","            if value is not None and (slot != \"_priority\" or value):\n                setattr")]),
("a-full","S02",[(TS,"    if not full_style:\n        return style.copy()","    if not full_style or style.size and style.font and style.color:\n        return style.copy()")]),
("a-copy","S02",[(TS,"        copy = self.copy()\n        copy.update(style)\n        return copy","        copy = style.copy()\n        for slot in self.__slots__:\n            if getattr(copy, slot) is None:\n                setattr(copy, slot, getattr(self, slot))\n        copy.bold = copy.bold or self.bold\n        return copy")]),
("a-lineno","T01",[(TP,'lines_len = len(str(number_of_lines(tokens)))','lines_len = len(str(len(tokens)))')]),
("a-norm-end","T01",[(TP,'''        if key == "end" and result[-1][0] == "newline":''','''        if key == "end" and result[-1] == NEWLINE_1:''')]),
("a-esc","T01",[(TP,'''        if c == escape_char and text[i + 1 : i + 2] == escape_char:''','''        if c == escape_char and counter == 0 and text[i + 1 : i + 2] == escape_char:''')]),
("a-trim","T01",[(TP,'''        (len(line) - len(line.lstrip()) for line in lines if line.strip()), default=0''','''        (len(line) - len(line.lstrip()) for line in lines if line), default=0''')]),
("a-merge","T01",[(TP,"            result[-1] = (\"newline\", result[-1][1] + value)\n            continue","            result[-1] = (\"newline\", max(result[-1][1], value) if value > 1 else result[-1][1] + value)\n            continue")]),
("a-linebox","T02",[(TB,"return n_lines * self._text_size[1] / text_lines + 1","return min(n_lines, text_lines) * self._text_size[1] / text_lines + 1")]),
("a-linebox-y","T02",[(TB,"            y = rect.y + (rect.height - self._text_size[1]) / 2\n            return y + line_height * index","            y = rect.y + max(rect.height - self._text_size[1], 0) / 2\n            return y + line_height * index")]),
("a-inline-nth","T02",[(TB,"        for (i, token) in enumerate(self._parsed_text):\n            if token[0] == \"begin\" and token[1] == style_name:","        for (i, token) in enumerate(self._parsed_text):\n            if token[0] == \"begin\" and token[1].lstrip(\"#\") == style_name:")]),
("a-inline-scale","T02",[(TB,'box_args.setdefault("width", LazyValue(lambda: query_w * self._text_scale))','box_args.setdefault("width", LazyValue(lambda: query_w * min(self._text_scale, 1)))')]),
("a-fit","T02 R01",[(TB,"                if tw > 0.00001 and th > 0.00001:","                if tw > 0.00001 and th > 0.00001 and rect.width != tw:")]),
("a-extract","T02",[(TP,"    return result, index - b + len(open_blocks)","    return result, index - b + (len(open_blocks) if b else 0)")]),
("a-ul-level","U01",[(LI,"        level = level if level is not None else self.level","        level = level or self.level")]),
("a-ol-start","U01",[(LI,"        start = start if start is not None else 1\n        assert start >= 1","        start = start or 1\n        assert start >= 1 or level")]),
("a-list-copy","U01",[(LI,"self.level = [] if level is None else list(level)","self.level = [] if level is None else level if isinstance(level, list) and len(level) > 3 else list(level)")]),
("a-list-pad","U01 E02",[(LI,"label_padding if label_padding is not None else self.label_padding","label_padding or self.label_padding")]),
("a-md-ol","M01",[(MD,"new_list = ctx.active_list.ol(start=list_node.start, level=())","new_list = ctx.active_list.ol(start=list_node.start)")]),
("a-md-quote","M01",[(MD,"    parent_ctx = ctx.copy(box=container)","    parent_ctx = ctx.copy(box=container, active_list=None)")]),
("a-md-has","M01",[(MD,"        if not box.has_style(name):","        if name not in box._styles or name == MD_PARAGRAPH_STYLE:")]),
("a-cache-str","C01",[(CA,"        h.update(input_data)\n","        h.update(input_data[:1 << 20])\n")]),
("a-cache-type","C01",[(CA,'return "cache.{}.{}".format(h.hexdigest(), data_type)','return "cache.{}.{}".format(h.hexdigest(), data_type.split("-")[0])')]),
("a-cache-temp","C02",[(CA,'"temp-{}.{}".format(os.getpid(), cache_file)','"cache.{}.tmp".format(cache_file)')]),
("a-cache-notify","C03",[(CA,"                condition.notify_all()","                condition.notify()")]),
("a-cache-touch","C05",[(CA,"        with self.lock:\n            self.touched_files.add(cache_file)\n            condition","        with self.lock:\n            condition"),(CA,"            if cache_file in self.cache_files and os.path.exists(full_path):\n                return full_path","            if cache_file in self.cache_files and os.path.exists(full_path):\n                self.touched_files.add(cache_file)\n                return full_path")]),
("a-query-zero","C04",[(SB,"        if value is None:\n            value = compute_query","        if not value:\n            value = compute_query")]),
("a-query-key","C04",[(SB,"        key = (method, data)","        key = (method[:10], data)")]),
("a-query-ver","C04",[(SB,'if cache_config.get("version") != VERSION:','if cache_config.get("version", VERSION) != VERSION:')]),
("a-ink-strip","I01",[(IK,"output = output.splitlines(keepends=False)[-1]","output = output.splitlines(keepends=False)[0]")]),
("a-ink-close","I01",[(IK,"        try:\n            yield\n        finally:\n            inkscape.run_command(\"file-close\")","        yield\n        inkscape.run_command(\"file-close\")")]),
("a-ink-bg","I01",[(IK,"            if self.text_to_path:\n                self.run_command(\"export-text-to-path\")\n            self.run_command(\"export-do\")","            self.run_command(\"export-do\")\n            if self.text_to_path:\n                self.run_command(\"export-text-to-path\")")]),
("a-vb","B05",[(CR,"            self.line_scaling = apply_viewbox(self.ctx, width, height, viewbox)","            self.line_scaling = apply_viewbox(self.ctx, *self.dims(), viewbox)\n\n    def dims(self):\n        return self.height * self.width / max(self.height, 1), self.width")]),
("a-mat","B05",[(CR,"            matrix=self.ctx.get_matrix(),\n","")]),
("a-ratio-svg","B05",[(CS,"                height *= output_width / width","                height *= output_width / max(width, 1)")]),
("a-bitmap","B05 G02",[(CR,"surface.set_device_scale(img_width / width, img_height / height)","surface.set_device_scale(img_width / width, img_width / width)")]),
("a-ellipse","B02 B03",[(CR,"scale_y = 1.0 if dim_larger == rect.height else dim_smaller / dim_larger","scale_y = 1.0 if dim_larger > rect.width else dim_smaller / dim_larger")]),
("a-poly","B02",[(CR,"for p in points[1:] + [points[0]]:","for p in points[1:]:")]),
("a-arrow-in","G01",[(AR,"shift = self.stroke_width / 2","shift = self.stroke_width / 2 if self.angle < 1 else 0")]),
("a-resize","G01",[(GE,"    t = 1 + (len_change / ln)","    t = max(1 + (len_change / ln), 0)")]),
("a-eval-pair","L04",[(LZ,"return self.x.eval(), self.y.eval()","x = self.x.eval()\n        return x, self.y.eval() if self.y is not self.x else x")]),
("a-size-req","G02",[(L,"        self.ensure_width(size_y * image_width / image_height)","        if size_y:\n            self.ensure_width(size_y * image_width / image_height)\n        else:\n            self.ensure_width(image_width)")]),
]
