D="elsie/slides/slidedeck.py"; R="elsie/render/render.py"; C="elsie/utils/cache.py"; I="elsie/render/inkscape.py"; P="elsie/render/pdfmerge.py"
DP="F04 N01 W01 R01 E02 C01 C02 G01 G02 S02 Q Z01 B02 I01 U01 F02"
DP=" ".join(x for x in DP.split() if x!="Q")
CP="C01 C02 C03 C04 C05 R01 E02 W01 X02"
IP="I01 C01 C03 R01 E02 W01"
DP="F03 F04 N01 W01 R01 E01 E02 C01 C05 J01 K01 S02 F01 X01"
CP="C01 C02 C03 C04 C05 R01 E01 E02 W01"
IP="I01 C01 C03 R01 E01 E02 W01"
EDITS=[
("ok-policy-dict",DP,[(D,'''        if name_policy == "auto":
            if is_inside_notebook():
                name_policy = "replace"
            else:
                name_policy = "ignore"
        self.name_policy = name_policy
''','''        self.name_policy = (
            ("replace" if is_inside_notebook() else "ignore")
            if name_policy == "auto"
            else name_policy
        )
''')]),
("ok-byname",DP,[(D,'''        for slide in self._slides:
            if slide.name == name:
                return slide
''','''        return next((s for s in self._slides if s.name == name), None)
''')]),
("ok-viewbox",DP,[(D,'''        if view_box is not None and not (
            isinstance(view_box, tuple)
            and len(view_box) == 4
            and all(isinstance(v, (int, float)) for v in view_box)
        ):
            raise Exception(
                "view_box has to be None or tuple of four numbers (x, y, width, height)"
            )

        self._apply''','''        if view_box is not None:
            valid = isinstance(view_box, tuple) and len(view_box) == 4
            if valid:
                for v in view_box:
                    if not isinstance(v, (int, float)):
                        valid = False
            if not valid:
                raise Exception(
                    "view_box has to be None or tuple of four numbers (x, y, width, height)"
                )

        self._apply''')]),
("ok-newslide-kw",DP,[(D,'''        slide = Slide(
            self,
            len(self._slides),
            self.width,
            self.height,
            self._styles.copy(),
            self.fs_cache,
            self.temp_cache,
            view_box,
            name,
            debug_boxes,
        )
        self._slides.append(slide)
        box = slide.box()
        if bg_color is None:
            bg_color = self.bg_color
        if bg_color:
            box.box(x=0, y=0, width="100%", height="100%", z_level=-1000000).rect(
                bg_color=bg_color
            )
        return box
''','''        index = len(self._slides)
        slide = Slide(
            slides=self,
            index=index,
            width=self.width,
            height=self.height,
            styles=dict(self._styles),
            fs_cache=self.fs_cache,
            temp_cache=self.temp_cache,
            view_box=view_box,
            name=name,
            debug_boxes=debug_boxes,
        )
        self._slides.append(slide)
        root = slide.box()
        color = self.bg_color if bg_color is None else bg_color
        if color:
            background = root.box(x=0, y=0, width="100%", height="100%", z_level=-1000000)
            background.rect(bg_color=color)
        return root
''')]),
("ok-slide-name",DP,[(D,'''            if name is None:
                _name = fn.__name__
            else:
                _name = name
            slide = self.new_slide(
                name=_name,
                bg''','''            slide = self.new_slide(
                fn.__name__ if name is None else name,
                bg''')]),
("ok-policy",DP,[(D,'''        slide = self.get_slide_by_name(name)
        if slide:
            if self.name_policy == "unique":
                raise Exception("Slide with name '{}' already exists".format(name))
            elif self.name_policy == "replace":
                self._slides.remove(slide)
            else:
                assert 0
''','''        existing = self.get_slide_by_name(name)
        if existing is None:
            return
        assert self.name_policy in ("unique", "replace")
        if self.name_policy == "unique":
            raise Exception(f"Slide with name '{name}' already exists")
        self._slides.remove(existing)
''')]),
("ok-policy2",DP,[(D,'''        slide = self.get_slide_by_name(name)
        if slide:
            if self.name_policy == "unique":
                raise Exception("Slide with name '{}' already exists".format(name))
            elif self.name_policy == "replace":
                self._slides.remove(slide)
            else:
                assert 0
''','''        slide = self.get_slide_by_name(name)
        if slide:
            if self.name_policy == "unique":
                raise Exception("Slide with name '{}' already exists".format(name))
            self._slides = [s for s in self._slides if s is not slide]
''')]),
("ok-render-units",DP,[(D,'''        units = []
        for slide in select_slides:
            slide.prepare()
            for step in range(1, slide.steps() + 1):
                units.append(slide.make_render_unit(self.backend, step, export_type))

        if self.debug:''','''        units = []
        for slide in select_slides:
            slide.prepare()
            units += [
                slide.make_render_unit(self.backend, s + 1, export_type)
                for s in range(slide.steps())
            ]

        if self.debug:''')]),
("ok-render-helper",DP,[(D,'''        units = []
        for slide in select_slides:
            slide.prepare()
            for step in range(1, slide.steps() + 1):
                units.append(slide.make_render_unit(self.backend, step, export_type))

        if self.debug:
            for unit in units:
                unit.write_debug(self.fs_cache.cache_dir)
''','''        units = []
        for slide in select_slides:
            units.extend(self._slide_units(slide, export_type))

        if self.debug:
            for unit in units:
                unit.write_debug(self.fs_cache.cache_dir)
'''),(D,'''    def render(
        self,
        output''','''    def _slide_units(self, slide, export_type):
        slide.prepare()
        result = []
        step = 1
        while step <= slide.steps():
            result.append(slide.make_render_unit(self.backend, step, export_type))
            step += 1
        return result

    def render(
        self,
        output''')]),
("ok-render-select",DP,[(D,'''        if select_slides is None:
            select_slides = self._slides

        if not select_slides:''','''        select_slides = self._slides if select_slides is None else list(select_slides)

        if len(select_slides) == 0:''')]),
("ok-render-merge",DP,[(D,'''        if export_type == "pdf" and pdf_merger is not None:
            merger = get_pdf_merger_by_name(pdf_merger)
        else:
            merger = []

        self._show_progress("Building", first=True)
        for i, unit in enumerate(units):
            unit_output = unit.export(self.fs_cache, export_type)
            if unit_output is not None:
                merger.append(unit_output)
            self._show_progress("Building", i, len(units))
        self._show_progress("Building", len(units), len(units), last=True)

        if export_type == "pdf" and pdf_merger is not None:
            merger.write(output, self.debug)
            if prune_cache:
                self.fs_cache.remove_unused()
            print("SlideDeck written into '{}'".format(output))
        else:
            if prune_cache:
                self.fs_cache.remove_unused()
            return merger
''','''        merge = export_type == "pdf" and pdf_merger is not None
        merger = get_pdf_merger_by_name(pdf_merger) if merge else []

        self._show_progress("Building", first=True)
        count = len(units)
        for i in range(count):
            unit_output = units[i].export(self.fs_cache, export_type)
            if unit_output is not None:
                merger.append(unit_output)
            self._show_progress("Building", i, count)
        self._show_progress("Building", count, count, last=True)

        if merge:
            merger.write(output, self.debug)
        if prune_cache:
            self.fs_cache.remove_unused()
        if not merge:
            return merger
        print(f"SlideDeck written into '{output}'")
''')]),
("ok-render-merge2",DP,[(D,'''        self._show_progress("Building", first=True)
        for i, unit in enumerate(units):
            unit_output = unit.export(self.fs_cache, export_type)
            if unit_output is not None:
                merger.append(unit_output)
            self._show_progress("Building", i, len(units))
''','''        self._show_progress("Building", first=True)
        outputs = []
        for i, unit in enumerate(units):
            outputs.append(unit.export(self.fs_cache, export_type))
            self._show_progress("Building", i, len(units))
        for filename in outputs:
            if filename is not None:
                merger.append(filename)
''')]),
("ok-render-pp",DP,[(D,'''        if slide_postprocessing:
            slide_postprocessing(
                [slide.box() for slide in select_slides if isinstance(slide, Slide)]
            )
''','''        if slide_postprocessing is not None:
            boxes = []
            for slide in select_slides:
                if isinstance(slide, Slide):
                    boxes.append(slide.box())
            slide_postprocessing(boxes)
''')]),
("ok-spp",DP,[(D,'''            if (
                len(slides_per_page) != 2
                or not isinstance(slides_per_page[0], int)
                or not isinstance(slides_per_page[1], int)
            ):
                raise''','''            if not (
                len(slides_per_page) == 2
                and all(isinstance(n, int) for n in slides_per_page)
            ):
                raise''')]),
("ok-spp2",DP,[(D,'''            units = per_page_grouping(
                self.backend,
                units,
                slides_per_page[0],
                slides_per_page[1],
                self.width,
                self.height,
            )
''','''            columns, rows = slides_per_page
            units = per_page_grouping(
                self.backend, units, columns, rows, self.width, self.height
            )
''')]),
("ok-progress",DP,[(D,'''        if not first:
            prefix = "\\r"
        else:
            prefix = ""
        if last:''','''        prefix = "" if first else "\\r"
        if last:''')]),
("ok-group-divmod",DP,[(R,'''        x = (idx % count_x) * width
        y = (idx // count_x) * height

        xml.element("g")
        xml.set("transform", f"translate({x}, {y})")
''','''        row, column = divmod(idx, count_x)

        xml.element("g")
        xml.set(
            "transform", "translate({}, {})".format(column * width, row * height)
        )
''')]),
("ok-group-reset",DP,[(R,'''    new_units = []
    xml = new()
    idx = 0
    for unit in units:
        svg = unit.get_svg()
        if svg is None:
            close()
            xml = new()
            idx = 0
            new_units.append(unit)
            continue

        if idx == limit:
            close()
            xml = new()
            idx = 0
''','''    new_units = []
    xml = new()
    idx = 0
    for unit in units:
        svg = unit.get_svg()
        if svg is None or idx == limit:
            close()
            xml = new()
            idx = 0
        if svg is None:
            new_units.append(unit)
            continue
''')]),
("ok-group-close",DP,[(R,'''    def close():
        if idx > 0:
            svg_end(xml)
            new_units.append(
                SvgRenderUnit(None, None, xml.to_string(), backend.inkscape)
            )
''','''    def close():
        if idx == 0:
            return
        svg_end(xml)
        page = SvgRenderUnit(
            slide=None, step=None, svg=xml.to_string(), inkscape=backend.inkscape
        )
        new_units.append(page)
''')]),
("ok-unit-export",DP+" "+CP,[(R,'''        return fs_cache.ensure(
            self.svg.encode(),
            export_type,
            lambda source, target, et: export_by_inkscape(
                self.inkscape, source, target, et
            ),
        )
''','''        def constructor(source, target, data_type):
            export_by_inkscape(self.inkscape, source, target, data_type)

        return fs_cache.ensure(self.svg.encode("utf-8"), export_type, constructor)
''')]),
("ok-ext-export",DP,[(R,'''        if export_type == self.export_type:
            return self.filename
''','''        return self.filename if export_type == self.export_type else None
''')]),
("ok-wd",DP,[(R,'''        svg_file = os.path.join(
            out_dir, "{}-{}.svg".format(self.slide.index, self.step)
        )
        with open(svg_file, "w", encoding="utf-8") as f:
            f.write(self.svg)
''','''        name = f"{self.slide.index}-{self.step}.svg"
        with open(os.path.join(out_dir, name), "wb") as f:
            f.write(self.svg.encode("utf-8"))
''')]),
("ok-cache-files",CP,[(C,'''        self.cache_files = {
            filename
            for filename in os.listdir(cache_dir)
            if filename.startswith("cache.")
        }
''','''        self.cache_files = set()
        for entry in os.listdir(cache_dir):
            if entry.startswith("cache."):
                self.cache_files.add(entry)
''')]),
("ok-cache-name",CP,[(C,'''        h = self.hasher.copy()
        if isinstance(input_data, str):
            input_data = input_data.encode()
        h.update(input_data)
        return "cache.{}.{}".format(h.hexdigest(), data_type)
''','''        if isinstance(input_data, str):
            data = input_data.encode("utf-8")
        else:
            data = input_data
        digest = self.hasher.copy()
        digest.update(data)
        return f"cache.{digest.hexdigest()}.{data_type}"
''')]),
("ok-cache-wait",CP,[(C,'''            condition = self.in_progress.get(cache_file)
            while condition is not None:
                if not wait_on_collision:
                    return full_path
                condition.wait()
                condition = self.in_progress.get(cache_file)
''','''            while cache_file in self.in_progress:
                if not wait_on_collision:
                    return full_path
                self.in_progress[cache_file].wait()
''')]),
("ok-cache-build",CP,[(C,'''        try:
            self._build(cache_file, input_data, data_type, constructor)
            with self.lock:
                self.cache_files.add(cache_file)
        finally:
            with self.lock:
                del self.in_progress[cache_file]
                condition.notify_all()
        return full_path
''','''        built = False
        try:
            self._build(cache_file, input_data, data_type, constructor)
            built = True
        finally:
            with self.lock:
                if built:
                    self.cache_files.add(cache_file)
                self.in_progress.pop(cache_file)
                condition.notify_all()
        return full_path
''')]),
("ok-cache-rename",CP,[(C,'''        temp_path = self._full_path("temp-{}.{}".format(os.getpid(), cache_file))
        try:
            constructor(input_data, temp_path, data_type)
            os.replace(temp_path, self._full_path(cache_file))
        finally:
            if os.path.exists(temp_path):
                os.remove(temp_path)
''','''        target = self._full_path(cache_file)
        unfinished = self._full_path(f"temp-{os.getpid()}.{cache_file}")
        try:
            constructor(input_data, unfinished, data_type)
            os.replace(unfinished, target)
        finally:
            if os.path.isfile(unfinished):
                os.unlink(unfinished)
''')]),
("ok-cache-prune",CP,[(C,'''            for filename in self.cache_files.difference(self.touched_files):
                full_path = self._full_path(filename)
                if os.path.exists(full_path):
                    os.remove(full_path)
                self.cache_files.remove(filename)
''','''            unused = self.cache_files - self.touched_files
            for filename in sorted(unused):
                try:
                    os.remove(self._full_path(filename))
                except FileNotFoundError:
                    pass
            self.cache_files -= unused
''')]),
("ok-cache-prune2",CP,[(C,'''            for filename in self.cache_files.difference(self.touched_files):
                full_path = self._full_path(filename)
                if os.path.exists(full_path):
                    os.remove(full_path)
                self.cache_files.remove(filename)
''','''            for filename in list(self.cache_files):
                if filename in self.touched_files:
                    continue
                full_path = self._full_path(filename)
                if os.path.exists(full_path):
                    os.remove(full_path)
                self.cache_files.discard(filename)
''')]),
("ok-cache-get",CP,[(C,'''        def write_result(data, output, _data_type):
            with open(output, "w", encoding="utf-8") as f:
                f.write(constructor(data))

        full_path = self.ensure(input_data, data_type, write_result)
        with open(full_path, "r", encoding="utf-8") as f:
            return f.read()
''','''        def write_result(data, output, _data_type):
            content = constructor(data)
            with open(output, mode="w", encoding="utf-8") as f:
                f.write(content)

        path = self.ensure(input_data, data_type, constructor=write_result)
        with open(path, encoding="utf-8") as f:
            content = f.read()
        return content
''')]),
("ok-cache-hasher",CP,[(C,'''        start = f"elsie-{version}/".encode()
        self.hasher = hashlib.sha1()
        self.hasher.update(start)
''','''        self.hasher = hashlib.sha1("elsie-{}/".format(version).encode("utf-8"))
''')]),
("ok-prompt",IP,[(I,'''        chars = []
        stdout = self.process.stdout
        while True:
            character = stdout.read(1)
            if not character:
                raise Exception("Inkscape terminated unexpectedly")
            if (
                character == " "
                and chars
                and chars[-1] == ">"
                and (len(chars) == 1 or chars[-2] == "\\n")
            ):
                line = "".join(chars[:-2])
                return line
            else:
                chars.append(character)
''','''        chars = []
        while True:
            character = self.process.stdout.read(1)
            if character == "":
                raise Exception("Inkscape terminated unexpectedly")
            at_prompt = chars == [">"] or chars[-2:] == ["\\n", ">"]
            if character == " " and at_prompt:
                return "".join(chars[:-2])
            chars.append(character)
''')]),
("ok-runcmd",IP,[(I,'''        output = self.wait_for_prompt().strip()
        if output:
            output = output.splitlines(keepends=False)[-1]
        return output
''','''        output = self.wait_for_prompt().strip()
        lines = output.splitlines()
        return lines[-1] if lines else output
''')]),
("ok-query",IP,[(I,'''            self.run_command(f"select:{id}")
            value = self.run_command(query)
            try:
                return float(value)
            except ValueError:
                raise Exception(''','''            self.run_command("select:" + id)
            value = self.run_command(query)
            try:
                number = float(value)
                return number
            except ValueError:
                raise Exception(''')]),
("ok-svgfile",IP,[(I,'''    with tempfile.NamedTemporaryFile("wb", suffix=".svg") as f:
        f.write(svg if binary else svg.encode())
        f.flush()
''','''    data = svg if binary else svg.encode("utf-8")
    with tempfile.NamedTemporaryFile(mode="wb", suffix=".svg") as f:
        f.write(data)
        f.flush()
''')]),
("ok-topdf",IP,[(I,'''            self.run_command("export-area-page")
            # Inkscape 1.1
            self.run_command("export-png-color-mode:RGBA_8")
            self.run_command("export-background-opacity:0")
            self.run_command(f"export-type:{type}")
            self.run_command(f"export-filename:{target}")
            if self.text_to_path:
                self.run_command("export-text-to-path")
            self.run_command("export-do")
''','''            commands = [
                "export-area-page",
                # Inkscape 1.1
                "export-png-color-mode:RGBA_8",
                "export-background-opacity:0",
                f"export-type:{type}",
                f"export-filename:{target}",
            ]
            if self.text_to_path:
                commands.append("export-text-to-path")
            commands.append("export-do")
            for command in commands:
                self.run_command(command)
''')]),
("ok-merger",DP,[(P,'''        args = []
        for c in self.command:
            if c == "INPUTS":
                args += self.filenames
            elif c == "OUTPUT":
                args.append(output)
            else:
                args.append(c)
''','''        args = []
        for part in self.command:
            if part == "INPUTS":
                args.extend(self.filenames)
                continue
            args.append(output if part == "OUTPUT" else part)
''')]),
("ok-merger2",DP,[(P,'''        if not debug:
            stdout = stderr = subprocess.DEVNULL
        else:
            stdout = stderr = None
        subprocess.check_call(args, stdout=stdout, stderr=stderr)
''','''        sink = None if debug else subprocess.DEVNULL
        subprocess.check_call(args, stdout=sink, stderr=sink)
''')]),
]
