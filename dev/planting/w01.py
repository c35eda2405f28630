EDITS=[
('next-to-output','elsie/slides/slidedeck.py','merger.write(output, self.debug)','merger.write(output + ".tmp", self.debug)\n            os.replace(output + ".tmp", output)'),
('parent','elsie/render/render.py','os.path.join(\n            out_dir,','os.path.join(\n            os.path.dirname(out_dir),'),
('slide-name','elsie/render/render.py','self.slide.index, self.step','self.slide.name, self.step'),
('cwd','elsie/render/render.py','os.path.join(\n            out_dir, "{}-{}.svg".format(self.slide.index, self.step)\n        )','"{}-{}.svg".format(self.slide.index, self.step)'),
('latex-cwd',[('elsie/ext/latex.py','stderr=subprocess.PIPE,\n            cwd=wdir,','stderr=subprocess.PIPE,')]),
('ora-next','elsie/boxtree/boxmixin.py','with open(output, "w", encoding="utf-8") as f','with open(filename + ".svg", "w", encoding="utf-8") as f'),
('rm-output','elsie/slides/slidedeck.py','merger.write(output, self.debug)','if os.path.exists(output):\n                os.remove(output)\n            merger.write(output, self.debug)'),
('rmtree',[('elsie/slides/slidedeck.py','            os.makedirs(cache_dir)','            os.makedirs(cache_dir)\n        else:\n            import shutil\n            shutil.rmtree(cache_dir)\n            os.makedirs(cache_dir)')]),
('rm-pdf','elsie/render/pdfmerge.py','            self.inner.write(f)','            self.inner.write(f)\n        import os\n        for n in self.names:\n            os.unlink(n)'),
('rm-pdf2',[('elsie/render/pdfmerge.py','        self.inner = PdfFileMerger()','        self.inner = PdfFileMerger()\n        self.names = []'),('elsie/render/pdfmerge.py','self.inner.append(filename)','self.inner.append(filename)\n        self.names.append(filename)'),('elsie/render/pdfmerge.py','            self.inner.write(f)','            self.inner.write(f)\n        import os\n        for n in self.names:\n            os.unlink(n)')]),
('any-file','elsie/utils/cache.py','for filename in os.listdir(cache_dir)\n            if filename.startswith("cache.")','for filename in os.listdir(cache_dir)'),
('latex-tmp',[('elsie/ext/latex.py','with TemporaryDirectory(prefix="elsie-") as wdir:','with TemporaryDirectory(prefix="elsie-", dir=".") as wdir:')]),
('cairo-name','elsie/render/backends/cairo/backend.py','get_cache_file_path(self.cache_dir, export_type)','"{}.{}".format(slide.name, export_type)'),
('ink-tmp','elsie/render/inkscape.py','NamedTemporaryFile("wb", suffix=".svg")','NamedTemporaryFile("wb", suffix=".svg", dir=".")'),
('helper-ok',[('elsie/utils/cache.py','                if os.path.exists(full_path):\n                    os.remove(full_path)\n','                self._drop(full_path)\n'),('elsie/utils/cache.py','    def remove_unused(self):','    @staticmethod\n    def _drop(path):\n        if os.path.exists(path):\n            os.remove(path)\n\n    def remove_unused(self):')]),
('mkoutdir','elsie/slides/slidedeck.py','merger.write(output, self.debug)','os.makedirs(os.path.dirname(os.path.abspath(output)), exist_ok=True)\n            merger.write(output, self.debug)'),
('pptx','elsie/ext/export.py','pr.save(filename)','pr.save(filename if filename.endswith(".pptx") else filename + ".pptx")'),
('touch','elsie/slides/slidedeck.py','self.fs_cache = FsCache(','open("elsie.lock", "w").close()\n        self.fs_cache = FsCache('),
('cfile','elsie/utils/cache.py','self._full_path("temp-{}.{}".format(os.getpid(), cache_file))','"temp-{}.{}".format(os.getpid(), cache_file)'),
('qtemp','elsie/render/backends/svg/backend.py','temp_file = cache_file + ".tmp"','temp_file = os.path.basename(cache_file) + ".tmp"'),
]
