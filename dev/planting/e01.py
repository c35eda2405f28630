R='elsie/render/'
EDITS=[
('xml-write','elsie/utils/sxml.py','"w", encoding="utf-8"','"w"'),
('ora','elsie/boxtree/boxmixin.py','open(output, "w", encoding="utf-8")','open(output, "w")'),
('get-read','elsie/utils/cache.py','open(full_path, "r", encoding="utf-8")','open(full_path)'),
('latin','elsie/ext/latex.py','"w", encoding="utf-8"','"w", encoding="latin-1"'),
('json','elsie/render/backends/svg/backend.py','json.dump(cache_config, f)','json.dump(cache_config, f, ensure_ascii=False)'),
('loc',[('elsie/render/render.py','encoding="utf-8"','encoding=locale.getpreferredencoding()'),('elsie/render/render.py','import os','import locale\nimport os')]),
('ascii','elsie/render/render.py','self.svg.encode()','self.svg.encode("ascii", "replace")'),
('ascii2','elsie/render/inkscape.py','svg.encode()','svg.encode("ascii", "xmlcharrefreplace")'),
('modevar','elsie/render/render.py','open(svg_file, "w", encoding="utf-8")','open(svg_file, **dict(mode="w"))'),
('latin-hash','elsie/utils/cache.py','input_data.encode()','input_data.encode("latin-1", "replace")'),
('tempw','elsie/render/inkscape.py','NamedTemporaryFile("wb", suffix=".svg") as f:\n        f.write(svg if binary else svg.encode())','NamedTemporaryFile("w", suffix=".svg") as f:\n        f.write(svg.decode() if binary else svg)'),
('wrap-ok',[('elsie/render/render.py','with open(svg_file, "w", encoding="utf-8") as f','with opened(svg_file, encoding=ENC) as f'),('elsie/render/render.py','class RenderUnit','ENC = "utf8"\n\n\ndef opened(path, mode="w", encoding=None):\n    return open(path, mode, encoding=encoding)\n\n\nclass RenderUnit')]),
('wrap-bad',[('elsie/render/render.py','with open(svg_file, "w", encoding="utf-8") as f','with opened(svg_file) as f'),('elsie/render/render.py','class RenderUnit','def opened(path, mode="w", encoding=None):\n    return open(path, mode, encoding=encoding)\n\n\nclass RenderUnit')]),
('iso-tostring','elsie/render/image.py','et.tostring(root).decode()','et.tostring(root, encoding="latin-1").decode()'),
('pathlib',[('elsie/utils/sxml.py','        with open(filename, "w", encoding="utf-8") as f:\n            for chunk in self.chunks:\n                f.write(chunk)','        pathlib.Path(filename).write_text("".join(self.chunks))'),('elsie/utils/sxml.py','class Xml','import pathlib\n\n\nclass Xml')]),
('pathlib-ok',[('elsie/utils/sxml.py','        with open(filename, "w", encoding="utf-8") as f:\n            for chunk in self.chunks:\n                f.write(chunk)','        pathlib.Path(filename).write_text("".join(self.chunks), "utf-8")'),('elsie/utils/sxml.py','class Xml','import pathlib\n\n\nclass Xml')]),
('latex-stdin',[('elsie/ext/latex.py','            stderr=subprocess.PIPE,\n            cwd=wdir,\n        )\n\n        _stdout, _stderr = p.communicate()','            stderr=subprocess.PIPE,\n            cwd=wdir,\n            text=True,\n        )\n\n        _stdout, _stderr = p.communicate(text)')]),
('ink-raw','elsie/render/inkscape.py','self.run_command(f"select:{id}")','self.run_command(svg)'),
]
