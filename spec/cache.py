"""Specification tables of the file cache (analysed, never executed)."""
import hashlib
import os
import tempfile
import threading

import lxml.etree as et

from elsie.boxtree.boxitem import SimpleBoxItem
from elsie.ext.latex import _render_latex
from elsie.render.backends.svg.utils import svg_begin, svg_end, svg_size_to_pixels
from elsie.render.inkscape import export_by_inkscape
from elsie.render.ora import convert_ora_to_svg
from elsie.utils.cache import FsCache
from elsie.utils.sxml import Xml


def cache_init(self, cache_dir, version):
    h = hashlib.sha1()
    h.update(("elsie-" + version + "/").encode())
    self.hasher = h
    self.cache_dir = cache_dir
    self.touched_files = set()
    self.cache_files = {f for f in os.listdir(cache_dir) if f.startswith("cache.")}
    self.lock = threading.Lock()
    self.in_progress = {}


def filename_of(self, input_data, data_type):
    h = self.hasher.copy()
    h.update(input_data.encode() if isinstance(input_data, str) else input_data)
    return "cache." + h.hexdigest() + "." + data_type


def full_path(self, filename):
    return os.path.join(self.cache_dir, filename)


def by_file(self, filename, data_type, constructor, wait_on_collision=True):
    with open(filename, "rb") as f:
        data = f.read()
    return self.ensure(data, data_type, constructor, wait_on_collision=wait_on_collision)


def get(self, input_data, data_type, constructor):
    def write_result(data, output, kind):
        with open(output, "w", encoding="utf-8") as f:
            f.write(constructor(data))
    name = self.ensure(input_data, data_type, write_result)
    with open(name, "r", encoding="utf-8") as f:
        return f.read()


def remove_unused(self):
    with self.lock:
        for name in self.cache_files.difference(self.touched_files):
            path = os.path.join(self.cache_dir, name)
            if os.path.exists(path):
                os.remove(path)
            self.cache_files.remove(name)


def unique_path(directory, extension):
    return os.path.abspath(os.path.join(directory, "cache." + next(tempfile._get_candidate_names()))) + "." + extension


def export_page(self, fs_cache, export_type):
    return fs_cache.ensure(self.svg.encode(), export_type, lambda source, target, kind: export_by_inkscape(self.inkscape, source, target, kind))


def export_file(inkscape, source, target, type):
    inkscape.convert_to_pdf(source, target, type)
    if not os.path.isfile(target):
        raise Exception


def ora_image(self, filename, scale, fragments, show_begin, select_fragments, rotation):
    key = (filename, "svg")
    slide = self._get_box().slide
    if key not in slide.temp_cache:
        def write_svg(content, output, kind):
            svg = convert_ora_to_svg(filename)
            with open(output, "w", encoding="utf-8") as f:
                f.write(svg)
        slide.temp_cache[key] = et.parse(slide.fs_cache.ensure_by_file(filename, "svg", write_svg)).getroot()
    return self._image_svg(filename, scale, fragments, show_begin, select_fragments, rotation)


def version(self, elsie_version):
    return elsie_version


def inkscape_version(self, elsie_version):
    v = elsie_version + "/" + self.inkscape_version
    if self.inkscape.text_to_path:
        v += "/text-to-path"
    return v


def latex_svg(parent, text, scale=1.0, header=None, tail=None):
    if header is None:
        header = """
\\documentclass[varwidth,border=1pt]{standalone}
\\usepackage[utf8x]{inputenc}
\\usepackage{ucs}
\\usepackage{amsmath}
\\usepackage{amsfonts}
\\usepackage{amssymb}
\\usepackage{graphicx}
\\begin{document}"""
    if tail is None:
        tail = "\\end{document}"
    box = parent._get_box()
    svg = box.slide.fs_cache.get(header + "\n" + text + "\n" + tail, "svg", _render_latex)
    root = et.fromstring(svg)
    w = svg_size_to_pixels(root.get("width")) * scale
    h = svg_size_to_pixels(root.get("height")) * scale
    box.layout.ensure_width(w)
    box.layout.ensure_height(h)

    def draw(ctx):
        r = parent._get_box().layout.rect
        ctx.draw_svg(svg=svg, x=r.x + (r.width - w) / 2, y=r.y + (r.height - h) / 2, width=w, height=h, scale=scale)
    item = SimpleBoxItem(box, draw)
    box.add_child(item)
    return item


def backend_init(self, cache_dir):
    self.dimensions = None
    self.cache_dir = os.path.abspath(cache_dir)


def backend_dimensions(self, width, height):
    self.dimensions = (width, height)


def inkscape_query(inkscape, method, data):
    xml = Xml()
    svg_begin(xml)
    xml.raw_text(data)
    svg_end(xml)
    if method == "inkscape-w":
        return inkscape.get_width(xml.to_string(), "target")
    if method == "inkscape-h":
        return inkscape.get_height(xml.to_string(), "target")
    if method == "inkscape-x":
        return inkscape.get_x(xml.to_string(), "target")
    raise Exception
