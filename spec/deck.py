"""Specification tables of decks, slides, pages and mergers (analysed, never executed)."""
import os
import subprocess

from elsie.boxtree.box import Box
from elsie.render.backends import InkscapeBackend
from elsie.render.pdfmerge import ExternalMerger, PyPdfMerger, get_pdf_merger_by_name
from elsie.render.render import ExportedRenderUnit, SvgRenderUnit, per_page_grouping
from elsie.render.backends.svg.utils import svg_begin, svg_end
from elsie.slides.slide import ExternPdfSlide, Slide
from elsie.utils.geom import Rect
from elsie.utils.sxml import Xml


def slide_steps(self):
    needed = 1

    def visit(box):
        nonlocal needed
        needed = max(needed, box._min_steps())
    self._box._traverse(visit)
    return needed


def box_min_steps(self):
    return self._show_info.min_steps()


def slide_prepare(self):
    self._box.layout.set_rect(Rect(0, 0, self.width, self.height))


def slide_unit(self, backend, step, export_type):
    return backend.create_render_unit(self, step, export_type)


def pdf_prepare(self):
    pass


def pdf_steps(self):
    return 1


def pdf_unit(self, backend, step, export_type):
    assert export_type == "pdf"
    return ExportedRenderUnit(self, step, self.filename, "pdf")


def pdf_init(self, filename):
    self.filename = os.path.abspath(filename)
    self.name = None


def exported_export(self, fs_cache, export_type):
    if export_type == self.export_type:
        return self.filename
    return None


def add_pdf(self, filename):
    self._slides.append(ExternPdfSlide(filename))


def render(self, output="slides.pdf", return_units=False, export_type="pdf", pdf_merger="pypdf", slide_postprocessing=None,
           prune_cache=True, save_cache=True, select_slides=None, slides_per_page=None):
    slides = self._slides if select_slides is None else select_slides
    if not slides:
        raise Exception("no slides")
    if slides_per_page is not None:
        if len(slides_per_page) != 2 or not isinstance(slides_per_page[0], int) or not isinstance(slides_per_page[1], int):
            raise Exception("grid")
    if slide_postprocessing:
        slide_postprocessing([s.box() for s in slides if isinstance(s, Slide)])
    if prune_cache:
        self.backend.prune_cache()
    if save_cache:
        self.backend.save_cache()
    units = []
    for slide in slides:
        slide.prepare()
        for step in range(1, slide.steps() + 1):
            units.append(slide.make_render_unit(self.backend, step, export_type))
    if self.debug:
        for unit in units:
            unit.write_debug(self.fs_cache.cache_dir)
    if slides_per_page is not None:
        units = per_page_grouping(self.backend, units, slides_per_page[0], slides_per_page[1], self.width, self.height)
    if return_units:
        return units
    merged = export_type == "pdf" and pdf_merger is not None
    files = get_pdf_merger_by_name(pdf_merger) if merged else []
    for unit in units:
        name = unit.export(self.fs_cache, export_type)
        if name is not None:
            files.append(name)
    if merged:
        files.write(output, self.debug)
        if prune_cache:
            self.fs_cache.remove_unused()
        return None
    if prune_cache:
        self.fs_cache.remove_unused()
    return files


def merger_by_name(name):
    if name == "pypdf":
        return PyPdfMerger()
    if name == "pdfunite":
        return ExternalMerger(("pdfunite", "INPUTS", "OUTPUT"))
    raise Exception("unknown")


def external_init(self, command):
    self.command = command
    self.filenames = []


def external_append(self, filename):
    self.filenames.append(filename)


def external_write(self, output, debug):
    args = []
    for c in self.command:
        if c == "INPUTS":
            args.extend(self.filenames)
        elif c == "OUTPUT":
            args.append(output)
        else:
            args.append(c)
    where = None if debug else subprocess.DEVNULL
    subprocess.check_call(args, stdout=where, stderr=where)


def pypdf_append(self, filename):
    self.inner.append(filename)


def pypdf_write(self, output, debug):
    with open(output, "wb") as f:
        self.inner.write(f)


def grouping(backend, units, count_x, count_y, width, height):
    assert isinstance(backend, InkscapeBackend)
    assert count_x > 0
    assert count_y > 0
    if count_x * count_y == 1:
        return units
    pages = []
    xml = Xml()
    svg_begin(xml, width * count_x, height * count_y)
    used = 0
    for unit in units:
        svg = unit.get_svg()
        if svg is None:
            if used > 0:
                svg_end(xml)
                pages.append(SvgRenderUnit(None, None, xml.to_string(), backend.inkscape))
            xml = Xml()
            svg_begin(xml, width * count_x, height * count_y)
            used = 0
            pages.append(unit)
            continue
        if used == count_x * count_y:
            if used > 0:
                svg_end(xml)
                pages.append(SvgRenderUnit(None, None, xml.to_string(), backend.inkscape))
            xml = Xml()
            svg_begin(xml, width * count_x, height * count_y)
            used = 0
        x = (used % count_x) * width
        y = (used // count_x) * height
        xml.element("g")
        xml.set("transform", f"translate({x}, {y})")
        xml.raw_text(svg)
        xml.close("g")
        used += 1
    if used > 0:
        svg_end(xml)
        pages.append(SvgRenderUnit(None, None, xml.to_string(), backend.inkscape))
    return pages


def exported_init(self, slide, step, filename, export_type="pdf"):
    self.slide = slide
    self.step = step
    self.filename = filename
    self.export_type = export_type


def no_svg(self):
    return None


def nothing(self, out_dir):
    pass
