"""Pages and embedded images of the Cairo backend: sizes and units."""
import cairocffi as cairo
import pangocairocffi
from cairosvg.colors import color
from cairosvg.helpers import node_format, size
from cairosvg.parser import Tree
from PIL import Image

from elsie.render.backends.cairo.draw import apply_viewbox, transform
from elsie.render.backends.cairo.svg import CairoSurface


def context(self, width, height, filename=None, export_format="pdf", viewbox=None, step=1, debug_boxes=False):
    self.step = step
    self.debug_boxes = debug_boxes
    self.width = width
    self.height = height
    # 72 points are 96 pixels
    self.device_width = width * 0.75
    self.device_height = height * 0.75
    self.filename = filename
    if export_format == "pdf":
        self.surface = cairo.PDFSurface(filename, width * 0.75, height * 0.75)
        ctx = cairo.Context(self.surface)
        ctx.scale(0.75, 0.75)
        self.ctx = ctx
        self.reference_ctx = ctx
        self.cairosvg_dpi = 96
    elif export_format == "png":
        # one pixel for each pixel
        self.surface = cairo.ImageSurface(cairo.FORMAT_ARGB32, width, height)
        self.ctx = cairo.Context(self.surface)
        self.ctx.set_source_rgba(0, 0, 0, 255)
        reference = cairo.PDFSurface(None, width * 0.75, height * 0.75)
        self.reference_ctx = cairo.Context(reference)
        self.reference_ctx.scale(0.75, 0.75)
        self.cairosvg_dpi = 96
    else:
        assert False
    self.line_scaling = 1.0
    if viewbox:
        self.line_scaling = apply_viewbox(self.ctx, width, height, viewbox)
    self.pctx = pangocairocffi.create_context(self.reference_ctx)


def export(self, fs_cache, export_type):
    if export_type == "pdf":
        self.ctx.surface.finish()
        return self.ctx.filename
    elif export_type == "png":
        self.ctx.surface.flush()
        data = self.ctx.surface.get_data()
        image = Image.frombuffer("RGBA", (self.ctx.width, self.ctx.height), data, "raw", "BGRa", 0, 1)
        image.save(self.ctx.filename)
        return self.ctx.filename


def embed(surface, svg, x, y, width, height, rotation=None, dpi=96, matrix=None):
    tree = Tree(bytestring=svg.encode())
    instance = CairoSurface(surface=surface, rotation=rotation, x=x, y=y, tree=tree, dpi=dpi, output_width=width, output_height=height,
                            matrix=matrix)
    instance.draw(tree)


def svg_surface(self, surface, x, y, tree, dpi, output=None, parent_surface=None, parent_width=None, parent_height=None, scale=1,
                output_width=None, output_height=None, background_color=None, map_rgba=None, map_image=None, rotation=None,
                matrix=None):
    self.surface = surface
    self.cairo = None
    self.context_width = parent_width
    self.context_height = parent_height
    self.cursor_position = [0, 0]
    self.cursor_d_position = [0, 0]
    self.text_path_width = 0
    self.tree_cache = {(tree.url, tree.get("id")): tree}
    self.markers = parent_surface.markers if parent_surface else {}
    self.gradients = parent_surface.gradients if parent_surface else {}
    self.patterns = parent_surface.patterns if parent_surface else {}
    self.masks = parent_surface.masks if parent_surface else {}
    self.paths = parent_surface.paths if parent_surface else {}
    self.filters = parent_surface.filters if parent_surface else {}
    self.images = parent_surface.images if parent_surface else {}
    self._old_parent_node = None
    self.parent_node = None
    self.output = output
    self.dpi = dpi
    self.font_size = size(self, "12pt")
    self.stroke_and_fill = True
    width, height, viewbox = node_format(self, tree)
    if viewbox is None:
        viewbox = (0, 0, width, height)
    if output_width and output_height:
        width = output_width
        height = output_height
    elif output_width:
        # the aspect ratio is kept
        if width:
            height = height * (output_width / width)
        width = output_width
    elif output_height:
        if height:
            width = width * (output_height / height)
        height = output_height
    else:
        width = width * scale
        height = height * scale
    self.cairo, self.width, self.height = self._create_surface(
        width * self.device_units_per_user_units, height * self.device_units_per_user_units)
    if self.width == 0 or self.height == 0:
        raise ValueError("The SVG size is undefined")
    self.context = cairo.Context(self.cairo)
    if matrix is not None:
        # the coordinates of the slide
        self.context.set_matrix(matrix)
    else:
        self.context.scale(self.device_units_per_user_units, self.device_units_per_user_units)
    transform(self.context, (x + width / 2, y + height / 2), rotation=rotation)
    self.context.translate(x, y)
    self.set_context_size(width, height, viewbox, tree)
    if background_color:
        self.context.set_source_rgba(*color(background_color))
        self.context.paint()
    self.map_rgba = map_rgba
    self.map_image = map_image


def same_surface(self, width, height):
    return self.surface, width, height


def without_flow(root):
    for el in SVG_QUERY(root):
        el.getparent().remove(el)
    return root


def fractions(color):
    return tuple(v / 255 for v in color)
