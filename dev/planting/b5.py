BUGS=[
dict(id="b05-svg-center", prop="B05", needs="the Cairo backend and a rotated SVG image",
 breaks="the image is rotated around a point that is not its centre: half of its size is taken in points instead of pixels",
 edits=[("render/backends/cairo/svg.py",'''center = (x + width / 2, y + height / 2)''','''center = (x + self.width / 2, y + self.height / 2)''')],
 demo='''
import cairocffi as cairo
from elsie.render.backends.cairo.svg import render_svg
svg = '<svg xmlns="http://www.w3.org/2000/svg" width="40" height="20"><rect x="0" y="0" width="40" height="20" fill="red"/></svg>'
for dpi in (72, 96):
    for rotation in (None, 90, 180, 270):
        surface = cairo.RecordingSurface(cairo.CONTENT_COLOR_ALPHA, None)
        render_svg(surface, svg, 100, 200, 40, 20, rotation=rotation, dpi=dpi)
        x, y, w, h = surface.ink_extents()
        unit = 72 / dpi
        assert abs(x + w / 2 - 120 * unit) < 1 and abs(y + h / 2 - 210 * unit) < 1, (dpi, rotation, x, y, w, h)
'''),
]
