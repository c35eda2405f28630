BUGS=[
dict(id="b05-viewbox-offset", prop="B05", needs="the Cairo backend, and a slide with a view box of another size and other proportions than the slide",
 breaks="what the view box shows is not centred on the slide: the offset is computed in pixels of the slide, but applied to the units of the view box",
 edits=[("render/backends/cairo/draw.py",'''translate_x = (width / scale - viewbox_width) / 2''','''translate_x = (width - viewbox_width * scale) / 2''')],
 demo='''
from PIL import Image
from elsie.render.backends import CairoBackend
d = deck(width=400, height=100, backend=CairoBackend(cache_dir=WORK))
s = d.new_slide(view_box=(0, 0, 50, 50))
s.box(x=0, y=0, width=50, height=50).rect(bg_color="red")
(f,) = d.render(None, export_type="png")
im = Image.open(f).convert("RGB")
for x, expected in ((100, False), (145, False), (155, True), (200, True), (245, True), (255, False), (300, False)):
    assert (im.getpixel((x, 50)) == (255, 0, 0)) is expected, (x, im.getpixel((x, 50)))
'''),
dict(id="b04-nested-style", prop="B04", needs="the Cairo backend, and a text with a style inside of another style",
 breaks="the inner part has the properties of the inner style only: those of the style around it are lost",
 edits=[("render/backends/cairo/text.py",'''base_style.append(current_style.compose(this_style))''','''base_style.append(base_style[0].compose(this_style))''')],
 demo='''
from elsie.render.backends import CairoBackend
from elsie.text.textparser import parse_text
d = deck(backend=CairoBackend(cache_dir=WORK))
b = CairoBackend(cache_dir=WORK)
b.set_dimensions(400, 300)
style = elsie.TextStyle(font="Arial", size=20, color="black", align="left", line_spacing=1.2, bold=False, italic=False)
styles = {"default": style, "large": elsie.TextStyle(size=80), "leaning": elsie.TextStyle(italic=True)}
def width(text):
    return b.compute_text_width(parse_text(text, "~"), style, styles)
whole = width("~large{Words}")
assert whole > 2 * width("Words")
assert abs(width("~large{~leaning{Words}}") - whole) < whole / 4
assert abs(width("~large{~leaning{Wo}rds}") - whole) < whole / 4
'''),
]
