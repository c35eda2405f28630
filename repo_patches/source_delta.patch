From d63dcec8f8870494ba59879c42785896566c9be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 01/39] fix: escape apostrophes in XML attributes as a
 character reference

XML has no backslash escapes, a font or layer name with an apostrophe
produced a malformed SVG.
---
 elsie/utils/sxml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/utils/sxml.py b/elsie/utils/sxml.py
index a190d65..8ce9363 100644
--- a/elsie/utils/sxml.py
+++ b/elsie/utils/sxml.py
@@ -23,8 +23,8 @@ class Xml:
     def set(self, name, value, escape=True):
         assert self.is_open
         if escape:
-            value = str(value).replace("'", "\\'")
-        self.chunks.append(" {}='{}'".format(name, escape_text(value)))
+            value = escape_text(str(value)).replace("'", "&#39;")
+        self.chunks.append(" {}='{}'".format(name, value))
 
     def text(self, text):
         self._close()
-- 
2.43.0


From 6d9a4428c031c527a0567ebacee881b702bea647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 02/39] fix: keep tspans balanced when a dummy style spans
 several lines

A newline closed the tspan of every active style, but reopened only those
with a real style.
---
 elsie/render/backends/svg/draw.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 6b52060..84640e3 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -82,14 +82,13 @@ def draw_text(
             for _ in active_styles:
                 xml.close("tspan")  # tspan
             for j, s in enumerate(active_styles):
-                if s is None:
-                    continue
                 xml.element("tspan")
                 xml.set("xml:space", "preserve")
                 if j == 0:
                     xml.set("x", x)
                     xml.set("dy", line_size * value)
-                set_font_from_style(xml, s)
+                if s is not None:
+                    set_font_from_style(xml, s)
         elif token_type == "begin":
             is_dummy = value and value[0] == "#"
             s = styles.get(value, None)
@@ -115,9 +114,8 @@ def draw_text(
         else:
             raise Exception("Invalid token")
 
-    for s in active_styles:
-        if s is not None:
-            xml.close("tspan")
+    for _ in active_styles:
+        xml.close("tspan")
     xml.close("text")
 
 
-- 
2.43.0


From f87afc1a1ed7ad99bc9644d2e19ae686afd4a30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 03/39] fix: restore the priority of the enclosing style when
 an inline style ends

When the enclosing inline style was a dummy or suppressed one, the priority
of the style that just ended stayed in force.
---
 elsie/render/backends/svg/draw.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 84640e3..9563579 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -109,8 +109,9 @@ def draw_text(
         elif token_type == "end":
             xml.close("tspan")
             active_styles.pop()
-            if active_styles and active_styles[-1] is not None:
-                current_priority = active_styles[-1].priority
+            current_priority = next(
+                s.priority for s in reversed(active_styles) if s is not None
+            )
         else:
             raise Exception("Invalid token")
 
-- 
2.43.0


From 934854156ec5b66ff5367db307765455e58be54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 04/39] fix: resolve relative y positions in horizontal boxes
 against the height

---
 elsie/boxtree/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index dd2039b..7de68a5 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -162,7 +162,7 @@ class Layout:
                 w = w.compute(rect.width, fill_unit)
                 h = h.compute(rect.height, None)
                 if child._y is not None:
-                    y = child._y.compute(rect.y, rect.width, h)
+                    y = child._y.compute(rect.y, rect.height, h)
                 else:
                     y = rect.y + (rect.height - h) / 2
                 if child._x is None:
-- 
2.43.0


From 89cfa0dc2ef042038a6e7bc94cc0e5f72fde6f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 05/39] fix: do not accept fill(N) sizes with superfluous
 closing parentheses

---
 elsie/boxtree/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/boxtree/value.py b/elsie/boxtree/value.py
index 36f42ec..35b4e5b 100644
--- a/elsie/boxtree/value.py
+++ b/elsie/boxtree/value.py
@@ -6,7 +6,7 @@ from .lazy import LazyValue
 
 class SizeValue:
     parser = re.compile(
-        r"^(?P<min_size>\d+)$|^(?P<ratio>\d+)%$|^(?P<fill_1>fill)$|^fill[(](?P<fill>\d+)[)]+$"
+        r"^(?P<min_size>\d+)$|^(?P<ratio>\d+)%$|^(?P<fill_1>fill)$|^fill[(](?P<fill>\d+)[)]$"
     )  # noqa
 
     def __init__(self, min_size=0, ratio=None, fill=0, lazy_value=None):
-- 
2.43.0


From 402603ea7b758d19e0cef7f31728ea98889500e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 06/39] fix: compute the scale of scale_to_fit texts from their
 natural size

The second render of the same slide used the already scaled size, so the
text was drawn unscaled.
---
 elsie/text/textboxitem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textboxitem.py b/elsie/text/textboxitem.py
index b92b1c4..3111105 100644
--- a/elsie/text/textboxitem.py
+++ b/elsie/text/textboxitem.py
@@ -34,9 +34,10 @@ class TextBoxItem(BoxItem):
         self._make_query(box.slide.slides.backend)
 
         if scale_to_fit:
+            text_size = self._text_size
 
             def callback(rect):
-                tw, th = self._text_size
+                tw, th = text_size
                 if tw > 0.00001 and th > 0.00001:
                     scale = min(rect.width / tw, rect.height / th)
                     self._text_size = (tw * scale, th * scale)
-- 
2.43.0


From 39cd5df8929cd4243684494690f85d6be80d7e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 07/39] fix: allow slide names and slide postprocessing in
 decks with add_pdf

---
 elsie/slides/slide.py     | 1 +
 elsie/slides/slidedeck.py | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/elsie/slides/slide.py b/elsie/slides/slide.py
index 541636f..aa88042 100644
--- a/elsie/slides/slide.py
+++ b/elsie/slides/slide.py
@@ -70,6 +70,7 @@ class Slide:
 class ExternPdfSlide:
     def __init__(self, filename):
         self.filename = os.path.abspath(filename)
+        self.name = None
 
     def prepare(self):
         pass
diff --git a/elsie/slides/slidedeck.py b/elsie/slides/slidedeck.py
index e948eca..a2497ee 100644
--- a/elsie/slides/slidedeck.py
+++ b/elsie/slides/slidedeck.py
@@ -331,7 +331,9 @@ class SlideDeck(StyleContainer):
                 )
 
         if slide_postprocessing:
-            slide_postprocessing([slide.box() for slide in select_slides])
+            slide_postprocessing(
+                [slide.box() for slide in select_slides if isinstance(slide, Slide)]
+            )
 
         if prune_cache:
             self.backend.prune_cache()
-- 
2.43.0


From 0ca7d30b92a7cd103ef0476e8a69eb3fbe078fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 08/39] fix: keep the page order when a raw PDF interrupts a
 slides_per_page grid

---
 elsie/render/render.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elsie/render/render.py b/elsie/render/render.py
index 62574f7..3c970d9 100644
--- a/elsie/render/render.py
+++ b/elsie/render/render.py
@@ -91,6 +91,9 @@ def per_page_grouping(backend, units, count_x, count_y, width, height):
     for unit in units:
         svg = unit.get_svg()
         if svg is None:
+            close()
+            xml = new()
+            idx = 0
             new_units.append(unit)
             continue
 
-- 
2.43.0


From 7f95786c4b2eb61359e870b3bea16e413ceb744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 09/39] fix: close the document in Inkscape even if a query or
 an export fails

---
 elsie/render/inkscape.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 87ef6b6..e2854bd 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -11,8 +11,10 @@ def svg_file_input(inkscape, svg: str, binary=False):
         f.write(svg)
         f.flush()
         inkscape.run_command(f"file-open:{f.name}")
-        yield
-        inkscape.run_command("file-close")
+        try:
+            yield
+        finally:
+            inkscape.run_command("file-close")
 
 
 class InkscapeShell:
-- 
2.43.0


From 65c5a380031d5371fe0a31087a75acc0954a4339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 10/39] fix: do not wait forever for the prompt of a terminated
 Inkscape

---
 elsie/render/inkscape.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index e2854bd..490ebf8 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -39,6 +39,8 @@ class InkscapeShell:
         stdout = self.process.stdout
         while True:
             character = stdout.read(1)
+            if not character:
+                raise Exception("Inkscape terminated unexpectedly")
             if (
                 character == " "
                 and chars
-- 
2.43.0


From fd052502e07850a9f8b1c3b751a6e0fdc482e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 11/39] fix: do not block Inkscape on an error output that
 nobody reads

---
 elsie/render/inkscape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 490ebf8..c4382c8 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -24,7 +24,7 @@ class InkscapeShell:
             [inkscape_bin, "--shell"],
             stdout=subprocess.PIPE,
             stdin=subprocess.PIPE,
-            stderr=subprocess.PIPE,
+            stderr=subprocess.DEVNULL,
             universal_newlines=True,
         )
         self.wait_for_prompt()
-- 
2.43.0


From ee114c7a92455600fce8d237244b3b1b9a6b9ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 12/39] fix: do not leak the stroke of an ellipse into later
 Cairo drawings

---
 elsie/render/backends/cairo/rcontext.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 4c91287..9de741c 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -123,16 +123,18 @@ class CairoRenderingContext(RenderingContext):
             self.ctx.arc(center[0], center[1], dim_larger / 2.0, 0, 2 * math.pi)
 
         with ctx_scope(self.ctx):
-            transform(
-                self.ctx, center, rotation=rotation, scale_x=scale_x, scale_y=scale_y
-            )
-            if bg_color:
-                fill_shape(self.ctx, draw, bg_color=bg_color)
+            with ctx_scope(self.ctx):
+                transform(
+                    self.ctx, center, rotation=rotation, scale_x=scale_x, scale_y=scale_y
+                )
+                if bg_color:
+                    fill_shape(self.ctx, draw, bg_color=bg_color)
+                if color:
+                    draw()
+            # Do not apply transform to stroke
+            # (https://www.cairographics.org/cookbook/ellipses/)
             if color:
-                draw()
-        # Do not apply transform to stroke (https://www.cairographics.org/cookbook/ellipses/)
-        if color:
-            stroke_shape(self.ctx, lambda: ..., color=color, **kwargs)
+                stroke_shape(self.ctx, lambda: ..., color=color, **kwargs)
 
     def draw_polygon(self, points, rotation=None, **kwargs):
         with ctx_scope(self.ctx):
-- 
2.43.0


From b9c5e33a290b6d07d2a3c326a608124f4dca0a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 13/39] fix: draw nothing for an image of zero size in the
 Cairo backend

A bitmap raised ZeroDivisionError and an SVG image was drawn in its natural
size.
---
 elsie/render/backends/cairo/rcontext.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 9de741c..336c0de 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -218,6 +218,8 @@ class CairoRenderingContext(RenderingContext):
 
     def draw_bitmap(self, x, y, width, height, data, rotation=None, **kwargs):
         assert isinstance(data, bytes)
+        if not width or not height:
+            return
         image = Image.open(io.BytesIO(data))
         if image.mode != "RGBA":
             image = image.convert("RGBA")
@@ -246,6 +248,8 @@ class CairoRenderingContext(RenderingContext):
         rotation=None,
         **kwargs,
     ):
+        if not width or not height:
+            return
         root = et.fromstring(svg)
         normalized = normalize_svg(root)
         normalized_svg = et.tostring(normalized, encoding="utf8")
-- 
2.43.0


From d24707c51a2ad52e64944c768026c0040aabde32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 14/39] fix: accept lines without a color in the Cairo backend

---
 elsie/render/backends/cairo/rcontext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 336c0de..05d0eb8 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -155,7 +155,7 @@ class CairoRenderingContext(RenderingContext):
                 for p in points[1:]:
                     self.ctx.line_to(*p)
 
-            stroke_shape(self.ctx, draw, **kwargs)
+            fill_stroke_shape(self.ctx, draw, **kwargs)
 
     def draw_path(self, commands, **kwargs):
         with ctx_scope(self.ctx):
-- 
2.43.0


From 8f44ab87523f209bb364699bfbc3eb0304295f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 15/39] fix: wrap only the selected inline style in inline_box
 with Cairo

For a style nested in another one, the range was extended to the end of the
outermost style.
---
 elsie/render/backends/cairo/text.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 70f1cb9..b0f97d2 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -183,10 +183,9 @@ def get_byte_range(parsed_text, id_index) -> Tuple[int, int]:
         elif type == "begin":
             if i == id_index:
                 start = byte_count
-            stack.append(value)
+            stack.append(i)
         elif type == "end":
-            stack.pop()
-            if start is not None and not stack:
+            if stack.pop() == id_index:
                 return (start, byte_count)
     assert False
 
-- 
2.43.0


From 1896df556b362e446597c25d5dfdbf41e0d27e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 16/39] fix: report an unknown inline style in the Cairo
 backend

---
 elsie/render/backends/cairo/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index b0f97d2..0339b28 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -98,6 +98,8 @@ def get_text_and_attributes(
             else:
                 current_style = active_style()
                 this_style = styles.get(value)
+                if this_style is None:
+                    raise Exception("Style '{}' not found".format(value))
                 if current_style.priority > this_style.priority:
                     base_style.append(None)
                 else:
-- 
2.43.0


From 28ee8859dbc3d1818cf984516ed818d354b9541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 17/39] fix: continue a smooth cubic curve from its second
 control point in Cairo

---
 elsie/render/backends/cairo/shapes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/shapes.py b/elsie/render/backends/cairo/shapes.py
index 0afe8ae..857d414 100644
--- a/elsie/render/backends/cairo/shapes.py
+++ b/elsie/render/backends/cairo/shapes.py
@@ -28,9 +28,10 @@ def draw_path(ctx: cairocffi.Context, commands):
             last_quadratic_cp = None
             ctx.curve_to(*args[0], *args[1], *args[2])
         elif name == "S":
-            last_cubic_cp = reflect(last_cubic_cp or location, location)
+            first_cp = reflect(last_cubic_cp or location, location)
+            last_cubic_cp = args[0]
             last_quadratic_cp = None
-            ctx.curve_to(*last_cubic_cp, *args[0], *args[1])
+            ctx.curve_to(*first_cp, *args[0], *args[1])
         elif name == "Q":
             last_cubic_cp = None
             last_quadratic_cp = args[0]
-- 
2.43.0


From 83e16316fffa6eb1a5f686a3d37c1d06f886882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 18/39] fix: draw all points of path commands with repeated
 arguments in Cairo

---
 elsie/render/backends/cairo/shapes.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/shapes.py b/elsie/render/backends/cairo/shapes.py
index 857d414..ca3d59d 100644
--- a/elsie/render/backends/cairo/shapes.py
+++ b/elsie/render/backends/cairo/shapes.py
@@ -1,5 +1,7 @@
 import cairocffi
 
+from ....shapes.path import COMMAND_NARGS
+
 
 def reflect(cp, anchor):
     """
@@ -10,10 +12,21 @@ def reflect(cp, anchor):
     return (anchor[0] + neg[0], anchor[1] + neg[1])
 
 
+def split_commands(commands):
+    """
+    Split commands with repeated arguments (e.g. a polyline drawn by a single "L").
+    """
+    for name, args in commands:
+        nargs = COMMAND_NARGS[name]
+        for i in range(0, len(args), nargs):
+            # Additional points of "M" are implicit "L" commands
+            yield ("L" if name == "M" and i else name), args[i : i + nargs]
+
+
 def draw_path(ctx: cairocffi.Context, commands):
     last_cubic_cp = None
     last_quadratic_cp = None
-    for name, args in commands:
+    for name, args in split_commands(commands):
         location = ctx.get_current_point()
         if name == "M":
             last_cubic_cp = None
-- 
2.43.0


From afbda823c9b44f1a17e64a3aa42b31b60068ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 19/39] fix: reopen interrupted blocks in their original order
 when merging styles

---
 elsie/text/textparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 81860e0..2224ad9 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -185,7 +185,7 @@ def tokens_merge(tokens1, tokens2):
             else:
                 break
         del opened[pos]
-        result.extend(reopen)
+        result.extend(reversed(reopen))
     assert not opened
     return normalize_tokens(result)
 
-- 
2.43.0


From 21293e45b437bbc1bd2f50cf3df645ae02420eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 20/39] fix: accept a blank Markdown markup

---
 elsie/text/textparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 2224ad9..a6879b0 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -292,5 +292,7 @@ def _tokens_merge_helper(tokens1, tokens2):
 def trim_indent(text: str) -> str:
     """Find the smallest common indent from the left in the text and remove it from the text."""
     lines = text.splitlines(keepends=False)
-    min_indent = min(len(line) - len(line.lstrip()) for line in lines if line.strip())
+    min_indent = min(
+        (len(line) - len(line.lstrip()) for line in lines if line.strip()), default=0
+    )
     return "\n".join(line[min_indent:] for line in lines)
-- 
2.43.0


From 02bd1fdabe4f7e87f7f7c8ca140be4481ad45c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 21/39] fix: read and write text files in UTF-8 regardless of
 the locale

---
 elsie/boxtree/boxmixin.py | 2 +-
 elsie/ext/latex.py        | 4 ++--
 elsie/render/inkscape.py  | 4 ++--
 elsie/render/render.py    | 2 +-
 elsie/utils/cache.py      | 4 ++--
 elsie/utils/sxml.py       | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 369e28f..8e8dfbd 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -573,7 +573,7 @@ class BoxMixin:
 
             def constructor(_content, output, _data_type):
                 svg = convert_ora_to_svg(filename)
-                with open(output, "w") as f:
+                with open(output, "w", encoding="utf-8") as f:
                     f.write(svg)
 
             cache_file = slide.fs_cache.ensure_by_file(filename, "svg", constructor)
diff --git a/elsie/ext/latex.py b/elsie/ext/latex.py
index f8c8435..611edac 100644
--- a/elsie/ext/latex.py
+++ b/elsie/ext/latex.py
@@ -87,7 +87,7 @@ def _render_latex(text):
     args = ("/usr/bin/pdflatex", "-interaction=batchmode", "content.tex")
 
     with TemporaryDirectory(prefix="elsie-") as wdir:
-        with open(os.path.join(wdir, "content.tex"), "w") as f:
+        with open(os.path.join(wdir, "content.tex"), "w", encoding="utf-8") as f:
             f.write(text)
 
         p = subprocess.Popen(
@@ -100,7 +100,7 @@ def _render_latex(text):
 
         _stdout, _stderr = p.communicate()
         if p.returncode != 0:
-            with open(os.path.join(wdir, "content.log")) as f:
+            with open(os.path.join(wdir, "content.log"), encoding="utf-8", errors="replace") as f:
                 error = f.read()
             raise Exception("pdflatex failed:\n" + error)
 
diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index c4382c8..3d9125e 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -7,8 +7,8 @@ import tempfile
 
 @contextlib.contextmanager
 def svg_file_input(inkscape, svg: str, binary=False):
-    with tempfile.NamedTemporaryFile("wb" if binary else "w", suffix=".svg") as f:
-        f.write(svg)
+    with tempfile.NamedTemporaryFile("wb", suffix=".svg") as f:
+        f.write(svg if binary else svg.encode())
         f.flush()
         inkscape.run_command(f"file-open:{f.name}")
         try:
diff --git a/elsie/render/render.py b/elsie/render/render.py
index 3c970d9..fa1ccf0 100644
--- a/elsie/render/render.py
+++ b/elsie/render/render.py
@@ -34,7 +34,7 @@ class SvgRenderUnit(RenderUnit):
         svg_file = os.path.join(
             out_dir, "{}-{}.svg".format(self.slide.index, self.step)
         )
-        with open(svg_file, "w") as f:
+        with open(svg_file, "w", encoding="utf-8") as f:
             f.write(self.svg)
 
     def export(self, fs_cache, export_type):
diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 2ba5f68..a1634d2 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -69,11 +69,11 @@ class FsCache:
         full_path = os.path.join(self.cache_dir, cache_file)
 
         if cache_file in self.cache_files:
-            with open(full_path, "r") as f:
+            with open(full_path, "r", encoding="utf-8") as f:
                 return f.read()
 
         result = constructor(input_data)
-        with open(full_path, "w") as f:
+        with open(full_path, "w", encoding="utf-8") as f:
             f.write(result)
         self.cache_files.add(cache_file)
         return result
diff --git a/elsie/utils/sxml.py b/elsie/utils/sxml.py
index 8ce9363..ee59b5d 100644
--- a/elsie/utils/sxml.py
+++ b/elsie/utils/sxml.py
@@ -53,7 +53,7 @@ class Xml:
 
     def write(self, filename):
         assert len(self.stack) == 0, "Empty stack"
-        with open(filename, "w") as f:
+        with open(filename, "w", encoding="utf-8") as f:
             for chunk in self.chunks:
                 f.write(chunk)
 
-- 
2.43.0


From a0bf13cbeccfd5574bcc05f793a4e2d29c7c4ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 22/39] fix: do not leave a part of a box behind when its
 creation fails

An invalid show/above/below left an invisible child in the layout of the
parent, which shifted its other children.
---
 elsie/boxtree/box.py      | 14 +++++++-------
 elsie/boxtree/boxmixin.py |  5 ++++-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/elsie/boxtree/box.py b/elsie/boxtree/box.py
index b1e5b1f..6b43c87 100644
--- a/elsie/boxtree/box.py
+++ b/elsie/boxtree/box.py
@@ -59,16 +59,16 @@ class Box(BoxMixin, StyleContainer):
         """Semi-internal function, you can add your child if you know what you are doing."""
         assert isinstance(obj, Box) or isinstance(obj, BoxItem)
 
+        self.children.insert(self._child_index(prepend, above, below), obj)
+
+    def _child_index(self, prepend=False, above=None, below=None):
         if above is not None and below is not None:
             raise Exception("'above' and 'below' cannot be both set")
         if below is not None:
-            self.children.insert(self.children.index(below), obj)
-        elif above is not None:
-            self.children.insert(self.children.index(above) + 1, obj)
-        elif prepend:
-            self.children.insert(0, obj)
-        else:
-            self.children.append(obj)
+            return self.children.index(below)
+        if above is not None:
+            return self.children.index(above) + 1
+        return 0 if prepend else len(self.children)
 
     @property
     def _box_children(self):
diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 8e8dfbd..ed80dda 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -134,6 +134,10 @@ class BoxMixin:
             Name of the box (used for debugging purposes).
         """
         box = self._get_box()
+        # Check the arguments before anything is modified
+        show = ShowInfo.parse(show, box.slide.max_step)
+        box._child_index(prepend, above, below)
+
         layout = box.layout.add(
             x=x,
             y=y,
@@ -153,7 +157,6 @@ class BoxMixin:
         if z_level is None:
             z_level = box.z_level
 
-        show = ShowInfo.parse(show, box.slide.max_step)
         box.slide.max_step = max(box.slide.max_step, show.max_step())
 
         new_box = box.__class__(box.slide, layout, box._styles, show, z_level, name)
-- 
2.43.0


From 43c723bf680195d55dff2cbc168e010ad3ca22c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 23/39] fix: replace the query cache file atomically

A crash while the file was being written made every later start fail.
---
 elsie/render/backends/svg/backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 3135c28..de1b8f5 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -137,5 +137,7 @@ class InkscapeBackend(Backend):
             "inkscape": self.inkscape_version,
             "queries": list(cache.items()),
         }
-        with open(cache_file, "w") as f:
+        temp_file = cache_file + ".tmp"
+        with open(temp_file, "w") as f:
             json.dump(cache_config, f)
+        os.replace(temp_file, cache_file)
-- 
2.43.0


From 7750e59d3be90ea3fffce23271a74ac88a8d2e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 24/39] fix: keep the queries of the presentation when it is
 rendered repeatedly

The second render of a deck pruned the results of all its queries.
---
 elsie/render/backends/svg/backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index de1b8f5..50a848a 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -80,8 +80,7 @@ class InkscapeBackend(Backend):
         return SvgRenderUnit(slide, step, ctx.render(), self.inkscape)
 
     def prune_cache(self):
-        self.query_cache = self.used_query_cache
-        self.used_query_cache = {}
+        self.query_cache = dict(self.used_query_cache)
 
     def save_cache(self):
         self._save_query_cache(self.query_cache)
-- 
2.43.0


From 28c5ea3a34dbc094e929d7248bdee5e693187344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 25/39] fix: hide image elements annotated only with the first
 fragment

The annotations of an image with a single fragment were ignored.
---
 elsie/boxtree/boxmixin.py | 4 ++--
 elsie/render/image.py     | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index ed80dda..d65a0b2 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -6,7 +6,7 @@ import lxml.etree as et
 from PIL import Image
 
 from ..render.backends.svg.utils import svg_size_to_pixels
-from ..render.image import create_image_data, get_image_steps
+from ..render.image import create_image_data, get_image_steps, has_fragments
 from ..render.ora import convert_ora_to_svg
 from ..shapes import arrow
 from ..shapes.path import (
@@ -619,7 +619,7 @@ class BoxMixin:
 
         image_data = None
 
-        if image_steps == 1 and not select_fragments:
+        if select_fragments is None and not (fragments and has_fragments(root)):
             image_data = et.tostring(root).decode()
 
         def draw(ctx):
diff --git a/elsie/render/image.py b/elsie/render/image.py
index bb50de6..8d4779d 100644
--- a/elsie/render/image.py
+++ b/elsie/render/image.py
@@ -10,6 +10,10 @@ def parse_show_info_from_label(element):
     return ShowInfo.from_label(label)
 
 
+def has_fragments(root):
+    return any(parse_show_info_from_label(e) is not None for e in root.iter())
+
+
 def get_image_steps(root):
     steps = 1
     for element in root.iter():
-- 
2.43.0


From c8c44a079193f148489a4d3c6c4e40ca55857972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 26/39] fix: release the claim of a cache file when its
 constructor fails

A failed constructor blocked every later request for the same file forever.
The claim is also taken in the critical section that checks for it, otherwise
two threads could build the same file at once.
---
 elsie/utils/cache.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index a1634d2..b876e0a 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -42,21 +42,24 @@ class FsCache:
         with self.lock:
             self.touched_files.add(cache_file)
             condition = self.in_progress.get(cache_file)
-            if condition is not None:
-                if wait_on_collision:
-                    condition.wait()
-                    assert cache_file in self.cache_files
-                return full_path
+            while condition is not None:
+                if not wait_on_collision:
+                    return full_path
+                condition.wait()
+                condition = self.in_progress.get(cache_file)
             if cache_file in self.cache_files:
                 return full_path
+            condition = threading.Condition(self.lock)
+            self.in_progress[cache_file] = condition
 
-        condition = threading.Condition(self.lock)
-        self.in_progress[cache_file] = condition
-        constructor(input_data, full_path, data_type)
-        with self.lock:
-            self.cache_files.add(cache_file)
-            del self.in_progress[cache_file]
-            condition.notify_all()
+        try:
+            constructor(input_data, full_path, data_type)
+            with self.lock:
+                self.cache_files.add(cache_file)
+        finally:
+            with self.lock:
+                del self.in_progress[cache_file]
+                condition.notify_all()
         return full_path
 
     def remove_unused(self):
-- 
2.43.0


From 7a75a97f1fd5a7b70f9eab84868f4b7d8bc1edc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 27/39] fix: do not use cache files that were not completely
 written

A file left by a crash under its final name was used by all later runs.
---
 elsie/utils/cache.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index b876e0a..e7f6311 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -53,7 +53,7 @@ class FsCache:
             self.in_progress[cache_file] = condition
 
         try:
-            constructor(input_data, full_path, data_type)
+            self._build(cache_file, input_data, data_type, constructor)
             with self.lock:
                 self.cache_files.add(cache_file)
         finally:
@@ -62,24 +62,28 @@ class FsCache:
                 condition.notify_all()
         return full_path
 
+    def _build(self, cache_file, input_data, data_type, constructor):
+        # An unfinished file must not be taken for a valid one by the next run
+        temp_path = self._full_path("temp-{}.{}".format(os.getpid(), cache_file))
+        try:
+            constructor(input_data, temp_path, data_type)
+            os.replace(temp_path, self._full_path(cache_file))
+        finally:
+            if os.path.exists(temp_path):
+                os.remove(temp_path)
+
     def remove_unused(self):
         for filename in self.cache_files.difference(self.touched_files):
             os.remove(self._full_path(filename))
 
     def get(self, input_data, data_type, constructor):
-        cache_file = self._get_filename(input_data, data_type)
-        self.touched_files.add(cache_file)
-        full_path = os.path.join(self.cache_dir, cache_file)
-
-        if cache_file in self.cache_files:
-            with open(full_path, "r", encoding="utf-8") as f:
-                return f.read()
+        def write_result(data, output, _data_type):
+            with open(output, "w", encoding="utf-8") as f:
+                f.write(constructor(data))
 
-        result = constructor(input_data)
-        with open(full_path, "w", encoding="utf-8") as f:
-            f.write(result)
-        self.cache_files.add(cache_file)
-        return result
+        full_path = self.ensure(input_data, data_type, write_result)
+        with open(full_path, "r", encoding="utf-8") as f:
+            return f.read()
 
 
 def get_cache_file_path(directory: str, extension: str) -> str:
-- 
2.43.0


From 0dde2f9fb61eed68db565f4b28f29d25da14a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 28/39] fix: forget cache files when they are removed

The removed files were still considered to be available: a request for such a
file returned a path that does not exist and another render of the same deck
failed when it tried to remove the file again.
---
 elsie/utils/cache.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index e7f6311..85592fd 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -73,8 +73,12 @@ class FsCache:
                 os.remove(temp_path)
 
     def remove_unused(self):
-        for filename in self.cache_files.difference(self.touched_files):
-            os.remove(self._full_path(filename))
+        with self.lock:
+            for filename in self.cache_files.difference(self.touched_files):
+                full_path = self._full_path(filename)
+                if os.path.exists(full_path):
+                    os.remove(full_path)
+                self.cache_files.remove(filename)
 
     def get(self, input_data, data_type, constructor):
         def write_result(data, output, _data_type):
-- 
2.43.0


From 9684d8a5cd9d87895049b63fee87d8028ce27896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 29/39] fix: rebuild cache files removed by another deck with
 the same cache directory

---
 elsie/utils/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 85592fd..48fef3c 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -47,7 +47,7 @@ class FsCache:
                     return full_path
                 condition.wait()
                 condition = self.in_progress.get(cache_file)
-            if cache_file in self.cache_files:
+            if cache_file in self.cache_files and os.path.exists(full_path):
                 return full_path
             condition = threading.Condition(self.lock)
             self.in_progress[cache_file] = condition
-- 
2.43.0


From 27b496698a1f8cad8f449846777e9c06b373be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 30/39] fix: support the documented escaping of the inline
 style character

---
 elsie/text/textparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index a6879b0..c4716cc 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -61,7 +61,11 @@ def parse_text(text, escape_char="~", begin_char="{", end_char="}"):
     counter = 0
     while i < len(text):
         c = text[i]
-        if c == escape_char:
+        if c == escape_char and text[i + 1 : i + 2] == escape_char:
+            result.append(("text", text[start : i + 1]))
+            i += 2
+            start = i
+        elif c == escape_char:
             result.append(("text", text[start:i]))
             i += 1
             start = i
-- 
2.43.0


From 99d5a8af5e071e448f3d010cc6948d7f0b49b041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 31/39] fix: keep cached exports with and without text-to-path
 apart

---
 elsie/render/backends/svg/backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 50a848a..f6ea3ed 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -69,7 +69,10 @@ class InkscapeBackend(Backend):
         self.used_query_cache = {}
 
     def get_version(self, elsie_version: str) -> str:
-        return f"{elsie_version}/{self.inkscape_version}"
+        version = f"{elsie_version}/{self.inkscape_version}"
+        if self.inkscape.text_to_path:
+            version += "/text-to-path"
+        return version
 
     def create_render_unit(self, slide, step, export_type):
         ctx = SvgRenderingContext(slide, step, slide.debug_boxes)
-- 
2.43.0


From 28f1bc3f0f9d0abafd1b937827da827b5a866a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 32/39] fix: draw LaTeX at its own size in the Cairo backend

---
 elsie/ext/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/ext/latex.py b/elsie/ext/latex.py
index 611edac..a1f49bb 100644
--- a/elsie/ext/latex.py
+++ b/elsie/ext/latex.py
@@ -77,8 +77,8 @@ def _draw(parent, svg, svg_width, svg_height, scale, ctx):
         svg=svg,
         x=x,
         y=y,
-        width=rect.width,
-        height=rect.height,
+        width=svg_width,
+        height=svg_height,
         scale=scale,
     )
 
-- 
2.43.0


From a7b7561040e4ac2f5449db61ccb3787e2f8a0d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 33/39] fix: do not leave the current point of a text or an
 image to later Cairo drawings

---
 elsie/render/backends/cairo/rcontext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 05d0eb8..41aae31 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -215,6 +215,8 @@ class CairoRenderingContext(RenderingContext):
                 transform(self.ctx, rect.mid_point, rotation=rotation)
             self.ctx.move_to(rect.x, y - baseline)
             pangocairocffi.show_layout(self.ctx, layout)
+            # The current point is not a part of the saved state
+            self.ctx.new_path()
 
     def draw_bitmap(self, x, y, width, height, data, rotation=None, **kwargs):
         assert isinstance(data, bytes)
@@ -235,7 +237,6 @@ class CairoRenderingContext(RenderingContext):
         with ctx_scope(self.ctx):
             transform(self.ctx, center, rotation=rotation)
             self.ctx.set_source_surface(surface, x, y)
-            self.ctx.move_to(x, y)
             self.ctx.paint()
 
     def draw_svg(
-- 
2.43.0


From 032e92797f41bb1c612341fee64fb7b922b992f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 34/39] fix: a refused SVG image changed the size of its box

---
 elsie/boxtree/boxmixin.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index d65a0b2..df96028 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -603,10 +603,6 @@ class BoxMixin:
         image_width = svg_size_to_pixels(root.get("width"))
         image_height = svg_size_to_pixels(root.get("height"))
 
-        self._get_box().layout.set_image_size_request(
-            image_width * (scale or 1), image_height * (scale or 1)
-        )
-
         if select_fragments is not None:
             image_steps = len(select_fragments)
         else:
@@ -615,13 +611,17 @@ class BoxMixin:
             else:
                 image_steps = 1
 
-        self._get_box()._ensure_steps(show_begin - 1 + image_steps)
-
         image_data = None
 
         if select_fragments is None and not (fragments and has_fragments(root)):
             image_data = et.tostring(root).decode()
 
+        self._get_box().layout.set_image_size_request(
+            image_width * (scale or 1), image_height * (scale or 1)
+        )
+
+        self._get_box()._ensure_steps(show_begin - 1 + image_steps)
+
         def draw(ctx):
             rect = self._get_box().layout.rect
 
-- 
2.43.0


From a5d02c1511439f76949b0673f58a2e1bbde0df02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:00 +0000
Subject: [PATCH 35/39] fix: an empty string was accepted as a size

---
 elsie/boxtree/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index 7de68a5..586960d 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -37,8 +37,8 @@ class Layout:
 
         self.width_definition = width
         self.height_definition = height
-        self._width = SizeValue.parse(width or 0)
-        self._height = SizeValue.parse(height or 0)
+        self._width = SizeValue.parse(0 if width is None else width)
+        self._height = SizeValue.parse(0 if height is None else height)
 
         self.p_left = p_left
         self.p_right = p_right
-- 
2.43.0


From 9eac294173f8490358ace404eda1b4f2b151ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:50 +0000
Subject: [PATCH 36/39] fix: translucent pixels of PNG pages of the Cairo
 backend are no longer darkened

The pixels of a Cairo image surface are premultiplied by their alpha.
---
 elsie/render/backends/cairo/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/backend.py b/elsie/render/backends/cairo/backend.py
index f9e475a..d8cab6f 100644
--- a/elsie/render/backends/cairo/backend.py
+++ b/elsie/render/backends/cairo/backend.py
@@ -71,7 +71,7 @@ class CairoRenderUnit(RenderUnit):
                 (self.ctx.width, self.ctx.height),
                 self.ctx.surface.get_data(),
                 "raw",
-                "BGRA",
+                "BGRa",
                 0,
                 1,
             )
-- 
2.43.0


From 2108592b4e0c1b828559b9324c4f4710fe067e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:04 +0000
Subject: [PATCH 37/39] fix: renaming the ids of a LaTeX formula no longer
 breaks references and colours

Only the last reference of an attribute was renamed, an id that is a prefix of another one was replaced
in references to the other one, and a colour could be taken for a reference.
---
 elsie/render/backends/svg/utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/elsie/render/backends/svg/utils.py b/elsie/render/backends/svg/utils.py
index a123166..637ebe8 100644
--- a/elsie/render/backends/svg/utils.py
+++ b/elsie/render/backends/svg/utils.py
@@ -1,3 +1,4 @@
+import re
 from typing import TYPE_CHECKING, Tuple
 
 if TYPE_CHECKING:
@@ -39,18 +40,23 @@ def svg_size_to_pixels(text):
 
 
 def rename_ids(root, suffix):
-    ids = []
+    ids = set()
     for e in root.iter():
         e_id = e.get("id")
         if e_id:
-            ids.append("#" + e_id)
+            ids.add(e_id)
             e.set("id", e_id + suffix)
 
+    def rename(match):
+        e_id = match.group(2)
+        return match.group(1) + e_id + suffix if e_id in ids else match.group(0)
+
     for e in root.iter():
         for name, value in e.attrib.items():
-            for e_id in ids:
-                if e_id in value:
-                    e.set(name, value.replace(e_id, e_id + suffix))
+            if name.endswith("href"):
+                e.set(name, re.sub(r"^(#)(.+)$", rename, value))
+            else:
+                e.set(name, re.sub(r"(url\(\s*[\"']?#)([^\s\"')]+)", rename, value))
 
 
 def apply_rotation(xml: "Xml", rotation: float, center: Tuple[float, float]):
-- 
2.43.0


From 2520517a5bbbd2cb9bcf2094aeed0ac903b3b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:16 +0000
Subject: [PATCH 38/39] fix: place SVG images of slides with a view box
 correctly in the Cairo backend

---
 elsie/render/backends/cairo/rcontext.py |  1 +
 elsie/render/backends/cairo/svg.py      | 24 +++++++++++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 41aae31..599ccc3 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -263,4 +263,5 @@ class CairoRenderingContext(RenderingContext):
             height=height,
             rotation=rotation,
             dpi=self.cairosvg_dpi,
+            matrix=self.ctx.get_matrix(),
         )
diff --git a/elsie/render/backends/cairo/svg.py b/elsie/render/backends/cairo/svg.py
index fb0663e..6e3b27b 100644
--- a/elsie/render/backends/cairo/svg.py
+++ b/elsie/render/backends/cairo/svg.py
@@ -26,6 +26,7 @@ class CairoSurface(Surface):
         map_rgba=None,
         map_image=None,
         rotation=None,
+        matrix=None,
     ):
         self.surface = surface
         self.cairo = None
@@ -85,10 +86,14 @@ class CairoSurface(Surface):
             raise ValueError("The SVG size is undefined")
 
         self.context = cairo.Context(self.cairo)
-        # We must scale the context as the surface size is using physical units
-        self.context.scale(
-            self.device_units_per_user_units, self.device_units_per_user_units
-        )
+        if matrix is not None:
+            # The slide can have a view box
+            self.context.set_matrix(matrix)
+        else:
+            # We must scale the context as the surface size is using physical units
+            self.context.scale(
+                self.device_units_per_user_units, self.device_units_per_user_units
+            )
         center = (x + width / 2, y + height / 2)
         transform(self.context, center, rotation=rotation)
         self.context.translate(x, y)
@@ -108,7 +113,15 @@ class CairoSurface(Surface):
 
 
 def render_svg(
-    surface: cairo.Surface, svg: str, x, y, width, height, rotation=None, dpi=96
+    surface: cairo.Surface,
+    svg: str,
+    x,
+    y,
+    width,
+    height,
+    rotation=None,
+    dpi=96,
+    matrix=None,
 ):
     tree = Tree(bytestring=svg.encode())
     instance = CairoSurface(
@@ -120,5 +133,6 @@ def render_svg(
         dpi=dpi,
         output_width=width,
         output_height=height,
+        matrix=matrix,
     )
     instance.draw(tree)
-- 
2.43.0


From a7b0037352dca250c3dc938f454f337917e936d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:36 +0000
Subject: [PATCH 39/39] fix: use 96 dpi for the units of SVG images in PNG
 files of the Cairo backend

---
 elsie/render/backends/cairo/rcontext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 599ccc3..fb2138a 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -71,7 +71,7 @@ class CairoRenderingContext(RenderingContext):
             )
             self.reference_ctx = cairo.Context(reference_surface)
             self.reference_ctx.scale(RESOLUTION_SCALE, RESOLUTION_SCALE)
-            self.cairosvg_dpi = CAIRO_DPI
+            self.cairosvg_dpi = TARGET_DPI
         else:
             assert False
 
-- 
2.43.0

