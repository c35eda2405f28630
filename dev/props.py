#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (python3 dev/props.py rewrites both)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "elsie/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": [E + f for f in files], "mechanism": [{"name": n, "where": E + w} for n, w in mech],
                 **({"state": [{"name": a, "meaning": b, "where": E + c} for a, b, c in state]} if state else {})},
        technique=technique, note=note))


TABLE = ("path-partitioned abstract interpretation (value numbering, polynomial normal form, closed forms of loops); "
         "function summaries compared with declarative tables")
TNOTE = ("Every path of every listed function is covered for arbitrary arguments and arbitrary numbers of children/elements. "
         "Trusted: the engine's model of Python, the specification tables in /verif/spec, real arithmetic instead of floats. "
         "Constructs outside of the abstraction leave an obligation undecided (listed in the evidence), never discharged.")

prop("L01", "Boxes are sized and placed by the documented layout rules",
     "In a vertical box the children without an explicit y position are stacked from top to bottom in the order in which they were created, each as tall as it requested; the free height is shared among 'fill' children in proportion to their fill numbers, and if there is none, the stack is centred; children without an explicit x are centred horizontally, and explicit positions are relative to the inside of the padding. A horizontal box does the same with the axes exchanged. A box requests at least the size of its flowing children plus its padding, where a side's own padding has precedence over p_x/p_y and those over padding.",
     ["inputs", "programs"], "all box trees, all sizes, positions, paddings, fill numbers and percentages, both orientations",
     "Tests compare a few rendered decks; the arithmetic must hold for every tree and every combination of sizes, positions and paddings.",
     ["boxtree/layout.py", "boxtree/value.py", "utils/geom.py"],
     [("Layout.set_rect places the children", "boxtree/layout.py"), ("Layout.compute_size_request / min_children_size", "boxtree/layout.py"),
      ("SizeValue.compute / PosValue.compute", "boxtree/value.py"), ("Rect.shrink", "utils/geom.py")],
     TABLE, TNOTE)

prop("L02", "Horizontal and vertical quantities are never mixed up",
     "Horizontal coordinates and extents of everything that is drawn or laid out are computed only from horizontal coordinates, widths and left/right paddings, vertical ones only from vertical coordinates, heights and top/bottom paddings (ratios between the two axes, font sizes and angles aside). Rectangles, ellipses, images and texts pass x, y, width, height and corner radii to the output under the name of the same axis, in every backend.",
     ["inputs", "configurations"], "every drawing and layout function, all values, all backends",
     "A swapped coordinate is invisible for square or symmetric test inputs and for axes whose values coincide.",
     ["boxtree/layout.py", "boxtree/boxmixin.py", "utils/geom.py", "text/textboxitem.py", "shapes/arrow.py", "render/backends/svg/draw.py", "render/backends/svg/rcontext.py", "render/backends/cairo/rcontext.py", "render/backends/cairo/draw.py", "render/backends/cairo/shapes.py"],
     [("Rect fields and derived points", "utils/geom.py"), ("drawing functions of the SVG backend", "render/backends/svg/draw.py"), ("drawing functions of the Cairo backend", "render/backends/cairo/rcontext.py")],
     "dimension (axis unit) inference over the values that reach coordinate sinks",
     "All values that flow to a coordinate sink (rectangle fields, SVG coordinate attributes, graphics context coordinates) are typed with the axes X/Y by an algebra over the value terms; a mix is reported at the sink. Values of unknown axis are compatible with both.")

prop("L03", "Size and position values mean what their notation says",
     "A size is a non-negative number, 'N%' (that fraction of the parent), 'fill' (one unit of the free space) or 'fill(N)' (N units); a position is a number (offset from the parent's start), 'N%' (offset by that fraction of the parent) or '[N%]' (alignment: 0% at the start, 100% at the end); a lazily computed value is taken as it is when it is evaluated. Every other string or type is refused with an error.",
     ["inputs"], "all values of the size and position arguments",
     "Tests use a handful of well-formed strings; acceptance and meaning quantify over all strings.",
     ["boxtree/value.py"],
     [("SizeValue.parse and its expression", "boxtree/value.py"), ("PosValue.parse and its expression", "boxtree/value.py")],
     "equivalence of the regular languages (deterministic automata) of the accepted strings and conformance of the parse and compute functions to declarative tables",
     "Languages are compared over all strings without line terminators; the mapping from matched groups to fields is compared for all paths.")

prop("L04", "Geometry is resolved only when the deck is rendered",
     "Coordinates obtained from a box (x, y, point, mid point, line boxes, inline boxes) are evaluated when the deck is rendered, against the final layout, and not when the drawing call is made. No call that builds slide content depends on a layout that has been computed before, so boxes may be referenced before they are filled.",
     ["programs", "histories"], "every call that builds slide content, in any order",
     "A premature evaluation shows up only for decks in which the referenced box changes after the call, or before the first rendering.",
     ["boxtree/layout.py", "boxtree/lazy.py", "boxtree/boxmixin.py", "text/textboxitem.py"],
     [("LazyValue / LazyPoint", "boxtree/lazy.py"), ("draw closures of box items", "boxtree/boxmixin.py"), ("Layout.x / y / point", "boxtree/layout.py")],
     "phase (effect) analysis: reads of the computed rectangle and evaluations of lazy values along all build-time paths; conformance of the deferred closures to tables",
     "Covers every public building function including everything it calls; closures count as deferred.")

prop("F01", "A fragment specification selects exactly the documented fragments",
     "'N' shows a box in fragment N only, 'N-M' in fragments N to M, 'N+' from fragment N on, a comma-separated list in the union of its items, and no specification in all fragments; 'next' and 'last' stand for the current last fragment plus one and the current last fragment. Malformed strings, more than one open item and a relative value without a known current fragment are refused. The last fragment that a specification mentions extends the number of fragments of the slide.",
     ["inputs", "histories"], "all specification strings and numbers, all fragment numbers, all current fragment counts",
     "Tests use about ten specifications; the meaning quantifies over all strings and all fragment numbers.",
     ["slides/show.py", "boxtree/boxmixin.py", "slides/slide.py"],
     [("ShowInfo.parse", "slides/show.py"), ("ShowInfo.is_visible / max_step / ensure_steps", "slides/show.py"), ("relative fragments in BoxMixin.box", "boxtree/boxmixin.py")],
     "regular language equivalence of the item grammar; " + TABLE,
     TNOTE)

prop("F02", "A hidden box draws nothing, including everything inside it",
     "In a fragment in which a box is not shown, neither the items of the box nor anything in its descendants is drawn, whatever the descendants' own specifications say. In a fragment in which a box and all its ancestors are shown, every item of the box is drawn exactly once. Hiding a box does not change the layout of the others.",
     ["programs", "inputs"], "all box trees, all fragment specifications, all fragments",
     "Tests cover a few nestings; the rule must hold for every tree and fragment.",
     ["boxtree/box.py", "render/backends/svg/backend.py", "render/backends/cairo/backend.py", "boxtree/layout.py"],
     [("Box.get_painters", "boxtree/box.py"), ("create_render_unit of both backends", "render/backends")],
     TABLE + "; absence of fragment-dependent reads in the layout", TNOTE)

prop("F03", "A deck renders every fragment of every slide once and in order",
     "Rendering yields, for the selected slides in deck order, one page for each fragment from 1 to the slide's number of fragments, and the output file or list keeps this order. The number of fragments of a slide is the largest fragment that any of its boxes needs, at least one. With several slides per page the same sequence is laid out row by row in a grid, nothing is lost, duplicated or reordered, and inserted PDF pages keep their place.",
     ["programs", "configurations"], "all decks, fragment counts, slide selections, grid sizes, output formats and mergers",
     "Tests render small decks; loss or reordering at group boundaries appears only for particular lengths.",
     ["slides/slidedeck.py", "slides/slide.py", "render/render.py", "render/pdfmerge.py"],
     [("SlideDeck.render", "slides/slidedeck.py"), ("Slide.steps", "slides/slide.py"), ("per_page_grouping", "render/render.py"), ("mergers", "render/pdfmerge.py")],
     TABLE, TNOTE)

prop("F04", "Fragments inside images hide exactly the annotated elements",
     "In fragment n an annotated element of an SVG or ORA image (label containing '**specification**') is present if and only if its specification selects n, counted from the image's first fragment; elements inside a hidden element are hidden, everything else is always present. The image extends the slide's number of fragments by what its annotations need; select_fragments maps fragment i to the i-th chosen image fragment, None and fragments outside of the list showing nothing. Rendering one fragment does not alter the image for the others, nor for other uses of the same file.",
     ["inputs", "histories"], "all image trees and annotations, all fragments in any order, all selections",
     "Tests use four fixture images; the rule quantifies over all trees and rendering orders.",
     ["render/image.py", "boxtree/boxmixin.py", "slides/show.py"],
     [("create_image_data", "render/image.py"), ("get_image_steps / has_fragments", "render/image.py"), ("BoxMixin._image_svg", "boxtree/boxmixin.py")],
     TABLE + "; copy-before-mutate (ownership) analysis of the shared tree", TNOTE)

prop("Z01", "Things are painted in z-level order, then in insertion order",
     "In every backend the visible items of a slide are painted in ascending z level, and items of the same z level in the order of a depth-first walk in which the content of a box appears in insertion order. 'prepend' inserts as the first, 'below' directly before and 'above' directly after the given sibling; a box without an explicit z level has that of its parent, an item that of its box. Each visible item is painted exactly once per fragment.",
     ["programs"], "all box trees, z levels and insertion options, all backends",
     "Tests compare a few pictures; a wrong order is visible only where items overlap.",
     ["boxtree/box.py", "boxtree/boxitem.py", "boxtree/boxmixin.py", "render/backends/svg/backend.py", "render/backends/cairo/backend.py"],
     [("Box.add_child / _child_index", "boxtree/box.py"), ("Box.get_painters", "boxtree/box.py"), ("sorting in create_render_unit", "render/backends/svg/backend.py")],
     TABLE, TNOTE)

prop("S01", "Changing a style affects only the box in which it was changed",
     "Setting or updating a named style in a box affects texts created later in that box and in boxes created later inside it; it never affects texts that already exist, sibling boxes, the parent, other slides or the deck. A style object obtained with get_style may be modified without any effect on the box, and style objects passed in by the user as an update or in a composition are never modified.",
     ["histories", "programs"], "all sequences of style changes and text creations in all box trees",
     "Leaks need particular orders of creation and change; the existing tests use a few.",
     ["text/stylecontainer.py", "text/textstyle.py", "boxtree/box.py", "boxtree/boxmixin.py", "slides/slidedeck.py"],
     [("copy-on-write of the style dictionary", "text/stylecontainer.py"), ("fresh copies from compose_style", "text/textstyle.py"), ("styles handed to new boxes and texts", "boxtree/boxmixin.py")],
     "ownership analysis: every mutation of a style or style dictionary reaches only objects that are fresh on that path", "All mutation sites of styles and style dictionaries on all paths of the listed functions; aliasing is tracked exactly for objects created on the path, everything else counts as shared.")

prop("S02", "Styles combine attribute by attribute and reject invalid values",
     "Combining two styles gives, for every attribute, the value of the second style if it is set and otherwise that of the first, whichever attributes exist and whether a value is false or zero; neither operand changes when a combination is computed. A named style is used on top of the default style. Every attribute given to the constructor arrives unchanged, and an invalid type or choice is refused both in the constructor and by later assignment.",
     ["inputs"], "all pairs of styles, all attributes, all values",
     "Tests set one or two attributes; completeness over all attributes and falsy values is not sampled.",
     ["text/textstyle.py", "text/stylecontainer.py"],
     [("TextStyle.update / compose / copy", "text/textstyle.py"), ("setters and checks", "text/textstyle.py"), ("compose_style", "text/textstyle.py")],
     TABLE + "; attribute completeness (constructor, slots, setters) by enumeration", TNOTE)

prop("X01", "Every SVG that is produced is a well-formed, properly nested document",
     "Each element that a drawing function opens is closed exactly once, in the reverse order of opening, on every path, and attributes are only written while the start tag is open. This holds for texts with any sequence of nested styles and line breaks, for every shape, image and group, with and without every optional argument. An unclosed or wrongly closed element is never written to the output.",
     ["inputs"], "all token sequences, all combinations of optional arguments, all drawing functions that emit SVG",
     "Tests compare some pictures; balance must hold for all token sequences, including styles that span lines.",
     ["render/backends/svg/draw.py", "render/backends/svg/rcontext.py", "render/backends/svg/query.py", "render/backends/svg/utils.py", "render/ora.py", "render/render.py", "utils/sxml.py"],
     [("Xml writer (element, set, text, close, to_string)", "utils/sxml.py"), ("draw_text and the other drawing functions", "render/backends/svg/draw.py")],
     "typestate analysis of the XML writer (open/closed start tag, stack of open elements) with a loop invariant relating open elements to active styles",
     "All paths of every function that writes through the XML writer; loops are handled by an inductive invariant on the stack height.")

prop("X02", "User text never breaks or injects markup",
     "Text, style values, labels and all other values that reach the SVG as attribute values or character data appear there escaped: '&', '<', '>' always and the quote character inside attributes, each exactly once. Only complete SVG fragments that are meant to be embedded, and base64 data, are written verbatim. The text that a reader of the SVG gets back is the text that was given (spaces as non-breaking spaces).",
     ["inputs"], "all strings, all attributes and all writing functions",
     "Tests contain no special characters in most positions.",
     ["utils/sxml.py", "render/backends/svg/draw.py", "render/ora.py", "render/backends/svg/rcontext.py", "render/backends/svg/query.py"],
     [("Xml.set / Xml.text / escape_text", "utils/sxml.py"), ("callers of raw_text and set(escape=False)", "render/backends/svg")],
     "taint analysis with sanitizer tracking (string-replacement chains) from parameters to the output buffer", "Every path that appends to the writer's buffer, and every call of the two verbatim entry points in the repository.")

prop("R01", "Rendering does not change the deck and can be repeated",
     "Rendering a slide does not change the content, styles, sizes or fragments of the deck, so a second rendering of the same deck gives the same pages, for any subset of slides and any order. What a slide looks like does not depend on which slides or fragments were rendered before it.",
     ["histories"], "all sequences of rendering calls on one deck",
     "Tests render each deck once or twice in the same way.",
     ["boxtree/boxmixin.py", "boxtree/box.py", "boxtree/layout.py", "text/textboxitem.py", "render/image.py", "render/backends/svg/backend.py", "render/backends/cairo/backend.py", "slides/slidedeck.py", "render/render.py"],
     [("draw closures", "boxtree/boxmixin.py"), ("scale-to-fit callback", "text/textboxitem.py"), ("copy of the image tree", "render/image.py")],
     "effect analysis: points-to over the whole program, freshness of every object that rendering changes, dependence of derived state on what a rendering leaves behind", "All functions reachable from rendering, including deferred drawing closures, layout callbacks and properties. Allowed: objects made by the rendering, memos keyed by what determines them, the file cache's book-keeping, derived state that is set anew before it is read.")

prop("C01", "The file cache never returns a result for different input",
     "Two requests get the same cached file only if their input content, their output format, the versions of elsie and of the rendering program and the options that change its output are equal. Everything else that determines the produced file is derived from the content or constant for the deck.",
     ["inputs", "histories", "configurations"], "all contents, formats, versions and programs of use",
     "A collision needs two decks or versions that differ only in the omitted component.",
     ["utils/cache.py", "slides/slidedeck.py", "render/backends/svg/backend.py", "render/backends/cairo/backend.py", "render/render.py", "ext/latex.py", "boxtree/boxmixin.py"],
     [("FsCache key", "utils/cache.py"), ("version given to FsCache", "slides/slidedeck.py"), ("get_version of the backends", "render/backends")],
     "dataflow (dependence) analysis of the key and of the producing functions: every free variable of a producer is constant or part of the key", "All call sites of the cache in the repository.")

prop("C02", "A cache file is published only when it is complete",
     "A file that the cache returns was written completely by its producer: if the producer fails or the process is killed at any point, no incomplete file is left under the name of a cache entry, not even for a later process. Results are written to a temporary name in the same directory that is never mistaken for an entry, and renamed when they are complete; a failed production leaves no temporary file.",
     ["crash_points", "fault_sequences"], "failure of the producer or interruption at every step of a cache request",
     "No test interrupts or fails a producer.",
     ["utils/cache.py", "render/backends/svg/backend.py"],
     [("FsCache._build (temporary file and os.replace)", "utils/cache.py"), ("query cache file replaced atomically", "render/backends/svg/backend.py")],
     "typestate analysis of files along all paths including exceptional ones (every call may raise): written temporary, complete, published", "Exceptions (including interruption) are considered at every external call.")

prop("C03", "Concurrent requests for one cache entry build it once and never hang",
     "When several threads request the same entry, at most one of them produces it at a time, the others wait until it is finished and then return the complete file; when the producer fails, the claim is withdrawn, the waiting threads continue, and a later request tries again. The bookkeeping of the cache is only touched under its lock, and the lock is not held while a file is produced.",
     ["schedules", "fault_sequences"], "all interleavings of any number of requests, all producer failures",
     "The tests are single-threaded in effect.",
     ["utils/cache.py"],
     [("FsCache.ensure", "utils/cache.py"), ("FsCache.remove_unused", "utils/cache.py")],
     "lock-set and typestate analysis (claim / release / notify) along all paths including exceptional ones", "All methods of the cache; every external call may raise.")

prop("C04", "A cached text measurement is used only for the same query and versions",
     "A stored measurement is returned only for the same kind of measurement of the same text and style, and a stored collection is loaded only if it was written by the same versions of elsie and Inkscape. Every measurement used by the deck, whether computed or found, counts as used, and a loaded collection equals the one that was saved.",
     ["histories", "configurations"], "all sequences of queries, all versions and stored collections",
     "Stale entries need runs with different versions or kinds of query over one cache.",
     ["render/backends/svg/backend.py", "render/backends/svg/query.py"],
     [("InkscapeBackend.process_query", "render/backends/svg/backend.py"), ("_load_query_cache / _save_query_cache", "render/backends/svg/backend.py")],
     TABLE, TNOTE)

prop("C05", "Pruning removes exactly the unused cache entries",
     "After a rendering with pruning, the caches keep every entry that the deck used, and remove only entries that it did not use; without pruning nothing is removed. Files in the cache directory that are not cache entries are never removed. Rendering the same deck again after pruning needs no entry to be produced again.",
     ["histories"], "all histories of requests and renderings with and without pruning",
     "Tests do not look at the cache after mixed histories.",
     ["utils/cache.py", "slides/slidedeck.py", "render/backends/svg/backend.py"],
     [("FsCache.remove_unused / touched_files", "utils/cache.py"), ("InkscapeBackend.prune_cache", "render/backends/svg/backend.py"), ("calls in SlideDeck.render", "slides/slidedeck.py")],
     TABLE, TNOTE)

prop("W01", "Only the cache directory and the requested output are written",
     "Everything that elsie creates, replaces or removes on disk lies in the deck's cache directory or in a temporary directory or file that it created itself, except the output file that the caller named. Only unused entries of the cache and own temporary files are ever removed.",
     ["inputs", "histories"], "all calls and all file names",
     "A stray write or removal is not observed by tests that look only at the result.",
     ["utils/cache.py", "utils/sxml.py", "render/render.py", "render/pdfmerge.py", "render/inkscape.py", "render/backends/svg/backend.py", "render/backends/cairo/backend.py", "ext/latex.py", "ext/export.py", "boxtree/boxmixin.py"],
     [("file system calls of the whole package", ".")],
     "enumeration of all file system effects in the package and provenance analysis of their path arguments", "Every call of a writing or removing file system function in the package; provenance of the path is followed through locals, parameters and fields to its origin.")

prop("I01", "The conversation with Inkscape stays in step",
     "Every document opened in Inkscape is closed again before the next one, also when a query or an export fails, and each command is answered by exactly one prompt that is awaited before the next command is sent. A terminated Inkscape leads to an error, not to endless waiting, and its diagnostics can never block it. The answer of a query is the last line printed for that query.",
     ["fault_sequences", "histories"], "all sequences of queries and exports, failures at every command",
     "The tests do not fail commands or end Inkscape.",
     ["render/inkscape.py"],
     [("svg_file_input", "render/inkscape.py"), ("InkscapeShell.run_command / wait_for_prompt", "render/inkscape.py")],
     "typestate analysis (document open/closed, command outstanding) along all paths including exceptional ones; loop exit analysis of the prompt reader", "All methods that talk to Inkscape; every command may fail.")

prop("B01", "Every backend supports every drawing operation with the same arguments",
     "Every drawing operation and text measurement that slide content uses is implemented by each backend and accepts all arguments with which it is called. Required arguments are never missing, and no argument is silently unusable in one backend because of its name.",
     ["programs", "configurations"], "all calls of drawing operations in the package, all backends",
     "The Cairo backend is hardly covered by tests; a call with a rare argument fails only when it is rendered.",
     ["render/backends/rcontext.py", "render/backends/svg/rcontext.py", "render/backends/cairo/rcontext.py", "render/backends/backend.py", "render/backends/svg/backend.py", "render/backends/cairo/backend.py", "boxtree/boxmixin.py", "boxtree/box.py", "text/textboxitem.py", "shapes/arrow.py", "ext/latex.py"],
     [("rendering contexts", "render/backends"), ("calls on the context", "boxtree/boxmixin.py")],
     "interface conformance: call sites bound against every implementation's signature, through forwarded keyword arguments", "All call sites of context and backend operations; signatures are followed through **kwargs into the functions that finally consume them.")

prop("B02", "A Cairo drawing leaves no trace in the graphics state of the next one",
     "In the Cairo backend every change of the transformation, colour, line width, dash pattern or clip made for one item is undone before the next item is drawn, also on early exits, and no path of an item is left to be painted by a later one. Each item is painted with its own fill, stroke, width and dash only.",
     ["programs"], "all sequences of drawn items with all combinations of optional arguments",
     "A leak affects only the items drawn after it.",
     ["render/backends/cairo/rcontext.py", "render/backends/cairo/draw.py", "render/backends/cairo/shapes.py"],
     [("ctx_scope", "render/backends/cairo/draw.py"), ("fill_stroke_shape", "render/backends/cairo/draw.py"), ("drawing methods", "render/backends/cairo/rcontext.py")],
     "typestate analysis of the graphics context: balanced save/restore on all paths, state changes only inside a scope, current path empty at the end",
     "All paths of every drawing method of the Cairo context.")

prop("B03", "Both backends draw every segment of a path with the same geometry",
     "For every path, each command with one or several argument groups is drawn by the Cairo backend as the corresponding lines and Bézier curves of SVG: relative to the current point, smooth commands reflecting the previous control point of the same kind, and quadratic curves converted to the equivalent cubic ones. The SVG output lists the same commands and points in the same order. Unknown commands and wrong numbers of points are refused when the path is created.",
     ["inputs"], "all lists of path commands and points",
     "Only one path is drawn in the tests of the Cairo backend.",
     ["shapes/path.py", "render/backends/cairo/shapes.py", "render/backends/svg/draw.py"],
     [("draw_path of Cairo", "render/backends/cairo/shapes.py"), ("command_to_str / draw_path of SVG", "render/backends/svg/draw.py"), ("check_and_unpack_path_commands", "shapes/path.py")],
     TABLE, TNOTE)

prop("B04", "Each part of a text is drawn in the style that is in effect for it",
     "In both backends every character of a text is drawn with the font, size, colour, weight and slant of the style that is in effect: the text's own style on top of the default style, changed by the open inline styles from the outside to the inside, where an inline style of a lower priority than the one in effect changes nothing; an unknown inline style is refused. In the Cairo backend each run of text reaches exactly from one change of the style to the next, each line break starts a new line, empty lines keep their height, lines have the distance and alignment that the style asks for, and the extents of an inline part cover exactly its characters.",
     ["inputs"], "all texts with all nestings of inline styles, line breaks and non-ASCII characters",
     "Tests use a few texts and compare pictures for one of the backends.",
     ["render/backends/cairo/text.py", "render/backends/svg/draw.py", "text/textstyle.py"],
     [("get_text_and_attributes / build_layout of Cairo", "render/backends/cairo/text.py"), ("draw_text of SVG", "render/backends/svg/draw.py"), ("compute_subtext_extents", "render/backends/cairo/text.py")],
     TABLE, TNOTE)

prop("B05", "Cairo pages and embedded images have the requested size and place",
     "A page of the Cairo backend has the size of the deck: 0.75 points per pixel in PDF files, one pixel per pixel in PNG files, whose pixels are written as RGBA from the top row on, translucent ones with their own colour. A view box of a slide is scaled by one factor for both directions so that it fits the page, and centred. An embedded image has its top left corner at the given position, in the coordinates of the slide (its view box included), with 96 pixels per inch for the units inside an SVG image, and the given width and height (the aspect ratio is kept if only one is given), and is rotated around its centre.",
     ["inputs", "configurations"], "all page sizes, view boxes, formats, image sizes, positions and rotations",
     "Tests use few page sizes, view boxes and images, nearly all opaque.",
     ["render/backends/cairo/rcontext.py", "render/backends/cairo/backend.py", "render/backends/cairo/svg.py", "render/backends/cairo/draw.py"],
     [("CairoRenderingContext.__init__", "render/backends/cairo/rcontext.py"), ("CairoSurface / render_svg", "render/backends/cairo/svg.py"), ("apply_viewbox", "render/backends/cairo/draw.py"), ("CairoRenderUnit.export", "render/backends/cairo/backend.py")],
     TABLE, TNOTE)

prop("E01", "Results do not depend on the locale's text encoding",
     "Every text file that may contain user text is written and read in UTF-8, whatever the locale of the process is, and text handed to other programs is encoded in UTF-8.",
     ["configurations", "inputs"], "all locales, all texts",
     "The tests run in one UTF-8 locale.",
     ["utils/sxml.py", "utils/cache.py", "render/render.py", "render/inkscape.py", "ext/latex.py", "boxtree/boxmixin.py", "render/backends/svg/backend.py"],
     [("text-mode open calls", "."), ("encode/decode calls", ".")],
     "enumeration of all text-mode file operations and encodings in the package", "All calls of open and of temporary text files, and all encode/decode calls with a codec. A file that contains only ASCII by construction (JSON with escaped characters) is accepted.")

prop("E02", "A refused call leaves the slide as it was",
     "If creating a box, changing a style or adding a slide is refused because of an invalid argument, the deck, the slide and the box on which the call was made keep their previous content: no partially created box, layout space, extended fragment count, style or slide remains.",
     ["inputs", "histories"], "all invalid arguments, at every check of the calls",
     "Tests check that an error is raised, not what remains afterwards.",
     ["boxtree/boxmixin.py", "boxtree/box.py", "boxtree/layout.py", "text/stylecontainer.py", "slides/slidedeck.py", "slides/show.py"],
     [("order of checks and changes in BoxMixin.box", "boxtree/boxmixin.py"), ("SlideDeck.new_slide", "slides/slidedeck.py"), ("StyleContainer.set_style / update_style", "text/stylecontainer.py")],
     "effect-before-failure analysis: no write to an object that existed before the call on any path that ends with an error", "All failures that depend on an argument (raise, assert, list lookups, number conversions) in the listed calls and everything that they reach. Argument types are trusted.")

prop("N01", "The name policy of a deck is enforced",
     "With 'unique' a second slide with an already used name is refused and unnamed slides are allowed; with 'replace' a name is required and a new slide takes the place of the registered one with that name, exactly one slide per name remaining; with 'ignore' any name is accepted and nothing is removed. A name that is not a string is refused unless names are ignored, and looking up a name returns the first slide with that name or nothing.",
     ["histories", "configurations"], "all sequences of slide creations under all policies",
     "Tests cover a few creations.",
     ["slides/slidedeck.py"],
     [("SlideDeck._apply_name_policy", "slides/slidedeck.py"), ("SlideDeck.get_slide_by_name", "slides/slidedeck.py"), ("SlideDeck.new_slide", "slides/slidedeck.py")],
     TABLE, TNOTE)

prop("K01", "Inserted PDF pages work with every operation of a deck",
     "A deck that contains inserted PDF files supports every operation that a deck of ordinary slides supports: adding and finding slides by name, post-processing, rendering with every option, and grouping. The inserted file is used as it is, as one page, at its place.",
     ["programs", "configurations"], "all decks that mix slides and PDF files, all operations",
     "One test inserts a PDF, without names or post-processing.",
     ["slides/slide.py", "slides/slidedeck.py", "render/render.py"],
     [("ExternPdfSlide", "slides/slide.py"), ("ExportedRenderUnit", "render/render.py"), ("operations over the list of slides", "slides/slidedeck.py")],
     "interface conformance: every attribute and method used on an element of the deck exists, with a compatible signature, in every class that is put into the deck",
     "All uses of elements of the slide list and of render units in the package.")

prop("J01", "The notebook preview shows the right fragment and keeps the cache",
     "The preview contains one block per fragment, in order, and its buttons move within 1 and the number of fragments, show exactly the active one and are disabled at the ends; several previews on one page do not interfere. Showing a preview renders only that slide and removes nothing from the caches.",
     ["inputs", "histories"], "all numbers of fragments, all click sequences, all formats",
     "Tests do not run the script.",
     ["render/jupyter.py", "slides/slide.py"],
     [("render_slide_html / get_javascript", "render/jupyter.py"), ("get_slide_repr_steps", "render/jupyter.py")],
     TABLE + "; cross-reference of the class names, identifiers and bounds in the generated script and markup", "The script is analysed as text: selectors against generated classes, the guard of the active fragment, the disabling conditions.")

prop("U01", "List items are numbered consecutively at every level",
     "In an ordered list the items are labelled start, start+1, ... and a nested list's labels are the labels of the enclosing items followed by its own number; a nested list does not change the numbering of its parent, and continues from the enclosing item's number. An item's own label, padding or box arguments have precedence over those of its list, and those over the defaults; unless given, items appear from the current last fragment on.",
     ["programs", "histories"], "all sequences of items and nested lists",
     "Tests compare two pictures.",
     ["ext/list.py"],
     [("ListBuilder.item", "ext/list.py"), ("ListBuilder._create_sublist / _create_box", "ext/list.py"), ("arabic_digit_render_fn", "ext/list.py")],
     TABLE, TNOTE)

prop("M01", "Markdown text is translated completely and in order",
     "Every supported block (heading, paragraph, blank line, quote, fenced code, list) is turned into boxes in document order with the style of its kind, and every inline text, emphasis, strong emphasis, link and line break in it appears, in order, in the text that is created; unsupported blocks are reported and skipped. Styles for Markdown that the user has already defined are not overwritten, and the styles of the parent box are not changed.",
     ["inputs"], "all Markdown documents",
     "One test document.",
     ["ext/markdown.py"],
     [("build / MD_BUILD_FNS", "ext/markdown.py"), ("get_raw_text", "ext/markdown.py"), ("create_root_md_box", "ext/markdown.py")],
     TABLE, TNOTE)

prop("T01", "Inline markup yields properly nested styles and loses no text",
     "For every accepted text, each style that begins also ends, in a properly nested way, and an unclosed style is refused. An end character outside of any style is ordinary text, the doubled escape character stands for itself, and every other character outside of the markup is kept in order, line breaks becoming line breaks (those at the end of the text are dropped). Without an escape character the text contains no markup. Syntax highlighting and line numbers keep the text of the code, and styles of the markup and of the highlighting are merged in a properly nested way.",
     ["inputs"], "all strings and all escape, begin and end characters",
     "Tests parse about thirty strings.",
     ["text/textparser.py"],
     [("parse_text", "text/textparser.py"), ("normalize_tokens", "text/textparser.py")],
     "simulation between the loops of the code and of the specification (equal initial values, equal changes of all carried values in every partition of a generic iteration, equal exits); taint rule that pieces of the text are taken verbatim", "The relation is checked on every path through one iteration of each loop and at its exits, so it holds for texts of any length.")

prop("T02", "Texts, line boxes and inline boxes are placed on the text",
     "A text is vertically centred in its box and horizontally aligned according to its style; its requested size is its measured width and its number of lines times the line height. A line box covers the requested lines and an inline box the styled part in its line, both following the text's scale and position when the text is scaled to fit. scale_to_fit uses the largest scale at which the whole text fits the box, computed from its natural size.",
     ["inputs", "programs"], "all texts, styles, scales, line ranges and inline styles",
     "Tests compare a few pictures.",
     ["text/textboxitem.py", "text/textparser.py", "render/backends/svg/rcontext.py"],
     [("TextBoxItem.render / line_box / inline_box", "text/textboxitem.py"), ("extract_line / number_of_lines", "text/textparser.py")],
     TABLE, TNOTE)

prop("G01", "Lines and paths end exactly at their arrow heads",
     "An arrow head's tip is the end point of its line or path, its two wings lie symmetrically at the given size and angle around the final direction, and the line is shortened along this direction by the documented amount so that it does not stick out. Start and end arrows may be combined, the original points are not changed by drawing, and open arrow heads (with a stroke width) are drawn as lines, others filled.",
     ["inputs"], "all points, arrow sizes, angles, stroke widths and inner ratios",
     "Tests compare pictures of a few directions.",
     ["shapes/arrow.py", "shapes/path.py", "utils/geom.py", "boxtree/boxmixin.py"],
     [("Arrow.render / move_end_point", "shapes/arrow.py"), ("line and path of BoxMixin", "boxtree/boxmixin.py"), ("segment_resize", "utils/geom.py")],
     TABLE, TNOTE)

prop("G02", "Images keep their aspect ratio and are centred in their box",
     "An image is drawn with a single scale for both axes: the given one, or else the largest at which it fits the box, or the one of the only known dimension, or zero; it is centred in its box and rotated around its centre. The box requests the image's natural size times the scale, or the size that keeps the aspect ratio if one dimension of the box is given. A LaTeX formula is placed in the same way, at its own size times the scale, in every backend.",
     ["inputs"], "all image and box sizes and scales, all image types",
     "Tests use few images and boxes.",
     ["boxtree/boxmixin.py", "boxtree/layout.py", "render/backends/svg/rcontext.py", "render/backends/svg/draw.py"],
     [("scaler and the draw closures of images", "boxtree/boxmixin.py"), ("latex", "ext/latex.py"), ("Layout.set_image_size_request", "boxtree/layout.py")],
     TABLE, TNOTE)

prop("P01", "A LaTeX formula is either complete and self-contained or refused",
     "A formula is rendered from exactly the given source. If pdflatex or pdf2svg fails, an error with its output is raised and no formula appears. All ids of the formula get a suffix that is the same for the same source and differs for different sources, every reference to them in links, attributes and style properties follows, and nothing else (other references, colours, text) is changed, so that several formulas on one slide do not take each other's glyphs. Its size is read in the unit it is given in.",
     ["inputs", "fault_sequences"], "all sources, all results of the two tools, all SVG documents (ids, attributes with several references), all units",
     "The tests render three formulas and need LaTeX; they cannot make the tools fail.",
     ["ext/latex.py", "render/backends/svg/utils.py"],
     [("_render_latex", "ext/latex.py"), ("rename_ids", "render/backends/svg/utils.py"), ("svg_size_to_pixels", "render/backends/svg/utils.py")],
     TABLE, TNOTE)

# properties that static analysis cannot decide here
NA = [
    dict(id="Q01", title="Measured text sizes equal the sizes of the rendered text",
         statement="The width, height and position that a backend reports for a text equal those of the text in the rendered output, for every text, font and style.",
         over=["inputs", "configurations"], text="all texts, fonts and styles", why="Depends on fonts; the tests fix one font set.",
         files=["render/backends/svg/query.py", "render/backends/cairo/text.py"], mech=[("text queries", "render/backends")],
         reason="quantifies over numbers computed by Inkscape and Pango from font files at run time; nothing in the source bounds them"),
    dict(id="Q02", title="Both backends produce visually equivalent pages",
         statement="The page drawn by the Cairo backend looks like the page drawn by Inkscape, for every deck.",
         over=["programs", "configurations"], text="all decks", why="Needs rendering and comparing pictures for all decks.",
         files=["render/backends/svg/draw.py", "render/backends/cairo/rcontext.py"], mech=[("drawing functions", "render/backends")],
         reason="a relation between rasterised outputs of two external renderers; the parts that are visible in the source are B01, B02, B03 and L02"),
    dict(id="Q03", title="Merging highlighting with inline styles keeps text and both structures",
         statement="When syntax highlighting and inline styles are combined, the merged text equals the source text and every character has the styles of both inputs.",
         over=["inputs"], text="all pairs of token sequences over the same text", why="The merge is tested on about ten examples.",
         files=["text/textparser.py"], mech=[("tokens_merge", "text/textparser.py")],
         reason="a relational invariant over two token sequences whose lengths and splits are run-time quantities; the abstraction (one generic loop iteration) cannot relate the two cursors. T01 decides that the code equals a reference merge; that the reference has this invariant is not decided"),
    dict(id="Q04", title="Merged PDF files contain the page contents unchanged",
         statement="Each page of the merged PDF file has the content of the corresponding single page file.",
         over=["inputs"], text="all page files and mergers", why="Needs inspecting PDF files.",
         files=["render/pdfmerge.py"], mech=[("mergers", "render/pdfmerge.py")],
         reason="decided by PyPDF2 or pdfunite, which are outside of the analysed source; the order of pages is F03"),
]
if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
        for p in NA:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier={"over": p["over"], "text": p["text"]}, why_tests_cant=p["why"],
                                    anchors={"files": [E + x for x in p["files"]], "mechanism": [{"name": n, "where": E + w} for n, w in p["mech"]]}), ensure_ascii=False) + "\n")
    checks, na = [], [dict(property=p["id"], reason=p["reason"]) for p in NA]
    for p in P:
        if os.path.exists(os.path.join(ROOT, "sa", "rules", p["id"] + ".py")):
            checks.append(dict(property=p["id"], quick_cmd="python3 sa/check.py {} --tier quick".format(p["id"]),
                               thorough_cmd="python3 sa/check.py {} --tier thorough".format(p["id"]),
                               technique="static analysis: " + p["technique"], level="other", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason="no check has been built yet"))
    m = dict(version=1, setup_cmd="python3 -m py_compile sa/check.py", checks=checks, not_applicable=na,
             notes="All checks parse /repo's current source with Python's ast module; nothing of elsie is executed. See DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
