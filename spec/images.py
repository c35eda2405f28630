"""Specification tables of fragments in images (analysed, never executed)."""
import base64
import io
import zipfile
from copy import deepcopy

import lxml.etree as et
from PIL import Image

from elsie.render.backends.svg.draw import draw_bitmap
from elsie.render.backends.svg.utils import svg_begin, svg_end
from elsie.render.image import parse_show_info_from_label
from elsie.render.ora import _check_visibility, _children_to_svg, _layer_to_svg, _stack_to_svg
from elsie.slides.show import ShowInfo
from elsie.utils.sxml import Xml


def label_of(element):
    return ShowInfo.from_label(element.get("{http://www.inkscape.org/namespaces/inkscape}label"))


def any_annotated(root):
    return any(parse_show_info_from_label(e) is not None for e in root.iter())


def image_steps(root):
    steps = 1
    for e in root.iter():
        info = parse_show_info_from_label(e)
        if info is not None:
            steps = max(steps, info.min_steps())
    return steps


def data_of_step(root, step):
    hidden = []

    def find(element):
        for child in element:
            info = parse_show_info_from_label(child)
            if info is not None and not info.is_visible(step):
                hidden.append((element, child))
            else:
                find(child)

    tree = deepcopy(root)
    find(tree)
    for parent, child in hidden:
        parent.remove(child)
    return et.tostring(tree).decode()


def ora_visible(element):
    return element.get("visibility") == "visible"


def ora_children(element, xml, sources):
    for e in reversed(element):
        if e.tag == "stack":
            _stack_to_svg(e, xml, sources)
        if e.tag == "layer":
            _layer_to_svg(e, xml, sources)


def ora_stack(element, xml, sources):
    if _check_visibility(element):
        xml.element("g")
        x = element.get("x")
        y = element.get("y")
        if x != "0" or y != "0":
            xml.set("transform", "translate({}, {})".format(x, y))
        opacity = float(element.get("opacity"))
        if opacity < 0.9999:
            xml.set("opacity", opacity)
        xml.set("inkscape:label", element.get("name"))
        _children_to_svg(element, xml, sources)
        xml.close("g")


def ora_layer(element, xml, sources):
    if _check_visibility(element):
        source = sources[element.get("src")]
        if source is not None:
            data, mime, left, top, width, height = source
            attributes = [("inkscape:label", element.get("name"))]
            opacity = float(element.get("opacity"))
            if opacity < 0.9999:
                attributes.append(("opacity", opacity))
            draw_bitmap(xml, float(element.get("x")) + left, float(element.get("y")) + top, width, height, mime, data,
                        rotation=None, extra_args=attributes)


def ora_to_svg(filename):
    with zipfile.ZipFile(filename, "r") as archive:
        with archive.open("mimetype") as f:
            mimetype = f.read().rstrip()
            if mimetype != b"image/openraster":
                raise Exception("Invalid mime type, found: {}".format(mimetype))
        with archive.open("stack.xml") as f:
            root = et.fromstring(f.read())
        sources = {}
        for element in root.getiterator():
            src = element.get("src")
            if src is not None and src not in sources:
                with archive.open(src) as f:
                    img = Image.open(f)
                    box = img.getbbox()
                    if box is None:
                        sources[src] = None
                        continue
                    img = img.crop(box)
                    temp = io.BytesIO()
                    img.save(temp, "png")
                    data = base64.b64encode(temp.getvalue()).decode("ascii")
                    if len(data) > 100000000:
                        raise Exception("too big")
                    sources[src] = (data, "image/png", box[0], box[1], box[2] - box[0], box[3] - box[1])
    xml = Xml()
    svg_begin(xml, root.get("w"), root.get("h"), inkscape_namespace=True)
    _children_to_svg(root, xml, sources)
    svg_end(xml)
    return xml.to_string()
