"""Specification tables of the layout (analysed, never executed)."""
from copy import copy

from elsie.boxtree.layout import Layout
from elsie.boxtree.lazy import LazyPoint, LazyValue
from elsie.boxtree.value import PosValue, SizeValue
from elsie.utils.geom import Rect


def place(pos, origin, extent, size):
    """Position of a child along an axis on which it does not flow."""
    if pos is not None:
        return pos.compute(origin, extent, size)
    return origin + (extent - size) / 2


def set_rect(self, rect):
    inner = Rect(rect.x + self.p_left, rect.y + self.p_top,
                 rect.width - self.p_left - self.p_right, rect.height - self.p_top - self.p_bottom)
    self.rect = inner
    if self.callbacks:
        for c in self.callbacks:
            c(inner)
    extent = inner.width if self.horizontal else inner.height
    origin = inner.x if self.horizontal else inner.y
    used = 0
    fills = 0
    for child in self.children:
        if (child._x if self.horizontal else child._y) is not None:
            continue
        size = child.compute_size_request()
        size = size[0] if self.horizontal else size[1]
        if size.fill:
            fills += size.fill
        elif size.ratio:
            used += max(size.min_size, size.ratio * extent)
        else:
            used += size.min_size
    if fills:
        unit = (extent - used) / fills
        flow = origin
    else:
        unit = 0
        flow = origin + (extent - used) / 2
    for child in self.children:
        sw, sh = child.compute_size_request()
        if self.horizontal:
            w = sw.compute(inner.width, unit)
            h = sh.compute(inner.height, None)
            y = place(child._y, inner.y, inner.height, h)
            if child._x is None:
                x = flow
                flow = flow + w
            else:
                x = child._x.compute(inner.x, inner.width, w)
        else:
            w = sw.compute(inner.width, None)
            h = sh.compute(inner.height, unit)
            x = place(child._x, inner.x, inner.width, w)
            if child._y is None:
                y = flow
                flow = flow + h
            else:
                y = child._y.compute(inner.y, inner.height, h)
        child.set_rect(Rect(x, y, w, h))


def compute_size_request(self):
    w, h = self.min_children_size()
    return (self._width.ensure(w + self.p_left + self.p_right), self._height.ensure(h + self.p_top + self.p_bottom))


def min_children_size(self):
    flow = [c for c in self.children if (c._x if self.horizontal else c._y) is None]
    if not flow:
        return 0, 0
    ws = [c.compute_size_request()[0].min_size for c in flow]
    hs = [c.compute_size_request()[1].min_size for c in flow]
    if self.horizontal:
        return sum(ws), max(hs)
    return max(ws), sum(hs)


def ensure_width(self, width):
    self._width = self._width.ensure(width + self.p_left + self.p_right)


def ensure_height(self, height):
    self._height = self._height.ensure(height + self.p_top + self.p_bottom)


def side(own, axis, every):
    if own is not None:
        return own
    if axis is not None:
        return axis
    return every or 0


def init(self, x, y, width, height, p_left=0, p_right=0, p_top=0, p_bottom=0, horizontal=False):
    self._x = None if x is None else PosValue.parse(x)
    self._y = None if y is None else PosValue.parse(y)
    self.width_definition = width
    self.height_definition = height
    self._width = SizeValue.parse(width if width is not None else 0)
    self._height = SizeValue.parse(height if height is not None else 0)
    self.p_left = p_left
    self.p_right = p_right
    self.p_top = p_top
    self.p_bottom = p_bottom
    self.horizontal = horizontal
    self.callbacks = None
    self.children = []
    self.rect = None


def add(self, x=None, y=None, width=None, height=None, p_left=None, p_right=None, p_top=None, p_bottom=None,
        p_x=None, p_y=None, padding=None, horizontal=False, prepend=False):
    child = Layout(x=x, y=y, width=width, height=height, p_left=side(p_left, p_x, padding), p_right=side(p_right, p_x, padding),
                   p_top=side(p_top, p_y, padding), p_bottom=side(p_bottom, p_y, padding), horizontal=horizontal)
    if prepend:
        self.children.insert(0, child)
    else:
        self.children.append(child)
    return child


def add_callback(self, callback):
    if self.callbacks is None:
        self.callbacks = [callback]
    else:
        self.callbacks.append(callback)


def size_ensure(self, size):
    if size > self.min_size:
        other = copy(self)
        other.min_size = size
        return other
    return self


def size_compute(self, full_size, fill_unit):
    if self.lazy_value:
        return self.lazy_value.eval()
    if self.fill and fill_unit is None:
        return full_size
    if self.fill:
        return self.fill * fill_unit
    if self.ratio:
        return max(self.min_size, self.ratio * full_size)
    return self.min_size


def pos_compute(self, origin, full_size, self_size):
    if self.lazy_value:
        return self.lazy_value.eval()
    if self.ratio is not None:
        return origin + self.ratio * full_size
    if self.align is not None:
        return origin + self.align * (full_size - self_size)
    if self.fix_pos is not None:
        return origin + self.fix_pos
    raise Exception("no position")


def shrink(self, left=0, right=0, top=0, bottom=0):
    return Rect(self.x + left, self.y + top, self.width - (left + right), self.height - (top + bottom))


def rect_init(self, x=None, y=None, width=None, height=None, position=None, size=None):
    self.x = position[0] if position else x
    self.y = position[1] if position else y
    self.width = size[0] if size else width
    self.height = size[1] if size else height


def rect_copy(self):
    return Rect(self.x, self.y, self.width, self.height)


def rect_mid_x(self):
    return self.x + self.width / 2


def rect_mid_y(self):
    return self.y + self.height / 2


def rect_x2(self):
    return self.x + self.width


def rect_y2(self):
    return self.y + self.height


# -- deferred coordinates
def lazy_x(self, value):
    position = PosValue.parse(value)
    return LazyValue(lambda: position.compute(self.rect.x, self.rect.width, 0))


def lazy_y(self, value):
    position = PosValue.parse(value)
    return LazyValue(lambda: position.compute(self.rect.y, self.rect.height, 0))


def lazy_point(self, x, y):
    return LazyPoint(self.x(x), self.y(y))
