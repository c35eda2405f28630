"""Specification tables of the notations of sizes and positions (analysed, never executed)."""
import re

from elsie.boxtree.lazy import LazyValue
from elsie.boxtree.value import PosValue, SizeValue

SIZE = re.compile(r"^(\d+)$|^(\d+)%$|^(fill)$|^fill\((\d+)\)$")
POSITION = re.compile(r"^(\d+)$|^(\d+)%$|^\[(\d+)%\]$")


def size_parse(cls, obj):
    if isinstance(obj, int) or isinstance(obj, float):
        return SizeValue(min_size=obj)
    if isinstance(obj, LazyValue):
        return SizeValue(lazy_value=obj)
    if not isinstance(obj, str):
        raise Exception("type")
    m = SIZE.match(obj)
    if m is None:
        raise Exception("format")
    if m.group(1) is not None:
        return SizeValue(min_size=float(m.group(1)))
    if m.group(2) is not None:
        return SizeValue(ratio=float(m.group(2)) / 100)
    if m.group(3) is not None:
        return SizeValue(fill=1)
    return SizeValue(fill=int(m.group(4)))


def pos_parse(cls, obj):
    if obj is None:
        return PosValue()
    if isinstance(obj, int) or isinstance(obj, float):
        return PosValue(fix_pos=obj)
    if isinstance(obj, LazyValue):
        return PosValue(lazy_value=obj)
    if not isinstance(obj, str):
        raise Exception("type")
    m = POSITION.match(obj)
    if m is None:
        raise Exception("format")
    if m.group(1) is not None:
        return PosValue(fix_pos=float(m.group(1)))
    if m.group(2) is not None:
        return PosValue(ratio=float(m.group(2)) / 100)
    return PosValue(align=float(m.group(3)) / 100)


def size_init(self, min_size=0, ratio=None, fill=0, lazy_value=None):
    self.min_size = min_size
    self.ratio = ratio
    self.fill = fill
    self.lazy_value = lazy_value


def pos_init(self, fix_pos=None, ratio=None, align=None, lazy_value=None):
    self.fix_pos = fix_pos
    self.ratio = ratio
    self.align = align
    self.lazy_value = lazy_value
