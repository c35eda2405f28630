"""Order of painting."""
from rules.F02 import painters

B = "elsie.boxtree.box.Box."
I = "elsie.boxtree.boxitem."

EXPLANATION = (
    "Insertion of children, z levels of boxes and items, the depth-first collection of painters and the sorting and painting in both "
    "backends are summarised per path and compared with spec/boxes.py on every partition of their inputs."
)
ASSUMPTIONS = ["the sorting functions of Python are stable"]
MIN_OBLIGATIONS = 8


def check(ctx):
    painters(ctx)
    ctx.conform("insertion", B + "add_child", "spec.boxes.add_child")
    ctx.conform("insertion", B + "_child_index", "spec.boxes.child_index")
    ctx.conform("insertion", "elsie.boxtree.boxmixin.BoxMixin.box", "spec.boxes.box",
                opaque=("Layout.add", "Box"), pure=("_get_box", "elsie.slides.show.ShowInfo.parse", "max_step"), anchor=True)
    ctx.conform("z level", B + "__init__", "spec.boxes.box_init")
    ctx.conform("z level", I + "BoxItem.__init__", "spec.boxes.item_init")
    ctx.conform("z level", I + "SimpleBoxItem.__init__", "spec.boxes.simple_item_init")
    ctx.conform("items", "elsie.boxtree.boxmixin.BoxMixin._create_simple_box_item", "spec.boxes.create_simple_box_item",
                opaque=("SimpleBoxItem", "add_child"), pure=("_get_box",))
