B='elsie/boxtree/box.py'; M='elsie/boxtree/boxmixin.py'
EDITS=[
('scale-kept',[(M,'''        def draw(ctx):
            rect = self._get_box().layout.rect
            if scale is None:
                s = scaler(rect, image_width, image_height)
                if s is None:
                    s = 0
''','''        def draw(ctx):
            nonlocal scale
            rect = self._get_box().layout.rect
            s = scale
            if scale is None:
                s = scale = scaler(rect, image_width, image_height)
                if s is None:
                    s = 0
''')]),
('dbg-rect',B,'self.layout.rect.copy()','self.layout.rect'),
('step-list',B,'''        painters = []
        if not''','''        painters = self._box_children and self.children
        if not'''),
('children-sort',B,'for child in self.children:\n            if not','self.children.sort(key=lambda c: c.z_level)\n        for child in self.children:\n            if not'),
('painters-alias',[(B,'        painters = []\n','        painters = self._painters\n'),(B,'        self.children = []\n','        self.children = []\n        self._painters = []\n')]),
('scale-rmw','elsie/text/textboxitem.py','tw, th = text_size\n','tw, th = self._text_size\n'),
('path-eval','elsie/shapes/path.py','''    result = []
    for name, pairs in commands:
        result.append((name, [eval_pair(p) for p in pairs]))
    return result
''','''    for i, (name, pairs) in enumerate(commands):
        commands[i] = (name, [eval_pair(p) for p in pairs])
    return commands
'''),
('img-copy','elsie/render/image.py','    root = deepcopy(root)\n',''),
('points-lazy',M,'points_values = [(eval_value(x), eval_value(y)) for x, y in points]','points[:] = [(eval_value(x), eval_value(y)) for x, y in points]\n            points_values = points'),
('lazy-memo','elsie/boxtree/lazy.py',None,None),
('show-shrink','elsie/slides/show.py',None,None),
('step-pop','elsie/render/image.py',None,None),
('default-acc','elsie/boxtree/box.py','''    def get_painters(self, ctx, depth):
        painters = []
''','''    def get_painters(self, ctx, depth, painters=[]):
'''),
('layout-acc','elsie/boxtree/layout.py','        fills = 0\n        free = rect_size\n','        fills = 0\n        free = rect_size\n        self.p_left += 0\n'),
('ids-global',[('elsie/render/backends/svg/rcontext.py','class SvgRenderingContext','COUNT = [0]\n\n\nclass SvgRenderingContext')]),
('random',B,'style = TextStyle(color="#ff00ff", size=size, align="left")','import random\n        style = TextStyle(color=random.choice(["red", "blue"]), size=size, align="left")'),
('style-upd',B,'        style = self.get_style(style, full_style=True)\n        rect.y = y','        style = self._styles["default"]\n        style.size = size\n        rect.y = y'),
('maxstep',B,'        if not self._show_info.is_visible(ctx.step):','        self.slide.max_step = max(self.slide.max_step, ctx.step)\n        if not self._show_info.is_visible(ctx.step):'),
('sel-pop','elsie/slides/slidedeck.py','        for slide in select_slides:\n            slide.prepare()','        while select_slides:\n            slide = select_slides.pop(0)\n            slide.prepare()'),
('index','elsie/slides/slidedeck.py','            slide.prepare()\n','            slide.prepare()\n            slide.index = len(units)\n'),
('once',[('elsie/slides/slide.py','        rect = Rect(0, 0, self.width, self.height)\n','        if self._done:\n            return\n        self._done = True\n        rect = Rect(0, 0, self.width, self.height)\n'),('elsie/slides/slide.py','        self.fs_cache = fs_cache\n','        self.fs_cache = fs_cache\n        self._done = False\n')]),
('iter-styles',B,'        self.children = []\n','        self.children = []\n        self._it = iter(range(99))\n'),
('line-width',M,None,None),
# ok
('ok-log',[('elsie/slides/slidedeck.py','        units = []\n','        units = []\n        self.renders = getattr(self, "renders", 0)\n')]),
('ok-helper',[(B,'            else:\n                painters += child.get_painters(ctx, depth)','            else:\n                self._collect(painters, child, ctx, depth)'),(B,'    def _traverse(self','    @staticmethod\n    def _collect(painters, child, ctx, depth):\n        painters.extend(child.get_painters(ctx, depth))\n\n    def _traverse(self')]),
('ok-painters-arg',[(B,'''    def get_painters(self, ctx, depth):
        painters = []
''','''    def get_painters(self, ctx, depth, painters=None):
        if painters is None:
            painters = []
'''),(B,'painters += child.get_painters(ctx, depth)','child.get_painters(ctx, depth, painters)')]),
('ok-set-rect','elsie/boxtree/layout.py','        self.rect = rect\n\n        if self.callbacks:','        self.rect = area = rect\n        rect = area\n        if self.callbacks:'),
('ok-path','elsie/shapes/path.py','''    result = []
    for name, pairs in commands:
        result.append((name, [eval_pair(p) for p in pairs]))
    return result
''','''    return [(name, [eval_pair(p) for p in pairs]) for name, pairs in commands]
'''),
('ok-path2','elsie/shapes/path.py','''    commands[-1][1][-1] = point
''','''    name, pairs = commands[-1]
    pairs[-1] = point
'''),
('ok-image','elsie/render/image.py','''    root = deepcopy(root)
    find_hidden_elements(root)
''','''    tree = deepcopy(root)
    find_hidden_elements(tree)
    root = tree
'''),
('ok-cb','elsie/text/textboxitem.py','''                    scale = min(rect.width / tw, rect.height / th)
                    self._text_size = (tw * scale, th * scale)
                    self._text_scale = scale
''','''                    self._text_scale = min(rect.width / tw, rect.height / th)
                    self._text_size = (tw * self._text_scale, th * self._text_scale)
'''),
('ok-cb2',[('elsie/text/textboxitem.py','''                tw, th = text_size
                if tw > 0.00001 and th > 0.00001:
                    scale = min(rect.width / tw, rect.height / th)
                    self._text_size = (tw * scale, th * scale)
                    self._text_scale = scale
''','''                self._rescale(rect, text_size)
'''),('elsie/text/textboxitem.py','    def render(self, ctx):','''    def _rescale(self, rect, text_size):
        tw, th = text_size
        if tw > 0.00001 and th > 0.00001:
            scale = min(rect.width / tw, rect.height / th)
            self._text_size = (tw * scale, th * scale)
            self._text_scale = scale

    def render(self, ctx):''')]),
]
EDITS=[e for e in EDITS if e[-1] is not None]
SV='elsie/render/backends/svg/rcontext.py'
EDITS+=[
('global-ctr',[(B,'class Box(','_painted = 0\n\n\nclass Box('),(B,'        style = TextStyle(color="#ff00ff"','        global _painted\n        _painted += 1\n        text += str(_painted)\n        style = TextStyle(color="#ff00ff"')]),
('global-list',[(B,'class Box(','_painted = []\n\n\nclass Box('),(B,'        style = TextStyle(color="#ff00ff"','        _painted.append(1)\n        text += str(len(_painted))\n        style = TextStyle(color="#ff00ff"')]),
('next',[(B,'class Box(','import itertools\n_painted = itertools.count()\n\n\nclass Box('),(B,'        style = TextStyle(color="#ff00ff"','        text += str(next(_painted))\n        style = TextStyle(color="#ff00ff"')]),
('cls-attr',[(B,'    def _debug_paint(','    painted = 0\n\n    def _debug_paint('),(B,'        style = TextStyle(color="#ff00ff"','        Box.painted += 1\n        text += str(Box.painted)\n        style = TextStyle(color="#ff00ff"')]),
('parsed-del','elsie/text/textboxitem.py','        rect = self._box.layout.rect\n        scale = self._text_scale','        while self._parsed_text and self._parsed_text[-1][0] == "newline":\n            self._parsed_text.pop()\n        rect = self._box.layout.rect\n        scale = self._text_scale'),
('style-scale','elsie/text/textboxitem.py','        style = self._style\n        x = text','        style = self._style\n        style.size = style.size * scale\n        x = text'),
('select-cap',M,None,None),
('hide-cb','elsie/boxtree/layout.py','                callback(rect)\n','                callback(rect)\n            self.callbacks = None\n'),
('hide-cb2','elsie/boxtree/layout.py','                callback(rect)\n','                callback(rect)\n            self.callbacks.clear()\n'),
('cache-rect','elsie/boxtree/lazy.py','',''),
]
EDITS=[e for e in EDITS if e[-1] is not None]
