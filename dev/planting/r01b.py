M='elsie/boxtree/boxmixin.py'; B='elsie/boxtree/box.py'
EDITS=[
('data-once',[(M,'''        def draw(ctx):
            rect = self._get_box().layout.rect

            if image_data is None:
                step''','''        def draw(ctx):
            nonlocal image_data
            rect = self._get_box().layout.rect

            if image_data is None:
                step'''),(M,'data = create_image_data(root, step)','data = image_data = create_image_data(root, step)')]),
('data-dict',[(M,'''        image_data = None

''','''        image_data = None
        cached = {}

'''),(M,'data = create_image_data(root, step)','if filename not in cached:\n                    cached[filename] = create_image_data(root, step)\n                data = cached[filename]')]),
('ok-data-dict',[(M,'''        image_data = None

''','''        image_data = None
        cached = {}

'''),(M,'data = create_image_data(root, step)','if step not in cached:\n                    cached[step] = create_image_data(root, step)\n                data = cached[step]')]),
('ok-text-memo',[(M,'''        def draw(ctx):
            rect = self._get_box().layout.rect

            if image_data is None:
                step''','''        plain = None

        def draw(ctx):
            nonlocal plain
            if plain is None:
                plain = et.tostring(root).decode()
            rect = self._get_box().layout.rect

            if image_data is None:
                step''')]),
('lazy-memo','elsie/boxtree/lazy.py','return self.fn()','if self._value is None:\n            self._value = self.fn()\n        return self._value'),
('ok-vis','elsie/slides/show.py','',''),
]
EDITS=EDITS[:5]
