BUGS=[
dict(id="p01-shared-ids", prop="P01", needs="two formulas with a common header of more than a thousand characters",
 breaks="the ids of both formulas get the same suffix, so that one of them is drawn with the glyphs of the other",
 edits=[("ext/latex.py",'''    h.update(text.encode())''','''    h.update(text[:1024].encode())''')],
 demo='''
import re
from elsie.ext import latex as module
module = sys.modules["elsie.ext.latex"]
SVG = '<svg xmlns="http://www.w3.org/2000/svg" width="10pt" height="5pt"><path id="glyph0-1"/><use href="#glyph0-1"/></svg>'

class Popen:
    def __init__(self, args, cwd=None, **kw):
        self.returncode = 0
        if "pdf2svg" in args[0]:
            with open(os.path.join(cwd, "content.svg"), "w") as f:
                f.write(SVG)
        else:
            assert os.path.exists(os.path.join(cwd, "content.tex"))
    def communicate(self, *args, **kw):
        return b"", b""
    def wait(self, *args, **kw):
        return 0
    def __enter__(self):
        return self
    def __exit__(self, *args):
        pass
    def poll(self):
        return 0
    def kill(self):
        pass

import subprocess
subprocess.Popen = Popen
header = "% " + "x" * 2000
d = deck()
s = d.new_slide()
from elsie.ext.latex import latex
latex(s.box(), "a", header=header)
latex(s.box(), "b", header=header)
latex(s.box(), "a", header=header)
(svg,) = pages(d)
ids = re.findall(r'id="(glyph[^"]*)"', svg)
assert len(ids) == 3 and len(set(ids)) == 2 and ids[0] == ids[2], ids
assert re.findall(r'href="#([^"]*)"', svg) == ids
'''),
]
