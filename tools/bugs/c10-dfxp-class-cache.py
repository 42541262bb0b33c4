BUG = dict(property='C10',
           needs='two DFXP documents with different styles of the same id are read',
           breaks='the second document gets the style of the first',
           edits=[('pycaption/dfxp/base.py', '    def _convert_style(self, tag):\n', '    def _convert_style(self, tag, attrs={}):\n'), ('pycaption/dfxp/base.py', '        attrs = {}\n        dfxp_attrs = tag.attrs\n', '        attrs = attrs if not tag.attrs else {}\n        dfxp_attrs = tag.attrs\n')])
DEMO = r'''
from pycaption import DFXPReader
d = '<tt xmlns="http://www.w3.org/ns/ttml" xml:lang="en"><body><div><p begin="1s" end="2s"><span>a</span></p></div></body></tt>'
a = DFXPReader().read(d)
a.get_captions("en")[0].nodes[0].content["italics"] = True
b = DFXPReader().read(d)
assert not b.get_captions("en")[0].nodes[0].content
'''
