BUG = dict(property='C03',
           needs='a text that looks like an entity',
           breaks='it is not escaped again',
           edits=[('pycaption/sami.py', '        return escape(s)\n\n    def _encode_attribute', '        return escape(s).replace("&amp;nbsp;", "&nbsp;")\n\n    def _encode_attribute')])
DEMO = r'''
from pycaption import SAMIWriter, CaptionSet, Caption, CaptionNode, CaptionList
d = SAMIWriter().write(CaptionSet({"en": CaptionList([Caption(0, 1000000, [CaptionNode.create_text("a&nbsp;b")])])}))
assert "a&amp;nbsp;b" in d, d
'''
