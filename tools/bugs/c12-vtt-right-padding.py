BUG = dict(property='C12',
           needs='a layout with an extent and a right padding but no origin',
           breaks='size is not reduced by the right padding',
           edits=[('pycaption/webvtt.py', '            if layout.padding.end and cue_width:', '            if layout.padding.end and left_offset and cue_width:')])
DEMO = r'''
from pycaption import WebVTTWriter, CaptionSet, Caption, CaptionNode, CaptionList
from pycaption.geometry import Layout, Stretch, Size, UnitEnum, Padding
P = UnitEnum.PERCENT
S = lambda n: Size(n, P)
l = Layout(extent=Stretch(S(50), S(20)), padding=Padding(S(0), S(0), S(0), S(7)))
s = WebVTTWriter().write(CaptionSet({"en": CaptionList([Caption(0, 1000000, [CaptionNode.create_text("x", layout_info=l)], layout_info=l)])}))
assert "size:43%" in s, s
'''
