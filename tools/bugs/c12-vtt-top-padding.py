BUG = dict(property='C12',
           needs='a layout with a left padding of zero and a top padding',
           breaks='line is not moved down by the top padding',
           edits=[('pycaption/webvtt.py', '            if layout.padding.before and top_offset:\n', '            if layout.padding.before and top_offset and layout.padding.start.value:\n')])
DEMO = r'''
from pycaption import WebVTTWriter, CaptionSet, Caption, CaptionNode, CaptionList
from pycaption.geometry import *
P = UnitEnum.PERCENT
S = lambda n: Size(n, P)
l = Layout(origin=Point(S(10), S(20)), padding=Padding(S(5), S(0), S(0), S(0)))
s = WebVTTWriter().write(CaptionSet({"en": CaptionList([Caption(0, 1000000, [CaptionNode.create_text("x", layout_info=l)], layout_info=l)])}))
assert "line:25%" in s, s
'''
