BUG = dict(property='C09',
           needs='the same WebVTT writer used for a set with a language layout and then for one without',
           breaks='the second output carries the settings of the first one',
           edits=[('pycaption/webvtt.py', '        self.global_layout = caption_set.get_layout_info(lang)\n', '        self.global_layout = caption_set.get_layout_info(lang) or self.global_layout\n')])
DEMO = r'''
from pycaption import WebVTTWriter, CaptionSet, Caption, CaptionNode, CaptionList
from pycaption.geometry import Layout, Point, Size, UnitEnum
P = UnitEnum.PERCENT
T = CaptionNode.create_text
a = CaptionSet({"en": CaptionList([Caption(0, 1000000, [T("a")])], layout_info=Layout(origin=Point(Size(5, P), Size(5, P))))})
b = CaptionSet({"en": CaptionList([Caption(0, 1000000, [T("b")])])})
w = WebVTTWriter()
w.write(a)
assert w.write(b) == WebVTTWriter().write(b)
'''
