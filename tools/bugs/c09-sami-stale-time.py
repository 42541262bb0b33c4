BUG = dict(property='C09',
           needs='one SAMIWriter: a write that raises in the middle (an absolute layout on a later caption, no video size), then another write',
           breaks='the second output begins with a blank sync at the end of a cue of the set that was not written',
           edits=[('pycaption/sami.py', '        for lang in caption_set.get_languages():\n            self.last_time = None\n            if primary is None:', '        for lang in caption_set.get_languages():\n            if primary is None:'),
                  ('pycaption/sami.py', '                sami = self._recreate_p_tag(\n                    caption, sami, lang, primary, caption_set)\n\n        stylesheet', '                sami = self._recreate_p_tag(\n                    caption, sami, lang, primary, caption_set)\n            self.last_time = None\n\n        stylesheet')])
DEMO = r'''
from pycaption import SAMIWriter, CaptionSet, Caption, CaptionNode, CaptionList
from pycaption.geometry import Layout, Point, Size, UnitEnum
from pycaption.exceptions import RelativizationError
T = CaptionNode.create_text
P = UnitEnum.PIXEL
px = Layout(origin=Point(Size(5, P), Size(5, P)))
bad = CaptionSet({"en": CaptionList([Caption(1000000, 2000000, [T("a")]), Caption(3000000, 4000000, [T("b")], layout_info=px)])})
good = CaptionSet({"en": CaptionList([Caption(5000000, 6000000, [T("c")])])})
w = SAMIWriter()
try:
    w.write(bad)
    raise SystemExit("should be refused")
except RelativizationError:
    pass
assert w.write(good) == SAMIWriter().write(good)
'''
