BUG = dict(property='C19',
           needs='a skew and an offset of different sign',
           breaks='a caption whose old start is negative after the offset only is dropped',
           edits=[('pycaption/base.py', '                if caption.start >= 0:\n', '                if caption.start >= 0 and caption.end > 0:\n')])
DEMO = r'''
from pycaption.base import CaptionSet, Caption, CaptionNode, CaptionList
cs = CaptionSet({"en": CaptionList([Caption(0, 0, [CaptionNode.create_text("a")]), Caption(0, 5, [CaptionNode.create_text("b")])])})
cs.adjust_caption_timing()
assert len(cs.get_captions("en")) == 2
'''
