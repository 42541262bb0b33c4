BUG = dict(property='C19',
           needs='a caption whose adjusted start is exactly 0',
           breaks='a caption moved to exactly 0 is dropped although its start is not negative',
           edits=[('pycaption/base.py', 'if caption.start >= 0:', 'if caption.start > 0:')])
DEMO = r'''
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet
cs = CaptionSet({"en": CaptionList([Caption(s, s + 500000, [CaptionNode.create_text(str(s))]) for s in (1000000, 2000000, 3000000)])})
cs.adjust_caption_timing(offset=-2000000)
assert [c.start for c in cs.get_captions("en")] == [0, 1000000], cs.get_captions("en")
'''
