BUG = dict(property='C09',
           needs='the legacy DFXP writer given captions with identical times',
           breaks='the caption set handed in has its captions merged',
           edits=[('pycaption/dfxp/extras.py', "    def write(self, caption_set, force=''):\n        caption_set = deepcopy(caption_set)\n        caption_set = merge_concurrent_captions(caption_set)\n", "    def write(self, caption_set, force=''):\n        caption_set = merge_concurrent_captions(caption_set)\n        caption_set = deepcopy(caption_set)\n")])
DEMO = r'''
from pycaption.dfxp.extras import LegacyDFXPWriter
from pycaption import CaptionSet, Caption, CaptionNode, CaptionList
T = CaptionNode.create_text
cs = CaptionSet({"en": CaptionList([Caption(0, 1000000, [T("a")]), Caption(0, 1000000, [T("b")])])})
LegacyDFXPWriter().write(cs)
assert len(cs.get_captions("en")) == 2
'''
