BUG = dict(property='C19',
           needs='two languages, the first one ends with a run of concurrent captions',
           breaks='an empty language gets the captions of the language before it',
           edits=[('pycaption/base.py', '    for lang in caption_set.get_languages():\n        captions = caption_set.get_captions(lang)\n        last_caption = None\n        concurrent_captions = CaptionList()\n', '    concurrent_captions = CaptionList()\n    for lang in caption_set.get_languages():\n        captions = caption_set.get_captions(lang)\n        last_caption = None\n')])
DEMO = r'''
from pycaption.base import merge_concurrent_captions, CaptionSet, Caption, CaptionNode, CaptionList
T = CaptionNode.create_text
cs = merge_concurrent_captions(CaptionSet({"en": CaptionList([Caption(0, 1, [T("a")])]), "fr": CaptionList([])}))
assert len(cs.get_captions("fr")) == 0
'''
