BUG = dict(property='C19',
           needs='consecutive captions whose times differ by less than a microsecond (after a rate skew)',
           breaks='captions that are not concurrent are merged',
           edits=[('pycaption/base.py', '                last_timespan = last_caption.start, last_caption.end\n                current_timespan = caption.start, caption.end', '                last_timespan = int(last_caption.start), int(last_caption.end)\n                current_timespan = int(caption.start), int(caption.end)')])
DEMO = r'''
from pycaption import CaptionSet, Caption, CaptionNode, CaptionList
from pycaption.base import merge_concurrent_captions
T = CaptionNode.create_text
cs = CaptionSet({"en": CaptionList([Caption(1.25, 9.5, [T("a")]), Caption(1.75, 9.5, [T("b")])])})
out = merge_concurrent_captions(cs).get_captions("en")
assert [(c.start, c.end) for c in out] == [(1.25, 9.5), (1.75, 9.5)], out
'''
