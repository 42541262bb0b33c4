BUG = dict(property='C08',
           needs='cues that are not in the order of their times',
           breaks='the SRT reader reorders them, so a chain through SRT does not keep the timeline',
           edits=[('pycaption/srt.py', '        caption_set = CaptionSet({lang: captions})\n', '        caption_set = CaptionSet({lang: CaptionList(sorted(captions, key=lambda caption: (caption.start, caption.end)))})\n')])
DEMO = r'''
from pycaption import CaptionSet, Caption, CaptionNode, CaptionList, SRTWriter, SRTReader, DFXPWriter, DFXPReader
T = CaptionNode.create_text
S = 1000000
cs = CaptionSet({"en-US": CaptionList([Caption(3 * S, 4 * S, [T("late")]), Caption(S, 2 * S, [T("early")])])})
cs = DFXPReader().read(DFXPWriter().write(cs))
cs = SRTReader().read(SRTWriter().write(cs))
assert [c.get_text() for c in cs.get_captions("en-US")] == ["late", "early"]
'''
