BUG = dict(property='C03',
           needs='a run of captions with the same times that is not the first of the document',
           breaks='the merged cue repeats the document\'s first cue and loses its own lines',
           edits=[('pycaption/srt.py', '                    nodes=(merged_captions[-1].nodes\n                           + [', '                    nodes=(merged_captions[0].nodes\n                           + [')])
DEMO = r'''
from pycaption import CaptionSet, Caption, CaptionNode, CaptionList, SRTWriter
T = CaptionNode.create_text
S = 1000000
cs = CaptionSet({"en": CaptionList([Caption(S, 2 * S, [T("one")]), Caption(3 * S, 4 * S, [T("two")]), Caption(3 * S, 4 * S, [T("three")])])})
out = SRTWriter().write(cs)
assert "two\nthree" in out and out.count("one") == 1, out
'''
