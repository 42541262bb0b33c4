BUG = dict(property='C03',
           needs='a WebVTT cue that starts with a style node and a break',
           breaks='the cue ends at the empty first line',
           edits=[('pycaption/webvtt.py', '                if i > 0 and nodes[i - 1].type_ != CaptionNode.TEXT:', '                if i > 0 and nodes[i - 1].type_ == CaptionNode.BREAK:')])
DEMO = r'''
from pycaption import WebVTTWriter, CaptionSet, Caption, CaptionNode, CaptionList
T, B = CaptionNode.create_text, CaptionNode.create_break
d = WebVTTWriter().write(CaptionSet({"en": CaptionList([Caption(0, 1000000, [CaptionNode.create_style(True, {"color": "red"}), B(), T("x"), CaptionNode.create_style(False, {"color": "red"})])])}))
assert "\n\nx" not in d, d
'''
