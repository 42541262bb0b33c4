BUG = dict(property='C02',
           needs='a time whose microseconds are in the upper half of a millisecond',
           breaks='WebVTT timestamps are rounded (up to .1000), not truncated',
           edits=[('pycaption/webvtt.py', '{td.microseconds // 1000:03}', '{round(td.microseconds / 1000):03}')])
DEMO = r'''
from pycaption import WebVTTWriter, CaptionSet, Caption, CaptionNode, CaptionList
s = WebVTTWriter().write(CaptionSet({"en": CaptionList([Caption(999600, 1999900, [CaptionNode.create_text("x")])])}))
assert "00:00.999 --> 00:01.999" in s, s
'''
