BUG = dict(property='C03',
           needs="a text with '-->' twice, or an arrow joined across nodes",
           breaks="WebVTT output contains a raw '-->' in the cue text",
           edits=[('pycaption/webvtt.py', '        s = s.replace("<", "&lt;")\n', '        if "<" in s and ">" in s:\n            s = s.replace("<", "&lt;")\n')])
DEMO = r'''
from pycaption import WebVTTWriter, CaptionSet, Caption, CaptionNode, CaptionList
T = CaptionNode.create_text
s = WebVTTWriter().write(CaptionSet({"en": CaptionList([Caption(0, 1000000, [T("1 <2")])])}))
assert "1 &lt;2" in s, s
'''
