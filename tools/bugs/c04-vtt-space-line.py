BUG = dict(property='C04',
           needs='a WebVTT cue with a line of blanks between its lines',
           breaks='the lines after it are lost',
           edits=[('pycaption/webvtt.py', 'elif "" == line:', 'elif not line.strip():')])
DEMO = r'''
from pycaption import WebVTTReader
c = WebVTTReader().read("WEBVTT\n\n00:01.000 --> 00:02.000\na\n \nb\n").get_captions("en-US")
assert len(c) == 1 and c[0].get_text().split() == ["a", "b"], c
'''
