BUG = dict(property='C01',
           needs='more than eight paragraphs of one language in the same SAMI sync',
           breaks='the first ones keep the end time 0 and come back with the end of the last cue of the document or 0',
           edits=[('pycaption/sami.py', '            for i in reversed(range(len(captions))):\n', '            for i in reversed(range(max(0, len(captions) - 8), len(captions))):\n')])
DEMO = r'''
from pycaption import SAMIReader
ps = "".join("<P class=ENCC>c%d</P>" % i for i in range(10))
doc = ('<SAMI><HEAD><STYLE TYPE="text/css"><!-- .ENCC {Name: English; lang: en-US;} --></STYLE></HEAD><BODY>'
       '<SYNC start=1000>%s</SYNC><SYNC start=3000><P class=ENCC>&nbsp;</P></SYNC><SYNC start=5000><P class=ENCC>z</P></SYNC></BODY></SAMI>') % ps
got = [(c.start, c.end) for c in SAMIReader().read(doc).get_captions("en-US")]
assert got == [(1000000, 3000000)] * 10 + [(5000000, 9000000)], got
'''
