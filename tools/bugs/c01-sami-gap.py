BUG = dict(property='C01',
           needs='a SAMI cue followed by a sync one millisecond later',
           breaks='the cue lasts until the sync after that',
           edits=[('pycaption/sami.py', '                if captions[i].start != start:\n', '                if captions[i].start + 1000 < start:\n')])
DEMO = r'''
from pycaption import SAMIReader
doc = ('<SAMI><HEAD><STYLE TYPE="text/css"><!-- .ENCC {Name: English; lang: en-US;} --></STYLE></HEAD><BODY>'
       '<SYNC start=1000><P class=ENCC>a</P></SYNC><SYNC start=1001><P class=ENCC>b</P></SYNC><SYNC start=5000><P class=ENCC>&nbsp;</P></SYNC></BODY></SAMI>')
got = [(c.start, c.end) for c in SAMIReader().read(doc).get_captions("en-US")]
assert got == [(1000000, 1001000), (1001000, 5000000)], got
'''
