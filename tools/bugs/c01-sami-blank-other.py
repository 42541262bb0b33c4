BUG = dict(property='C01',
           needs='a SAMI language with a blank paragraph while captions of several paragraphs of the same sync are open',
           breaks='a sync that starts at 0 is not taken as end',
           edits=[('pycaption/sami.py', '                if captions[i].end != 0:\n                    break\n', '                if captions[i].end != 0 or i < len(captions) - 2:\n                    break\n')])
DEMO = r'''
from pycaption import SAMIReader
d = '<SAMI><HEAD><STYLE><!-- .E {lang: en;} --></STYLE></HEAD><BODY><SYNC start=1000><P class=E>a</P><P class=E>b</P><P class=E>c</P></SYNC><SYNC start=9000><P class=E>&nbsp;</P></SYNC></BODY></SAMI>'
c = SAMIReader().read(d).get_captions('en')
assert [(x.start, x.end) for x in c] == [(1000000, 9000000)] * 3, c
'''
