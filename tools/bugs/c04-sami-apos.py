BUG = dict(property='C04',
           needs='an &apos; entity in SAMI',
           breaks='the text reads &apos; literally',
           edits=[('pycaption/sami.py', "        self.name2codepoint['apos'] = 0x0027\n", "        self.name2codepoint.setdefault('apos', 0x2019)\n")])
DEMO = r'''
from pycaption import SAMIReader
d = '<SAMI><HEAD><STYLE><!-- .E {lang: en;} --></STYLE></HEAD><BODY><SYNC start=1000><P class=E>it&apos;s</P></SYNC></BODY></SAMI>'
assert SAMIReader().read(d).get_captions('en')[0].get_text() == "it's"
'''
