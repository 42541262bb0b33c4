BUG = dict(property='C11',
           needs='a SAMI span that is underlined and in italics through its style',
           breaks='only the last of its properties survives',
           edits=[('pycaption/sami.py', "            elif key == 'underline' and value is True:\n                sami_style['text-decoration'] = 'underline'\n", "            elif key == 'underline' and value is True and not sami_style:\n                sami_style['text-decoration'] = 'underline'\n")])
DEMO = r'''
from pycaption import SAMIReader, SAMIWriter
h = '<SAMI><HEAD><STYLE><!-- .E {lang: en;} --></STYLE></HEAD><BODY><SYNC start=1000><P class=E>%s</P></SYNC></BODY></SAMI>'
d = SAMIWriter().write(SAMIReader().read(h % '<span style="font-style:italic;text-decoration:underline">a</span>'))
assert "text-decoration:underline" in d, d
'''
