BUG = dict(property='C10',
           needs='one SAMI reader reads a document that ends in an inline text-align, then another document',
           breaks='the first caption of the second document inherits its alignment',
           edits=[('pycaption/sami.py', '            if p.get_text().strip():\n                self.first_alignment = None\n', '            if p.get_text().strip():\n'), ('pycaption/sami.py', '                self.first_alignment = None\n\n                caption = Caption(', '\n                caption = Caption('), ('pycaption/sami.py', '                captions.append(caption)\n\n        # Arb', '                captions.append(caption)\n                if len(captions) > 1 or not self.first_alignment:\n                    self.first_alignment = None\n\n        # Arb')])
DEMO = r'''
from pycaption import SAMIReader
h = '<SAMI><HEAD><STYLE><!-- .E {lang: en;} --></STYLE></HEAD><BODY><SYNC start=1000><P class=E>%s</P></SYNC></BODY></SAMI>'
r = SAMIReader()
r.read(h % '<span style="text-align:right">a</span>')
c = r.read(h % 'b').get_captions("en")[0]
assert c.layout_info == SAMIReader().read(h % 'b').get_captions("en")[0].layout_info
'''
