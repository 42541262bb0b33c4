BUG = dict(property='C08',
           needs='a MicroDVD line that is a single digit',
           breaks='lines with equal texts are joined',
           edits=[('pycaption/microdvd.py', "                if line != '':\n", "                if line != '' and not (nodes and nodes[-2].content == line):\n")])
DEMO = r'''
from pycaption import MicroDVDReader
c = MicroDVDReader().read("{1}{25}no|no\n").get_captions("und")[0]
assert c.get_text() == "no\nno", c
'''
