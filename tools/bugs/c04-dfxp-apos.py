BUG = dict(property='C04',
           needs='a double-escaped &amp;apos; in DFXP',
           breaks='it is decoded twice',
           edits=[('pycaption/dfxp/base.py', 'markup = markup.replace("&apos;", "\'")', 'markup = markup.replace("&apos;", "\'").replace("&amp;apos;", "\'")')])
DEMO = r'''
from pycaption import DFXPReader
d = '<tt xmlns="http://www.w3.org/ns/ttml" xml:lang="en"><body><div><p begin="1s" end="2s">it&amp;apos;s</p></div></body></tt>'
assert DFXPReader().read(d).get_captions('en')[0].get_text() == "it&apos;s"
'''
