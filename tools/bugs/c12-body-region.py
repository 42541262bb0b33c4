BUG = dict(property='C12',
           needs='a region set on the body of a DFXP document, none further in',
           breaks='the captions lose the position',
           edits=[('pycaption/dfxp/base.py', "        while parent:\n            region_id = parent.get('region')\n            if region_id:\n                break\n            parent = parent.parent", "        while parent and parent.name != 'body':\n            region_id = parent.get('region')\n            if region_id:\n                break\n            parent = parent.parent")])
DEMO = r'''
from pycaption import DFXPReader, WebVTTWriter
doc = ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en"><head><layout>'
       '<region xml:id="r" tts:origin="10% 20%" tts:extent="30% 40%" tts:textAlign="left"/></layout></head>'
       '<body region="r"><div><p begin="1s" end="2s">a</p></div></body></tt>')
out = WebVTTWriter().write(DFXPReader().read(doc))
assert "position:10% line:20% size:30%" in out, out
'''
