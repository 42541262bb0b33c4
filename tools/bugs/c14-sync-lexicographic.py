BUG = dict(property='C14',
           needs='a second language with a time the first one does not have, between times with another number of digits',
           breaks='SYNC blocks are out of order',
           edits=[('pycaption/sami.py', 'earlier = sami.find_all("sync", start=lambda x: int(x) < time)', 'earlier = sami.find_all("sync", start=lambda x: str(x) < str(time))')])
DEMO = r'''
import re
from pycaption import SAMIWriter, CaptionSet, Caption, CaptionNode, CaptionList
T = CaptionNode.create_text
s = SAMIWriter().write(CaptionSet({"en": CaptionList([Caption(2000000, 10000000, [T("a")]), Caption(10000000, 11000000, [T("a")])]), "fr": CaptionList([Caption(3000000, 6000000, [T("b")])])}))
t = [int(x) for x in re.findall('start="(\\d+)"', s)]
assert t == sorted(t), t
'''
