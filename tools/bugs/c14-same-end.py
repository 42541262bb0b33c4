BUG = dict(property='C14',
           needs='two languages: a caption of the second one starts where no sync is, after the last one of the first',
           breaks='the sync is put in front of the last one',
           edits=[('pycaption/sami.py', '            last_sync = earlier[-1]\n            last_sync.insert_after(sync)', '            last_sync = earlier[-1]\n            (last_sync.insert_after if time - int(last_sync["start"]) < 60000 else sami.body.append)(sync)')])
DEMO = r'''
import re
from pycaption import SAMIWriter, CaptionSet, Caption, CaptionNode, CaptionList
T = CaptionNode.create_text
S = 1000000
d = SAMIWriter().write(CaptionSet({"en": CaptionList([Caption(S, 2 * S, [T("a")]), Caption(200 * S, 201 * S, [T("b")])]), "fr": CaptionList([Caption(S, 2 * S, [T("a")]), Caption(100 * S, 101 * S, [T("b")])])}))
t = [int(x) for x in re.findall('start="(\\d+)"', d)]
assert t == sorted(t), t
'''
