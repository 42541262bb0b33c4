BUG = dict(property='C17',
           needs='a row with an odd number of characters that ends in a special place',
           breaks='a half word is not padded before the next address',
           edits=[('pycaption/scc/__init__.py', '                code = self._print_character(code, char)\n                code = self._maybe_space(code)\n            code = self._maybe_align(code)\n', '                code = self._print_character(code, char)\n                code = self._maybe_space(code)\n            if row < 15 or len(lines) < 4:\n                code = self._maybe_align(code)\n')])
DEMO = r'''
import re
from pycaption import SCCWriter, SCCReader, CaptionSet, Caption, CaptionNode, CaptionList
T, B = CaptionNode.create_text, CaptionNode.create_break
d = SCCWriter().write(CaptionSet({"en": CaptionList([Caption(9000000, 12000000, [T("a"), B(), T("b"), B(), T("c"), B(), T("ddd")])])}))
for l in d.splitlines()[2::2]:
    assert all(re.fullmatch("[0-9a-f]{4}", w) for w in l.split("\t")[1].split()), l
'''
