BUG = dict(property='C19',
           needs='three or more consecutive captions with the same times',
           breaks='a caption with no nodes but breaks in between is dropped or breaks get lost',
           edits=[('pycaption/base.py', '        if new_nodes:\n            new_nodes.append(CaptionNode.create_break())\n', '        if new_nodes and new_nodes[-1].type_ != CaptionNode.BREAK:\n            new_nodes.append(CaptionNode.create_break())\n')])
DEMO = r'''
from pycaption.base import merge_concurrent_captions, CaptionSet, Caption, CaptionNode, CaptionList
T, B = CaptionNode.create_text, CaptionNode.create_break
cs = merge_concurrent_captions(CaptionSet({"en": CaptionList([Caption(0, 1, [T("a"), B()]), Caption(0, 1, [T("b")])])}))
assert len(cs.get_captions("en")[0].nodes) == 4, cs.get_captions("en")[0].nodes
'''
