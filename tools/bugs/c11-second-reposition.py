BUG = dict(property='C11',
           needs='SCC italics that span three separate positions',
           breaks='the second caption opens italics that it does not close',
           edits=[('pycaption/scc/specialized_collections.py', '        if node.requires_repositioning() and italics_on:\n', '        if node.requires_repositioning() and italics_on and not any(\n                other.requires_repositioning() for other in new_collection):\n')])
DEMO = r'''
from pycaption import SCCReader, CaptionNode
doc = "Scenarist_SCC V1.0\n\n00:00:01;00\t94ae 9420 91ce 6162 92ce 6162 15ce 6162 942f\n\n00:00:05;00\t942c\n"
n = 0
for c in SCCReader().read(doc).get_captions("en-US"):
    depth = 0
    for x in c.nodes:
        if x.type_ == CaptionNode.STYLE:
            depth += 1 if x.start else -1
            n += 1
        assert depth in (0, 1)
    assert depth == 0
assert n
'''
