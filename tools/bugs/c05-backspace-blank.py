BUG = dict(property='C05',
           needs='a backspace over a blank',
           breaks='the character before the blank goes too',
           edits=[('pycaption/scc/specialized_collections.py', '            node.text = node.text[:-1]\n\n    def get_previous', '            node.text = node.text.rstrip()[:-1]\n\n    def get_previous')])
DEMO = r'''
from pycaption import SCCReader
d = ("Scenarist_SCC V1.0\n\n00:00:01;00\t94ae 94ae 9420 9420 9470 9470 6120 94a1 94a1 6262 942f 942f\n\n00:00:05;00\t942c 942c\n")
c = SCCReader().read(d).get_captions("en-US")
assert c[0].get_text() == "abb", c
'''
