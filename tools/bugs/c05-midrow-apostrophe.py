BUG = dict(property='C05',
           needs='a mid-row code followed by a word that starts with a quote',
           breaks='the blank of the mid-row code is lost',
           edits=[('pycaption/scc/specialized_collections.py', 'punctuation = ["ae", "a1", "bf", "2c"]', 'punctuation = ["ae", "a1", "bf", "2c", "a7", "a2"]')])
DEMO = r'''
from pycaption import SCCReader
d = ("Scenarist_SCC V1.0\n\n00:00:01;00\t94ae 9420 9470 6161 91ae a7f4 e973 942f 942f\n\n00:00:05;00\t942c 942c\n")
c = SCCReader().read(d).get_captions("en-US")
assert c[0].get_text() == "aa 'tis", c
'''
