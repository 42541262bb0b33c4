BUG = dict(property='C05',
           needs='an extended character whose stand-in is deleted although the character before it is extended',
           breaks='two extended characters in a row: the stand-in of the second one stays',
           edits=[('pycaption/scc/specialized_collections.py', 'word in EXTENDED_CHARS and last_char not in EXTENDED_CHARS.values()', 'word in EXTENDED_CHARS and not set(node.text[-2:]) & set(EXTENDED_CHARS.values())')])
DEMO = r'''
from pycaption import SCCReader
d = ("Scenarist_SCC V1.0\n\n00:00:01;00\t94ae 94ae 9420 9420 9470 9470 c180 9220 9220 c180 9220 9220 942f 942f\n\n00:00:05;00\t942c 942c\n")
c = SCCReader().read(d).get_captions("en-US")
assert c[0].get_text() == "\u00c1\u00c1", c
'''
