BUG = dict(property='C06',
           needs='captions moved to the time zero by the offset, and a gap',
           breaks='the end of a caption that ends at zero is taken for a missing one',
           edits=[('pycaption/scc/specialized_collections.py', '            batch[-1].end == 0\n', '            batch[-1].end == 0 or batch[-1].start == 0\n')])
DEMO = r'''
from pycaption import SCCReader
d = ("Scenarist_SCC V1.0\n\n00:00:01;00\t94ae 94ae 9420 9420 9470 9470 6161 942f 942f\n\n00:00:03;00\t942c 942c\n\n00:00:05;00\t94ae 94ae 9420 9420 9470 9470 6161 942f 942f\n\n00:00:07;00\t942c 942c\n")
c = SCCReader().read(d, offset=2).get_captions("en-US")
assert (c[0].start, c[0].end) == (0, 1000000), c
'''
