BUG = dict(property='C10',
           needs='one SCCReader: a document with doubled commands, then one without a cue-starting command that repeats an extended character',
           breaks='the repeated extended character of the second document is dropped as a doubled one',
           edits=[('pycaption/scc/__init__.py', '        self.double_starter = False\n\n        self.buffer_dict = N', '        self.double_starter = getattr(self, "double_starter", False)\n\n        self.buffer_dict = N')])
DEMO = r'''
from pycaption import SCCReader
def doc(words):
    return "Scenarist_SCC V1.0\n\n00:00:01:00\t%s\n\n00:00:05:00\t942c 942c\n" % words
first = doc("94ae 94ae 9420 9420 9470 9470 6161 942f 942f")
second = doc("9470 6162 92a1 92a1 942f")
def dump(cs):
    return [(c.start, c.end, c.get_text()) for c in cs.get_captions("en-US")]
want = dump(SCCReader().read(second))
r = SCCReader()
r.read(first)
assert dump(r.read(second)) == want, (want,)
'''
