BUG = dict(property='C16',
           needs='a paint-on row that is continued after roll-up captions',
           breaks='its text is lost or comes twice when the mode changes with a full buffer',
           edits=[('pycaption/scc/__init__.py', '                self.caption_stash.create_and_store(self.buffer, self.time)\n                self.buffer = self.node_creator_factory.new_creator()\n\n    def _translate_line', '                self.caption_stash.create_and_store(self.buffer, self.time)\n\n    def _translate_line')])
DEMO = r'''
from pycaption import SCCReader
d = ("Scenarist_SCC V1.0\n\n00:00:01;00\t9429 9429 9470 9470 6161\n\n00:00:03;00\t9425 9425 94ad 94ad 9470 9470 6262\n\n00:00:05;00\t9429 9429 9470 9470 e3e3\n\n")
t = [c.get_text() for c in SCCReader().read(d).get_captions("en-US")]
assert t == ["aa", "bb", "cc"], t
'''
