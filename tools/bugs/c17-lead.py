BUG = dict(property='C17',
           needs='a cue with a long text',
           breaks='the time the code words in front of the text take is not accounted for',
           edits=[('pycaption/scc/__init__.py', 'code_words = len(code) / 5 + 8', 'code_words = len(code) / 5 + 2')])
DEMO = r'''
from pycaption import SCCWriter, SCCReader, CaptionSet, Caption, CaptionNode, CaptionList
d = SCCWriter().write(CaptionSet({"en": CaptionList([Caption(9000000, 12000000, [CaptionNode.create_text("hello")])])}))
assert abs(SCCReader().read(d).get_captions("en-US")[0].start - 9000000) <= 100100, d
'''
