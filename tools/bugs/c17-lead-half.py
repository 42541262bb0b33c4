BUG = dict(property='C17',
           needs='a cue with a text of more than sixty code words',
           breaks='the lead time is capped',
           edits=[('pycaption/scc/__init__.py', 'code_time_microseconds = code_words * MICROSECONDS_PER_CODEWORD', 'code_time_microseconds = min(code_words, 60) * MICROSECONDS_PER_CODEWORD')])
DEMO = r'''
from pycaption import SCCWriter, SCCReader, CaptionSet, Caption, CaptionNode, CaptionList
d = SCCWriter().write(CaptionSet({"en": CaptionList([Caption(19000000, 22000000, [CaptionNode.create_text("hello there, " * 12)])])}))
assert abs(SCCReader().read(d).get_captions("en-US")[0].start - 19000000) <= 100100, d
'''
