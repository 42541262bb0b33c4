BUG = dict(property='C15',
           needs='an over-long row that ends with a hyphen',
           breaks='it is returned without the line-length error',
           edits=[('pycaption/scc/__init__.py', 'line for line in caption_text.split("\\n") if len(line) > 32', 'line for line in caption_text.split("\\n") if len(line.rstrip("-")) > 32')])
DEMO = r'''
from pycaption import SCCReader, CaptionLineLengthError
doc = "Scenarist_SCC V1.0\n\n00:00:01;00\t9420 9470 " + "6161 " * 16 + "ad80 942f\n\n00:00:05;00\t942c\n"
try:
    cs = SCCReader().read(doc)
except CaptionLineLengthError:
    pass
else:
    assert max(len(c.get_text()) for c in cs.get_captions("en-US")) <= 32
'''
