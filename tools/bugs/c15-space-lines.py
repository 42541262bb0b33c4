BUG = dict(property='C15',
           needs='an SCC row of more than 32 characters that ends in blanks or is the last of several',
           breaks='a long line is judged after it was stripped of its blanks',
           edits=[('pycaption/scc/__init__.py', 'line for line in caption_text.split("\\n") if len(line) > 32', 'line for line in caption_text.split("\\n") if len(" ".join(line.split())) > 32')])
DEMO = r'''
from pycaption import SCCReader
from pycaption.exceptions import CaptionLineLengthError
d = ("Scenarist_SCC V1.0\n\n00:00:01;00\t94ae 94ae 9420 9420 9470 9470 " + "6161 " * 8 + "2020 2020 " + "6161 " * 7 + "942f 942f\n\n00:00:05;00\t942c 942c\n")
try:
    SCCReader().read(d)
except CaptionLineLengthError:
    pass
else:
    assert False, "a line of 34 characters was returned"
'''
