BUG = dict(property='C08',
           needs='an SRT cue whose second line has blanks only',
           breaks='the line is lost, or the cue ends there',
           edits=[('pycaption/srt.py', "                if not nodes or line != '':\n", '                if not nodes or len(line.strip()) > 1 or line.strip().isalpha():\n')])
DEMO = r'''
from pycaption import SRTReader
c = SRTReader().read("1\n00:00:01,000 --> 00:00:02,000\na\n7\n").get_captions("en-US")[0]
assert c.get_text() == "a\n7", c
'''
