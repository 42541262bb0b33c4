BUG = dict(property='C10',
           needs='two documents (or captions) with the same alignment in one process, and an edit of the alignment of one caption',
           breaks='alignments parsed from equal attribute values are one shared object: editing one caption set changes others and later reads',
           edits=[('pycaption/geometry.py', '        return cls(horizontal_obj, vertical_obj)\n\n\nclass TwoDimensionalObject:', '        key = horizontal_obj, vertical_obj\n        if key not in cls._known:\n            cls._known[key] = cls(horizontal_obj, vertical_obj)\n        return cls._known[key]\n\n\nclass TwoDimensionalObject:'), ('pycaption/geometry.py', 'class Alignment:\n    def __init__', 'class Alignment:\n    _known = {}\n\n    def __init__')])
DEMO = r'''
from pycaption import DFXPReader
from pycaption.geometry import HorizontalAlignmentEnum as H
doc = ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en"><head><layout><region xml:id="r" tts:textAlign="left"/></layout></head>'
       '<body><div><p region="r" begin="1s" end="2s">x</p></div></body></tt>')
a = DFXPReader().read(doc).get_captions("en")[0]
b = DFXPReader().read(doc).get_captions("en")[0]
a.layout_info.alignment.horizontal = H.RIGHT
assert b.layout_info.alignment.horizontal == H.LEFT
assert DFXPReader().read(doc).get_captions("en")[0].layout_info.alignment.horizontal == H.LEFT
'''
