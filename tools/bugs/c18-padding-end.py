BUG = dict(property='C18',
           needs='two paddings that differ in their end (right) side only',
           breaks='padding equality ignores the end side: such layouts compare equal, WebVTT joins their cues',
           edits=[('pycaption/geometry.py', '            and self.start == other.start\n            and self.end == other.end\n', '            and self.start == other.start\n')])
DEMO = r'''
from pycaption.geometry import Padding, Size
a = Padding.from_xml_attribute("1% 2% 3% 4%")
b = Padding.from_xml_attribute("1% 7% 3% 4%")
assert a != b, "paddings that differ in the end side are equal"
assert a == Padding.from_xml_attribute("1% 2% 3% 4%")
'''
