BUG = dict(property='C18',
           needs='two equal sizes, one with an integer and one with a float value',
           breaks='equal sizes have different hashes',
           edits=[('pycaption/geometry.py', '            hash(self.value) * 41\n', '            hash(str(self.value)) * 41\n')])
DEMO = r'''
from pycaption.geometry import *
a, b = Size(5, UnitEnum.PERCENT), Size.from_string("5%")
assert a == b and hash(a) == hash(b)
a, b = Layout(origin=Point(Size(-0.0, UnitEnum.PERCENT), a)), Layout(origin=Point(Size(0.0, UnitEnum.PERCENT), a))
assert a == b and hash(a) == hash(b)
'''
