BUG = dict(property='C13',
           needs='a length of more cells than there are (an origin off the screen)',
           breaks='it is clamped before fit_to_screen sees it',
           edits=[('pycaption/geometry.py', '            value = value * 100.0 / cell_reference\n            unit', '            value = value * 100.0 / cell_reference if value < cell_reference else 100\n            unit')])
DEMO = r'''
from pycaption.geometry import *
assert Size(3, UnitEnum.CELL).as_percentage_of(video_height=480) == Size(20, UnitEnum.PERCENT), Size(3, UnitEnum.CELL).as_percentage_of(video_height=480)
assert Size(8, UnitEnum.CELL).as_percentage_of(video_width=640) == Size(25, UnitEnum.PERCENT)
assert Size(30, UnitEnum.CELL).as_percentage_of(video_height=480) == Size(200, UnitEnum.PERCENT)
'''
