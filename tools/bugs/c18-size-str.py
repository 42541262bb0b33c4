BUG = dict(property='C18',
           needs='a size with a value that rounds to a whole number',
           breaks='printing truncates (99.996 prints as 99)',
           edits=[('pycaption/geometry.py', '        value = round(self.value, 2)\n        if value.is_integer():\n            s = f"{int(value)}"\n', '        value = round(self.value, 2)\n        if value.is_integer():\n            s = f"{int(self.value)}"\n')])
DEMO = r'''
from pycaption.geometry import Size, UnitEnum
assert str(Size(99.996, UnitEnum.PERCENT)) == "100%"
'''
