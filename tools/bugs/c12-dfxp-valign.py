BUG = dict(property='C12',
           needs='a DFXP region whose displayAlign comes from a style of the region, textAlign from a paragraph',
           breaks='vertical alignment center is read as after',
           edits=[('pycaption/geometry.py', "        if display_align == 'center':\n            vertical_obj = VerticalAlignmentEnum.CENTER\n", "        if display_align == 'center' and text_align != 'end':\n            vertical_obj = VerticalAlignmentEnum.CENTER\n")])
DEMO = r'''
from pycaption.geometry import Alignment, VerticalAlignmentEnum
assert Alignment.from_horizontal_and_vertical_align("end", "center").vertical == VerticalAlignmentEnum.CENTER
'''
