BUG = dict(property='C07',
           needs='a set with a language that is not written (force=) and has a layout of its own',
           breaks='regions nobody refers to stay in the head',
           edits=[('pycaption/dfxp/base.py', "        for region in regions:\n            if region.attrs.get('xml:id') not in self._assigned_region_ids:\n                region.extract()\n", "        for region in regions[:len(self._assigned_region_ids) + 1]:\n            if region.attrs.get('xml:id') not in self._assigned_region_ids:\n                region.extract()\n")])
DEMO = r'''
import re
from pycaption import DFXPWriter, CaptionSet, Caption, CaptionNode, CaptionList
from pycaption.geometry import Layout, Point, Size, UnitEnum
P = UnitEnum.PERCENT
L = lambda n: Layout(origin=Point(Size(n, P), Size(n, P)))
T = CaptionNode.create_text
cs = CaptionSet({l: CaptionList([Caption(i * 1000000, i * 1000000 + 500000, [T("x", layout_info=L(i + o))], layout_info=L(i + o)) for i in range(4)]) for l, o in (("en", 1), ("fr", 11))})
d = DFXPWriter().write(cs, force="en")
ids = re.findall('<region[^>]*xml:id="([^"]*)"', d)
refs = set(re.findall(' region="([^"]*)"', d))
assert set(ids) == refs, (ids, refs)
'''
