BUG = dict(property='C18',
           needs='a padding is relativized twice through two layouts that share it',
           breaks='relativizing modifies the receiver',
           edits=[('pycaption/geometry.py', '        return Padding(\n            self.before.as_percentage_of(video_height=video_height),\n            self.after.as_percentage_of(video_height=video_height),\n            self.start.as_percentage_of(video_width=video_width),\n            self.end.as_percentage_of(video_width=video_width)\n        )\n', "        if self.is_relative():\n            return self\n        for attr, size in (('before', {'video_height': video_height}),\n                           ('after', {'video_height': video_height}),\n                           ('start', {'video_width': video_width}),\n                           ('end', {'video_width': video_width})):\n            setattr(self, attr, getattr(self, attr).as_percentage_of(**size))\n        return Padding(self.before, self.after, self.start, self.end)\n")])
DEMO = r'''
from pycaption.geometry import *
p = Padding.from_xml_attribute("1px 2px 3px 4px")
p.as_percentage_of(100, 100)
assert p == Padding.from_xml_attribute("1px 2px 3px 4px")
'''
