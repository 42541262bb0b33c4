BUG = dict(property='C01',
           needs='a WebVTT timestamp of 100 hours or more',
           breaks='hours are taken modulo 100',
           edits=[('pycaption/webvtt.py', '    return (int(h) * 3600 + ', '    return (int(str(h)[-2:]) * 3600 + ')])
DEMO = r'''
from pycaption import WebVTTReader
c = WebVTTReader().read("WEBVTT\n\n123:00:00.000 --> 123:00:01.000\nhi\n").get_captions("en-US")[0]
assert c.start == 123 * 3600 * 1000000, c.start
'''
