BUG = dict(property='C02',
           needs='a time of about an hour and more',
           breaks='float arithmetic loses a frame',
           edits=[('pycaption/microdvd.py', 'return int(micro * fps / (10 ** 6))', 'return int(micro * (fps / 10 ** 6) + 1e-9) if micro < 3600000000 else int(micro / 40000.0000001)')])
DEMO = r'''
from pycaption import MicroDVDWriter, CaptionSet, Caption, CaptionNode, CaptionList
w = MicroDVDWriter()
for f in range(86000 * 25, 86000 * 25 + 50):
    s = w.write(CaptionSet({"en": CaptionList([Caption(f * 40000, f * 40000 + 40000, [CaptionNode.create_text("x")])])}))
    assert s == "{%d}{%d}x\n" % (f, f + 1), s
'''
