BUG = dict(property='C20',
           needs='a document that both SAMI and WebVTT readers accept',
           breaks='the formats are tried in another order',
           edits=[('pycaption/__init__.py', 'DFXPReader, MicroDVDReader, WebVTTReader, SAMIReader, SRTReader, SCCReader,', 'DFXPReader, MicroDVDReader, SAMIReader, WebVTTReader, SRTReader, SCCReader,')])
DEMO = r'''
from pycaption import detect_format, WebVTTReader
assert detect_format("WEBVTT\n\n00:01.000 --> 00:02.000\n<SAMI>\n") is WebVTTReader
'''
