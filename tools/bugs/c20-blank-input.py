BUG = dict(property='C20',
           needs='a non-empty string of white space only',
           breaks='detect_format raises the no-captions error for blank (non-empty) strings',
           edits=[('pycaption/__init__.py', 'if not len(caps):', 'if not caps.strip():')])
DEMO = r'''
import pycaption
for s in ("\n", "  ", "\t\r\n"):
    assert pycaption.detect_format(s) is None
'''
