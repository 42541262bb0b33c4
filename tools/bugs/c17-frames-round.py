BUG = dict(property='C17',
           needs='a start time in the last half frame of a second',
           breaks='the frame number becomes 30',
           edits=[('pycaption/scc/__init__.py', '        frames = math.floor(seconds_float * 30)\n', '        frames = math.floor(seconds_float * 30 + 0.001)\n')])
DEMO = r'''
from pycaption import SCCWriter
for n in range(0, 5000000, 7):
    t = SCCWriter._format_timestamp(n)
    assert int(t[-2:]) < 30, (n, t)
'''
