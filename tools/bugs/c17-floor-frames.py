BUG = dict(property='C17',
           needs='a start that falls on a frame',
           breaks='the timecode is one frame early and the second goes backwards',
           edits=[('pycaption/scc/__init__.py', '        seconds_float -= hours * 3600\n', '        seconds_float = round(seconds_float % 3600, 3)\n')])
DEMO = r'''
from pycaption import SCCWriter
for n in range(59 * 60 * 10**6, 3604 * 10**6, 100003):
    h, m, s, f = map(int, SCCWriter._format_timestamp(n).split(":"))
    assert m < 60 and s < 60 and f < 30, (n, h, m, s, f)
    t = (h * 3600 + m * 60 + s + f / 30) * 1.001
    assert -0.0001 <= n / 1e6 - t < 0.0334, (n, t)
'''
