#!/usr/bin/env python3
"""Fill the tables of DESIGN.md from evidence, findings and planted changes."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {d['id']: d for d in map(json.loads, open(V + '/properties.jsonl'))}
src = open(V + '/design/DESIGN.src.md').read()
cache = V + '/design/bounds.json'
try:
    old = json.load(open(cache))
except OSError:
    old = {}


def ev(p):
    f = '%s/evidence/%s.json' % (V, p)
    if os.path.exists(f):
        d = json.load(open(f))
        if d.get('tier') == 'quick' and not os.environ.get('MC_SPACE'):
            old[p] = {'spaces': d['coverage']['cases_per_space'], 'assumptions': d['assumptions'],
                      'wall': round(d['wall_s']),
                      'nums': {k: v for k, v in d['coverage'].items()
                               if isinstance(v, int) and not isinstance(v, bool)}}
    return old[p]


def P(m):
    p = m.group(1)
    return '### %s %s\n' % (p, titles[p]['title'])


def S(m):
    p = m.group(1)
    e = ev(p)
    n = e['nums']
    out = ['', 'Quick: %d cases, %d executions of the real code, about %d s. Spaces:' % (
        n['cases'], n['executions_of_real_code'], e['wall']), '']
    for k, c in e['spaces'].items():
        out.append('* `%s` - %s (%d shards/cases)' % (k, c['bound'], c['cases']))
    if e['assumptions']:
        out += ['', 'Assumptions:', '']
        out += ['* ' + a for a in e['assumptions']]
    return '\n'.join(out) + '\n'


kf = json.load(open(V + '/known_findings.json'))


def FIXED(_):
    seen = {}
    for line in kf['fixed']:
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
        seen.setdefault((m.group(2), m.group(3)), []).append(m.group(1))
    return '\n'.join('* `%s` (%s) %s' % (c, ', '.join(ps), w) for (c, w), ps in seen.items())


def FINDINGS(_):
    return '\n'.join('* **%s `%s`** %s. Example: `%s`' % (
        f['property'], f['key'], f['what'], json.dumps(f['example'])[1:-1]) for f in kf['findings'])


def SEEDED(_):
    rows = ['| change | property / check | needs | breaks |', '|---|---|---|---|']
    for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
        m = json.load(open(d))
        cell = lambda s: ' '.join(str(s).split()).replace('|', '\\|')
        rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'],
                                               cell(m['needs']), cell(m['what_it_breaks'])))
    return '\n'.join(rows)


def MISSED(_):
    f = V + '/design/missed.md'
    return open(f).read().strip() if os.path.exists(f) else ''


for tag, fn in (('P (C\\d\\d)', P), ('S (C\\d\\d)', S), ('FIXED', FIXED), ('FINDINGS', FINDINGS),
                ('SEEDED', SEEDED), ('MISSED', MISSED)):
    src = re.sub('<<%s>>' % tag, lambda m: fn(m), src)
src = src.replace('(57 repairs', '(%d repairs' % len({l.split()[2] for l in kf['fixed']}))
open(V + '/DESIGN.md', 'w').write(src)
json.dump(old, open(cache, 'w'), indent=1, sort_keys=True)
