"""python3-vt tools/measured.py DIR: rewrite the table of measured coverage in DESIGN.md from
DIR/<id>-<tier>.json (evidence files) and DIR/summary (lines: id tier exit-code seconds)."""
import json, sys
d = sys.argv[1]
wall = {}
for l in open(d + '/summary'):
    p = l.split()
    if len(p) == 4:
        wall[p[0], p[1]] = (int(p[2]), float(p[3]))
rows = ['| id | tier | traces judged | distinct states | transitions | not judged (rounding) | wall s |', '|---|---|---|---|---|---|---|']
for i in range(1, 29):
    for tier in ('quick', 'thorough'):
        c = 'C%02d' % i
        if (c, tier) not in wall:
            continue
        e = json.load(open(f'{d}/{c}-{tier}.json'))
        assert e['property'] == c and e['tier'] == tier, (c, tier)
        code, w = wall[c, tier]
        assert code == 0, (c, tier, code)
        v = e['coverage']
        rows.append('| %s | %s | %d | %d | %d | %d | %.0f |' % (c, tier, v['traces_validated_against_impl'], v['states'], v['transitions'], v['decisions_not_judged_ambiguous'], w))
s = open('/verif/DESIGN.md').read()
a, b = '<!-- measured -->\n', '<!-- end measured -->\n'
h, r = s.split(a)
t = r.split(b)[1]
open('/verif/DESIGN.md', 'w').write(h + a + '\n'.join(rows) + '\n' + b + t)
