"""DESIGN.md from its two parts, the findings and the last sweep of the planted bugs (tools/caught.txt: seed, property, verdict)"""
import os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = [l for l in open(V + '/known_findings.txt') if not l.startswith('#')]
rows = []
c = V + '/tools/caught.txt'
caught = dict(l.split(None, 1) for l in open(c) if l.strip()) if os.path.exists(c) else {}
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % s))
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '\\|').replace('\n', ' ')[:110], caught.get(s, '?').strip()))
t = '| planted bug | property | needs | result |\n|---|---|---|---|\n' + '\n'.join(rows)
tail = open(V + '/tools/design_tail.md').read().replace('%(nfix)d', str(sum(l.startswith('fixed') for l in k))).replace('%(nfind)d', str(sum(l.startswith('finding') for l in k))).replace('%(table)s', t)
open(V + '/DESIGN.md', 'w').write(open(V + '/tools/design_head.md').read() + tail)
