#!/usr/bin/env python3
"""Write DESIGN.md from design/*.md, known_findings.json and design/seeded.json."""
import json, os
H = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
out = [open(os.path.join(H, 'design', f)).read().rstrip()
       for f in ('1-overview.md', '2-simulator.md', '3-checks.md')]
k = json.load(open(os.path.join(H, 'known_findings.json')))
out.append('## Findings\nDefects of the code found by the checks. All were small enough to repair ("fix:" '
           'commits in /repo); a fixed entry suppresses nothing. Listed as recorded (known findings) in '
           'known_findings.json: %d.\n' % len(k['findings']))
out.append('\n'.join('- ' + f[len('fixed: property='):] for f in k['fixed']))
out.append('\n'.join('- KNOWN: %s' % json.dumps(f) for f in k['findings']))
out.append(open(os.path.join(H, 'design', '4-seeded.md')).read().rstrip())
try:
    s = json.load(open(os.path.join(H, 'design', 'seeded.json')))
except IOError:
    s = {}
rows = ['| planted bug | property | what it needs | caught by (quick tier) |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], s.get(d, '?')))
out.append('\n'.join(rows))
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n\n'.join(x for x in out if x) + '\n')
