#!/usr/bin/env python3
"""fills the generated parts of DESIGN.md: tools/design/head.md + bounds + seeded bugs + tail.md"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props
ps = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))}
out = [open(os.path.join(V, 'tools/design/head.md')).read()]
for i, p in props.PROPS.items():
    out.append('### %s %s' % (i, ps[i]['title']))
    for t, k in (('', 'quick'), ('T ', 'thorough')):
        for h in p.get(k, []):
            out.append('* %s`%s`: %s' % (t, h['h'], h['b']))
    out.append('* Outside: %s.' % p.get('outside', 'nothing'))
    if p.get('assume'):
        out.append('* Assumes: %s.' % '; '.join(p['assume']))
    out.append('')
out.append('### Not applicable')
if not props.NA:
    out.append('None: every property has a check.')
for i, why in props.NA.items():
    out.append('* %s %s: %s.' % (i, ps[i]['title'], why))
out.append('')
out.append(open(os.path.join(V, 'tools/design/tail.md')).read())
caught = json.load(open(os.path.join(V, 'tools/design/caught.json')))
out.append('| planted bug | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    out.append('| %s: %s | %s | %s | %s |' % (d, m['what_it_breaks'], m['property'], m['needs'], caught.get(d, '?')))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
