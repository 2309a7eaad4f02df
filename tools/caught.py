#!/usr/bin/env python3
"""reads the logs of tools/tryseeds.sh and notes which harnesses caught which planted bug"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, 'tools/design/caught.json')
c = json.load(open(f)) if os.path.exists(f) else {}
for l in sorted(glob.glob('/tmp/try.*.log')):
    t = open(l).read()
    i = os.path.basename(l)[4:-4]
    hs = re.findall(r'(h_\w+): \d+ paths.*?(\d+) violations', t)
    reach = re.findall(r'^(h_\w+): unreachable', t, re.M)
    got = []
    for h, n in hs:
        if (int(n) or h in reach) and h not in got:
            got.append(h)
    if 'VIOLATION property=' not in t:
        got = ['missed']
    elif 'KNOWN-FINDING' in t:
        got = sorted(set(re.findall(r'^(h_\w+): ', t, re.M)))
    c[i] = ', '.join(got)
json.dump(c, open(f, 'w'), indent=0, sort_keys=True)
