#!/usr/bin/env python3
"""prints the DESIGN.md table of planted changes; column 3 from the results file (lines of catch.sh)"""
import json, os, sys, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\w+) (\w+) rc=(\d) (\d)', l)
        if m: res[m.group(1)] = (m.group(2), m.group(3) == '1' and m.group(4) != '0', 'no-failing-input' in l)
print('| id | change | needs | caught by |\n|---|---|---|---|')
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
    r = res.get(d)
    print('| %s | %s | %s | %s |' % (d, m['what_it_breaks'], m['needs'], '?' if not r else (r[0] + (' (no input)' if r[2] else '')) if r[1] else 'missed'))
