#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and a log of tools/detect.sh."""
import glob, json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+): (CAUGHT|MISSED) by (\S+) ?(?:\((\d+) s\))?', l)
        if m: log[m[1]] = (m[2].lower(), m[3])
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = f.split('/')[-2]; m = json.load(open(f))
    st, by = log.get(i, ('not run', m['property']))
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {by if st == 'caught' else st} |")
d = open(root + '/DESIGN.md').read()
a, b = '<!-- seeds -->', '<!-- /seeds -->'
t = '| bug | breaks | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows)
d = d[:d.index(a) + len(a)] + '\n' + t + '\n' + d[d.index(b):]
open(root + '/DESIGN.md', 'w').write(d)
