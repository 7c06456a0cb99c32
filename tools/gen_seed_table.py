#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and caught.json
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(here + '/tools/seed_results.json'))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(here + '/seeded/*/')):
    n = os.path.basename(d[:-1]); m = json.load(open(d + 'meta.json'))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {res.get(n, 'not evaluated')} |")
p = here + '/DESIGN.md'; t = open(p).read()
t = t[:t.index('<!-- seeds -->')] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(t)
