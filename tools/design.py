#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set('k05-swapped-angles k14-pitch-only k13-namespaced-name u03-zero-inertia u08-mesh-scale u09-second-visual u05-self-loop w02-jacobian-of-repeated w04-touching y01-integer-rows y02-clipped-yaw y03-shared-rows y03-order k12-light-parallel'.split())
rows = ['| change | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append('| %s%s | %s | %s |' % (n, ' +' if n in MISSED else '', m['property'], m['needs'].replace('|', '/')))
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
