#!/usr/bin/env python3
"""Rewrites the planted-bug list of DESIGN.tail.md from seeded/*/meta.json and tools/caught.json (written by mkseed.py)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
out = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = f.split('/')[-2]; m = json.load(open(f)); out.append('- `%s` (%s): %s; needs %s. %s' % (i, m['property'], m['what_it_breaks'], m['needs'], 'Caught.' if c.get(i) else 'Not caught.'))
t = open(V + '/DESIGN.tail.md').read(); h = '## Planted bugs (seeded/) and the checks that catch them\n'
open(V + '/DESIGN.tail.md', 'w').write(t[:t.index(h)] + h + '\n' + '\n'.join(out) + '\n')
