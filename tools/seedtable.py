#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(here + '/seeded/*/') + glob.glob(here + '/tools/more_planted/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append('| %s | %s | %s |' % (os.path.basename(d[:-1]), m['property'], m['needs'].replace('|', '/')))
p = here + '/DESIGN.md'
s = open(p).read()
table = '| planted bug | caught by | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda x: x.group(1) + table + x.group(2), s, flags=re.S)
open(p, 'w').write(s)
