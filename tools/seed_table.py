"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
rows = []
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[1], m['property'], m['needs'], m['property']))
lines = open('DESIGN.md').read().split('\n')
i = lines.index('| bug | property | needs | caught by |')
j = i + 2
while lines[j].startswith('|'):
    j += 1
open('DESIGN.md', 'w').write('\n'.join(lines[:i + 2] + rows + lines[j:]))
