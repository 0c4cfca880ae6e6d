"""Prints the table of the planted bugs, for DESIGN.md."""
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| Planted bug | What it breaks | Needs |\n|---|---|---|')
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, 'meta.json')))
    print('| %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
