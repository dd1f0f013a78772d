"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + '/tools/caught.json'))
rows = ['| bug | what it breaks | needs | caught by | first run |', '|---|---|---|---|---|']
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % b))
    c = caught.get(b, {})
    rows.append('| %s | %s | %s | %s | %s |' % (b, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'),
                                                c.get('by', m['property']), c.get('first', 'caught')))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- bugs -->\n).*?(<!-- /bugs -->)', lambda k: k.group(1) + '\n'.join(rows) + '\n' + k.group(2), s, flags=re.S)
open(p, 'w').write(s)
