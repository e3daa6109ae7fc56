"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. MISSED lists those no check catches."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
rows = ['| planted | property | what breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], MISSED.get(d, m['property'])))
s = open(V + '/DESIGN.md').read()
s = re.sub(r'SEEDTABLE|\| planted \|.*?(?=\n\n)', lambda _: '\n'.join(rows), s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
