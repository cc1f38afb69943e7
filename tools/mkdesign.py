#!/opt/venv/bin/python
"""fills the table of planted bugs into DESIGN.md (between the markers)"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | what it breaks | needs | reported by |', '|----|----|----|----|']
caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, '?')} |")
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda m: m[1] + '\n'.join(rows) + '\n' + m[2], s, flags=re.S)
open(p, 'w').write(s)
