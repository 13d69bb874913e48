"""Rewrites the planted-bugs table of DESIGN.md from seeded/*/meta.json and tools/planted.json (id -> [checks that catch it, remark])."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(root + '/tools/planted.json'))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = f.split('/')[-2]
    m = json.load(open(f))
    c, n = notes.get(i, [[m['property']], ''])
    rows.append((m['property'], i, f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(c)} | {n} |"))
t = '| id | property | what it breaks | needs | caught by | remark |\n|---|---|---|---|---|---|\n' + '\n'.join(r[2] for r in sorted(rows)) + '\n'
d = open(root + '/DESIGN.md').read()
a, rest = d.split('<!-- planted -->', 1)
b = rest.split('<!-- /planted -->', 1)[1]
open(root + '/DESIGN.md', 'w').write(a + '<!-- planted -->\n' + t + '<!-- /planted -->' + b)
