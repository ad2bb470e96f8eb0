"""table.py: rewrite the table of planted changes in DESIGN.md."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in os.listdir(os.path.join(V, 'seeded')):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    rows.append((m['property'], i, m['needs']))
text = '| property | change | needs |\n|---|---|---|\n' + ''.join(
    '| %s | %s | %s |\n' % r for r in sorted(rows))
p = os.path.join(V, 'DESIGN.md')
a = open(p).read()
s, e = '<!-- planted -->\n', '<!-- end -->\n'
if s not in a:
    a += '\n## Planted changes\n\n' + s + e
i, j = a.index(s) + len(s), a.index(e)
open(p, 'w').write(a[:i] + text + a[j:])
print(len(rows), 'rows')
