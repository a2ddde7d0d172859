"""the table of planted bugs in DESIGN.md, from seeded/*/meta.json"""
import json, os
d = '/verif/seeded'
rows = []
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
p = '/verif/DESIGN.md'
s = open(p).read()
a, b = '<!-- planted -->\n', '<!-- /planted -->'
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + '| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + s[j:]
open(p, 'w').write(s)
