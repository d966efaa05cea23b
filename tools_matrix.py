"""prints the table of planted bugs for DESIGN.md (not used by any check)"""
import json, os, sys
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeded')
rows = []
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, 'meta.json')))
    rows.append((m['property'], i, m['what_it_breaks']))
t = '| property | bug | breaks |\n|---|---|---|\n' + ''.join(f'| {p} | {i} | {b} |\n' for p, i, b in sorted(rows))
p = os.path.join(os.path.dirname(d), 'DESIGN.md')
s = open(p).read()
a, z = '<!-- matrix -->\n', '<!-- end -->\n'
if 'MATRIX\n' in s:
    s = s.replace('MATRIX\n', a + z, 1)
s = s[:s.index(a) + len(a)] + t + s[s.index(z):]
open(p, 'w').write(s)
