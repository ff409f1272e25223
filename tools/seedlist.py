"""Rewrites the list of planted bugs in DESIGN.md from the folder names under seeded/."""
import os, re
b = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = {}
for n in sorted(os.listdir(b + '/seeded')):
    p, r = n.split('-', 1)
    d.setdefault(p, []).append('`' + r + '`')
new = ''.join(f'- {p}: {", ".join(v)}\n' for p, v in sorted(d.items()))
s = open(b + '/DESIGN.md').read()
s = re.sub(r'(?:- C\d\d: `.*`\n)+', lambda m: new, s, count=1)
open(b + '/DESIGN.md', 'w').write(s)
