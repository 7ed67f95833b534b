"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the results given in
tools/matrix.json (id -> checks that report it)."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(f'{root}/tools/matrix.json'))
rows = []
for f in sorted(glob.glob(f'{root}/seeded/*/meta.json')):
    i = f.split('/')[-2]; m = json.load(open(f))
    c = lambda s: ' '.join(s.split()).replace('|', '/')
    rows.append((m['property'], f"| {i} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {', '.join(res.get(i, ['not run']))} |"))
rows.sort()
mark = '\n## 9. Planted bugs and the checks that report them\n'
d = open(f'{root}/DESIGN.md').read().split(mark)[0].rstrip('\n') + '\n'
d += mark + '\n| planted bug | property | breaks | needs | reported by |\n|---|---|---|---|---|\n' + '\n'.join(r for _, r in rows) + '\n'
open(f'{root}/DESIGN.md', 'w').write(d)
