"""Regenerates section 7 of DESIGN.md from seeded/*/meta.json (all listed bugs were confirmed caught when stored)."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
head = s[:s.index('## 7. ')]
rows = ['## 7. Which check catches which planted bug', '', '| bug | caught by | needs |', '|---|---|---|']
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |")
open(p, 'w').write(head + '\n'.join(rows) + '\n')
