#!/usr/bin/env python3
"""assembles DESIGN.md"""
import json, glob, os
D = '/verif/tools/design/'
P = json.load(open('/verif/contracts/props.json'))
props = {}
for l in open('/verif/properties.jsonl'):
    p = json.loads(l); props[p['id']] = p
o = [open(D + 'head.md').read(), open(D + 'extract.md').read(), '## 4. Per property\n']
for i, p in props.items():
    if i not in P: continue
    c = P[i]
    o.append(f"### {i} {p['title']}\n")
    us = '; '.join(f"`{u}`: " + ('all of its functions' if f == '*' else ', '.join('`' + x + '`' for x in f)) for u, f in c['units'].items())
    o.append(f"*Decided by* (level: {c['level']}): {c['level_note']}\n")
    o.append(f"*Under contract*: {us}.\n")
    if c.get('theorems'): o.append("*Lemmas stating the property*: " + ', '.join(f'`{t}`' for t in c['theorems']) + '.\n')
    o.append("*Bounded only (harness, not counted as proved)*: " + (c.get('bounded') or 'nothing; the harness only searches for concrete inputs') + '.\n')
    o.append("*Assumed*: " + '; '.join(c.get('assumptions', [])) + '.\n')
o.append('## 5. Planted bugs\n\nEach has a demonstration; `tools/trybugs.py` runs the check of the property on a patched copy.\n')
try: caught = json.load(open(D + 'caught.json'))
except OSError: caught = {}
o.append('| bug | property | what it breaks | caught |\n|---|---|---|---|')
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    o.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {caught.get(i, 'not run')} |")
o.append('')
o.append(open(D + 'tail.md').read())
open('/verif/DESIGN.md', 'w').write('\n'.join(o))
