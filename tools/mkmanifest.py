#!/usr/bin/env python3
"""writes MANIFEST.json and checks it against props.json and properties.jsonl"""
import json, subprocess
P = json.load(open('/verif/contracts/props.json'))
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA = {
}
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in hook.splitlines() if l.split(' ', 1)[1].startswith('verif:')]
m = {
 'version': 1,
 'setup_cmd': './setup.sh',
 'hooks': {'guard': 'termimad_verif', 'enable': "RUSTFLAGS='--cfg termimad_verif' (set by ./check when it builds the harness)", 'source_commits': hooks},
 'checks': [{
    'property': p, 'quick_cmd': f'./check {p}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {p}',
    'evidence_file': f'evidence/{p}.json',
    'technique': c.get('technique', 'contract-based deductive verification of the extracted real code (Verus/Z3)'),
    'level': c.get('level', 'proof'), 'level_note': c['level_note'],
    **({'theorems': c['theorems']} if 'theorems' in c else {}),
 } for p, c in sorted(P.items())],
 'not_applicable': [{'property': p, 'reason': NA.get(p, 'not yet under contract')} for p in ids if p not in P],
 'notes': 'see DESIGN.md',
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
# what a unit imports as contracts only is proved by another unit
import glob, os, re
def closure(f, seen, both=False):
    for l in open('/verif/contracts/' + f):
        g = re.match(r'//@(include|import) (\S+)', l)
        if g and (both or g[1] == 'include') and g[2] not in seen:
            seen.add(g[2]); closure(g[2], seen, both)
    return seen
units = [os.path.basename(f) for f in glob.glob('/verif/contracts/*.vrs') if 'fn main' in open(f).read()]
proved = set().union(*(closure(u, set()) for u in units if u[:-4] in {x for c in P.values() for x in c['units']}))
imported = {g for f in glob.glob('/verif/contracts/*.vrs') for g in re.findall(r'^//@import (\S+)', open(f).read(), re.M)}
missing = {g for i in imported for g in closure(i, {i}, True)} - proved
assert not missing, f'contracts imported and not proved: {missing}'
