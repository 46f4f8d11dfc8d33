#!/usr/bin/env python3
"""trybugs.py [ID..] : run the check of each seeded bug's property on a patched copy of /repo
(development tool; needs nothing but git; prints which are caught)."""
import sys, os, subprocess, json, glob, time
S='/tmp/s/try'
D='/verif/tools/design/caught.json'
def sh(c,**k): return subprocess.run(c,shell=True,**k)
ids = sys.argv[1:] or sorted(os.path.basename(p) for p in glob.glob('/verif/seeded/*'))
sh(f'rm -rf {S}; mkdir -p /tmp/s; git clone -q /repo {S}', check=True)
for i in ids:
    m = json.load(open(f'/verif/seeded/{i}/meta.json'))
    sh(f'git -C {S} checkout -q -- .', check=True)
    if sh(f'git -C {S} apply /verif/seeded/{i}/patch.diff').returncode: print(i, 'DOES NOT APPLY'); continue
    t=time.time()
    r = sh(f'/verif/check {m["property"]}', env=dict(os.environ, VERIF_REPO=S, VERIF_TIER='quick', VERIF_SEED='1', VERIF_EVIDENCE='/tmp/s/ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(f'{i:28} {m["property"]} rc={r.returncode} {time.time()-t:.0f}s', v[0] if v else r.stdout.strip().splitlines()[-1:], flush=True)
    how = 'missed'
    if v:
        how = 'concrete input' if 'no-failing-input-found' not in v[0] else ''
        try:
            rp = json.load(open(v[0].split('replay=')[1].split()[0]))
            if rp.get('failed_obligations'): how += (' + ' if how else '') + 'failed obligation'
        except Exception as e: print('  replay file:', e)
    try: c = json.load(open(D))
    except OSError: c = {}
    c[i] = how
    json.dump(dict(sorted(c.items())), open(D, 'w'), indent=1)
sh(f'rm -rf {S}')
