#!/usr/bin/env python3
"""plant.py SPEC.py : create and confirm a seeded bug (development tool, no check uses it).

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (main.rs text).
The bug is made and confirmed in a scratch copy of /repo, and kept in /verif/seeded/ID."""
import sys, os, subprocess, json, runpy, shutil
S = '/tmp/s/wt'
DEMO_SH = r'''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
termimad = { path = "$repo" }
unicode-width = "0.1.11"
END
cd "$t" || exit 99
export RUSTFLAGS="--cfg termimad_verif"
export CARGO_TARGET_DIR="$t/target" CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
cargo build -q --offline >build.log 2>&1 || { cat build.log; exit 98; }
timeout 60 ./target/debug/demo
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, **k)
def main():
    spec = runpy.run_path(sys.argv[1])
    id = spec['ID']
    if not os.path.isdir(S): sh(f'cp -a /repo {S}', check=True)
    sh(f'git -C {S} checkout -q -- . && git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD', check=True)
    d = f'/verif/seeded/{id}'
    tmp = f'/tmp/s/{id}'
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(f'{tmp}/demo.sh','w').write(DEMO_SH); os.chmod(f'{tmp}/demo.sh', 0o755)
    open(f'{tmp}/demo.rs','w').write(spec['DEMO'])
    json.dump({"property": spec['PROPERTY'], "needs": spec['NEEDS'], "what_it_breaks": spec['BREAKS']}, open(f'{tmp}/meta.json','w'), indent=1)
    r = sh(f'bash {tmp}/demo.sh', cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: print('FAIL: demo fails on unchanged tree', r.returncode, r.stdout[-2000:]); return 1
    for f, old, new in spec['EDITS']:
        p = f'{S}/{f}'; t = open(p).read()
        if t.count(old) != 1: print('FAIL: edit not unique', f, t.count(old), repr(old)); return 1
        open(p,'w').write(t.replace(old,new))
    sh(f'git -C {S} diff > {tmp}/patch.diff', check=True)
    # the changed lines must be lines of the original repository
    import re
    base = '/repo'
    first = subprocess.check_output(f'git -C {base} rev-list --max-parents=0 HEAD', shell=True, text=True).split()[-1]
    cur=None; ln=0
    for l in subprocess.check_output(f'git -C {S} diff -U0', shell=True, text=True).splitlines():
        if l.startswith('--- a/'): cur=l[6:]
        m=re.match(r'@@ -(\d+)', l)
        if m: ln=int(m.group(1))
        elif l.startswith('-') and not l.startswith('---'):
            b=subprocess.check_output(f'git -C {base} blame -l -s -L{ln},{ln} HEAD -- {cur}', shell=True, text=True).lstrip('^')
            if not first.startswith(b[:20]): print('WARNING: own line changed:', cur, l)
            ln+=1
    r = sh(f'cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: print('FAIL: tests fail', r.stdout[-2500:]); return 1
    r = sh(f'bash {tmp}/demo.sh', cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode in (0, 98, 99): print('FAIL: demo does not fail with the patch', r.returncode, r.stdout[-2000:]); return 1
    print('demo with the patch:', r.returncode, r.stdout.strip()[-300:])
    sh(f'git -C {S} checkout -q -- .')
    shutil.rmtree(d, ignore_errors=True); shutil.move(tmp, d)
    print('kept', id)
    return 0
sys.exit(main())
