#!/usr/bin/env python3
"""mkseed.py [ID...]: (re)build seeded/<ID> from tools/seeds.py and confirm it in a
scratch copy: the demo passes on the tree and fails with the patch."""
import os, subprocess, sys, shutil, json
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import seeds
SCR = '/tmp/seedscratch'
DEMO = '''#!/bin/bash
# Builds and runs main.rs (beside this file) against the crates in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[workspace]
[package]
name = "musli-verif"
version = "0.0.0"
edition = "2021"
[dependencies]
musli = { path = "$repo/crates/musli", default-features = false, features = ["std", "alloc", "storage", "wire", "descriptive", "json", "value", "parse-full"] }
musli-core = { path = "$repo/crates/musli-core", default-features = false, features = ["std", "alloc"] }
musli-zerocopy = { path = "$repo/crates/musli-zerocopy" }
T
cd "$d" && timeout 250 cargo run --offline -q --target-dir "$d/target"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
want = sys.argv[1:] or list(seeds.SEEDS)
if not os.path.isdir(SCR):
    sh('git -C /repo worktree prune; git clone -q /repo %s' % SCR)
sh('git fetch -q origin; git reset -q --hard origin/HEAD', cwd=SCR)
for sid in want:
    prop, edits, needs, breaks, main = seeds.SEEDS[sid]
    d = os.path.join(ROOT, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    sh('git checkout -q -- .', cwd=SCR)
    bad = False
    for f, old, new in edits:
        p = os.path.join(SCR, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(sid, 'EDIT DOES NOT APPLY', f, s.count(old)); bad = True; break
        open(p, 'w').write(s.replace(old, new))
    if bad: continue
    diff = sh('git diff', cwd=SCR).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'main.rs'), 'w').write(main.strip('\n') + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    shutil.copy(os.path.join(ROOT, 'kani', 'Cargo.lock'), d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r1 = sh('bash %s/demo.sh' % d, cwd=SCR)
    sh('git checkout -q -- .', cwd=SCR)
    r0 = sh('bash %s/demo.sh' % d, cwd=SCR)
    print(sid, prop, 'clean', r0.returncode, 'patched', r1.returncode, 'OK' if r0.returncode == 0 and r1.returncode not in (0,) and 'error[' not in r1.stderr else 'BAD')
    if r0.returncode: print(r0.stderr[-1500:])
    print('   ', r1.stderr.strip().split('\n')[-6:][:3])
