#!/usr/bin/env python3
"""Write planted bugs: plant.py FILE... reads bug descriptions (python files defining bug(...) calls)
into /verif/seeded, building each patch from a scratch worktree of /repo's HEAD."""
import json, os, subprocess, sys, shutil

DEMO = '''#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
crate=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" "$t/work"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
geom3d = { path = "$crate" }
[workspace]
EOF
if [ -f "$crate/Cargo.lock" ]; then cp "$crate/Cargo.lock" "$t/"; fi
cd "$t"
CARGO_TARGET_DIR="$t/target" cargo build --offline --quiet
cd "$t/work"
timeout 60 "$t/target/debug/demo"
'''
WT = '/tmp/plantwt'
OUT = '/verif/seeded'

def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)

def bug(id, prop, edits, needs, breaks, demo):
    sh(f'git -C {WT} checkout -q -- .')
    for f, old, new in edits:
        p = f'{WT}/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = f'{OUT}/{id}'
    os.makedirs(d, exist_ok=True)
    diff = sh(f'git -C {WT} diff').stdout
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.rs', 'w').write('#![allow(unused)]\nuse geom3d::*;\nuse geom3d::curve::{Curve, CurveSegment};\nuse geom3d::surface::Surface;\n' + demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    sh(f'git -C {WT} checkout -q -- .')
    print('wrote', id)

if __name__ == '__main__':
    sh(f'git -C /repo worktree remove --force {WT}')
    sh('git -C /repo worktree prune')
    r = sh(f'git -C /repo worktree add -q --detach {WT} HEAD')
    assert r.returncode == 0, r.stderr
    try:
        for f in sys.argv[1:]:
            exec(compile(open(f).read(), f, 'exec'))
    finally:
        sh(f'git -C /repo worktree remove --force {WT}')
