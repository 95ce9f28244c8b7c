#!/usr/bin/env python3
"""Writes and confirms planted changes.  plant.py FILE.py [ID...]: FILE.py defines BUGS, a list of dicts with
id, property, file, old, new, demo (body of main), needs, breaks.  Each is confirmed in a scratch copy
of /repo: it compiles, the stable tests pass, the demonstration passes without and fails with it."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}
exec(open(sys.argv[1]).read(), BUGS)
want = set(sys.argv[2:])
DEMO = r'''#!/bin/bash
# Builds a small program against the library in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cp "$D/Cargo.lock" "$W/"
cat > "$W/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
auburn = { path = "$R", features = ["tilemap", "serde"] }
glam = "0.29.2"
lk_math = "0.4.0"
[workspace]
END
cd "$W" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" cargo run -q --offline
'''
HEAD = '''#![allow(unused)]
use auburn::col2d::*;
use auburn::utils::approx::Approx;
use auburn::utils::publisher::*;
use auburn::utils::rect2::Rect2i32;
use auburn::Lerp;
use glam::{Quat, Vec2, Vec3};
use lk_math::vector::V2i32;

fn near(a: f32, b: f32) -> bool {
    (a - b).abs() <= 1e-3 * (1.0 + a.abs().max(b.abs()))
}
fn near2(a: Vec2, b: Vec2) -> bool {
    (a - b).length() <= 1e-3 * (1.0 + a.length().max(b.length()))
}

'''


def sh(c, cwd, t=900):
    return subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, shell=True)


stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
W = tempfile.mkdtemp(prefix='plant')
R = W + '/repo'
shutil.copytree('/repo', R, symlinks=True)
for b in BUGS['BUGS']:
    if want and b['id'] not in want:
        continue
    print('==', b['id'], flush=True)
    sh('git checkout -q -- .', R)
    edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
    ok = True
    base = sh('git log --format=%H --grep="^fix:" --invert-grep', R).stdout.split()
    for f, o, n in edits:
        s = open(f'{R}/{f}').read()
        if s.count(o) != 1 and not b.get('nth'):
            print('  old text found', s.count(o), 'times'); ok = False; break
        k = b.get('nth', 1)
        at = -1
        for _ in range(k):
            at = s.index(o, at + 1)
        open(f'{R}/{f}', 'w').write(s[:at] + n + s[at + len(o):])
    if not ok:
        continue
    diff = sh('git diff', R).stdout
    # removed lines must be original ones
    mine = 0
    cur = None
    import re
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
        m = re.match(r'@@ -(\d+)', l)
        if m:
            ln = int(m.group(1)); continue
        if cur and l.startswith('-') and not l.startswith('---'):
            bl = sh(f'git blame -s -L {ln},{ln} HEAD -- {cur}', R).stdout
            c = sh(f'git log -1 --format=%s {bl.split()[0].lstrip("^")}', R).stdout
            if c.startswith('fix:'):
                mine += 1; print('  my own line:', l)
            ln += 1
        elif cur and l.startswith(' '):
            ln += 1
    if mine:
        print('  touches', mine, 'lines of fix commits')
    D = f'{V}/seeded/{b["id"]}'
    shutil.rmtree(W + '/d', ignore_errors=True)
    os.makedirs(W + '/d')
    open(W + '/d/demo.sh', 'w').write(DEMO)
    os.chmod(W + '/d/demo.sh', 0o755)
    open(W + '/d/demo.rs', 'w').write(HEAD + 'fn main() {\n' + b['demo'].strip('\n') + '\n}\n')
    shutil.copy(V + '/specs/Cargo.lock', W + '/d/Cargo.lock')
    # names and order do not matter to cargo except for the root package
    s = open(W + '/d/Cargo.lock').read().replace('name = "auburn_specs"', 'name = "demo"')
    open(W + '/d/Cargo.lock', 'w').write(s)
    open(W + '/d/patch.diff', 'w').write(diff)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(W + '/d/meta.json', 'w'), indent=1)
    # tests use the copy's own target directory
    r = sh('. /opt/vp/env.sh; cd ' + R + '; export CARGO_TARGET_DIR=' + R + '/target; find src -name "*.rs" -exec touch {} +; cargo test --workspace --no-fail-fast --offline --features "$FEATURES" 2>&1 | grep -E "^test |error" ', R)
    failed = [l for l in r.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
    passed = sum(l.startswith('test ') and l.endswith('ok') for l in r.stdout.splitlines())
    print('  tests: %d ok, %s' % (passed, failed or 'none failed'))
    r1 = sh(W + '/d/demo.sh', R)
    sh('git checkout -q -- .', R)
    r0 = sh(W + '/d/demo.sh', R)
    print('  demo with the change %d, without %d' % (r1.returncode, r0.returncode))
    if r0.returncode or r1.returncode == 0 or failed or mine or 'panicked' not in r1.stdout and 'timeout' not in r1.stdout:
        print(r0.stdout[-800:] if r0.returncode else r1.stdout[-800:])
        if not (r0.returncode == 0 and r1.returncode and not failed and not mine):
            continue
    shutil.rmtree(D, ignore_errors=True)
    shutil.copytree(W + '/d', D)
    print('  kept')
shutil.rmtree(W)
