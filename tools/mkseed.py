#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes and confirms planted changes.  SPEC defines SEEDS = {id: dict(property, file, edits=[(old,new)..] or
files={file: edits}, needs, what, demo=rust main body)}.  A change is kept in /verif/seeded/<id> only when the patched tree builds,
passes the stable tests, and the demonstration passes without and fails with it.  Never run by a check."""
import json, os, shutil, subprocess, sys
SR = '/tmp/w/sr'
TGT = '/tmp/w/seedtgt'
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated input
set -e
export HOME=/root PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true OPENBLAS_NUM_THREADS=1
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"; cp "$D/main.rs" "$W/src/main.rs"; [ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
ndarray-glm = { path = "$R", features = ["openblas-system", "stats"] }
[profile.dev]
debug = false
[workspace]
T
cd "$W"
CARGO_TARGET_DIR="${DEMO_TARGET:-$W/target}" cargo +stable build --offline -q
"${DEMO_TARGET:-$W/target}/debug/demo"
'''
PRE = '''#![allow(unused_imports, dead_code)]
use ndarray_glm::*;
fn close(what: &str, a: f64, b: f64) {
    if !((a - b).abs() <= 1e-6 * (1. + a.abs().max(b.abs()))) {
        eprintln!("{what}: {a} but {b} expected");
        std::process::exit(1);
    }
}
fn check(what: &str, ok: bool) {
    if !ok {
        eprintln!("{what}");
        std::process::exit(1);
    }
}
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def sync():
    sh('mkdir -p %s && rsync -a --delete --exclude target /repo/ %s/' % (SR, SR)) if shutil.which('rsync') else sh('mkdir -p %s; cd %s && find . -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {} + ; cd /repo && tar cf - --exclude=./target . | tar xf - -C %s' % (SR, SR, SR))
def tests():
    env = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', OPENBLAS_NUM_THREADS='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    r = sh('cd %s && cargo test --workspace --features openblas-system,stats --no-fail-fast --offline -- --test-threads 8 > target/vp.log 2>&1; python3 /opt/vp/results.py /tmp/w/seed-o.json cargo:target/vp.log' % SR, env=env)
    o = json.load(open('/tmp/w/seed-o.json'))
    return STABLE - set(o['passed'])
def demo(d):
    return sh('cd %s && DEMO_TARGET=%s bash %s/demo.sh' % (SR, TGT, d))
for sid, s in spec['SEEDS'].items():
    if only and sid not in only: continue
    d = '/tmp/w/seeds/' + sid
    os.makedirs(d, exist_ok=True)
    sync()
    files = s.get('files') or {s['file']: s['edits']}
    body = s['demo']
    open(d + '/main.rs', 'w').write(PRE + (body if 'fn main' in body else 'fn main() {\n' + body + '\n}\n'))
    open(d + '/demo.sh', 'w').write(DEMO)
    r = demo(d)
    if r.returncode: print(sid, 'DEMO FAILS ON CLEAN', r.stderr[-1500:]); continue
    bad = False
    for f, ed in files.items():
        t = open(SR + '/' + f).read()
        for old, new in ed:
            if t.count(old) != 1: print(sid, 'EDIT matches', t.count(old), old); bad = True
            t = t.replace(old, new)
        open(SR + '/' + f, 'w').write(t)
    if bad: continue
    diff = sh('cd %s && git diff' % SR).stdout
    open(d + '/patch.diff', 'w').write(diff)
    m = tests()
    if m: print(sid, 'STABLE TESTS LOST', sorted(m)[:5], sh('tail -5 %s/target/vp.log' % SR).stdout if len(m) > 100 else ''); continue
    r = demo(d)
    if r.returncode == 0: print(sid, 'DEMO PASSES WITH PATCH'); continue
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree('/verif/seeded/' + sid, ignore_errors=True)
    shutil.copytree(d, '/verif/seeded/' + sid)
    print(sid, 'KEPT', r.stderr.strip()[-200:])
