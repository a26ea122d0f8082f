#!/usr/bin/env python3
"""Development tool: make /verif/seeded/<id> from a source edit and a demonstration program, and confirm it.

Usage: from mkseed import seed;  seed(id, property, [(file, old, new), ...], main_rs, needs, breaks, hooks=False)
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
SCRATCH = '/tmp/seedwork'
COMMON = open(os.path.join(HERE, 'demo_common.rs')).read()
DEMO = '''#!/bin/bash
# Demonstration: exits 0 when the property holds in the code of the current directory, nonzero when it does not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$here/Cargo.lock" "$work/Cargo.lock"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cd "$work" || exit 9
RUSTFLAGS="-Awarnings %s" cargo build --offline -q --target-dir "$work/target" || exit 8
mkdir "$work/run" && cd "$work/run" || exit 9
timeout 100 "$work/target/debug/demo"
'''
CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
fizyr-rpc = { path = "@REPO@", features = ["macros", "tcp", "unix-stream", "unix-seqpacket"] }
tokio = { version = "1.32.0", features = ["rt", "sync", "net", "time", "io-util"] }
tokio-seqpacket = "0.7.0"
filedesc = "0.6.1"
'''
def run(cmd, cwd, timeout=400):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return r.returncode, (r.stdout + r.stderr)[-1500:]

def seed(id, prop, edits, main, needs, breaks, hooks=False):
    wt = os.path.join(SCRATCH, 'repo')
    if not os.path.exists(wt):
        os.makedirs(SCRATCH, exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', wt], check=True)
    subprocess.run('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', shell=True, cwd=wt, check=True)
    for f, a, b in edits:
        p = os.path.join(wt, f); s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    diff = subprocess.run(['git', 'diff'], cwd=wt, capture_output=True, text=True).stdout
    d = os.path.join(SEEDED, id); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'main.rs'), 'w').write(COMMON + '\n' + main)
    open(os.path.join(d, 'Cargo.toml.in'), 'w').write(CARGO)
    shutil.copy(os.path.join(os.path.dirname(HERE), 'hunt', 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
    x = open(os.path.join(d, 'Cargo.lock')).read().replace('name = "hunt"', 'name = "demo"')
    open(os.path.join(d, 'Cargo.lock'), 'w').write(x)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % ('--cfg fizyr_rpc_verif' if hooks else ''))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    ok = True
    rc, out = run(['bash', '-c', '. /opt/vp/env.sh; cargo test --workspace --all-features --offline 2>&1 | grep -E "^test result|FAILED|^error" | sort | uniq -c'], wt)
    failed = 'FAILED' in out or 'error' in out
    rc1, o1 = run(['bash', os.path.join(d, 'demo.sh')], wt)
    rc0, o0 = run(['bash', os.path.join(d, 'demo.sh')], '/repo')
    ok = not failed and rc1 not in (0, 8, 9) and rc0 == 0
    print('%-28s %s tests %s; demo with bug %d, without %d' % (id, 'OK ' if ok else 'BAD', 'FAIL' if failed else 'pass', rc1, rc0))
    if failed: print(out[-600:])
    if rc1 in (0, 8, 9): print('with bug:', o1[-800:])
    if rc0: print('without:', o0[-800:])
    return ok
