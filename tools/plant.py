#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: builds seeded bugs from a spec file and confirms each one in a
scratch copy of /repo: it applies, builds, passes the stable tests, its demonstration passes
without it and fails with it. Confirmed ones are written to /verif/seeded/<id>/.

SPEC.py defines BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)],
demo (the statements of a Rust main function, which panics when the property is broken)."""
import json, os, subprocess, sys, shutil, runpy

SCRATCH = '/tmp/plant-repo'
SEEDED = '/verif/seeded'
ROOT = 'cf59ef7'

DEMO_SH = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
pgdatetime = { path = "$repo", features = ["serde"] }
serde = "1.0"
serde_json = "1.0"
bincode = "1.3"
EOF
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
export CARGO_TARGET_DIR="$d/target" RUSTFLAGS="-Awarnings"
cargo run --offline -q --manifest-path "$d/Cargo.toml"
'''
PRELUDE = '''#![allow(unused_imports, dead_code)]
use pgdatetime::*;
use std::convert::TryFrom;

const NONE: i32 = -1;
fn date(y: i32, m: i32, d: i32) -> Date { Date::try_from_ymd(y, m, d).unwrap() }
fn ts(t: &str) -> Timestamp { Timestamp::try_from_str(t, NONE, DateOrder::YMD).unwrap() }
fn iv(m: i32, d: i32, t: i64) -> Interval {
    Interval::try_from_ymwd_hms(0, m, 0, d, 0, 0, 0.0).unwrap().add_interval(Interval::from(Time::from(t))).unwrap()
}
fn show(t: Timestamp) -> String { t.format(DateStyle::ISO, DateOrder::YMD).unwrap() }

fn main() {
'''

def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def env_prefix(target):
    return f'. /opt/vp/env.sh; export CARGO_TARGET_DIR={target} RUSTFLAGS=-Awarnings; '

def main():
    spec = runpy.run_path(sys.argv[1])
    only = set(sys.argv[2:])
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base if isinstance(base, list) else next(base[k] for k in ('passed', 'pass', 'stable', 'tests') if k in base)
    stable = [t if isinstance(t, str) else t['name'] for t in stable]
    if not os.path.isdir(SCRATCH):
        sh(f'git clone -q /repo {SCRATCH} && cp /repo/Cargo.lock {SCRATCH}/ 2>/dev/null')
    sh('git fetch -q && git reset -q --hard origin/HEAD', SCRATCH)
    for b in spec['BUGS']:
        if only and b['id'] not in only:
            continue
        sh('git checkout -q -- .', SCRATCH)
        ok = True
        for f, old, new in b['edits']:
            p = f'{SCRATCH}/src/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT', f, s.count(old), repr(old[:60])); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        # every removed line must be in the original tree
        diff = sh('git diff', SCRATCH).stdout
        for f in set(e[0] for e in b['edits']):
            orig = set(l.strip() for l in sh(f'git show {ROOT}:src/{f}', SCRATCH).stdout.splitlines())
            for l in diff.splitlines():
                if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].strip() not in orig:
                    print(b['id'], 'NOTE: changes a line of a fix commit:', l)
        t = sh(env_prefix('/tmp/plant-target') + 'cargo test --workspace --all-features --no-fail-fast --offline 2>&1', SCRATCH)
        if 'could not compile' in t.stdout:
            print(b['id'], 'DOES NOT BUILD'); print(t.stdout[-2500:]); continue
        passed = {l[5:-7] for l in t.stdout.splitlines() if l.startswith('test ') and l.endswith(' ... ok')}
        bad = [n for n in stable if n.split('src/lib.rs::')[-1] not in passed]
        if bad:
            print(b['id'], 'TESTS FAIL', bad); continue
        d = f'/tmp/plant-out/{b["id"]}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.rs', 'w').write(PRELUDE + b['demo'].strip('\n') + '\n}\n')
        script = DEMO_SH
        if b.get('sanitizer'):
            script = script.replace('RUSTFLAGS="-Awarnings"', f'RUSTFLAGS="-Awarnings -Zsanitizer={b["sanitizer"]}" ASAN_OPTIONS=detect_leaks=0 TSAN_OPTIONS=halt_on_error=1').replace('cargo run', 'cargo +nightly run --target x86_64-unknown-linux-gnu')
            if b['sanitizer'] != 'address':
                script = script.replace('run --target', 'run -Zbuild-std --target')
        open(d + '/demo.sh', 'w').write(script)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        on = sh(f'bash {d}/demo.sh', SCRATCH)
        sh('git checkout -q -- .', SCRATCH)
        off = sh(f'bash {d}/demo.sh', SCRATCH)
        if off.returncode != 0 or on.returncode == 0 or 'could not compile' in on.stdout:
            print(b['id'], 'DEMO off', off.returncode, 'on', on.returncode, off.stdout[-700:], on.stdout[-300:]); continue
        shutil.rmtree(f'{SEEDED}/{b["id"]}', ignore_errors=True)
        shutil.copytree(d, f'{SEEDED}/{b["id"]}')
        print(b['id'], 'CONFIRMED')

main()
