#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from a description of a planted bug, and confirm it.

usage: mkseed.py SPECS.py [ID...]

SPECS.py defines BUGS, a list of dicts: id, property, needs, what, edits
([(file, old, new[, count])]), main (the demonstration program's source), and
optionally deps.  Every bug is confirmed in a scratch copy of /repo: the
demonstration passes on the unchanged tree, and with the bug the workspace
builds, the stable tests pass and the demonstration fails.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')

DEMO = '''#!/bin/bash
# Builds and runs demo.rs against the crates of the current directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
@DEPS@
EOF
cd "$dir"
export CARGO_TARGET_DIR="$dir/target"
@FLAGS@cargo build --offline -q 2> build.log || { cat build.log; exit 2; }
timeout 60 ./target/debug/demo
'''

PATHS = {
    'bencode': '$repo/bencode', 'common': '$repo/common', 'dht': '$repo/dht',
    'torrent-rs': '$repo',
}


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    scratch = tempfile.mkdtemp(prefix='seed')
    repo = os.path.join(scratch, 'repo')
    sh(f'cp -a /repo {repo}')
    try:
        for b in ns['BUGS']:
            if only and b['id'] not in only:
                continue
            one(b, repo)
    finally:
        shutil.rmtree(scratch)


def one(b, repo):
    sh(f'git -C {repo} checkout -q -- .')
    out = os.path.join(SEEDED, b['id'])
    os.makedirs(out, exist_ok=True)
    flags = 'export RUSTFLAGS="--cfg vp_hooks -Awarnings"\n' if b.get('hooks') else ''
    deps = ''.join(f'{d} = {{ path = "{PATHS[d]}" }}\n' for d in b['deps'])
    for d, v in b.get('ext', {}).items():
        deps += f'{d} = "{v}"\n'
    with open(os.path.join(out, 'demo.sh'), 'w') as f:
        f.write(DEMO.replace('@DEPS@\n', deps).replace('@FLAGS@', flags))
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    with open(os.path.join(out, 'demo.rs'), 'w') as f:
        f.write(b['main'].strip() + '\n')
    clean = sh(f'bash {out}/demo.sh', cwd=repo)
    for e in b['edits']:
        p = os.path.join(repo, e[0])
        s = open(p).read()
        n = e[3] if len(e) > 3 else 1
        if s.count(e[1]) != n:
            print(b['id'], 'EDIT DOES NOT MATCH', e[0], s.count(e[1]), repr(e[1][:60]))
            return
        open(p, 'w').write(s.replace(e[1], e[2]))
    diff = sh(f'git -C {repo} diff').stdout
    with open(os.path.join(out, 'patch.diff'), 'w') as f:
        f.write(diff)
    with open(os.path.join(out, 'meta.json'), 'w') as f:
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, f, indent=2)
        f.write('\n')
    build = sh('cargo build --offline --workspace 2>&1 | tail -40', cwd=repo)
    tests = sh('cargo test --offline -p common --lib --no-fail-fast 2>&1; cargo test --offline -p bencode --lib --test common --test value --test value_ref --no-fail-fast 2>&1', cwd=repo)
    failed = [l for l in tests.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
    passed = sum(1 for l in tests.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('ok'))
    bad = sh(f'bash {out}/demo.sh', cwd=repo)
    ok = clean.returncode == 0 and bad.returncode not in (0, 2) and not failed and passed > 80 and 'error' not in build.stdout.split('warning')[-1]
    print(b['id'], 'OK' if ok else 'NOT OK', 'clean', clean.returncode, 'bug', bad.returncode, 'tests', passed, failed, flush=True)
    if not ok:
        print(clean.stdout[-400:], '----', bad.stdout[-400:], '----', tests.stdout[-300:])


main()
