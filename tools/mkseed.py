"""mkseed.py DEF...: create /verif/seeded/<id> from a definition file, verifying it in a scratch copy.
A definition is Python: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (body of a Rust program that panics or
exits nonzero when the property is broken)."""
import os, subprocess, sys, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the repository: builds a small program against the library and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
dockerfile-parser = { path = "$repo" }
[workspace]
EOF
cd "$tmp" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
timeout 250 cargo run --offline -q
'''
PRE = '''#![allow(unused)]
use dockerfile_parser::*;
use std::convert::TryFrom;
fn main() {
'''
def make(f, verify=True):
    d = {}
    exec(open(f).read(), d)
    out = os.path.join(V, 'seeded', d['ID'])
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        repo = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        for fn, old, new in d['EDITS']:
            p = os.path.join(repo, fn); s = open(p).read()
            if s.count(old) != 1: print(d['ID'], 'EDIT matches', s.count(old), 'times in', fn, repr(old[:60])); return False
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', repo, 'diff'], stdout=subprocess.PIPE, check=True, text=True).stdout
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/main.rs', 'w').write(d.get('FULL') or PRE + d['MAIN'] + '\n}\n' + d.get('EXTRA', ''))
        open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        if not verify: return True
        r0 = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        t = subprocess.run('cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E "^test |error" ', shell=True, cwd=repo, stdout=subprocess.PIPE, text=True, env=dict(os.environ, CARGO_NET_OFFLINE='true'))
        passed = sum(1 for l in t.stdout.splitlines() if l.endswith('... ok')); failed = [l for l in t.stdout.splitlines() if 'FAILED' in l or l.startswith('error')]
        r1 = subprocess.run(['bash', out + '/demo.sh'], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        okk = r0.returncode == 0 and r1.returncode != 0 and not failed and passed >= 59
        print(d['ID'], 'OK' if okk else 'BAD', 'clean demo', r0.returncode, 'patched demo', r1.returncode, 'tests', passed, failed[:3])
        if r0.returncode: print(r0.stdout[-800:])
        if not okk: print(r1.stdout[-500:])
        else: print('    ', [l for l in r1.stdout.splitlines() if l.strip()][:3])
        if not okk: shutil.rmtree(out)
        return okk
    finally: shutil.rmtree(tmp)
if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex: list(ex.map(make, sys.argv[1:]))
