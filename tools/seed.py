#!/usr/bin/env python3
"""seed.py make ID..  : writes /verif/seeded/ID from tools/seeds/*.py (patch, demo, meta).
   seed.py test ID..  : applies each patch to /repo, runs build, tests, demo and the property's check; undoes it."""
import sys, os, json, subprocess, shutil, glob, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}
TLS = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
tlsn-tls-core = { path = "/repo/crates/tls-core", features = ["serde", "prf", "handshake"] }
%s
'''
HARNESS = TLS.replace('tlsn-tls-core = { path = "/repo/crates/tls-core", features = ["serde", "prf", "handshake"] }', 'tlsn-harness-core = { path = "/repo/crates/harness/core" }')
BARE = TLS.replace('tlsn-tls-core = { path = "/repo/crates/tls-core", features = ["serde", "prf", "handshake"] }', '')
DEMO = '''#!/bin/bash
# Builds and runs the small program beside this file against /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf -- "$work"' EXIT
cp -r "$here/demo/." "$work/" || exit 3
cd "$work" || exit 3
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin HOME=/root CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$work/target"
cargo build --offline -q || exit 4
./target/debug/demo
'''
def seed(id, prop, needs, breaks, edits, main, deps='', toml=TLS, extra=()):
    S[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, toml=toml % deps, extra=extra)
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    exec(compile(open(f).read(), f, 'exec'))
def sh(*a, **k): return subprocess.run(a, **k)
def make(id):
    s = S[id]; d = f'{V}/seeded/{id}'
    t = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        sh('git', 'clone', '-q', '/repo', t + '/r', check=True)
        for f, old, new in s['edits']:
            p = f'{t}/r/{f}'; x = open(p).read()
            assert x.count(old) == 1, (id, f, x.count(old), old)
            open(p, 'w').write(x.replace(old, new))
        diff = sh('git', '-C', t + '/r', 'diff', check=True, capture_output=True, text=True).stdout
    finally: shutil.rmtree(t)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/demo/src')
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo/Cargo.toml', 'w').write(s['toml'])
    open(d + '/demo/src/main.rs', 'w').write(s['main'])
    shutil.copy(V + '/rust/Cargo.lock', d + '/demo/Cargo.lock')
    for src, dst in s['extra']:
        os.makedirs(os.path.dirname(d + '/demo/' + dst), exist_ok=True); shutil.copy(src, d + '/demo/' + dst)
    json.dump({"property": s['prop'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def test(id, full=True):
    d = f'{V}/seeded/{id}'; prop = json.load(open(d + '/meta.json'))['property']
    out = [id, prop]
    def demo():
        t = tempfile.mkdtemp(prefix='sd.', dir='/tmp')
        shutil.copytree(d, t + '/x', ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        r = sh('bash', t + '/x/demo.sh', cwd='/repo', capture_output=True, text=True)
        shutil.rmtree(t)
        return r
    if full:
        r = demo(); out.append(f'demo-clean={r.returncode}')
        if r.returncode: print(r.stdout[-500:], r.stderr[-2500:])
    sh('git', '-C', '/repo', 'apply', d + '/patch.diff', check=True)
    try:
        if full:
            r = sh('bash', '/opt/vp/build.sh', capture_output=True, text=True); out.append(f'build={r.returncode}')
            if r.returncode: print(r.stderr[-2000:])
            sh('bash', '/opt/vp/test.sh', '/tmp/seed-test.json', capture_output=True)
            base = json.load(open('/opt/vp/BASELINE.json')); got = json.load(open('/tmp/seed-test.json'))
            out.append('tests=' + cmp(base, got))
            r = demo(); out.append(f'demo-patched={r.returncode}')
            if r.returncode == 4 or r.returncode == 0: print(r.stdout[-500:], r.stderr[-2500:])
        r = sh('bash', V + '/run.sh', prop, 'quick', cwd=V, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        out.append(f'check={r.returncode} {"CAUGHT" if r.returncode == 1 and v else "MISSED"} {v[:1]}')
        if r.returncode not in (0, 1): print(r.stdout[-1500:], r.stderr[-2500:])
    finally:
        sh('git', '-C', '/repo', 'checkout', '-q', '--', '.')
    print(*out, flush=True)
def cmp(base, got):
    def names(x, key):
        y = x.get(key, x)
        if isinstance(y, dict): return {k for k, v in y.items() if v in (True, 'pass', 'passed', 'ok')}
        return set(y)
    b = names(base, 'stable'); g = names(got, 'passed')
    m = b - g
    return 'ok' if not m else f'LOST {len(m)} {sorted(m)[:3]}'
if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(S)
    for i in ids:
        if sys.argv[1] == 'make': make(i)
        elif sys.argv[1] == 'test': test(i)
        elif sys.argv[1] == 'quick': test(i, False)
