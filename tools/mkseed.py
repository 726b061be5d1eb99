#!/usr/bin/env python3
"""Writes and confirms planted bugs: tools/mkseed.py [id ...] (definitions in tools/seeds/*.py)
Each definition: SEEDS[id] = dict(prop, edits=[(file, old, new)], main=<rust of the demonstration>, needs, breaks)."""
import os, sys, json, shutil, subprocess, glob, importlib.util, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds on the sampled inputs
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
T="$(mktemp -d /tmp/rstat-demo-XXXXXXXX)"; trap 'rm -rf -- "$T"' EXIT
mkdir -p "$T/p" && cp -r "$D/spaces" "$T/spaces" && cp "$D/demo.rs" "$D/build.rs" "$D/Cargo.lock" "$T/p/"
sed "s#@REPO@#$R#g" "$D/Cargo.toml.in" > "$T/p/Cargo.toml"
sed -i "s#@REPO@#$R#g" "$T/p/demo.rs"
cd "$T/p" && unset RUSTFLAGS && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/t" RUSTFLAGS=-Awarnings cargo build --offline --locked -q || exit 3
timeout 60 "$T/t/debug/demo"
'''
TOML = open(V + '/full/Cargo.toml').read().replace('path = "/repo/src/lib.rs"', 'path = "@REPO@/src/lib.rs"').replace('../stubs/spaces', '../spaces').replace('[features]', '[[bin]]\nname = "demo"\npath = "demo.rs"\n\n[features]') + '\n[profile.dev]\ndebug = 0\n'
PRE = '''#![allow(warnings)]
fn close(a: f64, b: f64, tol: f64) -> bool { (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs())) }
'''
def load():
    S = {}
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
        sp = importlib.util.spec_from_file_location('s', f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        S.update(m.SEEDS)
    return S
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    d = tempfile.mkdtemp(prefix='rstat-seed-', dir='/tmp'); r = d + '/repo'
    sh(['cp', '-a', os.environ.get('RSTAT_VERIF_REPO', '/repo'), r]); sh(['git', '-C', r, 'checkout', '-q', '--', '.']); return d, r
def write(i, s, r):
    sd = V + '/seeded/' + i
    if os.path.isdir(sd): shutil.rmtree(sd)
    os.makedirs(sd)
    for f, old, new in s['edits']:
        p = r + '/' + f; t = open(p).read()
        if t.count(old) != 1: raise SystemExit('%s: %r occurs %d times in %s' % (i, old, t.count(old), f))
        open(p, 'w').write(t.replace(old, new))
    open(sd + '/patch.diff', 'w').write(sh(['git', '-C', r, 'diff', '--no-color']).stdout)
    sd_ = s.get('serde')
    open(sd + '/demo.sh', 'w').write(DEMO); os.chmod(sd + '/demo.sh', 0o755)
    open(sd + '/Cargo.toml.in', 'w').write(TOML.replace('default = []', 'default = ["serde"]').replace('num = "0.4"', 'num = "0.4"\nserde_json = "1"') if sd_ else TOML); shutil.copy(V + '/full/Cargo.lock', sd); shutil.copy(V + '/full/build.rs', sd)
    shutil.copytree(V + '/stubs/spaces', sd + '/spaces', ignore=shutil.ignore_patterns('target'))
    if sd_:
        t = tempfile.mkdtemp(prefix='rstat-lock-', dir='/tmp'); os.makedirs(t + '/p'); shutil.copytree(V + '/stubs/spaces', t + '/spaces'); shutil.copy(V + '/full/Cargo.lock', t + '/p')
        open(t + '/p/Cargo.toml', 'w').write(open(sd + '/Cargo.toml.in').read().replace('@REPO@', r)); shutil.copy(V + '/full/build.rs', t + '/p'); open(t + '/p/demo.rs', 'w').write('fn main() {}')
        print(sh(['cargo', 'generate-lockfile', '--offline'], cwd=t + '/p', env=dict(os.environ, CARGO_NET_OFFLINE='true')).stdout[-300:]); shutil.copy(t + '/p/Cargo.lock', sd); shutil.rmtree(t)
    open(sd + '/demo.rs', 'w').write(PRE + s.get('items', '') + 'fn main() {\n' + s['main'] + '\n}\n')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(sd + '/meta.json', 'w'), indent=1)
def main():
    S = load(); ids = sys.argv[1:] or [i for i in S if not os.path.isdir(V + '/seeded/' + i)]
    for i in ids:
        d, r = scratch()
        try:
            write(i, S[i], r)
            sh(['git', '-C', r, 'checkout', '-q', '--', '.'])
            demo = V + '/seeded/' + i + '/demo.sh'
            a = sh(['bash', demo], cwd=r)
            ap = sh(['git', '-C', r, 'apply', V + '/seeded/' + i + '/patch.diff'])
            b = sh(['bash', demo], cwd=r)
            ok = a.returncode == 0 and ap.returncode == 0 and b.returncode not in (0, 3)
            print(i, 'ok' if ok else 'BAD', 'clean', a.returncode, 'patched', b.returncode, '' if ok else (a.stdout[-1500:] + ap.stdout + b.stdout[-1500:]), flush=True)
        finally: shutil.rmtree(d)
main()
