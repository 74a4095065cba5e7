#!/usr/bin/env python3
"""mkseed.py FILE: python file defining SEEDS = [dict(id, property, file, subs=[(old,new)...], needs, breaks, demo)];
writes seeded/<id>/{patch.diff,meta.json,demo.sh,main.rs}. demo is the body of a Rust main()."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds a tiny program against the crate in the current directory and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
d=$(mktemp -d)
trap 'rm -rf -- "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
procedural_modelling = { path = "$repo", default-features = false, features = [%s] }
[workspace]
EOT
cd "$d" || exit 9
export CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" RUSTFLAGS=-Awarnings
%scargo run -q --offline 2>&1 | tail -n 30
exit ${PIPESTATUS[0]}
'''
PRE = '''#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::{math::*, mesh::*, operations::*, primitives::*, tesselate::*};
type M = Mesh3d64;
fn vp(x: f64, y: f64, z: f64) -> VertexPayloadPNU<f64, 3> { VertexPayloadPNU::from_pos(Vec3::<f64>::new(x, y, z)) }
fn ngon(n: usize) -> Vec<VertexPayloadPNU<f64, 3>> {
    (0..n).map(|i| { let a = i as f64 / n as f64 * std::f64::consts::TAU; vp(a.cos(), a.sin(), 0.0) }).collect()
}
fn flip<T: MeshType>(e: T::E, m: &mut T::Mesh) where T::Edge: HalfEdge<T> { <T::Edge as HalfEdge<T>>::flip(e, m) }
fn main() {
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for s in ns['SEEDS']:
    if only and s['id'] not in only:
        continue
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
        edits = s.get('edits') or [(s['file'], s['subs'])]
        for f, subs in edits:
            p = os.path.join(t, 'r', f)
            x = open(p).read()
            for a, b in subs:
                assert x.count(a) == 1, (s['id'], f, x.count(a), a)
                x = x.replace(a, b)
            open(p, 'w').write(x)
        df = subprocess.run(['git', 'diff'], cwd=t + '/r', capture_output=True, text=True).stdout
        assert df
        # lines removed must be original ones
        for f, _ in edits:
            bl = subprocess.run(['git', 'blame', '-s', 'HEAD', '--', f], cwd='/repo', capture_output=True, text=True).stdout.split('\n')
            root = subprocess.run(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd='/repo', capture_output=True, text=True).stdout.strip()
            mine = {l.split(')', 1)[1].strip() for l in bl if l and not l.lstrip('^').startswith(root[:7]) and l.split(')', 1)[1].strip()}
            for l in df.split('\n'):
                if l.startswith('-') and not l.startswith('---') and l[1:].strip() in mine and len(l.strip()) > 3:
                    print('WARNING', s['id'], 'touches a fix line:', l)
        open(d + '/patch.diff', 'w').write(df)
    finally:
        shutil.rmtree(t)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    feats = s.get('features', ['nalgebra', 'netsci'])
    open(d + '/demo.sh', 'w').write(DEMO % (', '.join('"%s"' % f for f in feats), s.get('env', '')))
    open(d + '/main.rs', 'w').write((s.get('pre', PRE)) + s['demo'] + '\n}\n')
    print(s['id'], 'ok')
