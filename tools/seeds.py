#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from the definitions in tools/seeddefs/*.py (development tool)."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFS = {}


def seed(id, prop, edits, needs, breaks, demo): DEFS[id] = (prop, edits, needs, breaks, demo)


DEMO = r'''#!/bin/bash
# builds a small program against the tree in the current directory and runs it; its exit code is the verdict
set -u
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
corries = { path = "$repo" }
color-eyre = { version = "0.6", default-features = false }
ndarray = { version = "0.15", features = ["blas", "approx-0_5", "rayon"] }
[profile.dev]
debug = 0
[workspace]
EOF
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUST_BACKTRACE=0 CARGO_TARGET_DIR="$d/target" HOME="${HOME:-/root}"
unset RUSTC_WORKSPACE_WRAPPER
cd "$d" && cargo build --offline -q 2> "$d/log" || { grep -E '^error' "$d/log" | head; echo "demo does not build"; exit 1; }
mkdir "$d/run"; cd "$d/run" && timeout 120 "$d/target/debug/demo"
'''


def main():
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeddefs', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), {'seed': seed})
    want = sys.argv[1:]
    for id, (prop, edits, needs, breaks, demo) in DEFS.items():
        if want and id not in want: continue
        t = tempfile.mkdtemp()
        try:
            subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w', 'HEAD'])
            w = t + '/w'
            for file, old, new in edits:
                p = os.path.join(w, file); s = open(p).read()
                assert s.count(old) == 1, (id, file, old, s.count(old))
                open(p, 'w').write(s.replace(old, new))
            patch = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
        finally:
            subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w'])
            shutil.rmtree(t, ignore_errors=True)
        d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/main.rs', 'w').write(demo.strip() + '\n')
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        print(id, prop, len(patch.splitlines()))


main()
