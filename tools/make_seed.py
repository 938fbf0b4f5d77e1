#!/usr/bin/env python3
"""Writes seeded/<id>/ from a seed definition and checks it in a scratch copy.

usage: make_seed.py SCRATCH SEEDS.py [ID...]
SCRATCH/repo is a scratch copy of /repo (cp -a). SEEDS.py defines SEEDS, a list
of dicts: id, property, needs, what, edits [(file, old, new)...], demo (body of
main and items). Nothing here is used by a check.
"""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = sys.argv[1]
REPO = SCR + "/repo"
ns = {}
exec(open(sys.argv[2]).read(), ns)
want = set(sys.argv[3:])

DEMO_SH = r'''#!/bin/bash
# Run with the repository as the working directory. Exits 0 if it behaves.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/zarr-demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" "$work/scratch"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$here/demo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
zarr = { path = "$repo" }
serde_json = "1.0.39"
smallvec = "1"
ndarray = "0.13"
half = "1.6"
fs2 = "0.4"
[profile.dev]
debug = 0
opt-level = 0
EOF
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cargo build --offline --quiet --manifest-path "$work/Cargo.toml" || exit 2
cd "$work/scratch" || exit 2
timeout 120 "$work/target/debug/demo" "$work/scratch"
'''
PRE = r'''#![allow(unused_imports, dead_code)]
use serde_json::{json, Value};
use smallvec::smallvec;
use std::path::{Path, PathBuf};
use zarr::ndarray::prelude::*;
use zarr::prelude::*;
use zarr::storage::*;
use zarr::*;

/// A fresh directory inside the scratch directory given to the program.
fn scratch(name: &str) -> PathBuf {
    let dir = PathBuf::from(std::env::args().nth(1).unwrap()).join(name);
    std::fs::create_dir_all(&dir).unwrap();
    dir
}

/// Array metadata from its JSON fields, over defaults.
fn meta(shape: &[u64], chunk: &[u32], data_type: &str, extra: Value) -> ArrayMetadata {
    let mut doc = json!({
        "shape": shape, "data_type": data_type,
        "chunk_grid": {"type": "regular", "chunk_shape": chunk, "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": null, "extensions": [], "attributes": {}
    });
    for (k, v) in extra.as_object().unwrap() {
        doc[k.as_str()] = v.clone();
    }
    serde_json::from_value(doc).unwrap()
}

fn grid(c: &[u64]) -> GridCoord {
    c.iter().cloned().collect()
}

'''

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=REPO + "/target")
for v in ("RUSTFLAGS", "RUSTC_WRAPPER"): env.pop(v, None)
assert sh(["git", "-C", REPO, "diff", "--quiet"]).returncode == 0, "scratch not clean"
for s in ns["SEEDS"]:
    if want and s["id"] not in want: continue
    d = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    msgs = []
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(REPO, "src", f); t = open(p).read()
            if t.count(old) != 1: msgs.append("edit matches %d times in %s: %s" % (t.count(old), f, old[:60])); break
            open(p, "w").write(t.replace(old, new))
        if msgs: print(s["id"], msgs); continue
        diff = sh(["git", "-C", REPO, "diff"]).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.rs", "w").write(PRE + s["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        lock = VERIF + "/tools/demo.lock"
        if os.path.exists(lock): open(d + "/demo.lock", "w").write(open(lock).read())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], cwd=REPO, env=env)
        if r.returncode: msgs.append("TESTS FAIL: " + " ".join(l for l in r.stdout.split("\n") if "FAILED" in l or l.startswith("error"))[:600])
        r = sh(["cargo", "test", "--workspace", "--offline", "--lib", "--features", "lz_pure", "--", "compression::lz_pure::"], cwd=REPO, env=env)
        if "lz_pure::tests::test_rw ... ok" not in r.stdout: msgs.append("LZ_PURE TESTS FAIL")
        r = sh(["bash", d + "/demo.sh"], cwd=REPO)
        pat = [l for l in r.stdout.split("\n") if l.strip()][-4:]
        if r.returncode in (0, 2): msgs.append("DEMO patched rc=%d %s" % (r.returncode, r.stdout[-1500:]))
    finally:
        sh(["git", "-C", REPO, "checkout", "--", "."])
    r = sh(["bash", d + "/demo.sh"], cwd=REPO)
    if r.returncode: msgs.append("DEMO clean rc=%d %s" % (r.returncode, r.stdout[-1500:]))
    print(s["id"], "OK" if not msgs else "BAD", " | ".join(msgs), "" if msgs else pat[:2], flush=True)
