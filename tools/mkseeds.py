#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in seeds/*.py (edits as text replacements)."""
import json, os, subprocess, sys, tempfile, shutil
V = "/verif"
DEMO = '''#!/bin/bash
# run with cwd /repo: builds main.rs beside this file against the crate and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
typetag = { path = "$repo" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
%s
[profile.dev]
debug = false
[workspace]
T
cd "$d" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=nightly cargo run -q --offline
'''
def seed(id, prop, needs, breaks, edits, main, deps=""):
    if sys.argv[1:] and id not in sys.argv[1:]:
        return
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed", dir="/tmp")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in edits:
        p = f"{w}/r/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (id, f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(main.lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO % deps)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    print(id)
here = os.path.dirname(os.path.abspath(__file__))
exec(open(here + "/seeds.py").read())
