"""Helper to write planted changes: seed(id, prop, edits, needs, breaks, demo_rs, crates)."""
import os, json, subprocess
W = "/tmp/seedw/repo"
DEMO = '''#!/bin/bash
# Builds a small program against the crates of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
w=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat >"$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
qcd-sme = { path = "$repo/qcd-sme" }
num = "0.4"
%s[profile.dev]
opt-level = 1
debug = false
[profile.dev.package."*"]
opt-level = 0
[profile.dev.package.qcd-sme]
opt-level = 1
T
cd "$w" || exit 2
CARGO_TARGET_DIR="$w/target" cargo build -q --offline || exit 2
timeout 120 "$w/target/debug/demo"
'''
def seed(id, prop, edits, needs, breaks, demo, tc=False):
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W, check=True)
    for f, a, b in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        n = s.count(a)
        assert n == 1, (id, f, n, a)
        open(p, "w").write(s.replace(a, b))
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO % ('tc_long_prop = { path = "$repo/tc_long_prop" }\n' if tc else ""))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W, check=True)
