#!/bin/bash
# Builds demo.rs (beside this file) against the library in the current directory's
# src/rust and runs it: exit 0 when the property holds, 1 when it is broken.
set -u
REPO=$(pwd)
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_DEBUG=0
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "${W:?}"' EXIT
export CARGO_TARGET_DIR=$W/target
mkdir -p "$W/ws/demo/src"
python3 - "$REPO/src/rust" "$W/ws" <<'P' || exit 2
import os, re, sys
src, ws = sys.argv[1:]
t = open(f"{src}/Cargo.toml").read()
for table in ("package", "dependencies"):
    t = re.sub(rf"(?ms)^\[{table}\].*?(?=^\[|\Z)", "", t)
t = re.sub(r"(?ms)^members\s*=\s*\[.*?\]", 'members = ["cli", "fcb_core", "demo"]', t)
open(f"{ws}/Cargo.toml", "w").write(t)
for m in ("cli", "fcb_core", ".cargo"):
    if os.path.exists(f"{src}/{m}"):
        os.symlink(f"{src}/{m}", f"{ws}/{m}")
P
cp /opt/vp/ws/Cargo.lock "$W/ws/" 2>/dev/null
cat > "$W/ws/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
fcb_core = { path = "../fcb_core" }
cjseq = { workspace = true }
serde_json = { workspace = true }
anyhow = { workspace = true }
chrono = { workspace = true }
tokio = { workspace = true }
T
cp "$HERE/demo.rs" "$W/ws/demo/src/main.rs"
(cd "$W/ws" && cargo build --offline -p demo -p fcb_cli) >"$W/log" 2>&1 || { tail -30 "$W/log"; exit 2; }
export FCB="$W/target/debug/fcb"
cd "$W" && timeout 120 "$W/target/debug/demo"
