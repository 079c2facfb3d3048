#!/bin/bash
# Builds demo.rs (beside this file) against the working directory's crate and
# runs it; all output goes to a scratch folder that is removed afterwards.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS
work="$(mktemp -d /tmp/over-there-demo.XXXXXX)" || exit 99
trap 'case "$work" in /tmp/over-there-demo.??????) rm -rf "$work" ;; esac' EXIT
mkdir -p "$work/src" "$work/scratch" || exit 99
cp "$here/demo.rs" "$work/src/main.rs" || exit 99
[ ! -f "$here/util.rs" ] || cp "$here/util.rs" "$work/src/util.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" || exit 99
cat > "$work/Cargo.toml" <<T
[package]
name = "over-there-demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
over-there = { path = "$repo", features = ["cli"] }
clap = { version = "3.0.0-beta.1", default-features = false }
tokio = { version = "0.2.13", features = ["blocking", "fs", "io-util", "macros", "process", "sync", "time", "tcp", "udp", "rt-core", "rt-threaded"] }
futures = "0.3"
serde = { version = "1.0", features = ["derive"] }
serde_cbor = "0.11"
[profile.dev]
debug = 0
T
cd "$work" || exit 99
export CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
cargo build --offline --quiet 2> build.log || { tail -30 build.log; exit 98; }
export DEMO_SCRATCH="$work/scratch"
timeout 120 "$CARGO_TARGET_DIR/debug/over-there-demo"
