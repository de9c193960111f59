#!/bin/bash
# Run in the repository: builds a small driver around its crates, then check.mjs observes
# what instrumented programs do. Exits 0 if it is as it should be.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-05-06
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
mkdir "$T/src" && cp "$D/main.rs" "$T/src/main.rs" && cp "$D/demo.lock" "$T/Cargo.lock" || exit 2
sed "s#@REPO@#$R#" "$D/demo.toml" > "$T/Cargo.toml" || exit 2
export CARGO_TARGET_DIR=${DEMO_TARGET:-$T/target}
(cd "$T" && cargo build --offline -q) || exit 3
DEMO=$CARGO_TARGET_DIR/debug/demo node "$D/check.mjs"
