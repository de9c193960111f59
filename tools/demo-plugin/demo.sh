#!/bin/bash
# Run in the repository: builds a driver around the plugin's own entry point (packages/swc-plugin-coverage/src/lib.rs,
# with a stand-in for what the compiler hands to it), then check.mjs observes what it returns. Exits 0 if it is as it should be.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-05-06
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
mkdir -p "$T/src" "$T/shim/src" "$T/shim-macro/src" && cp "$D/demo.lock" "$T/Cargo.lock" || exit 2
cp "$D/shim.toml" "$T/shim/Cargo.toml"; cp "$D/shim.rs" "$T/shim/src/lib.rs"
cp "$D/shim-macro.toml" "$T/shim-macro/Cargo.toml"; cp "$D/shim-macro.rs" "$T/shim-macro/src/lib.rs"
sed "s#@REPO@#$R#" "$D/main.rs" > "$T/src/main.rs" || exit 2
sed "s#@REPO@#$R#" "$D/demo.toml" > "$T/Cargo.toml" || exit 2
export CARGO_TARGET_DIR=${DEMO_TARGET:-$T/target}
(cd "$T" && cargo build --offline -q) || exit 3
DEMO=$CARGO_TARGET_DIR/debug/demo node "$D/check.mjs"
