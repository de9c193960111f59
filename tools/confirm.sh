#!/bin/bash
# confirm.sh ID: with the change of seeded/ID applied to the scratch copy /tmp/wt: does it build,
# do the stable tests pass, does the demo pass without and fail with the change?
ID=$1; W=/tmp/wt; D=/verif/seeded/$ID
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-05-06 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
git -C $W checkout -q -- . && git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
mkdir -p /tmp/cf; cp -r $D /tmp/cf/; rm -f /tmp/cf/$ID/patch.diff /tmp/cf/$ID/meta.json
cd $W
DEMO_TARGET=/tmp/cf/target bash /tmp/cf/$ID/demo.sh > /tmp/cf/$ID.base 2>&1; b=$?
git apply $D/patch.diff || { echo "$ID: does not apply"; exit 1; }
DEMO_TARGET=/tmp/cf/target bash /tmp/cf/$ID/demo.sh > /tmp/cf/$ID.bug 2>&1; g=$?
cargo test --workspace --no-fail-fast --locked --offline > /tmp/cf/$ID.test 2>&1; t=$?
n=$(grep -c "^test .* ok$" /tmp/cf/$ID.test)
git checkout -q -- .
echo "$ID: demo unchanged=$b (want 0) changed=$g (want !=0) tests exit=$t passed=$n"; tail -2 /tmp/cf/$ID.bug; [ $b = 0 ] || tail -5 /tmp/cf/$ID.base
rm -rf -- "/tmp/cf/${ID:?}"
