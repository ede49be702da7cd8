#!/bin/bash
# Builds /repo's engine with the driver beside this script in a scratch directory and runs the
# scenario in main.rs: exit 0 if the engine behaves, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.90 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTFLAGS="--cap-lints warn"
cp -r "$here/kit/." "$w/" && cp "$here/main.rs" "$w/demo/src/main.rs" || exit 3
s=/opt/vp/partial/crate/target/debug
if [ -d $s/deps ]; then
  mkdir -p "$w/target/debug"
  cp -a $s/deps $s/build $s/.fingerprint "$w/target/debug/" 2>/dev/null
fi
(cd "$w/demo" && cargo build --offline --target-dir "$w/target" 2>&1 | tail -30) || exit 3
[ -x "$w/target/debug/demo" ] || exit 3
timeout 120 "$w/target/debug/demo"
