#!/bin/bash
# Builds (offline) the analysis driver and the metadata of the dependencies that /repo's crates
# are type-checked against. Idempotent; everything goes to /verif/.build (git-ignored).
set -eu
here="$(cd "$(dirname "$0")/.." && pwd)"
out="$here/.build"
mkdir -p "$out"
stamp="$(cat "$here"/tools/rustc-dep.sh "$here"/driver/src/*.rs "$here"/driver/Cargo.toml "$here"/deps/Cargo.* $(find "$here/stubs" -name '*.rs' -o -name Cargo.toml | sort) | sha256sum | cut -d' ' -f1)"
if [ -f "$out/stamp" ] && [ "$(cat "$out/stamp")" = "$stamp" ] && [ -x "$out/drv/release/mirdump" ] && [ -f "$out/deps/deps.args" ]; then exit 0; fi
exec 9>"$out/lock"; flock 9
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
unset RUSTC_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS || true
( cd "$here/driver" && CARGO_TARGET_DIR="$out/drv" RUSTUP_TOOLCHAIN=nightly cargo build --release --offline -q )
rm -rf "${out:?}/deps"
( cd "$here/deps" && CARGO_TARGET_DIR="$out/deps" RUSTUP_TOOLCHAIN=1.70.0 RUSTC="$here/tools/rustc-dep.sh" cargo check --offline -q 2>"$out/deps.log" ) || { tail -40 "$out/deps.log"; exit 1; }
test -f "$out/deps/deps.args"
echo "$stamp" > "$out/stamp"
