#!/bin/bash
# As build.sh, with the rumpy crate instrumented by AddressSanitizer (the runtime is clang's, preloaded by run.py).
set -u
dest=$(realpath -m "${1:?dest}")
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= PYO3_PYTHON=/opt/vp/venv/bin/python
export RUSTC_WORKSPACE_WRAPPER=$here/rustc-asan.sh
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
cd /repo || exit 2
mkdir -p "$dest" || exit 2
mkdir -p /verif/.build; exec 9>/verif/.build/lock; flock 9
rm -rf /repo/target/debug/.fingerprint/rumpy-*
cargo build --lib --no-default-features --offline >"$dest/build.log" 2>&1 || { tail -40 "$dest/build.log"; echo "build failed" >&2; exit 2; }
cp /repo/target/debug/librumpy.so "$dest/rumpy.so.new" && mv "$dest/rumpy.so.new" "$dest/rumpy.so" || exit 2
# leave no instrumented output where the ordinary build would find it
rm -rf /repo/target/debug/.fingerprint/rumpy-*; rm -f /repo/target/debug/librumpy.so
