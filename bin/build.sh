#!/bin/bash
# Rebuild the rumpy extension from /repo's working tree (dev profile, as the project's own
# build does) and stage it in the directory given as $1 as rumpy.so.
set -u
dest=$(realpath -m "${1:?dest}")
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= PYO3_PYTHON=/opt/vp/venv/bin/python
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
cd /repo || exit 2
mkdir -p "$dest" || exit 2
mkdir -p /verif/.build; exec 9>/verif/.build/lock; flock 9
# never trust mtimes: forget what cargo knows about the rumpy crate itself (not its dependencies)
rm -rf /repo/target/debug/.fingerprint/rumpy-*
cargo build --lib --no-default-features --offline >"$dest/build.log" 2>&1 || { tail -40 "$dest/build.log"; echo "build failed" >&2; exit 2; }
cp /repo/target/debug/librumpy.so "$dest/rumpy.so.new" && mv "$dest/rumpy.so.new" "$dest/rumpy.so" || exit 2
