#!/bin/bash
# Runs demo.rs as a test inside a scratch copy of the proof_of_storage crate.
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=2 RUSTC_WRAPPER=
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/c"
cp -a proof_of_storage/Cargo.toml proof_of_storage/src "$d/c/"
cp -a proof_of_storage/Cargo.lock proof_of_storage/target "$d/c/" 2>/dev/null
cp "$here"/demo.rs "$d/c/src/verif_demo.rs"
printf '\n#[cfg(test)]\nmod verif_demo;\n' >> "$d/c/src/main.rs"
cd "$d/c" && timeout 280 cargo test --offline verif_demo -- --test-threads 1
