#!/bin/bash
# Builds the checker from /repo's working tree. Output: target/mc/debug/check
cd "$(dirname "${BASH_SOURCE[0]}")/mc/check" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PROTOC=/usr/bin/protoc
export CARGO_TARGET_DIR=/verif/target/mc RUSTFLAGS="--cfg osm_io_mc -Awarnings"
exec cargo build --offline --locked "$@"
