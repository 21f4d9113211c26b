#!/bin/bash
# demo.sh of a planted change: compile demo.rs as an integration test of pywr-schema in /repo and run it
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8 PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$R/target PYO3_PYTHON=/usr/bin/python3 PYTHONDONTWRITEBYTECODE=1 RUST_BACKTRACE=0
T=$R/pywr-schema/tests/vp_demo.rs
trap 'rm -f "$T"' EXIT
cat "$D/demo.rs" "$D/common.rs" > "$T"
cargo test --offline -p pywr-schema --no-default-features --features pywr-core/microlp,pywr-schema/core,pywr-schema/pyo3,pywr-schema/hdf5,pywr-schema/highs,pywr-schema/ipm-simd --test vp_demo -- --test-threads=1
