#!/bin/bash
# Type-check the workspace at /repo (its current working tree) with the fact extractor as rustc.
# Usage: extract.sh [warm]    Facts land in /verif/.cache/facts
V=$(cd "$(dirname "$0")/.." && pwd)
R=${VP_REPO:-/repo}
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH LANG=C.UTF-8
export CARGO_NET_OFFLINE=true PYO3_PYTHON=/usr/bin/python3 RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET_DIR
C=${VP_CACHE:-$V/.cache}
mkdir -p "$C/facts" "$C/target"
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib
if [ ! -x "$C/driver" ] || [ "$V/driver/main.rs" -nt "$C/driver" ]; then
    rustc --edition 2024 -O -o "$C/driver.new" "$V/driver/main.rs" || { echo "extract: cannot build the driver"; exit 2; }
    mv -f "$C/driver.new" "$C/driver"
fi
export RUSTC_WORKSPACE_WRAPPER=$C/driver VP_STUB_BUILD=$V/driver/stub_build.rs
export VP_FACTS_DIR=$C/facts.new CARGO_TARGET_DIR=$C/target
FULL=pywr-core/clp,pywr-core/cbc,pywr-core/highs,pywr-core/microlp,pywr-core/ipm-simd,pywr-core/ipm-ocl,pywr-core/pyo3,pywr-core/hdf5,pywr-schema/core,pywr-schema/pyo3,pywr-schema/hdf5,pywr-schema/clp,pywr-schema/cbc,pywr-schema/highs,pywr-schema/ipm-simd,pywr-schema/ipm-ocl,pywr-cli/highs,pywr-cli/cbc,pywr-cli/microlp,pywr-cli/ipm-simd,pywr-cli/ipm-ocl,pywr-python/cbc,pywr-python/highs,pywr-python/ipm-simd,pywr-python/ipm-ocl
clean() { # force the workspace members (not the dependencies) to be checked again, whatever their mtimes
    for c in pywr-core pywr-schema pywr-schema-macros pywr-cli pywr-python ipm-common ipm-simd ipm-ocl coin-or-sys; do
        rm -rf "$C/target/debug/build/$c" "$C"/target/debug/.fingerprint/$c-*
    done
    rm -rf "$C/facts.new"; mkdir -p "$C/facts.new"
}
cd "$R" || exit 2
clean
if ! cargo check --offline --locked -p pywr-core -p pywr-schema -p pywr-cli -p pywr-python --no-default-features --features "$FULL" > "$C/extract.log" 2>&1; then
    echo "extract: the workspace does not type-check:"; grep -E "^(error|  *-->)" "$C/extract.log" | head -40
    exit 2
fi
for c in pywr_core pywr_schema ipm_common ipm_simd ipm_ocl pywr pywr_cli.bin; do
    [ -s "$C/facts.new/$c.json" ] || { echo "extract: no facts for $c"; exit 2; }
done
rm -rf "$C/facts"; mv "$C/facts.new" "$C/facts"
