#!/bin/bash
# dump.sh OUTDIR [REPO]: build the driver if needed and dump the type-checked program of REPO's working tree.
set -e
VERIF="$(cd "$(dirname "$0")" && pwd)"
OUT="$1"; REPO="${2:-/repo}"
export HOME="${HOME:-/root}" PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS RUST_LOG RUSTUP_TOOLCHAIN CARGO_ENCODED_RUSTFLAGS
CACHE="${CV_CACHE:-$VERIF/.cache}"
mkdir -p "$CACHE" "$OUT"
exec 9>"$CACHE/lock"; flock 9
SYS="$(rustc +nightly --print sysroot)"
CARGO_TARGET_DIR="$CACHE/driver" cargo +nightly build --release --offline --quiet --manifest-path "$VERIF/driver/Cargo.toml"
T="$CACHE/target"
# cargo's freshness cache would skip the wrapper on a warm directory
rm -rf "$T"/release/build/{cryptovampire,utils,logic_formula,cryptovampire_macros,indistinguishability}
rm -f "$OUT"/*.json
cd "$REPO"
LD_LIBRARY_PATH="$SYS/lib" CARGO_TARGET_DIR="$T" CVDUMP_OUT="$OUT" \
 RUSTC_WORKSPACE_WRAPPER="$CACHE/driver/release/cvdump" \
 cargo +nightly check --release --workspace --offline --locked 2>"$OUT/cargo.log" || { grep -v "^ *process did" "$OUT/cargo.log" | tail -40 >&2; exit 3; }
