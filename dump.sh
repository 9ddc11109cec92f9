#!/bin/bash
# dump.sh OUT FEATURES TARGETDIR: extract the monomorphised MIR of /repo (through /verif/probe) into OUT
set -e
OUT=$1; FEATS=$2; TD=$3
HERE=$(cd "$(dirname "$0")" && pwd)
SYS=$(rustc +nightly --print sysroot)
rm -f "$OUT"
cd "$HERE/probe"
export EXTRACT_OUT=$OUT LD_LIBRARY_PATH=$SYS/lib RUSTC_WORKSPACE_WRAPPER=$HERE/tools/extract/target/release/extract
export RUSTFLAGS="-Zalways-encode-mir -Zinline-mir=no -Cdebug-assertions=off -Coverflow-checks=on -Zmir-opt-level=1"
cargo +nightly clean --offline -p ezk-image -p probe --target-dir "$TD" >/dev/null 2>&1 || true
cargo +nightly check --offline --features "$FEATS" --target-dir "$TD"
test -s "$OUT"
