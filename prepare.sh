#!/bin/bash
# prepare.sh: build the tools and extract the program from /repo's current working tree into work/
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$HERE/work" "$HERE/evidence"
exec 9>"$HERE/work/.lock"
flock 9
SYS=$(rustc +nightly --print sysroot)
(cd "$HERE/tools/extract" && env RUSTFLAGS=-Awarnings cargo +nightly build -q --release --offline)
(cd "$HERE/tools/analyze" && env RUSTFLAGS=-Awarnings cargo build -q --release --offline)
# both variants of the program, side by side
"$HERE/dump.sh" "$HERE/work/base.bin" mt,resize "$HERE/work/t1" >"$HERE/work/base.log" 2>&1 &
A=$!
"$HERE/dump.sh" "$HERE/work/unstable.bin" mt,resize,unstable "$HERE/work/t2" >"$HERE/work/unstable.log" 2>&1 &
B=$!
if ! wait $A; then cat "$HERE/work/base.log"; exit 3; fi
if ! wait $B; then cat "$HERE/work/unstable.log"; exit 3; fi
