#!/bin/bash
# quick debugging: t.sh SRC DST FEATURES [dump]
(ulimit -v 12000000; timeout 120 /verif/tools/analyze/target/release/analyze ${4:-/tmp/default.bin} conv $1 $2 $3 $5 $6) | cut -c1-${W:-220}
