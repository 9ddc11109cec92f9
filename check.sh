#!/bin/bash
# check.sh PROPERTY [quick|thorough]: exit 0 if the property holds on everything analysed, 1 with VIOLATION lines otherwise
HERE=$(cd "$(dirname "$0")" && pwd)
"$HERE/prepare.sh" || { echo "the program could not be extracted from /repo"; exit 3; }
exec "$HERE/tools/analyze/target/release/analyze" check "$HERE" "$1" "${2:-quick}" "$HERE/work/base.bin" "$HERE/work/unstable.bin"
