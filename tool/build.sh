#!/bin/bash
# builds the exporter into $1 (default: /verif/.build/cexport)
set -e
D="$(cd "$(dirname "$0")" && pwd)"
OUT="${1:-$D/../.build/cexport}"
mkdir -p "$(dirname "$OUT")"
TMP="$OUT.$$"
/usr/bin/g++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$D/cexport.cpp" -o "$TMP" -L/usr/lib/llvm-18/lib /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv -f "$TMP" "$OUT"
