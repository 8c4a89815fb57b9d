#!/bin/bash
# Builds the extractor from the installed clang-18 development libraries into /verif/build.
set -eu
D=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$D/build"
OUT="$D/build/extract"
SRC="$D/extractor/extract.cpp"
LP="$D/build/liblp.so"
if ! [ -f "$LP" ] || ! [ "$LP" -nt "$D/extractor/lp.cpp" ]; then
    g++ -O2 -shared -fPIC -o "$LP.$$" "$D/extractor/lp.cpp"
    mv "$LP.$$" "$LP"
fi
if [ -x "$OUT" ] && [ "$OUT" -nt "$SRC" ]; then exit 0; fi
TMP="$OUT.$$"
clang++-18 -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    "$SRC" -o "$TMP" -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -lLLVM-18
mv "$TMP" "$OUT"
