#!/bin/bash
# Builds the exporter (libTooling front end) into /verif/build unless an up-to-date one is there.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${VERIF_BUILD:-$here/../build}
mkdir -p "$out"
sum=$(sha256sum "$here/exporter.cpp" | cut -c1-16)
if [ -x "$out/exporter" ] && [ "$(cat "$out/exporter.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
L=/usr/lib/llvm-18/lib
g++ -O1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include "$here/exporter.cpp" -o "$out/exporter.$$" \
    "$L/libclang-cpp.so.18.1" "$L/libLLVM-18.so"
mv "$out/exporter.$$" "$out/exporter"
echo "$sum" > "$out/exporter.sum"
