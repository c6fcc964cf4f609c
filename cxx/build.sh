#!/bin/bash
# Builds the AST exporter into /verif/build (git-ignored).
set -e
D=$(cd "$(dirname "$0")" && pwd); B=$D/../build; mkdir -p "$B"
if [ "$B/sotx" -nt "$D/exporter.cpp" ]; then exit 0; fi
clang++ -O1 -std=c++17 -fno-rtti -w $(/usr/bin/llvm-config-18 --cppflags) "$D/exporter.cpp" -o "$B/sotx.tmp.$$" \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$B/sotx.tmp.$$" "$B/sotx"
