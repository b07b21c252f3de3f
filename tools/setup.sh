#!/bin/bash
# builds the engine and the library-model bitcode into /verif/build
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$V/build"
bash "$V/engine/build.sh" "$V/build"
/usr/bin/clang++-18 -std=c++17 -O1 -fno-builtin -fno-vectorize -fno-slp-vectorize -D__NO_CTYPE -include "$V/models/noextern.h" -U_FORTIFY_SOURCE -w -I"$V/include" -emit-llvm -c "$V/models/libmodel.cc" -o "$V/build/libmodel.bc"
echo setup ok
