#!/bin/bash
# builds the symbolic execution engine (LLVM 18 + z3) and the library-model bitcode into $1 (default: ../build)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build}"
mkdir -p "$out"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
LI=$(llvm-config-18 --includedir)
for f in expr bitsolver solver decode exec; do
  g++ -std=c++17 -O2 -g1 -fno-rtti -w -I"$LI" -I"$Z3/include" -c "$here/$f.cc" -o "$out/$f.o" & pids="$pids $!"
done
for p in $pids; do wait $p; done
g++ -o "$out/symex" "$out/expr.o" "$out/bitsolver.o" "$out/solver.o" "$out/decode.o" "$out/exec.o" -L/usr/lib/llvm-18/lib -lLLVM-18 -L"$Z3/lib" -lz3 -Wl,-rpath,"$Z3/lib" -lpthread
g++ -std=c++17 -O1 -fno-rtti -w -I"$LI" "$here/instr.cc" -o "$out/instr" -L/usr/lib/llvm-18/lib -lLLVM-18
