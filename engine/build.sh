#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build).
set -e
cd "$(dirname "$0")"
out=${1:-../build}; mkdir -p "$out"
LC=/usr/lib/llvm-18/bin/llvm-config
FL="-O2 -std=c++17 -fno-exceptions -fno-rtti $($LC --cppflags) -Wno-format"
for f in expr solver interp; do g++ $FL -c $f.cpp -o "$out/$f.o" & pids="$pids $!"; done
for p in $pids; do wait $p; done
g++ "$out/expr.o" "$out/solver.o" "$out/interp.o" -o "$out/engine.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv "$out/engine.tmp" "$out/engine"
