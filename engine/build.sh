#!/bin/bash
# builds the engine into $1
set -e
out=${1:?}; here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out"
CX="g++ -std=c++20 -O2 -g0"
LF=$(llvm-config-18 --cxxflags | sed 's/-std=c++17//;s/-fno-exceptions//')
$CX -c "$here/expr.cpp" -o "$out/expr.o" & p1=$!
$CX -c "$here/solver.cpp" -o "$out/solver.o" & p2=$!
$CX $LF -c "$here/exec.cpp" -o "$out/exec.o" & p3=$!
$CX $LF "$here/instr.cpp" -L/usr/lib/llvm-18/lib -lLLVM-18 -o "$out/instr" & p4=$!
wait $p4; wait $p1; wait $p2; wait $p3
g++ "$out/exec.o" "$out/expr.o" "$out/solver.o" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -o "$out/symexec"
