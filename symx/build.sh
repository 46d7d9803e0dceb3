#!/bin/bash
# builds the symbolic executor into $1 (default: symx/build)
set -e
cd "$(dirname "$0")"
out=${1:-build}
mkdir -p "$out"
fl="-O2 -std=c++17 -fno-rtti -I$(llvm-config-18 --includedir) -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w"
g++ $fl -c term.cpp -o "$out/term.o" & 
g++ $fl -c poly.cpp -o "$out/poly.o" &
g++ $fl -c solve.cpp -o "$out/solve.o" &
g++ $fl -fexceptions -c symx.cpp -o "$out/symx.o" &
wait
g++ -o "$out/symx.tmp" "$out/term.o" "$out/solve.o" "$out/poly.o" "$out/symx.o" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3 -lpthread
mv "$out/symx.tmp" "$out/symx"
