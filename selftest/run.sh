#!/bin/bash
# development aid: (1) term rewriting against direct evaluation, (2) vector-instruction models of both engines against the processor
set -e
d=$(mktemp -d); trap 'find "$d" -delete' EXIT
here=$(cd "$(dirname "$0")" && pwd); x=$here/../symx
[ -x $x/build/symx ] || bash $x/build.sh
g++ -O1 -std=c++17 -w -o $d/fuzz $x/fuzz.cpp $x/build/term.o $x/build/solve.o $x/build/poly.o -lz3
$d/fuzz ${1:-1} 3000; $d/fuzz ${1:-1} 3000 m
gcc -mavx2 -DPRINT -o $d/p $here/avx.c; $d/p > $d/want.h
clang-18 -O0 -Xclang -disable-O0-optnone -mavx2 -w -DVC_SYMX=1 -I$d -I$here -emit-llvm -c -o $d/a.bc $here/avx.c
$x/build/symx --harness $d/a.bc | head -c 300; echo
gcc -E -std=gnu11 -w -D__CPROVER__ -I$here/../stubs -I$d $here/avx.c > $d/a.i; goto-cc -w -o $d/a.gb $d/a.i
cbmc $d/a.gb --unwind 5000 --no-standard-checks --max-field-sensitivity-array-size 5000 | grep -E "FAILURE|failed" | head -3
