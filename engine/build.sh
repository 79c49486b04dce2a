#!/bin/bash
# Build the symbolic executor into $1 (default /verif/build/symx)
set -e
d=$(cd "$(dirname "$0")" && pwd); out=${1:-$d/../build/symx}; mkdir -p "$(dirname "$out")"
Z3DIR=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z3DIR/lib/libz3.so ] && [ -f $Z3DIR/include/z3.h ]; then ZI="-I$Z3DIR/include"; ZL="$Z3DIR/lib/libz3.so -Wl,-rpath,$Z3DIR/lib"; else ZI=; ZL=-lz3; fi
CXXF="-std=c++17 -O2 -g1 -fexceptions -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w $ZI"
t=$(mktemp -d)
for f in expr solver symx; do g++ $CXXF -c $d/$f.cpp -o $t/$f.o & done; wait
g++ $t/expr.o $t/solver.o $t/symx.o -o "$out.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL -lpthread && mv "$out.tmp" "$out"
rm -rf "$t"
