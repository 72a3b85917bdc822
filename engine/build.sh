#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build/symex)
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$D/../build/symex}; mkdir -p "$(dirname "$OUT")"
ZP=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
T=$(mktemp -d)
FL="-std=c++17 -O1 -fexceptions -frtti -I$ZP/include -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w -ffp-contract=off"
clang++-18 $FL -O2 -c "$D/expr.cpp" -o "$T/expr.o" & P1=$!
clang++-18 $FL -fno-rtti -c "$D/symex.cpp" -o "$T/symex.o" & P2=$!
wait $P1; wait $P2
clang++-18 "$T/expr.o" "$T/symex.o" -o "$T/symex" -L$ZP/lib -Wl,-rpath,$ZP/lib -l:libz3.so -L/usr/lib/llvm-18/lib -lLLVM-18 -lpthread
mv "$T/symex" "$OUT"; rm -rf "$T"
