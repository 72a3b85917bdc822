#!/bin/bash
# mkir.sh OUTDIR harness.cpp : IR of harness + runtime + /repo sources (development aid; check.py does the same)
O=$1; H=$2; mkdir -p $O; R=${REPO:-/repo}
F="-std=c++20 -O1 -Xclang -disable-llvm-passes -DNDEBUG -DPYTHON_MODULE -ffp-contract=off -D_GLIBCXX_EXTERN_TEMPLATE=0 -gline-tables-only -emit-llvm -w -I/verif/model -I/verif/harness -I$R/src"
for f in $R/src/*.cpp; do b=$(basename $f .cpp); case $b in Test*|UnitTester|rcpp_api|RcppExports) continue;; esac; clang++-18 $F -c $f -o $O/$b.bc & done
clang++-18 $F -c /verif/engine/runtime.cpp -o $O/runtime.bc & clang++-18 $F -c $H -o $O/harness.bc & wait
