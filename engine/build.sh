#!/bin/bash
# Builds the symbolic executor into the directory given as $1.
set -eo pipefail
here=$(cd "$(dirname "$0")" && pwd); out=$1; mkdir -p "$out"
CXXF="-O2 -g0 -std=c++17 -I/usr/include -I$(llvm-config-18 --includedir) -I$here"
(cd "$out" && g++ $CXXF -c "$here/expr.cpp" -o expr.o & 
 cd "$out" && g++ $CXXF -c "$here/solver.cpp" -o solver.o & 
 cd "$out" && g++ $CXXF -c "$here/dsx.cpp" -o dsx.o & for j in $(jobs -p); do wait $j; done)
g++ -o "$out/dsx.tmp" "$out/expr.o" "$out/solver.o" "$out/dsx.o" $(llvm-config-18 --ldflags --libs) -lz3
mv "$out/dsx.tmp" "$out/dsx"
