#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/engine/bin).
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/bin}; mkdir -p "$O"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
F="-O2 -std=c++17 -I/usr/lib/llvm-18/include -I$Z/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w"
for f in expr sweep translate hse; do g++ $F -c "$D/$f.cc" -o "$O/$f.o" & P="$P $!"; done
for p in $P; do wait $p; done
g++ "$O/expr.o" "$O/sweep.o" "$O/translate.o" "$O/hse.o" -o "$O/hse" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib -pthread
