#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build}; mkdir -p "$O/obj"
for f in expr solver engine; do
  g++ -std=c++17 -O2 -g0 -Wno-attributes -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c "$D/$f.cpp" -o "$O/obj/$f.o" &
done
wait
g++ -o "$O/vfengine.tmp" "$O/obj/expr.o" "$O/obj/solver.o" "$O/obj/engine.o" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$O/vfengine.tmp" "$O/vfengine"
