#!/bin/bash
# builds the executor into ${1:-/verif/.build}
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../.build}; mkdir -p "$O"
for f in expr interp; do
  g++ -std=c++17 -O2 -g1 $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//') -fexceptions -I"$D" -c "$D/$f.cpp" -o "$O/$f.o.$$" & 
done
wait
for f in expr interp; do test -s "$O/$f.o.$$"; done
g++ -o "$O/sodasym.$$" "$O/expr.o.$$" "$O/interp.o.$$" $(llvm-config-18 --ldflags --libs core irreader bitreader support demangle) -lz3 -lpthread
mv "$O/sodasym.$$" "$O/sodasym"; rm -f "$O/expr.o.$$" "$O/interp.o.$$"
