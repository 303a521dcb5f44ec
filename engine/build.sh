#!/bin/bash
# builds junosym into $1
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=$1
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -std=c++17 -O2 -fno-strict-aliasing $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -fexceptions -w -I$Z/include "$D/junosym.cpp" -o "$OUT" \
  -L$Z/lib -Wl,-rpath,$Z/lib -lz3 $(llvm-config-18 --ldflags) -lLLVM-18
