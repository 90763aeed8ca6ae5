#!/bin/bash
# builds the verifier into $1 (a directory)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-/verif/build/engine}; mkdir -p "$O"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -std=c++17 -O2 -w -fno-rtti -I/usr/lib/llvm-18/include -I$Z/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$D/dvc.cpp" -o "$O/dvc.tmp$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib:/usr/lib/llvm-18/lib
mv "$O/dvc.tmp$$" "$O/dvc"
