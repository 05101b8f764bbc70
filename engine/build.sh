#!/bin/bash
# builds the engine: build.sh OUTDIR
set -e
d=$(cd "$(dirname "$0")" && pwd); o=${1:?}; mkdir -p "$o"
clang++-18 -std=c++17 -O2 -w -fno-rtti -fno-strict-aliasing -I/usr/lib/llvm-18/include "$d/expr.cpp" "$d/interp.cpp" -o "$o/symx.tmp.$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -ldl -lpthread -lm
mv "$o/symx.tmp.$$" "$o/symx"
