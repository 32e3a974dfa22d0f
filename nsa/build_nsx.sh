#!/bin/bash
# builds the fact extractor (clang 18 libTooling) next to its source
set -e
cd "$(dirname "$0")"
out="${1:-./nsx}"
clang++-18 -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include nsx.cpp -o "$out.tmp.$$" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$out.tmp.$$" "$out"
