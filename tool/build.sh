#!/bin/sh
# builds the extractor into /verif/.build (git-ignored)
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../.build}; mkdir -p "$out"
L=/usr/lib/llvm-18
clang++ -O1 -std=c++17 -fno-rtti -I$L/include "$here/extract.cpp" -o "$out/extract.tmp.$$" $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM.so.18.1 -Wl,-rpath,$L/lib -Wno-deprecated-declarations
mv "$out/extract.tmp.$$" "$out/extract"
