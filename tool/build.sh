#!/bin/bash
# builds the typed-AST extractor into $1
set -e
D=$(cd "$(dirname "$0")" && pwd)
O=${1:?output}
L=$(ls /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18 /usr/lib/llvm-18/lib/libclang-cpp.so.18* 2>/dev/null | head -1)
clang++ -std=c++17 -O0 -fno-rtti -w -I/usr/lib/llvm-18/include "$D/astdump.cpp" -o "$O.tmp.$$" "$L" -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$O.tmp.$$" "$O"
