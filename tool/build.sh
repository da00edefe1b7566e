#!/bin/bash
# builds the extractor into $1
set -e
d=$(cd "$(dirname "$0")" && pwd)
exec g++ -O1 -fno-rtti -std=c++17 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$d/cpx.cpp" -o "$1" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
