#!/bin/bash
# builds the AST exporter (offline, installed clang 18 libraries only)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}; mkdir -p "$out"
if [ -x "$out/efsw-export" ] && [ "$out/efsw-export" -nt "$here/export.cpp" ]; then exit 0; fi
clang++-18 -std=c++17 -O1 -fno-rtti -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') \
  "$here/export.cpp" -o "$out/efsw-export.tmp" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$out/efsw-export.tmp" "$out/efsw-export"
