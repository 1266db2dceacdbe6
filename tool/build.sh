#!/bin/bash
# Builds the AST/CFG fact extractor against the installed LLVM/Clang 18 libraries.
set -e
cd "$(dirname "$0")"
mkdir -p ../build
if [ ../build/qfacts -nt qfacts.cpp ]; then exit 0; fi
clang++ -std=c++17 -O1 -fno-rtti -fno-exceptions -w $(llvm-config-18 --cxxflags | tr ' ' '\n' | grep -E '^-(I|D)') qfacts.cpp -o ../build/qfacts.tmp \
  -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv ../build/qfacts.tmp ../build/qfacts
