#!/bin/bash
# builds the extractor against the installed clang 18 libraries
set -e
cd "$(dirname "$0")"
mkdir -p ../build
if [ ! -x ../build/cxx2ir ] || [ cxx2ir.cpp -nt ../build/cxx2ir ]; then
  g++ -O1 -std=c++17 -fno-rtti -w $(/usr/lib/llvm-18/bin/llvm-config --cxxflags | sed 's/-std=[^ ]*//') cxx2ir.cpp -o ../build/cxx2ir.tmp -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
  mv ../build/cxx2ir.tmp ../build/cxx2ir
fi
