#!/bin/bash
# builds the analysis engines into /verif/build (git-ignored); usage: build.sh [name...]
set -e
cd "$(dirname "$0")"
mkdir -p ../build
for n in ${@:-absint}; do
  clang++-18 -std=c++17 -O2 $(/usr/lib/llvm-18/bin/llvm-config --cxxflags) -fexceptions -frtti $n.cpp -o ../build/$n.tmp.$$ $(/usr/lib/llvm-18/bin/llvm-config --ldflags) -lLLVM-18 $(grep -q clang-c $n.cpp && echo -L/usr/lib/llvm-18/lib -l:libclang-18.so.1 -Wl,-rpath,/usr/lib/llvm-18/lib)
  mv ../build/$n.tmp.$$ ../build/$n
done
