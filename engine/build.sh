#!/bin/bash
# Builds the symbolic executor into $1
set -e
cd "$(dirname "$0")"
mkdir -p "$(dirname "$1")"
clang++ -O2 -std=c++17 -w -I. -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 $(/usr/lib/llvm-18/bin/llvm-config --cxxflags | sed 's/-fno-exceptions//') -fexceptions symx.cc -o "$1.tmp.$$" $(/usr/lib/llvm-18/bin/llvm-config --ldflags) -lLLVM-18 -lz3
mv "$1.tmp.$$" "$1"
