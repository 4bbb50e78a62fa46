#!/bin/bash
# Builds the symbolic executor into /verif/build/sx (offline).
cd "$(dirname "$0")" || exit 1
mkdir -p build
h=$(cat engine/*.h engine/*.cpp | sha256sum | cut -c1-16)
if [ -x build/sx ] && [ "$(cat build/sx.hash 2>/dev/null)" = "$h" ]; then exit 0; fi
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
t=build/sx.$$.tmp
clang++-18 -O2 -std=c++17 -fexceptions -w -I$Z/include -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 engine/sx.cpp -o $t -L/usr/lib/llvm-18/lib -lLLVM-18 $Z/lib/libz3.so -Wl,-rpath,$Z/lib -lpthread || exit 1
mv -f $t build/sx && echo $h > build/sx.hash
