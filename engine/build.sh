#!/bin/bash
# Builds the symbolic executor into /verif/build (skipped when up to date).
set -e
cd "$(dirname "$0")"; B=../build; mkdir -p $B
sum=$(cat vse.cpp expr.h build.sh | sha256sum | cut -c1-16)
[ -x $B/vse ] && [ "$(cat $B/vse.sum 2>/dev/null)" = "$sum" ] && exit 0
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -e $Z/lib/libz3.so ] && [ -e $Z/include/z3.h ]; then ZI="-I$Z/include"; ZL="$Z/lib/libz3.so -Wl,-rpath,$Z/lib"; else ZI=; ZL=-lz3; fi
L=/usr/lib/llvm-18
T=$(mktemp $B/vse.XXXXXX)
g++ -O2 -std=c++17 -w -fno-rtti -fno-exceptions $ZI $($L/bin/llvm-config --cppflags) vse.cpp -o $T -L$L/lib -lLLVM-18 $ZL
chmod +x $T; mv $T $B/vse; echo $sum > $B/vse.sum
