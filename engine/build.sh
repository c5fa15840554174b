#!/bin/bash
# builds the engine into $1
set -e
cd "$(dirname "$0")"; O=$1; mkdir -p "$O"
ZI=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
for f in expr ir exec real; do g++ -std=c++17 -O2 -g1 -c $f.cpp -I$ZI/include -o "$O/$f.o" & done
for j in $(jobs -p); do wait $j; done
g++ "$O"/{expr,ir,exec,real}.o -L$ZI/lib -lz3 -Wl,-rpath,$ZI/lib -o "$O/vsym.tmp"; mv "$O/vsym.tmp" "$O/vsym"
