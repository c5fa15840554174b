#!/bin/bash
# ir.sh SRC OUT.ll : clang IR of one source for the engine
set -e
clang++ -std=c++14 -O1 -w -g1 -Xclang -disable-llvm-passes -fno-delete-null-pointer-checks -ffp-contract=off -fno-vectorize -fno-slp-vectorize -DVS_ENGINE -S -emit-llvm -I"${REPO:-/repo}" -I"$(dirname "$0")" "$1" -o "$2.raw"
opt-18 -S -passes='function(lower-constant-intrinsics),always-inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)' "$2.raw" -o "$2"
rm -f "$2.raw"
