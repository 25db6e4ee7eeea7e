#!/bin/bash
# compile.sh SRC.cpp OUT.bc [flags]: harness + /repo headers -> bitcode for the engine
set -e
src=$1; out=$2; shift 2
L=/usr/lib/llvm-18/bin
[ -x $L/opt ] || L=$(dirname "$(command -v opt)")
clang++ -std=gnu++17 -O1 -g1 -fno-vectorize -fno-slp-vectorize -Xclang -disable-llvm-passes -fno-discard-value-names -ftrivial-auto-var-init=pattern -fno-delete-null-pointer-checks -emit-llvm -c -I${REPO:-/repo}/include -I"$(dirname "$0")/../harness" "$@" "$src" -o "$out.tmp"
$L/opt -passes='function(sroa,simplifycfg),cgscc(inline<only-mandatory>,inline),function(sroa,early-cse,instsimplify,simplifycfg,dce),globaldce,function(loop-simplify,lcssa)' "$out.tmp" -o "$out"
rm -f "$out.tmp"
