#!/bin/bash
# builds the engine into $1 (default /verif/build)
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out"
LC=$(command -v llvm-config-18 || echo /usr/lib/llvm-18/bin/llvm-config)
FL="$($LC --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//; s/-DNDEBUG//') -std=c++17 -O2 -fexceptions -w"
new="$out/lfbmc.$$"
g++ $FL -c "$here/exec.cpp" -o "$out/exec.$$.o" & a=$!
g++ $FL -c "$here/main.cpp" -o "$out/main.$$.o" & b=$!
wait $a; wait $b
g++ -o "$new" "$out/exec.$$.o" "$out/main.$$.o" $($LC --ldflags) -lLLVM-18 -lminisat -lz -lpthread
rm -f "$out/exec.$$.o" "$out/main.$$.o"
mv -f "$new" "$out/lfbmc"
