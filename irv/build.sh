#!/bin/bash
# Builds irv (the verifier) into $1 (default /verif/build). Offline; needs llvm-18 and z3 headers/libraries.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build}"
mkdir -p "$out"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
FL="-std=c++17 -O2 -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -I$Z3/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -fno-rtti"
pids=()
for f in term solver exec loops main; do
  if [ ! -f "$out/$f.o" ] || [ -n "$(find "$here" -name '*.cpp' -newer "$out/$f.o" -path "*/$f.cpp")" ] || [ -n "$(find "$here" -name '*.h' -newer "$out/$f.o")" ]; then
    g++ $FL -c "$here/$f.cpp" -o "$out/$f.o.tmp" && mv "$out/$f.o.tmp" "$out/$f.o" &
    pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait $p; done
if [ ! -x "$out/irv" ] || [ -n "$(find "$out" -name '*.o' -newer "$out/irv")" ]; then
  g++ "$out"/{term,solver,exec,loops,main}.o -o "$out/irv.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z3/lib -lz3 -Wl,-rpath,$Z3/lib -Wl,-rpath,/usr/lib/llvm-18/lib
  mv "$out/irv.tmp" "$out/irv"
fi
