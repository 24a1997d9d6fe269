#!/bin/bash
# compile.sh <src.cpp> <out.bc> [extra flags]: /repo's current header + a contract file -> LLVM IR for irv
set -e
src="$1"; out="$2"; shift 2
REPO="${VP_REPO:-/repo}"
here="$(cd "$(dirname "$0")" && pwd)"
SAN=signed-integer-overflow,shift,return,unreachable,bounds,null,alignment,bool,pointer-overflow,integer-divide-by-zero
clang++-18 -std=c++20 -I"$REPO" -I"$here" -O1 -Xclang -disable-llvm-passes -fno-exceptions -gline-tables-only -D_GLIBCXX_EXTERN_TEMPLATE=0 \
  -DVP_VERIFY=1 -fno-strict-aliasing -fsanitize=$SAN -fsanitize-trap=all -w "$@" -S -emit-llvm -o "$out.raw.ll" "$src"
case " $* " in *" -DVP_SYMBOLIC_PARAMETERS "*)
  # template parameter objects may be made symbolic: their values are not folded into the code
  sed -i -E '/^@"?_ZTAX/s/ constant / global /' "$out.raw.ll";;
esac
opt-18 -passes='always-inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),cgscc(inline),function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),globaldce' "$out.raw.ll" -o "$out"
rm -f "$out.raw.ll"
