#!/bin/bash
# mkir.sh OUTDIR [extra passes]: compile /repo's current sources and the witness unit to IR and export it
set -e
D=$1; mkdir -p $D; cd "$(dirname "$0")"
REPO=${VERIF_REPO:-/repo}
cc() { /usr/bin/clang++-18 -std=gnu++11 -I$REPO/include "${@:2}" -g -O1 -Xclang -disable-llvm-passes -emit-llvm -c $1 -o $D/$(basename $1).bc; }
unit() {
  cc $1 2> $D/$(basename $1).err && return 0
  # g++ accepts "BNIntType op integer" where clang calls it ambiguous: resolve it as g++ does (wit/shim.h)
  grep -q 'is ambiguous' $D/$(basename $1).err && cc $1 -include wit/shim.h 2> $D/$(basename $1).err2 && return 0
  cat $D/$(basename $1).err* >&2; return 1
}
for f in $REPO/src/*.cpp wit/use.cpp; do unit $f & done
for j in $(jobs -p); do wait $j; done
build/irdump $D/prog.json 'always-inline,always-inline,always-inline,function(sroa,mem2reg)' $D/*.bc
