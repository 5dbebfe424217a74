#!/bin/bash
# mkwrap.sh OUTDIR: compile and optimise the wrapper witness unit
set -e
D=$1; mkdir -p $D; cd "$(dirname "$0")"
REPO=${VERIF_REPO:-/repo}
# extern templates would hide the bodies
/usr/bin/clang++-18 -std=gnu++11 -I$REPO/include -g -O2 -Xclang -disable-llvm-passes -emit-llvm -c wit/wrap.cpp -o $D/wrap.bc
build/irdump $D/wrap.json 'default<O2>' $D/wrap.bc
